package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/post"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P29",
		Rule:  "A case is an index with a drawn number of shards over generated documents, on which all in-range (shard, value) pairs are joined and split (exhaustively per index), and drawn 32-bit blots (random, and within 3 of multiples of the shard count, of 65536 and of the range) are split, joined and looked up in both forms; plus drawn (document id, blot) pairs packed and unpacked. Evaluations count single blots and pairs drawn. Non-trivial: the blot is outside the index's range (so it is really reduced), or the pair has a component above 2^16. Rarely the index has 64 to 300 shards; it is then stored by the writer of P35.",
		Quick: 12, Thorough: 60,
		Fn: p29,
	})
}

func p29(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 2, MaxShatters: 2})
	s.Shards = c.Pick("nshards", 1, 2, 3, 4, 5, 7)
	if c.Thorough() && c.Chance("many", 12) {
		s.Shards = c.Int("manyshards", 8, 17)
	}
	if c.Rare("hundreds", 12) {
		s.Shards = c.Pick("shard number", 64, 255, 256, 257, 300)
		s.Stored = true
		c.Class("64 to 300 shards", true)
	}
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 2, MaxDocs: 8})
	ref := cp.Ref(s.Shape)
	c.Describe("%s:%s", s, cp)
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, cp.Docs)
	idx := model.Open(c, root)
	defer idx.Close()
	n := uint32(s.Shards)
	R := s.Range()
	// every pair
	seen := make([]bool, R)
	for sh := uint32(0); sh < n; sh++ {
		for v := 0; v < 1<<16; v++ {
			b := idx.JoinBlot(sh, uint16(v))
			if b >= R {
				c.Fatalf("%d shards: pair (%d,%x) joins to %x outside the range %x", n, sh, v, b, R)
			}
			if seen[b] {
				c.Fatalf("%d shards: pair (%d,%x) joins to %x as another pair does", n, sh, v, b)
			}
			seen[b] = true
			if s2, v2 := idx.SplitBlot(b); s2 != sh || v2 != uint16(v) {
				c.Fatalf("%d shards: pair (%d,%x) joins to %x, which splits into (%d,%x)", n, sh, v, b, s2, v2)
			}
		}
	}
	q := idx.StartQuery(dupi.QueryMaxBlot)
	var blots []uint32
	blots = append(blots, model.Extra(c, 300)...)
	r := model.Rand(c, "near")
	for k := 0; k < 300; k++ {
		var m uint64
		switch k % 3 {
		case 0:
			m = uint64(n)
		case 1:
			m = 1 << 16
		default:
			m = uint64(R)
		}
		x := uint64(r.Uint32()) / m * m
		blots = append(blots, uint32(int64(x)+int64(r.Intn(7))-3))
	}
	// present blots, with multiples of the range added
	present := ref.Blots(1)
	for k := 0; k < 300 && len(present) > 0; k++ {
		b := uint64(present[r.Intn(len(present))])
		room := (uint64(1)<<32 - 1 - b) / uint64(R)
		blots = append(blots, uint32(b+uint64(R)*(uint64(r.Int63())%(room+1))))
	}
	for _, b := range blots {
		sh, v := idx.SplitBlot(b)
		if sh >= n {
			c.Fatalf("%d shards: blot %x splits to shard %d", n, b, sh)
		}
		if j := idx.JoinBlot(sh, v); j != b%R {
			c.Fatalf("%d shards: blot %x splits to (%d,%x) which joins to %x, want %x", n, b, sh, v, j, b%R)
		}
		if err := ref.CheckLookup(q, b); err != nil {
			c.Fatalf("%d shards: %v", n, err)
		}
		if err := ref.CheckLookup(q, b%R); err != nil {
			c.Fatalf("%d shards: %v", n, err)
		}
		c.SubEval(string([]byte{byte(n), byte(b >> 24), byte(b >> 16), byte(b >> 8), byte(b)}), b >= R)
	}
	if !s.Stored && c.Chance("many shards", 8) {
		p29many(c, root)
	}
	// every blot the extraction labels joins back
	for k := 0; k < 200; k++ {
		d, b := r.Uint32(), r.Uint32()
		if k%4 == 0 {
			d = uint32(1) << (r.Intn(32))
		}
		if k%5 == 0 {
			b = ^uint32(0) >> r.Intn(32)
		}
		p := post.Make(d, b)
		d2, b2 := p.Split()
		if d2 != d || b2 != b || p.Docid() != d || p.Blot() != b {
			c.Fatalf("posting (%d,%x) unpacks to (%d,%x) / (%d,%x)", d, b, d2, b2, p.Docid(), p.Blot())
		}
		c.SubEval(string([]byte{'p', byte(d >> 24), byte(d >> 16), byte(d >> 8), byte(d), byte(b >> 24), byte(b >> 16), byte(b >> 8), byte(b)}), d >= 1<<16 || b >= 1<<16)
	}
	c.Class("shards not a power of two", n&(n-1) != 0)
}

// p29many examines the arithmetic of an index of many shards. It is made of the
// files of another one, since creating one takes much memory, and so nothing is
// claimed about what it lists.
func p29many(c *fw.C, from string) {
	n := c.Pick("many", 255, 256, 257, 300, 100, 64, 129, 17)
	root := filepath.Join(c.Dir(), "many")
	model.CopyTree(from, root)
	cfg, err := dupi.ReadConfigFromRoot(root)
	c.NoErr(err, "reading the configuration")
	cfg.NumShards = n
	c.NoErr(cfg.Write(), "writing the configuration of %d shards", n)
	es, err := os.ReadDir(root)
	if err != nil {
		fw.Broken("%v", err)
	}
	for _, e := range es {
		if !strings.HasPrefix(e.Name(), "b0.") {
			continue
		}
		for i := 1; i < n; i++ {
			to := filepath.Join(root, fmt.Sprintf("b%d.%s", i, e.Name()[3:]))
			os.Remove(to)
			if err := os.Link(filepath.Join(root, e.Name()), to); err != nil {
				fw.Broken("%v", err)
			}
		}
	}
	idx, err := dupi.OpenIndex(root)
	if err != nil || idx.NumShards() != n {
		c.Class("no index of many shards", true)
		return
	}
	defer idx.Close()
	c.Class("index of many shards", true)
	R := uint32(n) << 16
	r := model.Rand(c, "pairs")
	for k := 0; k < 20000; k++ {
		sh, v := uint32(r.Intn(n)), uint16(r.Uint32())
		if k%4 == 0 {
			sh = uint32(n - 1 - k/4%n)
		}
		if k%7 == 0 {
			v = uint16(k / 7 % 3)
			v--
		}
		b := idx.JoinBlot(sh, v)
		if b >= R {
			c.Fatalf("%d shards: pair (%d,%x) joins to %x outside the range %x", n, sh, v, b, R)
		}
		if s2, v2 := idx.SplitBlot(b); s2 != sh || v2 != v {
			c.Fatalf("%d shards: pair (%d,%x) joins to %x, which splits into (%d,%x)", n, sh, v, b, s2, v2)
		}
		b = r.Uint32()
		sh, v = idx.SplitBlot(b)
		if sh >= uint32(n) {
			c.Fatalf("%d shards: blot %x splits to shard %d", n, b, sh)
		}
		if j := idx.JoinBlot(sh, v); j != b%R {
			c.Fatalf("%d shards: blot %x splits to (%d,%x) which joins to %x, want %x", n, b, sh, v, j, b%R)
		}
	}
	c.SubEval("many", true)
}
