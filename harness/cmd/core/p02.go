package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P02",
		Rule:  "A case is a configuration, a run of at least as many words as the sequence length, and two documents that contain it at drawn positions (start, middle, end, whole document) under different separators and letter case, among other generated documents and possibly in different sessions; or a document of up to 500 KB and small ones of runs of its words around powers of two of its bytes or words and elsewhere. The oracle knows nothing of hashing: some blot of one document must be a blot of the other, the lookup of that blot must list both, and the whole-index extraction must report a blot with both. Non-trivial: the two documents are not identical byte for byte.",
		Quick: 40, Thorough: 600,
		Fn: p02,
	})
}

// p02long has a long document and small ones of runs of its words, which
// stand around places where a reader of pieces would cut.
func p02long(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 3, Many: true})
	seed := c.Seed("long")
	r := rand.New(rand.NewSource(seed))
	dat := model.LongText(r, model.LongSize(r))
	ws := model.Words(dat)
	S := s.S()
	long := model.DocSpec{Path: "/long", Dat: dat, End: uint32(len(dat))}
	c.Describe("%s long document of %d bytes (seed %d): %q...", s, len(dat), seed, dat[:100])
	var docs []model.DocSpec
	var runs [][2]int
	cut := func(at int) {
		// the word at or after at, somewhere in a run
		i := sort.Search(len(ws), func(i int) bool { return ws[i].End > at })
		a := i - r.Intn(S)
		if a+S > len(ws) {
			a = len(ws) - S
		}
		if a < 0 {
			a = 0
		}
		if a+S > len(ws) || len(ws[a].Text) > 1<<16 {
			return
		}
		runs = append(runs, [2]int{a, a + S})
		v := make(model.Vocab, S)
		var all []int
		for k := range v {
			v[k] = ws[a+k].Text
			all = append(all, k)
		}
		d := model.Render(r, v, all, r.Intn(3))
		docs = append(docs, model.DocSpec{Path: fmt.Sprintf("/run/%d", len(docs)), Dat: d, End: uint32(len(d))})
	}
	cut(0)
	cut(len(dat))
	for k := 512; k < len(dat); k *= 2 {
		cut(k - 1)
		cut(k)
	}
	for k := 512; k < len(ws); k *= 2 {
		cut(ws[k-1].Start)
		cut(ws[k].Start)
	}
	for k := 0; k < 10; k++ {
		cut(1 << 16 * (1 + r.Intn(len(dat)>>16+1)))
		cut(r.Intn(len(dat)))
	}
	at := r.Intn(len(docs) + 1)
	docs = append(docs[:at:at], append([]model.DocSpec{long}, docs[at:]...)...)
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, docs)
	idx := model.Open(c, root)
	defer idx.Close()
	q := idx.StartQuery(dupi.QueryMaxBlot)
	miss := map[string]bool{}
	for i := range docs {
		d := &docs[i]
		if d.Path == "/long" {
			continue
		}
		ok := false
		for _, b := range idx.BlotDoc(nil, d.Doc()) {
			bl := dupi.Blot{Blot: b}
			c.NoErr(q.Get(&bl), "lookup of blot %x", b)
			long, run := false, false
			for k := range bl.Docs {
				long = long || bl.Docs[k].Path == "/long"
				run = run || bl.Docs[k].Path == d.Path
			}
			ok = ok || long && run
		}
		if !ok {
			c.Fatalf("the long document contains the %d words %.200q (sequence length %d), but no blot of them is listed for both", S, d.Dat, S)
		}
		miss[d.Path] = true
	}
	for {
		dst := make([]dupi.Blot, 30)
		m, err := q.Next(dst)
		for k := range dst[:m] {
			long := false
			for j := range dst[k].Docs {
				long = long || dst[k].Docs[j].Path == "/long"
			}
			for j := range dst[k].Docs {
				if long {
					delete(miss, dst[k].Docs[j].Path)
				}
			}
		}
		if model.IsEOF(err) {
			break
		}
		c.NoErr(err, "extraction")
	}
	if len(miss) > 0 {
		c.Fatalf("the extraction reports no blot with both the long document and %v", miss)
	}
	c.NonTrivial(true)
	c.Class("long document", true)
}

func p02(c *fw.C) {
	if c.Rare("long document", 10) {
		p02long(c)
		return
	}
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 2})
	if c.Chance("default window", 4) {
		s.B, s.I = 10, 1
	}
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MaxDocs: 6})
	S := s.S()
	n := S
	if c.Bool("longer run") {
		n += c.Int("extra words", 1, 12)
	}
	v := cp.Vocab
	words := func(n int, name string) []int {
		r := model.Rand(c, name)
		ws := make([]int, n)
		for i := range ws {
			ws[i] = r.Intn(len(v))
		}
		return ws
	}
	run := words(n, "run")
	var pair [2]model.DocSpec
	for k := range pair {
		var pre, suf []int
		switch c.Int("place", 0, 3) {
		case 0:
			suf = words(c.Int("after", 1, 20), "suf")
			c.Class("run at the start", true)
		case 1:
			pre = words(c.Int("before", 1, 20), "pre")
			c.Class("run at the end", true)
		case 2:
			pre = words(c.Int("before", 1, 20), "pre")
			suf = words(c.Int("after", 1, 20), "suf")
			c.Class("run in the middle", true)
		case 3:
			c.Class("run is the document", true)
		}
		all := append(append(append([]int{}, pre...), run...), suf...)
		dat := model.Render(model.Rand(c, "render"), v, all, c.Int("style", 0, 2))
		pair[k] = model.DocSpec{Path: fmt.Sprintf("/pair/%d", k), Dat: dat, End: uint32(len(dat))}
	}
	// place the pair among the others
	docs := append([]model.DocSpec{}, cp.Docs...)
	i := c.Int("first at", 0, len(docs))
	docs = append(docs[:i:i], append([]model.DocSpec{pair[0]}, docs[i:]...)...)
	j := c.Int("second at", i+1, len(docs))
	docs = append(docs[:j:j], append([]model.DocSpec{pair[1]}, docs[j:]...)...)
	var sessions []int
	if c.Chance("two sessions", 3) {
		sessions = []int{c.Int("split", i+1, j)}
		c.Class("pair in two sessions", true)
	}
	c.Describe("%s sessions=%v pair %q / %q, others:%s", s, sessions, pair[0].Dat, pair[1].Dat, cp)
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, docs, sessions...)
	idx := model.Open(c, root)
	defer idx.Close()

	has := func(b *dupi.Blot, path string) bool {
		for k := range b.Docs {
			if b.Docs[k].Path == path {
				return true
			}
		}
		return false
	}
	// blots of one that lead to both
	for k := range pair {
		q := idx.StartQuery(dupi.QueryMaxBlot)
		ok := false
		for _, b := range idx.BlotDoc(nil, pair[k].Doc()) {
			bl := dupi.Blot{Blot: b}
			c.NoErr(q.Get(&bl), "lookup of blot %x", b)
			if has(&bl, "/pair/0") && has(&bl, "/pair/1") {
				ok = true
				break
			}
		}
		if !ok {
			c.Fatalf("the documents share a run of %d words (sequence length %d) but no blot of document %d is listed for both", n, S, k)
		}
	}
	q := idx.StartQuery(dupi.QueryMaxBlot)
	ok := false
	for !ok {
		dst := make([]dupi.Blot, 3)
		m, err := q.Next(dst)
		for k := range dst[:m] {
			if has(&dst[k], "/pair/0") && has(&dst[k], "/pair/1") {
				ok = true
			}
		}
		if model.IsEOF(err) {
			break
		}
		c.NoErr(err, "extraction")
		if m == 0 {
			c.Fatalf("Next returned no blot and no error")
		}
	}
	if !ok {
		c.Fatalf("the documents share a run of %d words (sequence length %d) but the extraction reports no blot with both", n, S)
	}
	c.NonTrivial(string(pair[0].Dat) != string(pair[1].Dat))
	c.Class("run of exactly the sequence length", n == S)
	c.Class("interleaved", s.I > 1)
}
