package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P20",
		Rule:  "A case is one index of generated documents kept in files (some with lists of several storage blocks) and 60 damaged variants of it. Half of them have one file (sometimes two) cut at a drawn point, with preference for boundaries of records: every lookup and extraction, and the statistics unless records of documents are missing, must then give an error or exactly what the reference says. The others have bytes changed, inserted, removed, moved or repeated, or a field (count, length, parent, document number, head, link, block length) replaced by an extreme or misleading value, in the path, document, posting or posting index file: opening, every lookup, extraction, locating, statistics and, for some, appending must end without a crash. Evaluations count variants. Non-trivial: the variant could be opened, or failed at a place that depends on the damage.",
		Quick: 12, Thorough: 350, HangSec: 60,
		Fn: p20,
	})
}

// damage changes bytes at drawn places.
func damage(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + r.Intn(4)*r.Intn(2); n > 0; n-- {
		if len(b) == 0 {
			return append(b, byte(r.Intn(256)))
		}
		at := r.Intn(len(b))
		end := at + 1 + r.Intn(16)
		if r.Intn(4) == 0 {
			end = at + 1 + r.Intn(600)
		}
		if end > len(b) {
			end = len(b)
		}
		switch r.Intn(9) {
		case 0:
			b[at] ^= 1 << r.Intn(8)
		case 1:
			b[at] = []byte{0, 1, 2, 0x7f, 0x80, 0xff, 0xfe, 0x81}[r.Intn(8)]
		case 2:
			b[at] = byte(r.Intn(256))
		case 3:
			for i := at; i < end; i++ {
				b[i] = []byte{0, 0xff, 0x80}[r.Intn(3)]
			}
		case 4:
			b = append(b[:at:at], b[end:]...)
		case 5:
			b = append(b[:end:end], b[at:]...)
		case 6:
			ins := make([]byte, 1+r.Intn(12))
			r.Read(ins)
			b = append(b[:at:at], append(ins, b[at:]...)...)
		case 7:
			from := r.Intn(len(b))
			copy(b[at:end], b[from:])
		case 8:
			// an integer in one of the ways the files store them
			b = putField(r, b, at, extreme(r, len(b)))
		}
	}
	return b
}

func extreme(r *rand.Rand, n int) int64 {
	return []int64{-1, 0, 1, 2, 7, 8, 9, -2, 511, 512, 530, 531, 600, int64(n), int64(n) - 1, int64(n) + 1, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1<<62 + 1, -1 << 63, 1<<63 - 1, int64(r.Intn(n + 1)), int64(r.Intn(n + 1)), -int64(r.Intn(n + 1))}[r.Intn(29)]
}

func putField(r *rand.Rand, b []byte, at int, v int64) []byte {
	var f [10]byte
	var e []byte
	switch r.Intn(4) {
	case 0:
		e = f[:binary.PutVarint(f[:], v)]
	case 1:
		e = f[:binary.PutUvarint(f[:], uint64(v))]
	case 2:
		binary.BigEndian.PutUint64(f[:8], uint64(v))
		e = f[:8]
	case 3:
		binary.BigEndian.PutUint32(f[:4], uint32(v))
		e = f[:4]
	}
	if r.Intn(2) == 0 && at+len(e) <= len(b) {
		copy(b[at:], e)
		return b
	}
	end := at + 1
	for end < len(b) && end < at+len(e) && b[end-1] >= 0x80 {
		end++
	}
	return append(b[:at:at], append(append([]byte{}, e...), b[end:]...)...)
}

// damageIix changes heads, counts or last numbers of drawn entries, keeping
// the file well formed.
func damageIix(r *rand.Rand, b []byte, posLen int, heads []int64) []byte {
	var out []byte
	rd := bytes.NewReader(b)
	p := 1 + r.Intn(3)
	for i := 0; i < 1<<16; i++ {
		hd, err := binary.ReadVarint(rd)
		if err != nil {
			return damage(r, b)
		}
		ct, err := binary.ReadVarint(rd)
		if err != nil {
			return damage(r, b)
		}
		var cur [4]byte
		rd.Read(cur[:])
		if hd != -1 && r.Intn(p) == 0 || r.Intn(20000) == 0 {
			switch r.Intn(6) {
			case 0:
				hd = extreme(r, posLen)
			case 1:
				hd = heads[r.Intn(len(heads))]
			case 2:
				hd = int64(r.Intn(posLen + 1))
			case 3:
				hd = -1
			case 4:
				ct = int64(r.Intn(5))
			case 5:
				r.Read(cur[:])
			}
		}
		out = binary.AppendVarint(out, hd)
		out = binary.AppendVarint(out, ct)
		out = append(out, cur[:]...)
	}
	return out
}

// blocks lists the offsets of the storage blocks of a posting file.
func blocks(b []byte) (starts, links []int) {
	for at := 0; at < len(b); {
		v, n := binary.Varint(b[at:])
		if n <= 0 || v <= 8 || at+n+int(v) > len(b) {
			return
		}
		starts = append(starts, at)
		at += n + int(v)
		links = append(links, at-8)
	}
	return
}

func damagePos(r *rand.Rand, b []byte) []byte {
	starts, links := blocks(b)
	if len(starts) == 0 || r.Intn(3) == 0 {
		return damage(r, b)
	}
	b = append([]byte{}, b...)
	for n := 1 + r.Intn(4); n > 0; n-- {
		k := r.Intn(len(starts))
		switch r.Intn(5) {
		case 0, 1: // a link to another block, its own included
			binary.BigEndian.PutUint64(b[links[k]:], uint64(starts[r.Intn(len(starts))]))
		case 2:
			binary.BigEndian.PutUint64(b[links[k]:], uint64(extreme(r, len(b))))
		case 3: // a block length
			var f [10]byte
			e := f[:binary.PutVarint(f[:], extreme(r, len(b)))]
			copy(b[starts[k]:], e)
		case 4: // document numbers
			if links[k] > starts[k]+2 {
				b[starts[k]+2+r.Intn(links[k]-starts[k]-2)] = []byte{0, 1, 0x7f, 0x80, 0xff}[r.Intn(5)]
			}
		}
	}
	return b
}

// nameEnds lists where the entries of a path table end.
func nameEnds(b []byte) []int {
	rd := bytes.NewReader(b)
	binary.ReadUvarint(rd)
	ends := []int{len(b) - rd.Len()}
	for rd.Len() > 0 {
		l, err := binary.ReadUvarint(rd)
		if err != nil || l > uint64(rd.Len()) {
			break
		}
		rd.Seek(int64(l), 1)
		if _, err := binary.ReadUvarint(rd); err != nil {
			break
		}
		if rd.Len() > 0 {
			ends = append(ends, len(b)-rd.Len())
		}
	}
	return ends
}

func damageFnm(r *rand.Rand, b []byte) []byte {
	if r.Intn(3) == 0 {
		return damage(r, b)
	}
	rd := bytes.NewReader(b)
	n, err := binary.ReadUvarint(rd)
	if err != nil {
		return damage(r, b)
	}
	type entry struct {
		name   []byte
		parent uint64
	}
	var es []entry
	for i := uint64(0); i < n; i++ {
		l, _ := binary.ReadUvarint(rd)
		name := make([]byte, l)
		rd.Read(name)
		p, _ := binary.ReadUvarint(rd)
		es = append(es, entry{name, p})
	}
	big := []uint64{1 << 20, 1 << 27, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1 << 63, 0}
	count, lenAt, lenV := n, -1, uint64(0)
	switch r.Intn(4) {
	case 0:
		count = []uint64{0, n - 1, n + 1, 2 * n, big[r.Intn(7)]}[r.Intn(5)]
	case 1:
		lenAt, lenV = r.Intn(len(es)), big[r.Intn(7)]
	default:
		for k := 1 + r.Intn(3); k > 0; k-- {
			i := r.Intn(len(es))
			if r.Intn(4) == 0 {
				i = 0
			}
			es[i].parent = []uint64{uint64(i), uint64(r.Intn(len(es))), n - 1, n, n + 1, 1 << 31, 1<<32 - 1, 1 << 40}[r.Intn(8)]
		}
	}
	out := binary.AppendUvarint(nil, count)
	for i, e := range es {
		l := uint64(len(e.name))
		if i == lenAt {
			l = lenV
		}
		out = binary.AppendUvarint(out, l)
		out = append(out, e.name...)
		out = binary.AppendUvarint(out, e.parent)
	}
	return out
}

func damageDmd(r *rand.Rand, b []byte) []byte {
	if r.Intn(3) == 0 || len(b) < 24 {
		return damage(r, b)
	}
	b = append([]byte{}, b...)
	for n := 1 + r.Intn(6); n > 0; n-- {
		at := r.Intn(len(b)/4) * 4
		binary.BigEndian.PutUint32(b[at:], uint32(extreme(r, len(b)/12)))
	}
	return b
}

func p20(c *fw.C) {
	base := c.Dir()
	must := func(err error) {
		if err != nil {
			fw.Broken("%v", err)
		}
	}
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 2, MaxShatters: 2, MaxB: 4})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 3, MaxDocs: 14, Dense: true, MaxWords: 30})
	bulk := c.Chance("long lists", 2)
	seed := c.Seed("seed")
	c.Describe("%s long lists=%v seed=%d docs:%s", s, bulk, seed, cp)
	r := model.Rand(c, "ops")
	must(os.MkdirAll(filepath.Join(base, "docs"), 0755))
	var docs []model.DocSpec
	for i, d := range cp.Docs {
		p := filepath.Join(base, "docs", fmt.Sprint(i))
		must(os.WriteFile(p, d.Dat, 0644))
		docs = append(docs, model.DocSpec{Path: p, End: uint32(len(d.Dat)), Dat: d.Dat})
	}
	if bulk {
		k := 600 + r.Intn(1000)
		src := docs[len(docs)-1]
		for i := range docs {
			if n := len(model.Words(docs[i].Dat)); n >= s.S() && n < s.S()+30 {
				src = docs[i]
			}
		}
		for ; k > 0; k-- {
			docs = append(docs, src)
		}
	}
	orig := filepath.Join(base, "orig")
	model.Build(c, s, orig, docs, len(docs)/2)
	ref := model.NewRef(s.Shape)
	for i := range docs {
		ref.Add(&docs[i])
	}
	files := map[string][]byte{}
	es, err := os.ReadDir(orig)
	must(err)
	var names []string
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(orig, e.Name()))
		must(err)
		files[e.Name()] = b
		names = append(names, e.Name())
	}
	x := filepath.Join(base, "x")
	model.CopyTree(orig, x)
	texts := map[uint32][]byte{}
	for i := range cp.Docs {
		for _, w := range s.Windows(cp.Docs[i].Dat) {
			texts[w.Raw%ref.Range()] = cp.Docs[i].Dat[w.Start:w.End]
		}
	}
	for k := 0; k < 60; k++ {
		c.Beat()
		cut := k%2 == 0
		var what []string
		var changed []string
		for n := 1 + r.Intn(6)/5; n > 0; n-- {
			name := names[r.Intn(len(names))]
			b := files[name]
			if cut {
				m := 0
				if len(b) > 0 {
					m = r.Intn(len(b))
					switch {
					case name == "dmd" && r.Intn(2) == 0:
						m = m / 12 * 12
					case strings.HasSuffix(name, ".pos") && r.Intn(2) == 0:
						if st, _ := blocks(b); len(st) > 0 {
							m = st[r.Intn(len(st))] + r.Intn(4)
						}
					case name == "files.fnm" && r.Intn(3) > 0:
						m = nameEnds(b)[r.Intn(len(nameEnds(b)))]
					case r.Intn(4) == 0:
						m = len(b) - 1 - r.Intn(min(len(b), 16))
					case r.Intn(8) == 0:
						m = 0
					}
				}
				if m > len(b) {
					m = len(b)
				}
				must(os.WriteFile(filepath.Join(x, name), b[:m], 0644))
				what = append(what, fmt.Sprintf("%s cut to %d of %d", name, m, len(b)))
				c.Class("cut "+strings.TrimLeft(name, "b01"), true)
			} else {
				if name == "cfg.json" {
					name = "files.fnm"
					b = files[name]
				}
				var d []byte
				switch {
				case name == "dmd":
					d = damageDmd(r, b)
				case name == "files.fnm":
					d = damageFnm(r, b)
				case strings.HasSuffix(name, ".pos"):
					d = damagePos(r, b)
				default:
					pos := files[strings.TrimSuffix(name, ".iix")]
					heads := []int64{0}
					st, _ := blocks(pos)
					for _, h := range st {
						heads = append(heads, int64(h))
					}
					if r.Intn(4) == 0 {
						d = damage(r, b)
					} else {
						d = damageIix(r, b, len(pos), heads)
					}
				}
				must(os.WriteFile(filepath.Join(x, name), d, 0644))
				what = append(what, name+" damaged")
				c.Class("damaged "+strings.TrimLeft(name, "b01"), true)
			}
			changed = append(changed, name)
		}
		desc := strings.Join(what, ", ")
		c.Note("variant %d: %s", k, desc)
		idx, err := dupi.OpenIndex(x)
		opened := err == nil
		if opened {
			if cut {
				if err := ref.CheckOrError(idx, []int{1 + r.Intn(9)}); err != nil {
					c.Fatalf("%s: %v", desc, err)
				}
				// what a shortened document table held is lost
				if st, err := idx.Stats(); err == nil && !strings.Contains(desc, "dmd cut") {
					if err := ref.CompareStats(st, x); err != nil {
						c.Fatalf("%s: %v", desc, err)
					}
				}
			} else {
				p20torture(c, r, idx, ref, texts, desc)
			}
			idx.Close()
		}
		if !cut && r.Intn(4) == 0 {
			if ix, err := dupi.OpenIndexer(x); err == nil {
				for i := 0; i < 3; i++ {
					if ix.Add(cp.Docs[r.Intn(len(cp.Docs))].Doc()) != nil {
						break
					}
				}
				ix.Close()
				if idx, err := dupi.OpenIndex(x); err == nil {
					p20torture(c, r, idx, ref, texts, desc)
					idx.Close()
				}
				changed = names
				c.Class("appended to a damaged index", true)
			}
		}
		c.Class("a cut index opened", cut && opened)
		c.Class("a damaged index opened", !cut && opened)
		c.SubEval(fmt.Sprint(k, desc), opened || len(changed) > 1)
		for _, n := range changed {
			must(os.WriteFile(filepath.Join(x, n), files[n], 0644))
		}
	}
}

// p20torture runs everything on a damaged index; only ending matters.
func p20torture(c *fw.C, r *rand.Rand, idx *dupi.Index, ref *model.Ref, texts map[uint32][]byte, desc string) {
	q := idx.StartQuery(dupi.QueryMaxBlot)
	var some []dupi.Doc
	for _, b := range append(ref.Blots(1), model.Extra(c, 50)...) {
		blot := dupi.Blot{Blot: b}
		if r.Intn(4) == 0 {
			blot.Docs = make([]dupi.Doc, 0, 1+r.Intn(4))
		}
		q.Get(&blot)
		if len(blot.Docs) > 0 && len(some) < 40 {
			some = append(some, blot.Docs[r.Intn(len(blot.Docs))])
			d := some[len(some)-1]
			idx.FindBlot(b%ref.Range(), &d)
		}
	}
	for i := range some {
		idx.FindBlots(texts, &some[i])
	}
	for _, lim := range []int{0, 1 + r.Intn(5)} {
		q := idx.StartQuery(dupi.QueryMaxBlot)
		posts := 0
		for calls := 0; ; calls++ {
			dst := make([]dupi.Blot, 1+r.Intn(8))
			if lim > 0 {
				for i := range dst {
					dst[i].Docs = make([]dupi.Doc, 0, lim)
				}
			}
			n, err := q.Next(dst)
			if err != nil {
				break
			}
			for i := range dst[:n] {
				posts += len(dst[i].Docs)
			}
			if calls > 4<<20 || posts > 40<<20 {
				c.Fatalf("%s: extraction does not end (%d calls, %d documents)", desc, calls, posts)
			}
		}
	}
	idx.Stats()
}
