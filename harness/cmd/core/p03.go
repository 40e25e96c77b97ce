package main

import (
	"bytes"
	"path/filepath"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P03",
		Rule:  "A case is an index over generated documents and several sequences of batch sizes (1 to 40, single, prime-ish, larger than the result, with empty batches mixed in; once in 80 cases an index in which all 65536 blots of every shard are shared, and sometimes lists of more than 65536 documents); each is one iteration of a whole-index query. Evaluations count iterations. Compared with the reference: every blot with 2+ documents once, complete list, non-increasing, then end of data for good. After every fourth call there is a lookup with the same query and a call of a second extraction, which are compared too. Non-trivial: at least 3 shared blots over at least two list lengths, and more than one call needed. Rarely the index has 64 to 300 shards; it is then stored by the writer of P35.",
		Quick: 40, Thorough: 600,
		Fn: p03,
	})
	props = append(props, &fw.Prop{
		ID:    "P04",
		Rule:  "A case is an index over generated documents and several plans of result slots (capacities 1 to 8 or around the longest list, some slots unlimited, some with documents in them already, which must stay, batch sizes 1 to 7); each plan is one iteration. Evaluations count iterations and bounded lookups. The pages of each blot must concatenate to its complete list. Non-trivial: some blot has more documents than the smallest capacity of the plan. Rarely the index has 64 to 300 shards; it is then stored by the writer of P35.",
		Quick: 36, Thorough: 500,
		Fn: p04,
	})
}

// saturated checks an index in which every possible blot is shared.
func saturated(c *fw.C) {
	s := model.Setup{Shatters: 2, Flush: 16384}
	s.B, s.I = c.Pick("blotlen", 1, 2, 3), 1
	s.Shards = c.Pick("shards", 1, 1, 2)
	r := model.Rand(c, "text")
	word := func() string {
		var w [9]byte
		for i := range w {
			w[i] = byte('a' + r.Intn(26))
		}
		return string(w[:])
	}
	words := make([]string, 3000)
	for i := range words {
		words[i] = word()
	}
	covered := make([]bool, s.Range())
	left := len(covered)
	var b bytes.Buffer
	var hs []uint32
	for left > 0 && len(hs) < 4000000 {
		w := words[r.Intn(len(words))]
		if s.B == 1 {
			w = word()
		}
		b.WriteString(w)
		b.WriteByte(' ')
		hs = append(hs, model.WordHash(w))
		if len(hs) >= s.B {
			var x uint32
			for _, h := range hs[len(hs)-s.B:] {
				x ^= h
			}
			if x %= s.Range(); !covered[x] {
				covered[x] = true
				left--
			}
		}
	}
	t := b.Bytes()
	docs := []model.DocSpec{{Path: "/all/1", Dat: t}, {Path: "/some", Dat: t[:len(t)/2000]}, {Path: "/all/2", Dat: t}}
	batches := []int{c.Pick("batch", 1, 7, 1000), c.Pick("batch", 1, 64, 70000)}
	c.Describe("saturated: %s, batches=%v", s, batches)
	ref := model.NewRef(s.Shape)
	for i := range docs {
		ref.Add(&docs[i])
		c.Beat()
	}
	full := len(ref.Blots(2)) == int(ref.Range())
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, docs)
	idx := model.Open(c, root)
	defer idx.Close()
	if err := ref.CheckExtraction(idx, batches); err != nil {
		c.Fatalf("batch sizes %v: %v", batches, err)
	}
	c.SubEval("saturated", true)
	c.Class("saturated", true)
	c.Class("every blot of every shard is shared", full)
}

func p03(c *fw.C) {
	if c.Rare("saturated", 80) {
		saturated(c)
		return
	}
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 3, Many: true, Hundreds: true})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 0, MaxDocs: 24, Bulk: true, Huge: true, Dense: true})
	var plans [][]int
	for k := c.Int("plans", 2, 5); k > 0; k-- {
		var p []int
		for j := c.Int("len", 1, 4); j > 0; j-- {
			p = append(p, c.Pick("batch", 1, 1, 2, 3, 5, 7, 16, 40))
		}
		if c.Chance("empty batch", 4) {
			p = append(p, 0)
		}
		plans = append(plans, p)
	}
	c.Describe("%s batches=%v:%s", s, plans, cp)
	ref := cp.Ref(s.Shape)
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, cp.Docs)
	idx := model.Open(c, root)
	defer idx.Close()
	shared := ref.Blots(2)
	lens := map[int]bool{}
	for _, b := range shared {
		lens[len(ref.M[b])] = true
	}
	if c.Bool("exact multiple") && len(shared) > 0 {
		plans = append(plans, []int{len(shared)}, []int{len(shared) + 1})
	}
	for i, p := range plans {
		if err := ref.CheckExtraction(idx, p); err != nil {
			c.Fatalf("batch sizes %v: %v", p, err)
		}
		big := 0
		for _, x := range p {
			if x > big {
				big = x
			}
		}
		c.SubEval(string(rune('a'+i)), len(shared) >= 3 && len(lens) >= 2 && big < len(shared))
	}
	c.Class("no shared blot", len(shared) == 0)
	c.Class("list over several blocks (513+ documents)", ref.MaxList() > 512)
	c.Class("several shards", s.Shards > 1)
	c.Class("3+ list lengths", len(lens) >= 3)
}

func p04(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 3, Many: true, Hundreds: true})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 1, MaxDocs: 24, Bulk: true, Huge: true, Dense: true})
	ref := cp.Ref(s.Shape)
	type plan struct {
		caps  []int // -1: unlimited
		batch []int
		// slots have documents in them; up to cap-len are to be added
		prefill bool
	}
	mark := dupi.Doc{Path: "mark", Start: 7, End: 8}
	var plans []plan
	max := ref.MaxList()
	for k := c.Int("plans", 2, 5); k > 0; k-- {
		var p plan
		for j := c.Int("ncaps", 1, 4); j > 0; j-- {
			if c.Bool("around the longest list") && max > 1 {
				p.caps = append(p.caps, c.Int("cap", max-1, max+1))
			} else {
				p.caps = append(p.caps, c.Pick("cap", 1, 2, 3, 4, 5, 8, 1, 2))
			}
		}
		p.prefill = c.Chance("documents in slots", 4)
		if c.Chance("unlimited slot", 4) {
			p.caps = append(p.caps, -1)
		}
		for j := c.Int("nbatch", 1, 3); j > 0; j-- {
			p.batch = append(p.batch, c.Int("batch", 1, 7))
		}
		plans = append(plans, p)
	}
	c.Describe("%s plans=%v:%s", s, plans, cp)
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, cp.Docs)
	idx := model.Open(c, root)
	defer idx.Close()
	shared := ref.Blots(2)
	for pi, p := range plans {
		pages := map[uint32][]model.RDoc{}
		q := idx.StartQuery(dupi.QueryMaxBlot)
		slot, total, empties, looked := 0, 0, 0, 0
		for call := 0; ; call++ {
			dst := make([]dupi.Blot, p.batch[call%len(p.batch)])
			caps := make([]int, len(dst))
			had := make([]int, len(dst))
			for i := range dst {
				caps[i] = p.caps[slot%len(p.caps)]
				slot++
				if caps[i] >= 0 {
					if p.prefill {
						had[i] = slot % 3
					}
					dst[i].Docs = make([]dupi.Doc, had[i], had[i]+caps[i])
					for k := range dst[i].Docs {
						dst[i].Docs[k] = mark
					}
				}
			}
			n, err := model.Next(q, dst)
			if n < 0 || n > len(dst) {
				c.Fatalf("plan %v: Next returned n=%d for %d slots", p, n, len(dst))
			}
			for i := range dst[:n] {
				d := &dst[i]
				for k := 0; k < had[i]; k++ {
					if len(d.Docs) <= k || d.Docs[k].Path != mark.Path {
						c.Fatalf("plan %v: of the %d documents in a slot, number %d is gone", p, had[i], k)
					}
				}
				d.Docs = d.Docs[had[i]:]
				if caps[i] >= 0 && len(d.Docs) > caps[i] {
					c.Fatalf("plan %v: slot with room for %d got %d documents", p, caps[i], len(d.Docs))
				}
				if len(ref.M[d.Blot]) < 2 {
					c.Fatalf("plan %v: extraction gave blot %x, which has %d documents", p, d.Blot, len(ref.M[d.Blot]))
				}
				pages[d.Blot] = append(pages[d.Blot], model.FromDocs(d.Docs)...)
				total += len(d.Docs)
				if len(d.Docs) == 0 {
					empties++
				}
				if len(pages[d.Blot]) > len(ref.M[d.Blot]) {
					c.Fatalf("plan %v: blot %x was given more documents than it has: %s", p, d.Blot, model.Diff(pages[d.Blot], ref.List(d.Blot)))
				}
			}
			if model.IsEOF(err) {
				break
			}
			c.NoErr(err, "plan %v: extraction", p)
			if call%4 == 1 && len(shared) > 0 && looked < 100000 {
				// a lookup with the same query does not disturb the pages
				looked += len(ref.M[shared[call*13%len(shared)]])
				if err := ref.CheckLookup(q, shared[call*13%len(shared)]); err != nil {
					c.Fatalf("plan %v: while extracting with the same query: %v", p, err)
				}
			}
			if n == 0 {
				c.Fatalf("plan %v: Next returned no blot and no error", p)
			}
			if empties > 2*len(shared)+10 {
				c.Fatalf("plan %v: extraction keeps returning empty pages", p)
			}
		}
		for _, b := range shared {
			if m := model.Diff(pages[b], ref.List(b)); m != "" {
				c.Fatalf("plan %v: the pages of blot %x are not its list: %s", p, b, m)
			}
		}
		low := 1 << 30
		for _, x := range p.caps {
			if x >= 0 && x < low {
				low = x
			}
		}
		c.SubEval(string(rune('a'+pi)), max > low)
		c.Class("capacity 1", low == 1)
	}
	// bounded lookups
	q := idx.StartQuery(dupi.QueryMaxBlot)
	for k, b := range ref.Blots(1) {
		if k > 40 {
			break
		}
		l := ref.List(b)
		for _, cp := range []int{0, 1, 2, len(l) - 1, len(l), len(l) + 1} {
			if cp < 0 {
				continue
			}
			bl := dupi.Blot{Blot: b, Docs: make([]dupi.Doc, 0, cp)}
			c.NoErr(q.Get(&bl), "bounded lookup of blot %x", b)
			want := l
			if cp < len(l) {
				want = l[:cp]
			}
			if m := model.Diff(model.FromDocs(bl.Docs), want); m != "" {
				c.Fatalf("lookup of blot %x bounded to %d documents: %s", b, cp, m)
			}
			c.SubEval(string([]byte{byte(b >> 24), byte(b >> 16), byte(b >> 8), byte(b), byte(cp)}), cp < len(l))
		}
	}
	c.Class("some blot spans several pages", max > 8)
	c.Class("several shards", s.Shards > 1)
}
