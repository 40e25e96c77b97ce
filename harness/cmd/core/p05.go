package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"runtime"
	"strconv"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P05",
		Rule:  "A case is a configuration and a generated document sequence split into 2 to 6, sometimes up to 20, sessions (empty ones included); the index is created, then closed and appended to at each split, and after drawn sessions and at the end every lookup, the extraction and the statistics are compared with the reference index of the documents so far, which is the one-session answer; a third of the cases also build the one-session index and compare its statistics. Non-trivial: some posting list has documents of two sessions.",
		Quick: 22, Thorough: 350,
		Fn: p05,
	})
	props = append(props, &fw.Prop{
		ID:    "P06",
		Rule:  "A case is a document sequence of very unequal sizes (0 to 20000 words, one slow document followed by many fast ones, fast runs, a very large one just before closing) indexed with 1 to 16 shatterers, 1 to 4 shards and 1 to 8 processors; all answers are compared with the reference, which knows no parallelism, and a drawn second parallelism is run on the same documents. Non-trivial: 2+ shatterers and the largest document at least 20 times the median.",
		Quick: 14, Thorough: 200, MaxProcs: 4,
		Fn: p06,
	})
}

func p05(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 2})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 2, MaxDocs: 18, Bulk: true, Dense: true, Long: 12})
	nses := c.Int("sessions", 2, 6)
	if c.Rare("many sessions", 12) {
		nses = c.Int("more sessions", 9, 20)
		c.Class("more than eight sessions", true)
	}
	var cuts []int
	left := len(cp.Docs)
	for k := 0; k < nses-1; k++ {
		n := 0
		if !c.Chance("empty session", 5) {
			n = c.Int("session size", 0, left)
			if left > 200 && c.Bool("large session") {
				n = left / 2
			}
		}
		cuts = append(cuts, n)
		left -= n
	}
	cuts = append(cuts, left)
	probe := make([]bool, nses)
	for k := range probe {
		probe[k] = c.Chance("probe", 3)
	}
	probe[nses-1] = true
	batches := []int{c.Int("batch", 1, 9)}
	extra := model.Extra(c, 50)
	c.Describe("%s sessions=%v probed=%v:%s", s, cuts, probe, cp)
	ref := model.NewRef(s.Shape)
	root := filepath.Join(c.Dir(), "idx")
	x, err := dupi.IndexerFromConfig(s.Config(root))
	c.NoErr(err, "creating the index")
	at := 0
	spans := false
	mark := map[uint32]int{}
	for k, n := range cuts {
		if k > 0 {
			x, err = dupi.OpenIndexer(root)
			c.NoErr(err, "opening append session %d", k)
		}
		for i := at; i < at+n; i++ {
			c.NoErr(x.Add(cp.Docs[i].Doc()), "adding document %d", i)
			ref.Add(&cp.Docs[i])
		}
		at += n
		c.NoErr(x.Close(), "closing session %d", k)
		c.Beat()
		for b, l := range ref.M {
			if mark[b] != 0 && mark[b] != len(l) {
				spans = true
			}
			mark[b] = len(l)
		}
		if probe[k] {
			idx := model.Open(c, root)
			if err := ref.CheckAll(idx, root, false, extra, batches); err != nil {
				c.Fatalf("after session %d of %d (%v): %v", k+1, nses, cuts, err)
			}
			idx.Close()
		}
	}
	if c.Chance("one session too", 3) {
		root2 := filepath.Join(c.Dir(), "idx")
		model.Build(c, s, root2, cp.Docs)
		a, b := model.Open(c, root), model.Open(c, root2)
		defer a.Close()
		defer b.Close()
		sa, err := a.Stats()
		c.NoErr(err, "Stats")
		sb, err := b.Stats()
		c.NoErr(err, "Stats")
		sa.Root, sb.Root = "", ""
		if *sa != *sb {
			c.Fatalf("%d sessions give %+v, one session gives %+v", nses, *sa, *sb)
		}
	}
	c.NonTrivial(spans)
	c.Class("list spans sessions", spans)
	c.Class("3+ sessions", nses > 2)
	c.Class("list over several blocks (513+ documents)", ref.MaxList() > 512)
}

func p06(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 4, MaxB: 5, Many: true})
	s.Shatters = c.Pick("nshatter", 2, 3, 4, 8, 16, 1)
	seed := c.Seed("docs")
	n := c.Pick("ndocs", 30, 60, 200, 8)
	pattern := c.Int("pattern", 0, 4)
	procs := c.Pick("procs", 8, 4, 2, 1)
	vocab := c.Pick("vocab", 30, 3, 1000)
	if pattern == 4 && n > 30 {
		n = 8
	}
	c.Describe("%s docs: n=%d seed=%d pattern=%d vocab=%d procs=%d", s, n, seed, pattern, vocab, procs)
	r := rand.New(rand.NewSource(seed))
	docs := make([]model.DocSpec, n)
	maxw := 0
	for i := range docs {
		w := 0
		switch pattern {
		case 0: // a slow document, then fast ones
			w = 1 + r.Intn(12)
			if i%17 == 0 {
				w = 20000
			}
		case 1: // any size
			w = []int{0, 1, 5, 30, 500, 8000}[r.Intn(6)]
		case 2: // all fast
			w = r.Intn(15)
		case 3: // shrinking
			w = 8000 / (i + 1)
		case 4: // closed while much is to be posted
			w = r.Intn(12)
			if i == n-1 || i == n/2-1 {
				w = 100000 + r.Intn(150000)
			}
		}
		if w > maxw {
			maxw = w
		}
		var dat []byte
		for k := 0; k < w; k++ {
			dat = append(dat, 'w')
			dat = append(strconv.AppendInt(dat, int64(r.Intn(vocab)), 10), ' ')
		}
		docs[i] = model.DocSpec{Path: fmt.Sprintf("/d/%d", i), Dat: dat, End: uint32(len(dat))}
	}
	ref := model.NewRef(s.Shape)
	for i := range docs {
		ref.Add(&docs[i])
	}
	c.Beat()
	runs := 1
	if c.Bool("again") {
		runs = 2
	}
	for k := 0; k < runs; k++ {
		s2 := s
		if k > 0 {
			s2.Shatters = c.Pick("nshatter2", 1, 2, 5, 16)
			procs = c.Pick("procs2", 8, 3, 1)
		}
		old := runtime.GOMAXPROCS(procs)
		root := filepath.Join(c.Dir(), "idx")
		var cut []int
		if k > 0 && c.Bool("append") {
			cut = []int{n / 2}
		}
		model.Build(c, s2, root, docs, cut...)
		runtime.GOMAXPROCS(old)
		idx := model.Open(c, root)
		if err := ref.CheckAll(idx, root, false, nil, []int{50}); err != nil {
			c.Fatalf("shatterers=%d processors=%d: %v", s2.Shatters, procs, err)
		}
		idx.Close()
	}
	small := 0
	for i := range docs {
		if len(docs[i].Dat) < maxw*3/20 {
			small++
		}
	}
	c.NonTrivial(s.Shatters >= 2 && small > n/2)
	c.Class("4+ shatterers", s.Shatters >= 4)
	c.Class("several shards", s.Shards > 1)
	c.Class(fmt.Sprintf("pattern %d", pattern), true)
}
