package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/blotter"
	"github.com/go-air/dupi/token"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P14",
		Rule:  "A case is a dozen configurations of drawn positive values and root names, each written over nothing, a longer or shorter configuration or garbage and read back; one valid configuration, drawn field by field or asked for by number (sequence length 1 to 6000), used to build an index whose answers are compared with the reference of that configuration; and two dozen configurations with one to three fields broken (zero, negative, inconsistent, unknown tokenizer, too many shards), each of which must be refused by the calls that take it. 300 more pairs of a number of shards and a sequence length are asked for without building the index. Evaluations count configurations. Non-trivial: written over another content, built by number with a length other than ten, or broken.",
		Quick: 25, Thorough: 400, HangSec: 40,
		Fn: p14,
	})
}

func p14(c *fw.C) {
	dir := c.Dir()
	seed := c.Seed("seed")
	r := model.Rand(c, "r")
	byNumber := c.Bool("by number")
	seqLen := c.Pick("seqlen", 1, 2, 3, 7, 9, 10, 11, 12, 20, 57, 200, 5000, 0)
	if seqLen == 0 {
		seqLen = c.Int("any seqlen", 1, 6000)
	}
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 4, MaxShatters: 9, Many: true})
	if c.Chance("huge flush rate", 3) {
		s.Flush = c.Pick("flush", 1<<20, 1<<31, 1<<32-1, 1<<32, 1<<32+1, 1<<40, 1<<62)
		c.Class("huge flush rate", !byNumber)
	}
	c.Describe("by number=%v seqlen=%d %s seed=%d", byNumber, seqLen, s, seed)
	ints := func() int {
		return []int{1, 2, 3, 10, 16384, 1 << 20, 1<<31 - 1, 1 + r.Intn(1000), 1 + r.Intn(1<<30)}[r.Intn(9)]
	}
	names := []string{"idx", "with space", "日本", "a\"b\\c", "<&>", "new\nline", "\u2028x", strings.Repeat("long", 40), "é"}
	// round trips
	for k := 0; k < 12; k++ {
		root := filepath.Join(dir, fmt.Sprint("rt", k), names[r.Intn(len(names))])
		if err := os.MkdirAll(root, 0755); err != nil {
			fw.Broken("%v", err)
		}
		mk := func() *dupi.Config {
			b, i := 1+r.Intn(3000), 1+r.Intn(40)
			return &dupi.Config{IndexRoot: root, SeqLen: b * i, NumShards: 1 + r.Intn(60000), NumShatters: ints(), DocFlushRate: ints(),
				TokenConfig: *token.DefaultConfig(), BlotConfig: blotter.Config{SeqLen: b, Interleave: i}}
		}
		cfg := mk()
		prev := r.Intn(4)
		switch prev {
		case 1:
			c.NoErr(mk().Write(), "writing an earlier configuration")
		case 2:
			g := make([]byte, r.Intn(5000))
			r.Read(g)
			if err := os.WriteFile(cfg.Path(), g, 0644); err != nil {
				fw.Broken("%v", err)
			}
		case 3: // the longest possible
			o := mk()
			o.NumShatters, o.DocFlushRate, o.NumShards = 1<<62, 1<<62, 60000
			c.NoErr(o.Write(), "writing an earlier configuration")
		}
		c.NoErr(cfg.Write(), "writing a configuration")
		got, err := dupi.ReadConfig(cfg.Path())
		c.NoErr(err, "reading back %+v written over content kind %d", *cfg, prev)
		if !reflect.DeepEqual(got, cfg) {
			c.Fatalf("configuration %+v reads back as %+v", *cfg, *got)
		}
		got, err = dupi.ReadConfigFromRoot(root)
		c.NoErr(err, "reading back %+v from its root", *cfg)
		if !reflect.DeepEqual(got, cfg) {
			c.Fatalf("configuration %+v reads back from its root as %+v", *cfg, *got)
		}
		c.SubEval(fmt.Sprint("rt", k), prev > 0)
	}
	// a configuration that must work
	root := filepath.Join(dir, "used")
	if c.Bool("long or odd name") {
		for k := r.Intn(12); k > 0; k-- {
			root = filepath.Join(root, strings.Repeat([]string{"long", "é日本", "\"<>", "x y\n"}[r.Intn(4)], 1+r.Intn(25)))
		}
		if err := os.MkdirAll(root, 0755); err != nil {
			fw.Broken("%v", err)
		}
		root = filepath.Join(root, names[r.Intn(len(names))])
		c.Class("root of more than 512 bytes", len(root) > 512)
	}
	var x *dupi.Indexer
	var err error
	var docs *model.Corpus
	var given *dupi.Config
	if byNumber {
		var cfg *dupi.Config
		cfg, err = dupi.NewConfig(root, s.Shards, seqLen)
		c.NoErr(err, "configuration with %d shards and sequence length %d", s.Shards, seqLen)
		if cfg.SeqLen != seqLen || cfg.BlotConfig.SeqLen*cfg.BlotConfig.Interleave != seqLen || cfg.NumShards != s.Shards {
			c.Fatalf("asked for %d shards and sequence length %d, got %+v", s.Shards, seqLen, *cfg)
		}
		s.B, s.I, s.Shatters = cfg.BlotConfig.SeqLen, cfg.BlotConfig.Interleave, cfg.NumShatters
		docs = model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 2, MaxDocs: 8})
		x, err = dupi.CreateIndexer(root, s.Shards, seqLen)
		c.NoErr(err, "creating an index with %d shards and sequence length %d", s.Shards, seqLen)
	} else {
		docs = model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 2, MaxDocs: 8})
		given = s.Config(root)
		same := s.Config(root)
		x, err = dupi.IndexerFromConfig(given)
		c.NoErr(err, "creating an index with %s", s)
		if !reflect.DeepEqual(given, same) {
			c.Fatalf("creating an index changed the configuration %+v it was given to %+v", *same, *given)
		}
	}
	model.AddAll(c, x, docs.Docs, root)
	idx := model.Open(c, root)
	if idx.SeqLen() != s.S() || idx.NumShards() != s.Shards || idx.NumShatters() != s.Shatters || idx.Root() != root {
		c.Fatalf("index configured as %s at %s says sequence length %d, %d shards, %d shatterers, root %s", s, root, idx.SeqLen(), idx.NumShards(), idx.NumShatters(), idx.Root())
	}
	if bc := idx.Blotter().Config(); bc.SeqLen != s.B || bc.Interleave != s.I {
		c.Fatalf("index configured as %s has blotter %+v", s, *bc)
	}
	if err := docs.Ref(s.Shape).CheckAll(idx, root, false, nil, []int{3}); err != nil {
		c.Fatalf("index configured as %s: %v", s, err)
	}
	idx.Close()
	// which it stays when it is appended to
	stored, err := dupi.ReadConfigFromRoot(root)
	c.NoErr(err, "reading the configuration of an index")
	if given != nil {
		given.IndexRoot = stored.IndexRoot
		if !reflect.DeepEqual(given, stored) {
			c.Fatalf("an index created with the configuration %+v has %+v", *given, *stored)
		}
	}
	for k := 0; k < 2; k++ {
		x, err := dupi.OpenIndexer(root)
		c.NoErr(err, "opening for appending")
		if k > 0 {
			d := docs.Docs[0].Doc()
			c.NoErr(x.Add(d), "Add")
		}
		c.NoErr(x.Close(), "closing")
		now, err := dupi.ReadConfigFromRoot(root)
		c.NoErr(err, "reading the configuration after appending")
		if !reflect.DeepEqual(now, stored) {
			c.Fatalf("after appending, the configuration %+v is %+v", *stored, *now)
		}
	}
	c.SubEval("used", byNumber && seqLen != 10)
	// configurations that cannot work
	for k := 0; k < 24; k++ {
		croot := filepath.Join(dir, fmt.Sprint("bad", k))
		cfg := model.Setup{Shape: model.Shape{B: 1 + r.Intn(4), I: 1 + r.Intn(3), Shards: 1 + r.Intn(2)}, Shatters: 1 + r.Intn(2), Flush: 1 + r.Intn(100)}.Config(croot)
		nonpos := func() int { return []int{0, -1, -2, -65536, -1 << 40}[r.Intn(5)] }
		var what []string
		for n := 1 + r.Intn(3)*r.Intn(2); n > 0; n-- {
			switch r.Intn(9) {
			case 0:
				cfg.NumShards = nonpos()
				what = append(what, "shards")
			case 1:
				cfg.NumShatters = nonpos()
				what = append(what, "shatterers")
			case 2:
				cfg.DocFlushRate = nonpos()
				what = append(what, "flush rate")
			case 3:
				cfg.BlotConfig.SeqLen = 0
				cfg.SeqLen = 0
				what = append(what, "empty window")
			case 4:
				cfg.BlotConfig.SeqLen = -3
				cfg.SeqLen = -3 * cfg.BlotConfig.Interleave
				what = append(what, "negative window")
			case 5:
				cfg.BlotConfig.Interleave = nonpos()
				cfg.SeqLen = cfg.BlotConfig.SeqLen * cfg.BlotConfig.Interleave
				what = append(what, "interleaving")
			case 6:
				cfg.SeqLen += 1 + r.Intn(3)
				what = append(what, "inconsistent window")
			case 7:
				cfg.TokenConfig.Name = []string{"", "words", "words.simple ", "none"}[r.Intn(4)]
				what = append(what, "tokenizer")
			case 8: // two negatives give a positive product
				cfg.BlotConfig.SeqLen, cfg.BlotConfig.Interleave = -cfg.BlotConfig.SeqLen, -cfg.BlotConfig.Interleave
				what = append(what, "negative window and interleaving")
			}
		}
		if len(what) > 1 && cfg.BlotConfig.SeqLen > 0 && cfg.BlotConfig.Interleave > 0 && cfg.SeqLen == cfg.BlotConfig.SeqLen*cfg.BlotConfig.Interleave &&
			cfg.NumShards > 0 && cfg.NumShatters > 0 && cfg.DocFlushRate > 0 && cfg.TokenConfig.Name == "words.simple" {
			continue // one change undid the other
		}
		c.Describe("refusal of %v: %+v", what, *cfg)
		if x, err := dupi.IndexerFromConfig(cfg); err == nil {
			x.Close()
			c.Fatalf("an index with bad %v was created: %+v", what, *cfg)
		}
		// stored, it is refused when the index is opened
		if err := os.MkdirAll(croot, 0755); err != nil {
			fw.Broken("%v", err)
		}
		if err := cfg.Write(); err == nil {
			if _, err := dupi.OpenIndex(croot); err == nil {
				c.Fatalf("an index storing a configuration with bad %v was opened: %+v", what, *cfg)
			}
			if _, err := dupi.OpenIndexer(croot); err == nil {
				c.Fatalf("an index storing a configuration with bad %v was opened for appending: %+v", what, *cfg)
			}
		}
		c.SubEval(fmt.Sprint("bad", k, *cfg), true)
		for _, w := range what {
			c.Class("bad "+w, true)
		}
	}
	// every positive sequence length and number of shards can be asked for
	for k := 0; k < 300; k++ {
		n, nsh := 1+r.Intn([]int{40, 300, 3000, 100000, 1 << 30}[r.Intn(5)]), 1+r.Intn([]int{10, 300, 65535}[r.Intn(3)])
		cfg, err := dupi.NewConfig(filepath.Join(dir, "n"), nsh, n)
		c.NoErr(err, "configuration with %d shards and sequence length %d", nsh, n)
		if cfg.SeqLen != n || cfg.BlotConfig.SeqLen*cfg.BlotConfig.Interleave != n || cfg.NumShards != nsh || cfg.NumShatters < 1 || cfg.DocFlushRate < 1 {
			c.Fatalf("asked for %d shards and sequence length %d, got %+v", nsh, n, *cfg)
		}
	}
	for _, n := range []int{0, -1, -65536} {
		if _, err := dupi.NewConfig(filepath.Join(dir, "n"), n, 10); err == nil {
			c.Fatalf("NewConfig accepts %d shards", n)
		}
		if _, err := dupi.NewConfig(filepath.Join(dir, "n"), 2, n); err == nil {
			c.Fatalf("NewConfig accepts sequence length %d", n)
		}
	}
	// blots have 32 bits, of which a shard takes 16
	for _, n := range []int{65536, 65537, 1 << 20, 1 << 31} {
		if _, err := dupi.NewConfig(filepath.Join(dir, "n"), n, 10); err == nil {
			c.Fatalf("NewConfig accepts %d shards, more than blots can address", n)
		}
	}
	c.Describe("by number=%v seqlen=%d %s seed=%d", byNumber, seqLen, s, seed)
	c.Class("built by number", byNumber)
}
