package main

import (
	"path/filepath"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P01",
		Rule:  "A case is a configuration (shards, shatterers, window, interleaving, flush rate) and a sequence of generated documents (small vocabularies, copied and spliced passages, varied separators and letter case, empty, short and invalid-UTF-8 documents, sometimes hundreds of repeats), indexed in one session, reopened, and looked up blot by blot against the reference index. Non-trivial: some blot has two or more documents and some document has a blot no other has or lacks one others have. Rarely the index has 64 to 300 shards; it is then stored by the writer of P35.",
		Quick: 40, Thorough: 420,
		Fn: p01,
	})
}

func p01(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{Many: true, Hundreds: true})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MaxDocs: 14, Bulk: true, Huge: true, Long: 12})
	sweep := c.Chance("sweep", 5) && !s.Stored
	extra := model.Extra(c, 100)
	c.Describe("%s:%s", s, cp)
	ref := cp.Ref(s.Shape)
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, cp.Docs)
	idx := model.Open(c, root)
	defer idx.Close()
	if err := ref.CheckLookups(idx, sweep, extra); err != nil {
		c.Fatalf("%v", err)
	}
	shared, partial := false, false
	for _, l := range ref.M {
		if len(l) > 1 {
			shared = true
		}
		if len(l) < len(ref.Docs) {
			partial = true
		}
	}
	c.NonTrivial(shared && partial)
	c.Class("blot with 2+ documents", shared)
	c.Class("list over several blocks (513+ documents)", ref.MaxList() > 512)
	c.Class("several shards", s.Shards > 1)
	c.Class("interleaved", s.I > 1)
	c.Class("full sweep of all blots", sweep)
	c.Class("sequence length 1", s.S() == 1)
}
