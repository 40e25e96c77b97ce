package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
	"unicode"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/blotter"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P35",
		Rule:  "A case is a corpus, of which the index is stored in two ways: by a writer of the stored form that is independent of the code, with posting lists cut into blocks anywhere (as sessions do), in interleaved order and rarely with gaps, and by the code in sessions. The first is opened and every answer compared with the reference; then both are appended to by the code, compared again, and read by an independent reader of the form, which must find exactly the documents, paths and postings of the reference. The fingerprints of the words of the corpus and of generated ones must be those of stored indexes. In one case of eight the index has 64 to 300 shards and is only read. Evaluations count indexes stored, opened or read. Non-trivial: some list has 2 or more blocks.",
		Quick: 20, Thorough: 400,
		Fn: p35,
	})
}

func p35(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 4})
	// more shards than can be built here, but not more than can be opened
	many := c.Rare("many shards", 8)
	if many {
		s.Shards = c.Pick("shard number", 64, 100, 255, 256, 257, 300)
	}
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 2, MaxDocs: 14, Bulk: true, Dense: true, Long: 12})
	r := model.Rand(c, "r")
	// the hash is taken from the code everywhere, but here it is stored
	for k, w := range fingerprinted(cp, r) {
		want := fnv1(strings.ToLower(w))
		if got := blotter.NewCirc(1).Blot([]byte(w)); got != want {
			c.Fatalf("the fingerprint of the word %q is %x, in stored indexes it is %x", w, got, want)
		}
		c.Class("fingerprints", k > 0)
	}
	first := r.Intn(len(cp.Docs) + 1)
	if many || r.Intn(4) == 0 {
		first = len(cp.Docs)
	}
	nses := r.Intn(3)
	c.Describe("%s stored=%d sessions=%d docs:%s", s, first, nses, cp)
	base := c.Dir()
	stored, built := filepath.Join(base, "stored"), filepath.Join(base, "built")
	name := stored
	if r.Intn(3) == 0 {
		name = "/somewhere/else"
	}
	if err := model.WriteIndex(stored, name, s, cp.Docs[:first], r); err != nil {
		fw.Broken("%v", err)
	}
	ref := model.NewRef(s.Shape)
	for i := range cp.Docs[:first] {
		ref.Add(&cp.Docs[i])
	}
	if d, err := ref.ReadIndex(stored, s); d != "" || err != nil {
		fw.Broken("the writer and the reader of the model differ: %s %v", d, err)
	}
	use := func(root, what string) {
		c.Helper()
		idx, err := dupi.OpenIndex(root)
		if err != nil {
			c.Fatalf("%s: opening: %v", what, err)
		}
		defer idx.Close()
		if err := ref.CheckAll(idx, root, !many, nil, []int{7}); err != nil {
			c.Fatalf("%s: %v", what, err)
		}
	}
	read := func(root, what string) {
		c.Helper()
		d, err := ref.ReadIndex(root, s)
		if err != nil {
			c.Fatalf("%s: what it has stored cannot be read: %v", what, err)
		}
		if d != "" {
			c.Fatalf("%s: it has stored something else than its documents: %s", what, d)
		}
	}
	blocks := ref.MaxList() >= 2
	use(stored, fmt.Sprintf("an index of %d documents in its stored form", first))
	c.SubEval("stored", blocks)
	c.Class("dozens or hundreds of shards", many)
	if many {
		return
	}
	// sessions of the code
	rest := cp.Docs[first:]
	for k := 0; k <= nses; k++ {
		n := len(rest)
		if k < nses {
			n = r.Intn(len(rest) + 1)
		}
		x, err := dupi.OpenIndexer(stored)
		c.NoErr(err, "appending to an index in its stored form, session %d", k)
		for i := range rest[:n] {
			c.NoErr(x.Add(rest[i].Doc()), "adding")
			ref.Add(&rest[i])
		}
		c.NoErr(x.Close(), "closing")
		rest = rest[n:]
		if k == nses || r.Intn(3) == 0 {
			what := fmt.Sprintf("an index of %d documents in its stored form after %d sessions, with %d documents", first, k+1, len(ref.Docs))
			use(stored, what)
			read(stored, what)
			c.SubEval(fmt.Sprint("appended", k), ref.MaxList() >= 2)
		}
	}
	model.Build(c, s, built, cp.Docs, first)
	read(built, "an index built by the code")
	c.SubEval("built", first > 0 && first < len(cp.Docs) && ref.MaxList() >= 2)
	c.Class("index of no documents stored", first == 0)
	c.Class("list over 512", ref.MaxList() > 512)
	c.Class("stored elsewhere", name != stored)
}

// fnv1 is the hash by which words are stored.
func fnv1(w string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(w); i++ {
		h *= 16777619
		h ^= uint32(w[i])
	}
	return h
}

// fingerprinted gives words: those of the corpus, and others of any letters,
// more often than not ones that have several cases or sizes.
func fingerprinted(cp *model.Corpus, r *rand.Rand) []string {
	var ws []string
	for i := range cp.Docs {
		for j, w := range model.Words(cp.Docs[i].Dat) {
			if j == 50 || len(ws) == 500 {
				break
			}
			ws = append(ws, w.Text)
		}
	}
	odd := []rune("ſKÅßẞıİςσΣµμΜǅǆǄȺⱥⱾȿΩωᾳᾼﬀỿᲀꙊꭰᏸ𐐀𐐨٣九")
	for k := 0; k < 60; k++ {
		n := 1 + r.Intn(6)
		if k == 0 {
			n = 1 + r.Intn(3000)
		}
		var b []rune
		for len(b) < n {
			var x rune
			switch r.Intn(4) {
			case 0:
				x = odd[r.Intn(len(odd))]
			case 1:
				x = rune(r.Intn(0x20000))
			default:
				x = rune('0' + r.Intn(75))
			}
			if unicode.IsLetter(x) || unicode.IsDigit(x) {
				b = append(b, x)
			}
		}
		ws = append(ws, string(b))
	}
	return ws
}
