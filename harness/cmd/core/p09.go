package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi/blotter"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P09",
		Rule:  "A case draws a window shape and checks, on 60 word sequences after 60 different histories, that the fingerprint at each word is the exclusive-or of the single-word hashes of its window; that changing letter case, permuting a window and changing what came before leave it; that 3000 words of structured families (numbers, common prefixes and suffixes, anagrams, one-letter changes, long words) have almost no equal hashes; and, on an index, that the blots of documents at any offset are one per full window and the indexed ones are the same. Evaluations count sequences, families and documents. Non-trivial: the sequence is longer than the window and was preceded by a history.",
		Quick: 25, Thorough: 400,
		Fn: p09,
	})
}

func p09(c *fw.C) {
	B := c.Pick("B", 1, 2, 3, 4, 5, 7, 10, 16, 33)
	I := c.Pick("I", 1, 1, 1, 2, 3, 5)
	if c.Rare("wide window", 9) {
		B = c.Pick("width", 64, 255, 256, 257, 300, 511, 513, 1000)
		I = 1 + c.Int("more", 0, 1)
		c.Class("a window of more than 50 words", true)
	}
	sh := model.Shape{B: B, I: I, Shards: 1}
	S := sh.S()
	v := model.GenVocab(c)
	seed := c.Seed("sequences")
	c.Describe("window %dx%d vocab=%d seed=%d", B, I, len(v), seed)
	r := rand.New(rand.NewSource(seed))
	mk := func() blotter.T {
		b, err := blotter.FromConfig(&blotter.Config{SeqLen: B, Interleave: I})
		c.NoErr(err, "blotter %dx%d", B, I)
		return b
	}
	words := func(n int) []string {
		ws := make([]string, n)
		for i := range ws {
			ws[i] = model.CaseVariant(v[r.Intn(len(v))], r.Intn(6))
			if r.Intn(10) == 0 {
				ws[i] = fmt.Sprintf("u%d", r.Intn(1<<30))
				if r.Intn(4) == 0 {
					ws[i] = fmt.Sprintf("%s%d", strings.Repeat("Lé", 1<<uint(r.Intn(10))), r.Intn(1000))
				}
			}
		}
		return ws
	}
	run := func(b blotter.T, ws []string) []uint32 {
		res := make([]uint32, len(ws))
		one := r.Intn(2) == 0 // all words in one buffer
		var in []byte
		for i, w := range ws {
			if !one {
				in = nil
			}
			in = append(in[:0], w...)
			res[i] = b.Blot(in)
			if string(in) != w {
				c.Fatalf("Blot changed the word %q into %q", w, in)
			}
		}
		return res
	}
	live := mk()
	for k := 0; k < 60; k++ {
		if r.Intn(3) == 0 {
			live = mk()
		}
		hist := r.Intn(2*S + 3)
		run(live, words(hist))
		ws := words(S + r.Intn(25))
		got := run(live, ws)
		for i := S - 1; i < len(ws); i++ {
			var want uint32
			for j := 0; j < B; j++ {
				want ^= model.WordHash(ws[i-j*I])
			}
			if got[i] != want {
				c.Fatalf("window %dx%d: fingerprint at word %d of %q after %d words of history is %x, want %x", B, I, i, ws, hist, got[i], want)
			}
		}
		// letter case, and the order inside a window, do not matter
		ws2 := append([]string{}, ws...)
		for i := range ws2 {
			ws2[i] = model.CaseVariant(ws2[i], r.Intn(4))
		}
		if I == 1 {
			p := r.Perm(S)
			for i, j := range p {
				ws2[len(ws)-S+i] = model.CaseVariant(ws[len(ws)-S+j], r.Intn(4))
			}
		}
		got2 := run(mk(), ws2)
		if got2[len(ws)-1] != got[len(ws)-1] {
			c.Fatalf("window %dx%d: fingerprint of the last window of %q is %x, of %q it is %x", B, I, ws, got[len(ws)-1], ws2, got2[len(ws)-1])
		}
		c.SubEval(fmt.Sprint(k), len(ws) > S && hist > 0)
	}
	// hashes of distinct words
	fam := c.Int("family", 0, 6)
	set := map[string]bool{}
	base := strings.Repeat("prefix", 1+r.Intn(9))
	if r.Intn(3) == 0 {
		base = strings.Repeat("prefix", 1<<uint(3+r.Intn(7)))
		c.Class("words of up to 12 KB", true)
	}
	for k := 0; len(set) < 3000; k++ {
		var w string
		switch fam {
		case 0:
			w = fmt.Sprint(k)
		case 1:
			w = base + fmt.Sprint(k)
		case 2:
			w = fmt.Sprint(k) + base
		case 3: // anagrams
			b := []byte("abcdefgh")
			r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
			w = string(b)
		case 4: // one or two letters changed
			b := []byte("somewhatlongword")
			b[r.Intn(len(b))] = byte('a' + r.Intn(26))
			b[r.Intn(len(b))] = byte('a' + r.Intn(26))
			w = string(b)
		case 5: // short ones
			if k < 26*27 {
				w = strings.TrimLeft(string([]byte{" abcdefghijklmnopqrstuvwxyz"[k/26], byte('a' + k%26)}), " ")
			} else {
				w = string(rune(0x4e00 + k))
			}
		default:
			w = fmt.Sprintf("%sx%dy%s", base, k, base)
		}
		set[w] = true
	}
	one := blotter.NewCirc(1)
	seen := map[uint32]string{}
	coll := 0
	var ex string
	for w := range set {
		h := one.Blot([]byte(w))
		if o, ok := seen[h]; ok {
			coll++
			ex = fmt.Sprintf("%q and %q", o, w)
		}
		seen[h] = w
	}
	if coll > 5 {
		c.Fatalf("of %d distinct words, %d share a hash with another, such as %.300s", len(set), coll, ex)
	}
	c.SubEval(fmt.Sprintf("fam%d %d", fam, len(base)), true)
	// and spread over the blots of an index
	low := map[uint16]bool{}
	for w := range set {
		low[uint16(one.Blot([]byte(w)))] = true
	}
	if len(low) < 2700 {
		c.Fatalf("%d distinct words have only %d distinct 16-bit blots", len(set), len(low))
	}
	// documents on an index
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 2})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 3, MaxDocs: 10, Long: 8})
	c.Describe("window %dx%d vocab=%d seed=%d; index %s:%s", B, I, len(v), seed, s, cp)
	ref := cp.Ref(s.Shape)
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, cp.Docs)
	idx := model.Open(c, root)
	defer idx.Close()
	if err := ref.CheckLookups(idx, false, nil); err != nil {
		c.Fatalf("indexed fingerprints: %v", err)
	}
	for i := range cp.Docs {
		d := cp.Docs[i].Doc()
		pre := []uint32{7, 8}
		got := idx.BlotDoc(pre[:1+i%2], d)
		if len(got) < 1+i%2 || got[0] != 7 {
			c.Fatalf("BlotDoc dropped what the destination held")
		}
		got = got[1+i%2:]
		wins := s.Windows(cp.Docs[i].Dat)
		if len(got) != len(wins) {
			c.Fatalf("document %q has %d blots and %d full windows of %d words", cp.Docs[i].Dat, len(got), len(wins), s.S())
		}
		for k, w := range wins {
			if got[k]%s.Range() != w.Raw%s.Range() {
				c.Fatalf("blot %d of document %q is %x, want %x", k, cp.Docs[i].Dat, got[k], w.Raw)
			}
		}
		c.SubEval(fmt.Sprint("doc", i), len(wins) > 1 && i > 0)
	}
	c.Class("interleaved", I > 1)
	c.Class(fmt.Sprintf("word family %d", fam), true)
}
