package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P10",
		Rule:  "A case is an index over documents that are whole files or drawn byte ranges of larger files (boundaries anywhere, also inside a character), some without a range, which are the whole file. For every blot and every document listed under it the blot is located, with the text loaded from the file or already in memory, and the range must be one of the document's windows with that blot; blots a document lacks must not be found, also for the documents of pages in result slots that are used again; and sets of true, reformatted and foreign window texts are matched against every document. Evaluations count locate and match calls. Non-trivial: the document is a slice that does not start its file, or the text set holds texts that must not match.",
		Quick: 40, Thorough: 600,
		Fn: p10,
	})
}

func p10(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 2, Many: true, Hundreds: true})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 2, MaxDocs: 10, Dense: true, Long: 12})
	r := model.Rand(c, "slices")
	dir := c.Dir()
	// files made of the documents' texts one after the other
	var docs []model.DocSpec
	var desc bytes.Buffer
	for i := 0; i < len(cp.Docs); {
		n := 1 + r.Intn(3)
		var file []byte
		var pieces [][2]int
		if r.Intn(3) == 0 {
			file = append(file, "header words ☃ "...)
		}
		for k := 0; k < n && i < len(cp.Docs); k++ {
			st := len(file)
			file = append(file, cp.Docs[i].Dat...)
			pieces = append(pieces, [2]int{st, len(file)})
			if r.Intn(2) == 0 {
				file = append(file, " \n"...)
			}
			i++
		}
		path := filepath.Join(dir, fmt.Sprintf("f%d", i))
		base := int64(0) // where in the file the texts begin
		if r.Intn(12) == 0 {
			base = []int64{1<<31 - 20, 1 << 31, 3 << 30, 1<<32 - 1 - int64(len(file)), 1 << 16}[r.Intn(5)]
			c.Class("far into a file", base > 1<<30)
		}
		f, err := os.Create(path)
		if err == nil {
			if err = f.Truncate(base + int64(len(file))); err == nil {
				_, err = f.WriteAt(file, base)
			}
			f.Close()
		}
		if err != nil {
			fw.Broken("%v", err)
		}
		if len(file) > 0 && base == 0 {
			switch r.Intn(6) {
			case 0, 1: // the whole file too
				pieces = append(pieces, [2]int{0, len(file)})
			case 2: // the same, as a document without a range
				docs = append(docs, model.DocSpec{Path: path, Dat: file})
			}
			if r.Intn(3) == 0 { // any range
				a := r.Intn(len(file))
				pieces = append(pieces, [2]int{a, a + 1 + r.Intn(len(file)-a)})
			}
		}
		for _, p := range pieces {
			if p[1] == 0 && len(file) > 0 && base == 0 {
				continue // a range 0:0 means the whole file
			}
			docs = append(docs, model.DocSpec{Path: path, Start: uint32(base + int64(p[0])), End: uint32(base + int64(p[1])), Dat: file[p[0]:p[1]]})
		}
		if len(file) > 400 {
			fmt.Fprintf(&desc, " {%q... %v after %d}", file[:400], pieces, base)
		} else {
			fmt.Fprintf(&desc, " {%q %v after %d}", file, pieces, base)
		}
	}
	c.Describe("%s files:%s", s, desc.String())
	ref := model.NewRef(s.Shape)
	for i := range docs {
		ref.Add(&docs[i])
	}
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, docs)
	idx := model.Open(c, root)
	defer idx.Close()
	byDoc := map[model.RDoc]*model.DocSpec{}
	for i := range docs {
		byDoc[model.RDoc{Path: docs[i].Path, Start: docs[i].Start, End: docs[i].End}] = &docs[i]
	}
	text := map[*model.DocSpec][]byte{}
	for i := range docs {
		text[&docs[i]] = append([]byte{}, docs[i].Dat...)
	}
	// the calls leave the document they are given, and its text, alone
	intact := func(spec *model.DocSpec, doc *dupi.Doc, how string) {
		c.Helper()
		if doc.Path != spec.Path || doc.Dat != nil && !bytes.Equal(doc.Dat, text[spec]) {
			c.Fatalf("after a call the document %q@%d:%d %q given to it is %q with text %q (%s)", filepath.Base(spec.Path), spec.Start, spec.End, text[spec], filepath.Base(doc.Path), doc.Dat, how)
		}
	}
	locate := func(b uint32, spec *model.DocSpec, doc *dupi.Doc, how string) {
		c.Helper()
		var ok []model.Win
		for _, w := range s.Windows(spec.Dat) {
			if w.Raw%s.Range() == b {
				ok = append(ok, w)
			}
		}
		st, en, err := idx.FindBlot(b, doc)
		intact(spec, doc, how)
		c.SubEval(fmt.Sprint(b, spec.Path, spec.Start, spec.End, how), spec.Start > 0)
		if len(ok) == 0 {
			if err == nil {
				c.Fatalf("blot %x, which document %q@%d:%d %q does not have, was located at %d:%d (%s)", b, filepath.Base(spec.Path), spec.Start, spec.End, spec.Dat, st, en, how)
			}
			return
		}
		if err != nil {
			c.Fatalf("blot %x of document %q@%d:%d %q was not located: %v (%s)", b, filepath.Base(spec.Path), spec.Start, spec.End, spec.Dat, err, how)
		}
		for _, w := range ok {
			if st == spec.Start+uint32(w.Start) && en == spec.Start+uint32(w.End) {
				return
			}
		}
		c.Fatalf("blot %x of document %q@%d:%d %q was located at %d:%d (%s), which is not a window of it with that blot; those are %v after %d", b, filepath.Base(spec.Path), spec.Start, spec.End, spec.Dat, st, en, how, ok, spec.Start)
	}
	q := idx.StartQuery(dupi.QueryMaxBlot)
	blots := ref.Blots(1)
	for k, b := range blots {
		if k >= 60 {
			break
		}
		bl := dupi.Blot{Blot: b}
		c.NoErr(q.Get(&bl), "lookup of blot %x", b)
		for i := range bl.Docs {
			spec := byDoc[model.FromDocs(bl.Docs)[i]]
			if spec == nil {
				c.Fatalf("blot %x lists %v, which was not added", b, bl.Docs[i])
			}
			locate(b, spec, &bl.Docs[i], "listed, loaded from the file")
			if k%4 == 0 {
				locate(b, spec, spec.Doc(), "text in memory")
			}
		}
		// a document that may not have it
		spec := &docs[r.Intn(len(docs))]
		d := spec.Doc()
		if r.Intn(2) == 0 {
			d.Dat = nil
		}
		locate(b, spec, d, "any document")
	}
	// pages of results in slots that are used again
	slot := dupi.Blot{Docs: make([]dupi.Doc, 0, 1+r.Intn(4))}
	page := func(how string) {
		c.Helper()
		for i := range slot.Docs {
			rd := model.FromDocs(slot.Docs)[i]
			spec := byDoc[rd]
			if spec == nil {
				c.Fatalf("blot %x lists %v, which was not added", slot.Blot, rd)
			}
			if r.Intn(4) > 0 {
				locate(slot.Blot, spec, &slot.Docs[i], how)
			}
		}
	}
	q = idx.StartQuery(dupi.QueryMaxBlot)
	for k := 0; k < 60; k++ {
		slot.Docs = slot.Docs[:0]
		dst := []dupi.Blot{slot}
		n, err := q.Next(dst)
		if model.IsEOF(err) {
			break
		}
		c.NoErr(err, "extraction")
		if n != 1 {
			c.Fatalf("Next returned %d of 1 and no error", n)
		}
		slot = dst[0]
		page("on a page of extraction in a slot used before")
	}
	for k := 0; k < 30 && k < len(blots); k++ {
		slot.Docs = slot.Docs[:0]
		slot.Blot = blots[r.Intn(len(blots))]
		c.NoErr(q.Get(&slot), "bounded lookup of blot %x", slot.Blot)
		page("by a lookup into a slot used before")
	}
	for k := 0; k < 10; k++ {
		spec := &docs[r.Intn(len(docs))]
		locate(r.Uint32()%s.Range(), spec, spec.Doc(), "any blot")
	}
	// matching sets of texts
	for i := range docs {
		m := map[uint32][]byte{}
		foreign := false
		most := 30
		if r.Intn(3) == 0 {
			most = 1 << 20
		}
		odd := []int{6, 60, 1000000}[r.Intn(3)] // few or many that do not match
		for k := r.Intn(4); k >= 0; k-- {
			j := i
			if r.Intn(2) == 0 && odd <= 60 {
				j = r.Intn(len(docs))
			}
			ws := s.Windows(docs[j].Dat)
			for n, w := range ws {
				if n > most {
					break
				}
				t := append([]byte{}, docs[j].Dat[w.Start:w.End]...)
				switch r.Intn(odd) {
				case 0: // same words, other text
					t = bytes.ToUpper(t)
				case 1:
					t = append(t, '.')
				case 2:
					t = bytes.Replace(t, []byte(" "), []byte("\n"), 1)
				}
				m[w.Raw%s.Range()] = t
				if j != i {
					foreign = true
				}
			}
		}
		m[r.Uint32()%s.Range()] = []byte("foreign text")
		want := map[uint32]string{}
		for _, w := range s.Windows(docs[i].Dat) {
			b := w.Raw % s.Range()
			if t := docs[i].Dat[w.Start:w.End]; m[b] != nil && bytes.Equal(m[b], t) {
				want[b] = string(t)
			}
		}
		d := docs[i].Doc()
		if r.Intn(3) > 0 {
			d.Dat = nil
		}
		given := make(map[uint32]string, len(m))
		for b, t := range m {
			given[b] = string(t)
		}
		got, err := idx.FindBlots(m, d)
		intact(&docs[i], d, "matching texts")
		for b, t := range given {
			if g, ok := m[b]; !ok || string(g) != t || len(m) != len(given) {
				c.Fatalf("matching changed the texts it was given: %d of them, %q with blot %x; now %d of them, %q", len(given), t, b, len(m), g)
			}
		}
		c.SubEval(fmt.Sprint("match", i), docs[i].Start > 0 || foreign)
		c.NoErr(err, "matching %q against document %d:%d %q", m, docs[i].Start, docs[i].End, docs[i].Dat)
		for b, t := range want {
			if g, ok := got[b]; !ok || string(g) != t {
				c.Fatalf("document %d:%d %q: text %q with blot %x is a window of it but was not returned (got %q)", docs[i].Start, docs[i].End, docs[i].Dat, t, b, got)
			}
		}
		if len(got) != len(want) {
			c.Fatalf("document %d:%d %q: matching returned %q, want %q", docs[i].Start, docs[i].End, docs[i].Dat, got, want)
		}
		// one text at a time, those first that are not the first with their blot
		ws := s.Windows(docs[i].Dat)
		seen := map[uint32]bool{}
		var late, all []model.Win
		for _, w := range ws {
			if b := w.Raw % s.Range(); seen[b] && len(late) < 4 {
				late = append(late, w)
			} else {
				seen[b] = true
				all = append(all, w)
			}
		}
		for k := 0; k < 2 && len(all) > 0; k++ {
			late = append(late, all[r.Intn(len(all))])
		}
		for _, w := range late {
			b, t := w.Raw%s.Range(), docs[i].Dat[w.Start:w.End]
			if k := r.Intn(8); k == 0 {
				t = append(bytes.ToUpper(t), '!')
			}
			got, err := idx.FindBlots(map[uint32][]byte{b: append([]byte{}, t...)}, docs[i].Doc())
			c.NoErr(err, "matching %q against document %d:%d %q", t, docs[i].Start, docs[i].End, docs[i].Dat)
			n := 0
			for _, o := range ws {
				if o.Raw%s.Range() == b && bytes.Equal(docs[i].Dat[o.Start:o.End], t) {
					n = 1
				}
			}
			if len(got) != n || n == 1 && !bytes.Equal(got[b], t) {
				c.Fatalf("document %d:%d %q: matching the one text %q with blot %x returned %q", docs[i].Start, docs[i].End, docs[i].Dat, t, b, got)
			}
			c.SubEval(fmt.Sprint("one", i, w.Start), true)
		}
		c.Class("hundreds of texts that match", len(want) > 256)
		c.Class("slice with a match", docs[i].Start > 0 && len(want) > 0)
	}
	// a document whose file is gone
	gone := docs[0].Doc()
	gone.Path += ".gone"
	gone.Dat = nil
	if _, _, err := idx.FindBlot(0, gone); err == nil {
		c.Fatalf("locating a blot in a missing file reports no error")
	}
	gone.Dat = nil
	if _, err := idx.FindBlots(map[uint32][]byte{1: []byte("x")}, gone); err == nil {
		c.Fatalf("matching texts in a missing file reports no error")
	}
	c.Class("shared blots", len(ref.Blots(2)) > 0)
}
