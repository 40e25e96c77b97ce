package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P23",
		Rule:  "A case is a set of files holding generated texts, an index over them and over byte ranges of them, and runs of the blot command (with and without positions, on indexed and other files, several at a time, some missing) and of the unblot command (drawn blots, with and without -all). Blots must be those of the reference in order, positions the byte ranges of their windows; unblot must print every document of the blot exactly once (without -all, those in groups of two or more), under a text which is a window of it with that blot, in one group per text. Evaluations count runs. Non-trivial: the file has a full window; the blot has documents.",
		Quick: 14, Thorough: 500,
		Fn: p23,
	})
}

// files writes texts to files and gives the documents of an index over them.
func files(c *fw.C, cp *model.Corpus, dir string, r *rand.Rand) (docs []model.DocSpec, paths []string, desc string) {
	var d bytes.Buffer
	for i := 0; i < len(cp.Docs); {
		var file []byte
		var pieces [][2]int
		if r.Intn(4) == 0 {
			file = append(file, "header ☃ "...)
		}
		n := 1
		if r.Intn(3) == 0 {
			n = 2 + r.Intn(2)
		}
		for k := 0; k < n && i < len(cp.Docs); k++ {
			st := len(file)
			file = append(file, cp.Docs[i].Dat...)
			pieces = append(pieces, [2]int{st, len(file)})
			if r.Intn(2) == 0 {
				file = append(file, " \n"...)
			}
			i++
		}
		p := filepath.Join(dir, fmt.Sprintf("f%d", i))
		if r.Intn(5) == 0 {
			p = filepath.Join(dir, fmt.Sprintf("a dir/é %d", i))
		}
		write(p, file)
		paths = append(paths, p)
		switch r.Intn(6) {
		case 0, 1:
			pieces = append(pieces, [2]int{0, len(file)})
		case 2: // the whole file, as a document without a range
			docs = append(docs, model.DocSpec{Path: p, Dat: file})
		}
		for _, q := range pieces {
			if q[1] == 0 && len(file) > 0 {
				continue // a range 0:0 means the whole file
			}
			docs = append(docs, model.DocSpec{Path: p, Start: uint32(q[0]), End: uint32(q[1]), Dat: file[q[0]:q[1]]})
		}
		fmt.Fprintf(&d, " {%q %v}", file, pieces)
	}
	return docs, paths, d.String()
}

func p23(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxB: 5})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 2, MaxDocs: 12, Dense: true, MaxWords: 30, Long: 12})
	r := model.Rand(c, "files")
	dir := c.Dir()
	docs, paths, desc := files(c, cp, dir, r)
	crowd := uint32(0)
	if ws := s.Windows(cp.Docs[0].Dat); len(ws) > 0 && c.Rare("crowd", 6) {
		// hundreds of documents with one blot and one of many texts
		w := ws[r.Intn(len(ws))]
		crowd = w.Raw % s.Range()
		text := cp.Docs[0].Dat[w.Start:w.End]
		var pool [][]byte
		for n := 1 << uint(r.Intn(10)); n > 0; n-- {
			t := bytes.ToLower(text)
			for k := r.Intn(12); k > 0; k-- {
				if i := r.Intn(len(t)); t[i] >= 'a' && t[i] <= 'z' {
					t[i] -= 32
				} else if t[i] == ' ' {
					t[i] = '-'
				}
			}
			pool = append(pool, t)
		}
		p := filepath.Join(dir, "crowd")
		var file []byte
		var cuts [][2]int
		for n := 100 + r.Intn(900); n > 0; n-- {
			st := len(file)
			file = append(append(file, pool[r.Intn(len(pool))]...), " . \n"...)
			if st > 0 {
				cuts = append(cuts, [2]int{st, len(file)})
			}
		}
		for _, x := range cuts {
			docs = append(docs, model.DocSpec{Path: p, Start: uint32(x[0]), End: uint32(x[1]), Dat: file[x[0]:x[1]]})
		}
		write(p, file)
		desc += fmt.Sprintf(" {%q in %d spellings %d times}", text, len(pool), len(cuts))
		c.Class("a crowd of documents", true)
	}
	c.Describe("%s files:%s", s, desc)
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, docs)
	ref := model.NewRef(s.Shape)
	for i := range docs {
		ref.Add(&docs[i])
	}
	e := newEnv(c)
	e.dir = dir
	before, ibefore := model.Snapshot(dir), model.Snapshot(root)

	// blot
	foreign := filepath.Join(c.Dir(), "foreign")
	write(foreign, append(append([]byte("Other text: "), cp.Docs[0].Dat...), cp.Docs[len(cp.Docs)-1].Dat...))
	for k := 0; k < 5; k++ {
		args := []string{"-r", root, "blot"}
		pos := r.Intn(3) > 0
		if pos {
			args = append(args, "-offsets")
		}
		var want strings.Builder
		windows := false
		for n := r.Intn(3); n >= 0; n-- {
			p := paths[r.Intn(len(paths))]
			switch r.Intn(8) {
			case 0:
				p = foreign
			case 1:
				args = append(args, filepath.Join(dir, "missing"))
			}
			dat, err := os.ReadFile(p)
			if err != nil {
				fw.Broken("%v", err)
			}
			for _, w := range s.Windows(dat) {
				windows = true
				fmt.Fprintf(&want, "%x", w.Raw%s.Range())
				if pos {
					fmt.Fprintf(&want, " %d:%d", w.Start, w.End)
				}
				want.WriteByte('\n')
			}
			if r.Intn(2) == 0 {
				p, _ = filepath.Rel(e.dir, p)
			}
			args = append(args, p)
		}
		res := e.dupi(args...)
		if res.code != 0 && !strings.Contains(strings.Join(args, "\n"), "missing") {
			c.Fatalf("dupi %q exits with %d: %s", args, res.code, res.err)
		}
		if res.out != want.String() {
			c.Fatalf("dupi %q prints %s, want %s", args, cut(res.out), cut(want.String()))
		}
		c.SubEval(fmt.Sprint("blot", k), windows)
		c.Class("positions", pos && windows)
	}

	// unblot
	blots := ref.Blots(1)
	many := ref.Blots(2)
	for k := 0; k < 6; k++ {
		b := r.Uint32() % s.Range()
		if len(blots) > 0 && k > 0 {
			b = blots[r.Intn(len(blots))]
			if len(many) > 0 && r.Intn(3) > 0 {
				b = many[r.Intn(len(many))]
			}
		}
		if crowd != 0 && k == 1 {
			b = crowd
		}
		args := []string{"-r", root, "unblot"}
		all := r.Intn(2) == 0
		if all {
			args = append(args, "-all")
		}
		args = append(args, fmt.Sprintf("%x", b))
		bs := []uint32{b}
		if r.Intn(4) == 0 && len(blots) > 0 {
			if b2 := blots[r.Intn(len(blots))]; b2 != b {
				bs = append(bs, b2)
				args = append(args, fmt.Sprintf("%X", b2))
			}
		}
		res := e.ok(args...)
		if err := unblotOut(s.Shape, ref, docs, bs, all, res.out); err != nil {
			c.Fatalf("dupi %q prints %s: %v", args, cut(res.out), err)
		}
		c.SubEval(fmt.Sprint("unblot", k), len(ref.M[b]) > 0)
		c.Class("blot of several documents", len(ref.M[b]) > 1)
		c.Class("all groups", all)
		texts := map[string]bool{}
		for _, n := range ref.M[b] {
			for _, t := range textsOf(s.Shape, docs[n].Dat, b) {
				texts[t] = true
			}
		}
		c.Class("blot of several texts", len(texts) > 1)
	}
	if d := before.Diff(model.Snapshot(dir), nil) + ibefore.Diff(model.Snapshot(root), nil); d != "" {
		c.Fatalf("files were changed: %s", d)
	}
	if res := e.dupi("-r", root, "unblot", "xyz"); res.code == 0 {
		c.Fatalf("unblot xyz reports success")
	}
}

// textsOf lists the texts of the windows of dat with blot b.
func textsOf(s model.Shape, dat []byte, b uint32) []string {
	var res []string
	for _, w := range s.Windows(dat) {
		if w.Raw%s.Range() == b {
			res = append(res, string(dat[w.Start:w.End]))
		}
	}
	return res
}

type group struct {
	text string
	docs []string
}

func unblotOut(s model.Shape, ref *model.Ref, docs []model.DocSpec, bs []uint32, all bool, out string) error {
	lineOf := func(n int) string {
		d := ref.Docs[n]
		if d.Start == 0 && d.End == 0 {
			// it has no range: it is the whole file, and may be shown as that
			if l := fmt.Sprintf("\t%s 0:%d\n", d.Path, len(docs[n].Dat)); strings.Contains(out, l) {
				return l
			}
		}
		return fmt.Sprintf("\t%s %d:%d\n", d.Path, d.Start, d.End)
	}
	pos := out
	for _, b := range bs {
		lines := map[int]string{}
		byLine := map[string][]int{} // no path has an end of line
		for _, n := range ref.M[b] {
			l := lineOf(n)
			lines[n] = l
			byLine[l] = append(byLine[l], n)
		}
		// what may be printed for each document
		texts := map[int][]string{}
		var cands []string
		known := map[string]bool{}
		for _, n := range ref.M[b] {
			texts[n] = textsOf(s, docs[n].Dat, b)
			for _, t := range texts[n] {
				if !known[t] {
					known[t] = true
					cands = append(cands, t)
				}
			}
		}
		sort.Slice(cands, func(i, j int) bool { return len(cands[i]) > len(cands[j]) })
		var groups []group
	next:
		for strings.HasPrefix(pos, "text:\n'''\n") {
			rest := pos[len("text:\n'''\n"):]
			for _, t := range cands {
				if !strings.HasPrefix(rest, t+"'''\n\t") {
					continue
				}
				g := group{text: t}
				p := rest[len(t)+4:]
				for strings.HasPrefix(p, "\t") {
					l := p[:strings.IndexByte(p, '\n')+1]
					if len(byLine[l]) == 0 {
						return fmt.Errorf("%q is not a document of blot %x", l, b)
					}
					g.docs = append(g.docs, l)
					p = p[len(l):]
				}
				groups = append(groups, g)
				pos = p
				continue next
			}
			if len(bs) > 1 {
				break // perhaps of the next blot
			}
			return fmt.Errorf("no text of a document with blot %x follows %s", b, cut(rest))
		}
		// judge
		seen := map[string]bool{}
		left := map[string]int{} // mentions owed
		for _, n := range ref.M[b] {
			left[lines[n]]++
		}
		for _, g := range groups {
			if seen[g.text] {
				return fmt.Errorf("two groups for text %q", g.text)
			}
			seen[g.text] = true
			if !all && len(g.docs) < 2 {
				return fmt.Errorf("text %q has a group of one", g.text)
			}
			for _, l := range g.docs {
				left[l]--
				if left[l] < 0 {
					return fmt.Errorf("document %q is printed twice", l)
				}
				ok := false
				for _, n := range byLine[l] {
					for _, t := range texts[n] {
						ok = ok || t == g.text
					}
				}
				if !ok {
					return fmt.Errorf("document %q has no window %q with blot %x", l, g.text, b)
				}
			}
		}
		single := map[string]int{}
		for _, n := range ref.M[b] {
			l := lines[n]
			if left[l] == 0 {
				continue
			}
			if all {
				return fmt.Errorf("document %q of blot %x is missing", l, b)
			}
			// it must be alone with its text, whichever that is
			if len(texts[n]) == 1 || same(texts[n]) {
				t := texts[n][0]
				single[t]++
				if single[t] > 1 || seen[t] {
					return fmt.Errorf("document %q, which has text %q like others, is missing", l, t)
				}
			}
		}
	}
	if pos != "" {
		return fmt.Errorf("unexpected output %s", cut(pos))
	}
	return nil
}

func same(ts []string) bool {
	for _, t := range ts {
		if t != ts[0] {
			return false
		}
	}
	return len(ts) > 0
}
