package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P24",
		Rule:  "A case is a set of files, an index over them and over byte ranges of them, and five runs of the like command on files made of verbatim and reformatted pieces of the indexed texts and of other text, with windows of equal blot (reordered words, words that cancel out) before and after the shared one. Printed must be, once each, the documents that contain verbatim a full window of the file. Evaluations count queried files. Non-trivial: some document has a window with the blot of a window of the file.",
		Quick: 14, Thorough: 500, HangSec: 120,
		Fn: p24,
	})
}

func p24(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxB: 5})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 2, MaxDocs: 12, Dense: true, MaxWords: 30, Long: 12})
	r := model.Rand(c, "files")
	dir := c.Dir()
	docs, paths, desc := files(c, cp, dir, r)
	if c.Rare("crowd", 8) {
		// hundreds of documents with the same passage
		p := filepath.Join(dir, "crowd")
		var file []byte
		text := cp.Docs[0].Dat[:min(200, len(cp.Docs[0].Dat))]
		for n := 100 + r.Intn(600); n > 0; n-- {
			st := len(file)
			file = append(append(file, text...), " . "...)
			if r.Intn(4) == 0 {
				file = append(file, fmt.Sprintf("but %d\n", n)...)
			}
			if st > 0 {
				docs = append(docs, model.DocSpec{Path: p, Start: uint32(st), End: uint32(len(file)), Dat: file[st:]})
			}
		}
		for i := range docs { // Dat may have moved
			if d := &docs[i]; d.Path == p {
				d.Dat = file[d.Start:d.End]
			}
		}
		write(p, file)
		desc += fmt.Sprintf(" {%q %d times}", text, len(file)/(len(text)+3))
		c.Class("a crowd of documents", true)
	}
	seed := c.Seed("queries")
	c.Describe("%s queries=%d files:%s", s, seed, desc)
	r.Seed(seed)
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, docs)
	ref := model.NewRef(s.Shape)
	for i := range docs {
		ref.Add(&docs[i])
	}
	e := newEnv(c)
	e.dir = dir
	before, ibefore := model.Snapshot(dir), model.Snapshot(root)
	qdir := c.Dir()
	S := s.S()
	for k := 0; k < 5; k++ {
		args := []string{"-r", root, "like"}
		if r.Intn(4) == 0 {
			args = append(args, "--") // the files begin
		}
		type query struct {
			path string
			dat  []byte
		}
		var qs []query
		for n := r.Intn(5) / 3; n >= 0; n-- {
			var q query
			if r.Intn(5) == 0 {
				q.path = paths[r.Intn(len(paths))]
				q.dat, _ = os.ReadFile(q.path)
			} else {
				var b bytes.Buffer
				if r.Intn(6) == 0 {
					// thousands of other words first
					n := 1 << uint(8+r.Intn(5))
					if r.Intn(4) == 0 {
						n = 1<<16 + r.Intn(1<<16)
						c.Class("a file of more than 2^16 words", true)
					}
					for ; n > 0; n-- {
						fmt.Fprintf(&b, "%x ", r.Uint32())
					}
				}
				for parts := r.Intn(4); parts >= 0; parts-- {
					d := docs[r.Intn(len(docs))].Dat
					ws := model.Words(d)
					if len(ws) > 0 {
						i := r.Intn(len(ws))
						l := S + r.Intn(4) - 1
						if r.Intn(3) == 0 {
							l = len(ws)
						}
						j := min(len(ws), i+max(l, 1)) - 1
						piece := d[ws[i].Start:ws[j].End]
						switch r.Intn(5) {
						case 0: // other case and separators
							piece = bytes.ToUpper(bytes.ReplaceAll(piece, []byte(" "), []byte("  ")))
						case 1: // the same words in another order
							var o []string
							for _, w := range ws[i : j+1] {
								o = append(o, w.Text)
							}
							for m := 0; m+s.I < len(o); m++ {
								if r.Intn(2) == 0 {
									o[m], o[m+s.I] = o[m+s.I], o[m]
								}
							}
							piece = []byte(strings.Join(o, " "))
						case 2: // once more, spelled otherwise
							b.Write(bytes.ToUpper(piece))
							b.WriteString(" -- ")
						}
						b.Write(piece)
					}
					if r.Intn(2) == 0 {
						b.WriteString([]string{" ", "\n", ". Something else, ", "; a a a a "}[r.Intn(4)])
					}
				}
				q.dat = b.Bytes()
			}
			// the command reads a document once more for every blot it has in common
			// with the file, until it is found to have a text in common
			for cut := false; ; cut = true {
				cost := 0
				for _, w := range s.Windows(q.dat) {
					for _, i := range ref.M[w.Raw%s.Range()] {
						cost += len(docs[i].Dat)
					}
				}
				if cost <= 30<<20 {
					c.Class("shortened query", cut)
					break
				}
				q.path, q.dat = "", q.dat[:len(q.dat)/2]
			}
			if q.path == "" {
				q.path = filepath.Join(qdir, fmt.Sprintf("q%d.%d", k, n))
				write(q.path, q.dat)
			}
			qs = append(qs, q)
			args = append(args, q.path)
		}
		res := e.ok(args...)
		out := res.out
		for i, q := range qs {
			texts := map[string]bool{}
			blots := map[uint32]bool{}
			var nb int
			for _, w := range s.Windows(q.dat) {
				texts[string(q.dat[w.Start:w.End])] = true
				blots[w.Raw%s.Range()] = true
				nb++
			}
			want := map[string]bool{} // every line that must be there
			cand, collide := false, false
			for n := range docs {
				like := false
				for _, w := range s.Windows(docs[n].Dat) {
					if blots[w.Raw%s.Range()] {
						cand = true
					}
					if texts[string(docs[n].Dat[w.Start:w.End])] {
						like = true
						break
					}
				}
				if like {
					d := ref.Docs[n]
					want[fmt.Sprintf("\t%s %d:%d\n", d.Path, d.Start, d.End)] = true
				}
			}
			collide = len(texts) > len(blots)
			head := fmt.Sprintf("like %s:\n", q.path)
			if !strings.HasPrefix(out, head) {
				c.Fatalf("dupi %q: no %q before %s", args, head, cut(out))
			}
			out = out[len(head):]
			got := map[string]bool{}
			for strings.HasPrefix(out, "\t") {
				j := strings.IndexByte(out, '\n') // none of the paths has one
				if j < 0 {
					c.Fatalf("dupi %q: no end of line in %s", args, cut(out))
				}
				l := out[:j+1]
				out = out[j+1:]
				if got[l] {
					c.Fatalf("dupi %q on %q prints %q twice", args, q.dat, l)
				}
				got[l] = true
				if !want[l] {
					c.Fatalf("dupi %q on %q prints %q, which contains none of its windows verbatim", args, q.dat, l)
				}
			}
			for l := range want {
				if !got[l] {
					c.Fatalf("dupi %q on %q does not print %q, which contains one of its windows verbatim; printed are %q", args, q.dat, l, got)
				}
			}
			c.SubEval(fmt.Sprint(k, i), cand)
			c.Class("windows of equal blot and other text", collide)
			c.Class("found some, not all", len(got) > 0 && len(got) < len(docs))
			c.Class("candidates by blot only", cand && len(got) == 0)
		}
		if out != "" {
			c.Fatalf("dupi %q: unexpected output %s", args, cut(out))
		}
	}
	if d := before.Diff(model.Snapshot(dir), nil) + ibefore.Diff(model.Snapshot(root), nil); d != "" {
		c.Fatalf("files were changed: %s", d)
	}
	if res := e.dupi("-r", root, "like", filepath.Join(dir, "missing")); res.code == 0 {
		c.Fatalf("like on a missing file reports success")
	}
}
