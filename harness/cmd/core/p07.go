package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P07",
		Rule:  "A case is an index over generated documents stored in files, and 4 to 16 goroutines each with a drawn list of operations (lookups, whole iterations with and without slot limits, locating blots, matching texts, blots of a document, statistics) on the one open index, run first alone and then all together, repeatedly. Evaluations count operations run in parallel; each must give the result it gave alone. Non-trivial: the operation's result is not empty.",
		Quick: 24, Thorough: 250, MaxProcs: 8, Workers: 4,
		Fn: p07,
	})
}

// WriteDocs stores each document's text in a file, so that it can be located.
func writeDocs(c *fw.C, docs []model.DocSpec, dir string) {
	for i := range docs {
		d := &docs[i]
		d.Path = filepath.Join(dir, fmt.Sprintf("f%d", i))
		d.Start, d.End = 0, uint32(len(d.Dat))
		if err := os.WriteFile(d.Path, d.Dat, 0644); err != nil {
			fw.Broken("%v", err)
		}
	}
}

func docsText(ds []dupi.Doc) string {
	var b strings.Builder
	for i := range ds {
		fmt.Fprintf(&b, " %s@%d:%d", ds[i].Path, ds[i].Start, ds[i].End)
	}
	return b.String()
}

func p07(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 3, Many: true})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 3, MaxDocs: 18, Dense: true, Long: 12})
	writeDocs(c, cp.Docs, c.Dir())
	ng := c.Pick("goroutines", 8, 4, 16)
	rounds := c.Pick("rounds", 3, 6)
	seed := c.Seed("ops")
	r := model.Rand(c, "opsrand")
	c.Describe("%s goroutines=%d rounds=%d ops=%d:%s", s, ng, rounds, seed, cp)
	ref := cp.Ref(s.Shape)
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, cp.Docs)
	idx := model.Open(c, root)
	defer idx.Close()
	all := ref.Blots(1)
	pick := func() uint32 {
		if len(all) == 0 || r.Intn(8) == 0 {
			return r.Uint32()
		}
		return all[r.Intn(len(all))]
	}
	type op struct {
		name string
		run  func() string
		want string
	}
	newOp := func() *op {
		switch r.Intn(8) {
		case 0, 1, 2:
			bs := make([]uint32, 40)
			for i := range bs {
				bs[i] = pick()
			}
			return &op{name: "lookups", run: func() string {
				q := idx.StartQuery(dupi.QueryMaxBlot)
				var sb strings.Builder
				for _, b := range bs {
					bl := dupi.Blot{Blot: b}
					err := q.Get(&bl)
					fmt.Fprintf(&sb, "%x err=%v%s\n", b, err, docsText(bl.Docs))
				}
				return sb.String()
			}}
		case 3, 4:
			batch := 1 + r.Intn(5)
			lim := r.Intn(4)
			return &op{name: fmt.Sprintf("iteration batch=%d limit=%d", batch, lim), run: func() string {
				q := idx.StartQuery(dupi.QueryMaxBlot)
				var sb strings.Builder
				for k := 0; k < 100000; k++ {
					dst := make([]dupi.Blot, batch)
					if lim > 0 {
						for i := range dst {
							dst[i].Docs = make([]dupi.Doc, 0, lim)
						}
					}
					n, err := q.Next(dst)
					for _, d := range dst[:n] {
						fmt.Fprintf(&sb, "%x%s\n", d.Blot, docsText(d.Docs))
					}
					if err != nil || n == 0 {
						fmt.Fprintf(&sb, "end %v", err)
						break
					}
				}
				return sb.String()
			}}
		case 5:
			b := pick()
			i := r.Intn(len(cp.Docs))
			if l := ref.M[b]; len(l) > 0 && r.Intn(4) > 0 {
				i = l[r.Intn(len(l))]
			}
			return &op{name: "locate", run: func() string {
				d := cp.Docs[i].Doc()
				d.Dat = nil
				st, en, err := idx.FindBlot(b, d)
				return fmt.Sprintf("%d:%d err=%v", st, en, err != nil)
			}}
		case 6:
			i, j := r.Intn(len(cp.Docs)), r.Intn(len(cp.Docs))
			m := map[uint32][]byte{}
			for _, w := range s.Windows(cp.Docs[j].Dat) {
				m[w.Raw%s.Range()] = cp.Docs[j].Dat[w.Start:w.End]
			}
			return &op{name: "match", run: func() string {
				d := cp.Docs[i].Doc()
				d.Dat = nil
				res, err := idx.FindBlots(m, d)
				var ks []string
				for b, t := range res {
					ks = append(ks, fmt.Sprintf("%x=%q", b, t))
				}
				sort.Strings(ks)
				return fmt.Sprint(ks, err != nil, idx.BlotDoc(nil, cp.Docs[i].Doc()))
			}}
		default:
			return &op{name: "stats", run: func() string {
				st, err := idx.Stats()
				return fmt.Sprint(st, err)
			}}
		}
	}
	ops := make([][]*op, ng)
	for g := range ops {
		for k := 0; k < 8; k++ {
			o := newOp()
			o.want = o.run()
			ops[g] = append(ops[g], o)
		}
	}
	// what they give alone is right
	if err := ref.CheckAll(idx, root, false, nil, []int{4}); err != nil {
		c.Fatalf("run alone: %v", err)
	}
	old := runtime.GOMAXPROCS(8)
	defer runtime.GOMAXPROCS(old)
	for k := 0; k < rounds; k++ {
		var wg sync.WaitGroup
		errs := make([]string, ng)
		start := make(chan bool)
		for g := range ops {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[g] = fmt.Sprintf("panic: %v", p)
					}
				}()
				<-start
				for _, o := range ops[g] {
					if got := o.run(); got != o.want {
						errs[g] = fmt.Sprintf("%s gave in parallel\n%s\nand alone\n%s", o.name, clip(got), clip(o.want))
						return
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for _, e := range errs {
			if e != "" {
				c.Fatalf("%s", e)
			}
		}
		c.Beat()
	}
	for g := range ops {
		for k, o := range ops[g] {
			for j := 0; j < rounds; j++ {
				c.SubEval(fmt.Sprint(g, k, j), strings.ContainsAny(o.want, "@=") || o.name == "stats")
			}
		}
	}
	c.Class("shared blots", len(ref.Blots(2)) > 2)
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}
