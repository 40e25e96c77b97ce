package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P28",
		Rule:  "A case is a history of 6 to 16 drawn operations on up to five indexes in a small directory tree: create, append, move, copy, move the parent directory, remove (as reader or as indexer), use the others while one is held for appending, change the working directory, each under a drawn spelling of the path; after each, drawn indexes (at the end all) are opened under a drawn spelling and compared with the reference of their own directory. Evaluations count comparisons. Non-trivial: the index compared is not where it was created, or its copy or original was changed since.",
		Quick: 10, Thorough: 220, HangSec: 60,
		Fn: p28,
	})
	props = append(props, &fw.Prop{
		ID:    "P27",
		Rule:  "A case is a tree with documents (plain, read-only, linked), files named like parts or neighbours of the index, another index whose name shares a prefix, and a history of 4 to 9 drawn operations on one index (create, append, query and load documents, remove as reader or indexer, create afresh); after every operation everything outside the index directory and its lock file, the working, temporary and home directories included, is as before. Evaluations count operations. Non-trivial: the operation wrote or removed.",
		Quick: 12, Thorough: 250, HangSec: 60,
		Fn: p27,
	})
}

type p28index struct {
	ref     *model.Ref
	setup   model.Setup
	moved   bool
	touched bool // its copy or original changed
	family  int
}

func p28(c *fw.C) {
	base := c.Dir()
	wd0, err := os.Getwd()
	if err != nil {
		fw.Broken("%v", err)
	}
	defer os.Chdir(wd0)
	must := func(err error) {
		if err != nil {
			fw.Broken("%v", err)
		}
	}
	seed := c.Seed("seed")
	nops := c.Pick("nops", 12, 6, 16)
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 2, MaxShatters: 3})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 6, MaxDocs: 14, Dense: true, MaxWords: 20})
	c.Describe("%d operations, %s seed=%d docs:%s", nops, s, seed, cp)
	r := model.Rand(c, "ops")
	dirs := []string{"d0", "d1", "d1/sub"}
	for _, d := range dirs {
		must(os.MkdirAll(filepath.Join(base, d), 0755))
	}
	live := map[string]*p28index{} // by absolute path
	var trace []string
	names := []string{"i", "i.x", "j", "I", ".i", "i~"}
	paths := func() []string {
		var res []string
		for _, d := range []string{"d0", "d1", "d1/sub", "e0", "e1", "e1/sub"} {
			for _, n := range names {
				p := filepath.Join(base, d, n)
				if live[p] != nil {
					res = append(res, p)
				}
			}
		}
		return res
	}
	free := func() string {
		for k := 0; ; k++ {
			d := []string{"d0", "d1", "d1/sub", "e0", "e1", "e1/sub"}[r.Intn(6)]
			p := filepath.Join(base, d, names[r.Intn(len(names))])
			if ps := paths(); len(ps) > 0 && k < 4 && r.Intn(2) == 0 { // next to another
				o := ps[r.Intn(len(ps))]
				p = filepath.Join(filepath.Dir(o), names[r.Intn(len(names))])
				if n := filepath.Base(o); r.Intn(2) == 0 {
					p = filepath.Join(filepath.Dir(o), map[string]string{"i": "I", "I": "i"}[n])
				}
			}
			if _, err := os.Lstat(p); !os.IsNotExist(err) {
				continue
			}
			if fi, err := os.Stat(filepath.Dir(p)); err == nil && fi.IsDir() {
				return p
			}
		}
	}
	fail := func(format string, args ...interface{}) {
		c.Fatalf("%s\noperations: %s", fmt.Sprintf(format, args...), strings.Join(trace, "; "))
	}
	sp := func(p string) string {
		k := r.Intn(12)
		if k >= 9 {
			c.Class("by way of a symbolic link", true)
			p = viaLink(r, filepath.Join(base, "links"), p)
			k = []int{0, 1, 2, 3, 5, 6, 7}[r.Intn(7)]
		}
		return spell(r, p, k)
	}
	// is tells whether root, as given by dupi, is the directory p.
	is := func(root, p string) bool {
		if root == p {
			return true
		}
		a, erra := os.Stat(root)
		b, errb := os.Stat(p)
		return filepath.IsAbs(root) && erra == nil && errb == nil && os.SameFile(a, b)
	}
	next := 0
	docs := func() []model.DocSpec {
		n := r.Intn(4)
		var res []model.DocSpec
		for ; n > 0; n-- {
			res = append(res, cp.Docs[next%len(cp.Docs)])
			next++
		}
		return res
	}
	verify := func(p string) {
		x := live[p]
		arg := sp(p)
		idx, err := dupi.OpenIndex(arg)
		if err != nil {
			fail("opening %s as %q: %v", p, arg, err)
		}
		if !is(idx.Root(), p) {
			fail("opened %q, but the index says its root is %q", arg, idx.Root())
		}
		if err := x.ref.CheckAll(idx, idx.Root(), false, nil, []int{5}); err != nil {
			fail("index at %s: %v", p, err)
		}
		if err := idx.Close(); err != nil {
			fail("closing %s: %v", p, err)
		}
		c.SubEval(fmt.Sprint(len(trace), p), x.moved || x.touched)
	}
	changed := func(x *p28index) {
		for _, y := range live {
			if y != x && y.family == x.family {
				y.touched = true
			}
		}
	}
	family := 0
	for k := 0; k < nops; k++ {
		c.Beat()
		ps := paths()
		what := r.Intn(15)
		if len(ps) == 0 {
			what = 0
		}
		if len(ps) >= 4 && (what <= 1 || what == 7 || what == 8) {
			what = 3
		}
		var p string
		if len(ps) > 0 {
			p = ps[r.Intn(len(ps))]
		}
		short := func(p string) string { return strings.TrimPrefix(p, base) }
		switch {
		case what <= 1:
			q := free()
			arg := sp(q)
			trace = append(trace, fmt.Sprintf("create %s", short(q)))
			cfg := s.Config(arg)
			x, err := dupi.IndexerFromConfig(cfg)
			if err != nil {
				fail("creating %q: %v", arg, err)
			}
			if !is(x.Root(), q) {
				fail("created as %q, the indexer says its root is %q", arg, x.Root())
			}
			n := &p28index{ref: model.NewRef(s.Shape), setup: s, family: family}
			family++
			for _, d := range docs() {
				c.NoErr(x.Add(d.Doc()), "adding")
				n.ref.Add(&d)
			}
			c.NoErr(x.Close(), "closing")
			live[q] = n
		case what <= 4:
			arg := sp(p)
			trace = append(trace, "append "+short(p))
			x, err := dupi.OpenIndexer(arg)
			if err != nil {
				fail("opening %s as %q for appending: %v", p, arg, err)
			}
			if !is(x.Root(), p) {
				fail("opened as %q, the indexer says its root is %q", arg, x.Root())
			}
			ds := append(docs(), cp.Docs[next%len(cp.Docs)])
			for _, d := range ds {
				c.NoErr(x.Add(d.Doc()), "adding")
				live[p].ref.Add(&d)
			}
			c.NoErr(x.Close(), "closing")
			changed(live[p])
		case what <= 6:
			q := free()
			trace = append(trace, fmt.Sprintf("move %s to %s", short(p), short(q)))
			must(os.Rename(p, q))
			live[q] = live[p]
			live[q].moved = true
			delete(live, p)
		case what <= 8:
			q := free()
			trace = append(trace, fmt.Sprintf("copy %s to %s", short(p), short(q)))
			model.CopyTree(p, q)
			live[q] = &p28index{ref: live[p].ref.Clone(), setup: s, moved: true, family: live[p].family}
		case what == 9: // the parent directory changes its name
			n := r.Intn(2)
			from, to := fmt.Sprint("d", n), fmt.Sprint("e", n)
			if _, err := os.Stat(filepath.Join(base, from)); err != nil {
				from, to = to, from
			}
			if wd, _ := os.Getwd(); strings.HasPrefix(wd, filepath.Join(base, from)) {
				must(os.Chdir(base))
			}
			trace = append(trace, fmt.Sprintf("move %s to %s", from, to))
			must(os.Rename(filepath.Join(base, from), filepath.Join(base, to)))
			for _, q := range ps {
				if strings.HasPrefix(q, filepath.Join(base, from)+"/") {
					x := live[q]
					delete(live, q)
					x.moved = true
					live[filepath.Join(base, to)+strings.TrimPrefix(q, filepath.Join(base, from))] = x
				}
			}
		case what == 14: // use others while one is being written
			trace = append(trace, "hold "+short(p))
			x, err := dupi.OpenIndexer(sp(p))
			if err != nil {
				fail("opening %s for appending: %v", p, err)
			}
			for n, q := range ps {
				if q == p || n > 3 && r.Intn(2) == 0 {
					continue
				}
				verify(q)
				y, err := dupi.OpenIndexer(sp(q))
				if err != nil {
					fail("opening %s for appending while %s is: %v", q, p, err)
				}
				c.NoErr(y.Close(), "closing")
			}
			d := cp.Docs[next%len(cp.Docs)]
			c.NoErr(x.Add(d.Doc()), "adding")
			live[p].ref.Add(&d)
			c.NoErr(x.Close(), "closing")
			changed(live[p])
		case what == 10:
			cands := []string{base, filepath.Join(base, "d0"), filepath.Join(base, "d1", "sub"), wd0, p}
			d := cands[r.Intn(len(cands)-1)]
			if os.Chdir(d) == nil {
				trace = append(trace, "chdir "+short(d))
			}
			continue
		default: // remove
			arg := sp(p)
			if r.Intn(2) == 0 {
				trace = append(trace, "remove "+short(p))
				idx, err := dupi.OpenIndex(arg)
				if err != nil {
					fail("opening %s as %q: %v", p, arg, err)
				}
				if err := dupi.RemoveIndex(idx); err != nil {
					fail("removing %s as %q: %v", p, arg, err)
				}
			} else {
				trace = append(trace, "remove by indexer "+short(p))
				x, err := dupi.OpenIndexer(arg)
				if err != nil {
					fail("opening %s as %q for appending: %v", p, arg, err)
				}
				if r.Intn(2) == 0 {
					d := cp.Docs[0]
					c.NoErr(x.Add(d.Doc()), "adding")
				}
				if err := dupi.RemoveIndexer(x); err != nil {
					fail("removing %s as %q: %v", p, arg, err)
				}
			}
			if _, err := os.Lstat(p); !os.IsNotExist(err) {
				fail("%s is still there after its removal", p)
			}
			changed(live[p])
			delete(live, p)
		}
		c.Class(strings.Fields(trace[len(trace)-1])[0], true)
		for _, q := range paths() {
			if r.Intn(3) == 0 {
				verify(q)
			}
		}
	}
	for _, q := range paths() {
		verify(q)
	}
}

func p27(c *fw.C) {
	base := c.Dir()
	wd0, err := os.Getwd()
	if err != nil {
		fw.Broken("%v", err)
	}
	defer os.Chdir(wd0)
	must := func(err error) {
		if err != nil {
			fw.Broken("%v", err)
		}
	}
	seed := c.Seed("seed")
	nops := c.Pick("nops", 6, 4, 9)
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 2, MaxShatters: 3})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 2, MaxDocs: 8, Dense: true, MaxWords: 20})
	c.Describe("%d operations, %s seed=%d docs:%s", nops, s, seed, cp)
	r := model.Rand(c, "ops")
	root := filepath.Join(base, "t", "idx")
	if r.Intn(3) == 0 { // alone in its directory
		root = filepath.Join(base, "t", "own", "idx")
		must(os.MkdirAll(filepath.Dir(root), 0755))
		c.Class("alone in its directory", true)
	}
	must(os.MkdirAll(filepath.Join(base, "t", "docs"), 0755))
	must(os.MkdirAll(filepath.Join(base, "cwd"), 0755))
	must(os.Chdir(filepath.Join(base, "cwd")))
	// documents are files
	var specs []model.DocSpec
	for i, d := range cp.Docs {
		p := filepath.Join(base, "t", "docs", fmt.Sprint("doc", i))
		switch r.Intn(5) {
		case 0:
			p = filepath.Join(base, "cwd", fmt.Sprint("doc", i))
		case 1: // next to the index, named like a part of it
			p = filepath.Join(base, "t", []string{"idx.lock.txt", "idx.bak", "dmd", "cfg.json", "files.fnm", "b0.pos", "b0.pos.iix", ".dupi", "idx2.lock"}[r.Intn(9)])
		}
		if _, err := os.Lstat(p); err == nil {
			p = filepath.Join(base, "t", "docs", fmt.Sprint("doc", i))
		}
		must(os.WriteFile(p, d.Dat, []os.FileMode{0644, 0444, 0600, 0755}[r.Intn(4)]))
		if r.Intn(5) == 0 {
			l := p + ".lnk"
			must(os.Symlink(p, l))
			p = l
		}
		if filepath.Dir(p) == filepath.Join(base, "cwd") && r.Intn(2) == 0 {
			p = filepath.Base(p)
		}
		specs = append(specs, model.DocSpec{Path: p, End: uint32(len(d.Dat)), Dat: d.Dat})
	}
	// a neighbouring index
	other := filepath.Join(base, "t", []string{"idx2", "idx.old", "id", "IDX"}[r.Intn(4)])
	if _, err := os.Lstat(other + ".lock"); os.IsNotExist(err) && r.Intn(2) == 0 {
		model.Build(c, s, other, specs)
	}
	for _, suffix := range []string{"~", ".json", ".tmp", ".new", ".cfg", ".log", ".dmd", ".pos", ".1", "-old", ".lock~", "lock", " "} {
		must(os.WriteFile(filepath.Join(base, "t", "idx"+suffix), []byte("x"), 0644))
	}
	watched := []string{base, os.TempDir(), os.Getenv("HOME")}
	allow := func(p string) bool {
		return p == root || strings.HasPrefix(p, root+"/") || p == root+".lock" || p == filepath.Dir(root)
	}
	take := func() []model.Snap {
		var res []model.Snap
		for _, w := range watched {
			res = append(res, model.Snapshot(w))
		}
		return res
	}
	snaps := take()
	exists := false
	var ref *model.Ref
	var what string
	for k := 0; k < nops; k++ {
		c.Beat()
		wrote := true
		op := r.Intn(8)
		switch {
		case !exists:
			what = "creating"
			x, err := dupi.IndexerFromConfig(s.Config(root))
			c.NoErr(err, "creating (operation %d)", k)
			ref = model.NewRef(s.Shape)
			for i := range specs {
				if r.Intn(4) > 0 {
					c.NoErr(x.Add(specs[i].Doc()), "adding")
					ref.Add(&specs[i])
				}
			}
			c.NoErr(x.Close(), "closing")
			exists = true
		case op <= 2:
			what = "appending"
			x, err := dupi.OpenIndexer(root)
			c.NoErr(err, "appending (operation %d)", k)
			for i := range specs {
				if r.Intn(3) == 0 {
					c.NoErr(x.Add(specs[i].Doc()), "adding")
					ref.Add(&specs[i])
				}
			}
			c.NoErr(x.Close(), "closing")
		case op <= 5:
			what, wrote = "querying", false
			idx := model.Open(c, root)
			if err := ref.CheckAll(idx, root, false, nil, []int{2}); err != nil {
				c.Fatalf("%v", err)
			}
			q := idx.StartQuery(dupi.QueryMaxBlot)
			for _, b := range ref.Blots(1) {
				blot := dupi.Blot{Blot: b}
				c.NoErr(q.Get(&blot), "lookup")
				for i := range blot.Docs {
					if _, _, err := idx.FindBlot(b, &blot.Docs[i]); err != nil {
						c.Fatalf("locating blot %x: %v", b, err)
					}
				}
			}
			idx.Close()
		default:
			if r.Intn(2) == 0 {
				what = "removing"
				if err := dupi.RemoveIndex(model.Open(c, root)); err != nil {
					c.Fatalf("removing: %v", err)
				}
			} else {
				what = "removing by indexer"
				x, err := dupi.OpenIndexer(root)
				c.NoErr(err, "opening for appending")
				if r.Intn(2) == 0 {
					c.NoErr(x.Add(specs[0].Doc()), "adding")
				}
				if err := dupi.RemoveIndexer(x); err != nil {
					c.Fatalf("removing: %v", err)
				}
			}
			if _, err := os.Lstat(root); !os.IsNotExist(err) {
				c.Fatalf("%s: the index directory is still there", what)
			}
			exists = false
		}
		if fi, err := os.Lstat(filepath.Dir(root)); err != nil || !fi.IsDir() {
			c.Fatalf("%s (operation %d): the directory of the index is gone: %v", what, k, err)
		}
		for i, s := range take() {
			if d := snaps[i].Diff(s, allow); d != "" {
				c.Fatalf("%s (operation %d) touched something else: %s", what, k, d)
			}
		}
		c.SubEval(fmt.Sprint(k, what), wrote)
		c.Class(what, true)
	}
}
