package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P17",
		Rule:  "A case is one small index and a dozen drawn attempts: creating where an index, a directory, a file, a symbolic link or nothing creatable is; opening (for reading or appending) what is missing, is a file or another directory, lacks a component, has one cut short, damaged, unreadable or replaced by a directory; opening and closing successfully; closing an indexer whose directory went away; and creating, opening, adding and closing while drawn operations on files fail (opening, reading, writing, truncating, making directories; one or all from one on; of all files or of one kind). After every failure everything that was there is unchanged; after every attempt no descriptor below the scratch directory, no goroutine of the library and no lock stays, and the correct operation that follows succeeds. Evaluations count attempts. Non-trivial: the attempt failed.",
		Quick: 9, Thorough: 120, HangSec: 60,
		Fn: p17,
	})
}

var seqLen = regexp.MustCompile(`("SeqLen"\s*:\s*)`)

func p17(c *fw.C) {
	base := c.Dir()
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 2, MaxShatters: 4})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 1, MaxDocs: 6, Dense: true})
	seed := c.Seed("seed")
	c.Describe("%s seed=%d docs:%s", s, seed, cp)
	r := model.Rand(c, "ops")
	orig := filepath.Join(base, "orig")
	if err := os.Mkdir(filepath.Join(base, "w"), 0755); err != nil {
		fw.Broken("%v", err)
	}
	model.Build(c, s, orig, cp.Docs)
	ref := cp.Ref(s.Shape)
	const pkg = "github.com/go-air/dupi"
	if why := model.SettleGoroutines(pkg, 0); why != "" {
		c.Fatalf("after creating and closing: %s", why)
	}
	comps := []string{"cfg.json", "dmd", "files.fnm"}
	for i := 0; i < s.Shards; i++ {
		comps = append(comps, fmt.Sprintf("b%d.pos", i), fmt.Sprintf("b%d.pos.iix", i))
	}
	must := func(err error) {
		if err != nil {
			fw.Broken("%v", err)
		}
	}
	// measured runs an attempt and checks what it keeps.
	var what string
	measured := func(f func() error, lockPath string) error {
		runtime.GC()
		before := model.Fds()
		old := debug.SetGCPercent(-1)
		err := f()
		after := model.Fds()
		debug.SetGCPercent(old)
		c.Beat()
		if l := model.Leaks(before, after, base); l != "" {
			c.Fatalf("%s (error %v): still open: %s", what, err, l)
		}
		if why := model.SettleGoroutines(pkg, 0); why != "" {
			c.Fatalf("%s (error %v): %s", what, err, why)
		}
		if lockPath != "" && !model.LockFree(lockPath) {
			c.Fatalf("%s (error %v): the lock %s is still held", what, err, lockPath)
		}
		return err
	}
	blots := ref.Blots(1)
	// ask looks up some blots and extracts some, perhaps not to the end
	ask := func(x *dupi.Index) {
		q := x.StartQuery(dupi.QueryMaxBlot)
		for n := r.Intn(30); n > 0 && len(blots) > 0; n-- {
			b := dupi.Blot{Blot: blots[r.Intn(len(blots))]}
			if n%3 == 0 {
				b.Docs = make([]dupi.Doc, 0, 1)
			}
			q.Get(&b)
		}
		for n := r.Intn(30); n > 0; n-- {
			if _, err := q.Next(make([]dupi.Blot, 1)); err != nil {
				break
			}
		}
		x.Stats()
	}
	open := func(kind int, root string) func() error {
		return func() error {
			if kind == 0 {
				x, err := dupi.OpenIndex(root)
				if err == nil {
					ask(x)
					x.Close()
				}
				return err
			}
			x, err := dupi.OpenIndexer(root)
			if err == nil {
				x.Close()
			}
			return err
		}
	}
	create := func(root string) func() error {
		return func() error {
			x, err := dupi.IndexerFromConfig(s.Config(root))
			if err == nil {
				if err := x.Close(); err != nil {
					c.Fatalf("%s: closing after creation: %v", what, err)
				}
			}
			return err
		}
	}
	verify := func(root string) {
		idx, err := dupi.OpenIndex(root)
		c.NoErr(err, "%s: opening %s correctly afterwards", what, root)
		if err := ref.CheckAll(idx, root, false, nil, []int{4}); err != nil {
			c.Fatalf("%s: %s afterwards: %v", what, root, err)
		}
		idx.Close()
	}
	allow := func(p string) bool { return strings.HasSuffix(p, ".lock") }
	names := []string{"reading", "appending"}
	for k := 0; k < 12; k++ {
		w := filepath.Join(base, "w", fmt.Sprint(k))
		must(os.Mkdir(w, 0755))
		x := filepath.Join(w, "x")
		failed := true
		switch kind := r.Intn(24); {
		case kind < 6: // failing creation
			var undo func()
			target := x
			existing := false
			switch r.Intn(9) {
			case 0:
				what = "creating over an index"
				model.CopyTree(orig, x)
				existing = true
			case 1:
				what = "creating over a directory"
				must(os.Mkdir(x, 0755))
				must(os.WriteFile(filepath.Join(x, "cfg.json"), []byte("mine"), 0644))
				must(os.WriteFile(filepath.Join(x, "b0.pos"), []byte("mine"), 0644))
			case 2:
				what = "creating over an empty directory"
				must(os.Mkdir(x, 0755))
			case 3:
				what = "creating over a file"
				must(os.WriteFile(x, []byte("mine"), 0644))
			case 4:
				what = "creating over a dangling link"
				must(os.Symlink(filepath.Join(w, "nothing"), x))
			case 5:
				what = "creating over a link to an index"
				model.CopyTree(orig, filepath.Join(w, "y"))
				must(os.Symlink(filepath.Join(w, "y"), x))
			case 6:
				what = "creating in a missing directory"
				target = filepath.Join(x, "y")
				undo = func() { must(os.Mkdir(x, 0755)) }
			case 7:
				what = "creating below a file"
				must(os.WriteFile(x, []byte("mine"), 0644))
				target = filepath.Join(x, "y")
			case 8:
				what = "creating in a directory without permission"
				must(os.Mkdir(x, 0555))
				target = filepath.Join(x, "y")
				undo = func() { must(os.Chmod(x, 0755)) }
			}
			snap := model.Snapshot(w)
			if measured(create(target), target+".lock") == nil {
				c.Fatalf("%s: no error", what)
			}
			if d := snap.Diff(model.Snapshot(w), allow); d != "" {
				c.Fatalf("%s: %s", what, d)
			}
			switch {
			case existing:
				verify(x)
			case undo != nil:
				undo()
				c.NoErr(measured(create(target), target+".lock"), "%s: creating correctly afterwards", what)
			case target == x:
				os.RemoveAll(x)
				c.NoErr(measured(create(target), target+".lock"), "%s: creating correctly afterwards", what)
			}
		case kind < 15: // failing opening
			o := r.Intn(2)
			mustFail := true
			var undo func()
			sub := r.Intn(12)
			if sub >= 4 {
				model.CopyTree(orig, x)
			}
			comp := comps[r.Intn(len(comps))]
			p := filepath.Join(x, comp)
			switch sub {
			case 0:
				what = "opening nothing"
			case 1:
				what = "opening a file"
				must(os.WriteFile(x, []byte("{}"), 0644))
			case 2:
				what = "opening an empty directory"
				must(os.Mkdir(x, 0755))
			case 3:
				what = "opening another directory"
				must(os.Mkdir(x, 0755))
				must(os.WriteFile(filepath.Join(x, "cfg.json"), []byte(`{"some": "thing"}`), 0644))
			case 4, 5, 6:
				what = "opening without " + comp
				b, err := os.ReadFile(p)
				must(err)
				must(os.Remove(p))
				undo = func() { must(os.WriteFile(p, b, 0644)) }
			case 7, 8:
				b, err := os.ReadFile(p)
				must(err)
				n := 0
				if len(b) > 0 {
					n = r.Intn(len(b))
				}
				what = fmt.Sprintf("opening with %s cut to %d of %d bytes", comp, n, len(b))
				must(os.WriteFile(p, b[:n], 0644))
				mustFail = false
				undo = func() { must(os.RemoveAll(x)); model.CopyTree(orig, x) }
			case 9:
				what = "opening with an unreadable " + comp
				must(os.Chmod(p, 0))
				mustFail = !(o == 1 && comp == "dmd") // only written, when closing
				undo = func() { must(os.Chmod(p, 0644)) }
			case 10:
				what = "opening with a directory as " + comp
				b, err := os.ReadFile(p)
				must(err)
				must(os.Remove(p))
				must(os.Mkdir(p, 0755))
				mustFail = !(o == 0 && strings.HasSuffix(comp, ".pos")) && comp != "dmd"
				undo = func() { must(os.RemoveAll(p)); must(os.WriteFile(p, b, 0644)) }
			case 11:
				what = "opening with damaged configuration"
				p = filepath.Join(x, "cfg.json")
				b, err := os.ReadFile(p)
				must(err)
				bad := []string{"", "{", "[]", "{} trailing", string(b) + "}", seqLen.ReplaceAllString(string(b), "${1}-"), "null", strings.Replace(string(b), "words", "word", 1)}[r.Intn(8)]
				must(os.WriteFile(p, []byte(bad), 0644))
				undo = func() { must(os.WriteFile(p, b, 0644)) }
			}
			what += " for " + names[o]
			snap := model.Snapshot(w)
			err := measured(open(o, x), x+".lock")
			if err == nil && mustFail {
				c.Fatalf("%s: no error", what)
			}
			failed = err != nil
			if err != nil {
				if d := snap.Diff(model.Snapshot(w), allow); d != "" {
					c.Fatalf("%s: %s", what, d)
				}
			}
			if undo != nil {
				undo()
				verify(x)
				c.NoErr(measured(open(1, x), x+".lock"), "%s: opening correctly for appending afterwards", what)
				verify(x)
			}
		case kind < 18: // success
			failed = false
			if kind == 17 {
				what = "creating and closing"
				c.NoErr(measured(create(x), x+".lock"), "%s", what)
				break
			}
			model.CopyTree(orig, x)
			o := r.Intn(2)
			what = "opening for " + names[o] + " and closing"
			c.NoErr(measured(open(o, x), x+".lock"), "%s", what)
			verify(x)
		case kind >= 20: // operations on files fail
			act := r.Intn(5)
			if act > 1 {
				model.CopyTree(orig, x)
			}
			run := []func() error{func() error {
				x, err := dupi.IndexerFromConfig(s.Config(x))
				if err == nil {
					err = x.Close()
				}
				return err
			}, func() error {
				x, err := dupi.IndexerFromConfig(s.Config(x))
				if err != nil {
					return err
				}
				for i := range cp.Docs {
					if e := x.Add(cp.Docs[i].Doc()); e != nil {
						err = e
					}
				}
				if e := x.Close(); e != nil {
					err = e
				}
				return err
			}, open(0, x), open(1, x), func() error {
				x, err := dupi.OpenIndexer(x)
				if err != nil {
					return err
				}
				for i := range cp.Docs {
					if e := x.Add(cp.Docs[i].Doc()); e != nil {
						err = e
					}
				}
				if e := x.Close(); e != nil {
					err = e
				}
				return err
			}}[act]
			what = []string{"creating and closing", "creating, adding and closing", "opening for reading", "opening for appending", "appending"}[act]
			snap := model.Snapshot(w)
			ww := watch(base, true)
			ww.quiet = true
			at, nth, last := 0, r.Intn([]int{6, 20, 150, 400000 * s.Shards}[r.Intn(4)]), 0
			if last = nth; r.Intn(3) == 0 {
				last = 1 << 30
			}
			only := ""
			if r.Intn(3) > 0 {
				only = []string{".pos", ".pos", ".pos", ".iix", "dmd", "files.fnm", "cfg.json"}[r.Intn(7)]
				if nth = r.Intn([]int{2, 6, 20, 100}[r.Intn(4)]); last < 1<<30 {
					last = nth
				}
			}
			errno := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EMFILE, syscall.EACCES}[r.Intn(4)]
			ww.fault = func(kind, path string, _ int) (error, int) {
				if !strings.HasSuffix(path, only) {
					return nil, 0
				}
				at++
				if at-1 < nth || at-1 > last {
					return nil, 0
				}
				return errno, 0
			}
			name := what
			what += fmt.Sprintf(" while operations %d to %d on files *%s fail with %q", nth, last, only, errno)
			err := measured(func() error {
				err := run()
				ww.fault = nil
				return err
			}, x+".lock")
			ww.stop()
			failed = err != nil
			if err != nil && act == 2 {
				if d := snap.Diff(model.Snapshot(w), allow); d != "" {
					c.Fatalf("%s: %s", what, d)
				}
				verify(x)
			}
			os.RemoveAll(x)
			if r.Intn(3) == 0 {
				c.NoErr(measured(create(x), x+".lock"), "%s: creating afterwards", what)
			}
			what = name + " with failing operations"
		default: // the directory goes away before the indexer is closed
			what = "closing an indexer whose directory went away"
			model.CopyTree(orig, x)
			err := measured(func() error {
				ix, err := dupi.OpenIndexer(x)
				c.NoErr(err, "opening for appending")
				for i := range cp.Docs {
					if err := ix.Add(cp.Docs[i].Doc()); err != nil {
						c.Fatalf("adding: %v", err)
					}
				}
				must(os.Rename(x, x+"-moved"))
				return ix.Close()
			}, x+".lock")
			if err == nil {
				c.Fatalf("%s: no error", what)
			}
			must(os.RemoveAll(x))
			c.NoErr(measured(create(x), x+".lock"), "%s: creating afterwards", what)
		}
		os.Chmod(x, 0755)
		c.SubEval(fmt.Sprint(k, what), failed)
		cl := what
		if i := strings.Index(cl, " cut to"); i > 0 {
			cl = "opening with a cut file"
		}
		cl = strings.Split(cl, " b0")[0]
		cl = strings.Split(cl, " b1")[0]
		c.Class(cl, true)
		os.RemoveAll(w)
	}
}
