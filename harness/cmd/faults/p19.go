package main

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P19",
		Rule:  "A case is a document set (with small record buffers, and often long posting lists, so that data is written while documents are added) indexed once without faults, and then again with faults: six times with the operating system refusing to let files grow beyond a limit, drawn relative to the size of one of the index's files, during a drawn window of the session (its creation or opening, some of its additions, its closing, or several of these), after which writing works again; and ten times with drawn operations (opening for writing, writing, truncating, renaming, removing, making a directory) failing by hooks in the standard library: one, a few, or all from one on, of one kind on one file or of all, with an error of the operating system, a failing write having written a part or nothing. Sessions create or append. If every call reported success, lookups, extraction and statistics must equal the reference; if closing did, but not all additions, lookups must give exactly the documents whose addition succeeded. Evaluations count faulty sessions. Non-trivial: the limit was below the final size of the file, an operation failed.",
		Level: "fault_enumeration",
		Quick: 4, Thorough: 90, HangSec: 60,
		Fn: p19,
	})
}

func p19(c *fw.C) {
	base := c.Dir()
	signal.Ignore(syscall.SIGXFSZ)
	var lim0 syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim0); err != nil {
		fw.Broken("%v", err)
	}
	limit := func(n uint64) {
		l := syscall.Rlimit{Cur: n, Max: lim0.Max}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
			fw.Broken("%v", err)
		}
	}
	restore := func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim0) }
	defer restore()
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 2, MaxShatters: 3, MaxB: 5})
	s.Flush = c.Pick("flush", 1, 2, 3, 7, 100, 16384)
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 3, MaxDocs: 14, Dense: true, MaxWords: 30})
	bulk := c.Pick("copies", 0, 520, 520, 700, 1100)
	seed := c.Seed("seed")
	c.Describe("%s copies=%d seed=%d docs:%s", s, bulk, seed, cp)
	r := model.Rand(c, "ops")
	docs := append([]model.DocSpec{}, cp.Docs...)
	if bulk > 0 {
		src := docs[0]
		for i := range docs {
			if n := len(model.Words(docs[i].Dat)); n >= s.S() && n < s.S()+30 {
				src = docs[i]
			}
		}
		if len(model.Words(src.Dat)) < s.S() {
			src.Dat = []byte(strings.Repeat("lorem ipsum dolor ", 8))
		}
		for k := 0; k < bulk; k++ {
			d := src
			d.Path = fmt.Sprintf("/copies/%d", k%50)
			docs = append(docs, d)
		}
	}
	first := 0 // documents of a first session without faults
	appending := c.Bool("append")
	if appending {
		first = r.Intn(len(docs))
	}
	ref := model.NewRef(s.Shape)
	for i := range docs {
		ref.Add(&docs[i])
	}
	// without faults
	clean := filepath.Join(base, "clean")
	var before string
	if appending {
		before = filepath.Join(base, "before")
		model.Build(c, s, before, docs[:first])
		model.CopyTree(before, clean)
		x, err := dupi.OpenIndexer(clean)
		c.NoErr(err, "opening for appending")
		model.AddAll(c, x, docs[first:], clean)
	} else {
		model.Build(c, s, clean, docs)
	}
	sizes := map[string]int64{}
	es, err := os.ReadDir(clean)
	if err != nil {
		fw.Broken("%v", err)
	}
	var names []string
	for _, e := range es {
		fi, err := e.Info()
		if err != nil {
			fw.Broken("%v", err)
		}
		sizes[e.Name()] = fi.Size()
		names = append(names, e.Name())
	}
	// added checks an index that was closed without an error after some
	// additions failed, and may not count their paths.
	added := func(root, what string, acked *model.Ref) {
		c.Helper()
		c.Class("additions failed, closing succeeded", true)
		idx, err := dupi.OpenIndex(root)
		c.NoErr(err, "%s: additions failed, closing succeeded, opening the index", what)
		defer idx.Close()
		if err := acked.CheckLookups(idx, false, ref.Blots(1)); err != nil {
			c.Fatalf("%s: additions failed, closing succeeded, but of the %d documents added %v", what, len(acked.Docs), err)
		}
	}
	for k := 0; k < 6; k++ {
		c.Beat()
		root := filepath.Join(base, fmt.Sprint("x", k))
		if appending {
			model.CopyTree(before, root)
		}
		n := len(docs) - first
		// window: steps are 0 opening, 1..n additions, n+1 closing
		from, to := 0, 0
		switch r.Intn(7) {
		case 0:
			from, to = n+1, n+1
		case 1, 2, 3, 4: // additions only
			from = 1 + r.Intn(n)
			to = min(n, from+[]int{0, 1, 5, 60, 600, n}[r.Intn(6)])
		case 5:
			from, to = 1+r.Intn(n), n+1
		case 6:
			from, to = 0, r.Intn(n+2)
		}
		target := names[r.Intn(len(names))]
		if from > 0 && to <= n { // only these grow while adding
			target = []string{"dmd", "b0.pos", fmt.Sprintf("b%d.pos", s.Shards-1)}[r.Intn(3)]
		}
		size := sizes[target]
		L := uint64(0)
		if size > 0 {
			switch r.Intn(3) {
			case 0:
				L = uint64(size) - 1 - uint64(r.Intn(int(min(size, 20))))
			case 1:
				L = uint64(r.Int63n(size))
			default:
				L = uint64(r.Int63n(size/2 + 1))
			}
		}
		what := fmt.Sprintf("append=%v, files limited to %d bytes (%s has %d at the end) in steps %d to %d of 0 to %d", appending, L, target, size, from, to, n+1)
		c.Note("%s", what)
		var failed error
		acked := model.NewRef(s.Shape)
		for i := range docs[:first] {
			acked.Add(&docs[i])
		}
		closed := false
		note := func(err error) {
			if failed == nil && err != nil {
				failed = err
			}
		}
		var x *dupi.Indexer
		for step := 0; step <= n+1; step++ {
			if step == from {
				limit(L)
			}
			switch {
			case step == 0:
				if appending {
					x, err = dupi.OpenIndexer(root)
				} else {
					x, err = dupi.IndexerFromConfig(s.Config(root))
				}
				note(err)
			case step <= n:
				err := x.Add(docs[first+step-1].Doc())
				if err == nil {
					acked.Add(&docs[first+step-1])
				}
				note(err)
			default:
				err := x.Close()
				closed = err == nil
				note(err)
			}
			if step == to || x == nil {
				if step > 0 && step <= n {
					time.Sleep(time.Millisecond) // additions are processed in the background
				}
				restore()
			}
			if x == nil {
				break
			}
		}
		restore()
		if failed == nil {
			idx, err := dupi.OpenIndex(root)
			c.NoErr(err, "%s: all calls succeeded, opening the index", what)
			if err := ref.CheckAll(idx, root, false, nil, []int{7}); err != nil {
				c.Fatalf("%s: all calls succeeded, but %v", what, err)
			}
			idx.Close()
		} else if closed {
			added(root, what, acked)
		}
		hit := size > 0
		c.SubEval(fmt.Sprint(k, what), hit)
		switch {
		case failed == nil:
			c.Class("no call failed", true)
		default:
			w := "adding"
			if from == n+1 {
				w = "closing"
			} else if from == 0 {
				w = "creation or opening on"
			} else if to == n+1 {
				w = "adding and closing"
			}
			c.Class("failure reported, fault while "+w, true)
			c.Class("fault on "+strings.TrimLeft(target, "b01"), true)
		}
		os.RemoveAll(root)
	}
	// drawn operations fail
	var acked *model.Ref // documents whose addition succeeded, if closing did
	session := func(root string, step func(int)) error {
		acked = nil
		ok := model.NewRef(s.Shape)
		for i := range docs[:first] {
			ok.Add(&docs[i])
		}
		var x *dupi.Indexer
		var err error
		step(0)
		if appending {
			x, err = dupi.OpenIndexer(root)
		} else {
			x, err = dupi.IndexerFromConfig(s.Config(root))
		}
		if err != nil {
			return err
		}
		for i := first; i < len(docs); i++ {
			step(1 + i - first)
			e := x.Add(docs[i].Doc())
			if e == nil {
				ok.Add(&docs[i])
			}
			if err == nil {
				err = e
			}
		}
		step(1 + len(docs) - first)
		e := x.Close()
		if e == nil {
			acked = ok
		}
		if err == nil {
			err = e
		}
		return err
	}
	root := filepath.Join(base, "idx")
	start := func() {
		if err := os.RemoveAll(root); err != nil {
			fw.Broken("%v", err)
		}
		if appending {
			model.CopyTree(before, root)
		}
	}
	start()
	w := watch(base, false)
	w.fault = func(kind, path string, n int) (error, int) { return nil, 0 }
	err = session(root, func(int) {})
	w.stop()
	c.NoErr(err, "the session without faults")
	type target struct{ kind, path string }
	counts := map[target]int{}
	var targets []target
	for _, o := range w.ops {
		t := target{o.kind, o.path}
		if counts[t] == 0 {
			targets = append(targets, t)
		}
		counts[t]++
		counts[target{}]++
	}
	targets = append(targets, target{})
	for k := 0; k < 10; k++ {
		c.Beat()
		start()
		t := targets[r.Intn(len(targets))]
		nth := r.Intn(counts[t])
		if r.Intn(3) == 0 {
			nth = []int{0, counts[t] - 1}[r.Intn(2)]
		}
		last := nth + []int{0, 0, 1, 3, 1 << 30}[r.Intn(5)]
		errno := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EROFS, syscall.EACCES}[r.Intn(5)]
		part := r.Intn(2) == 0
		what := fmt.Sprintf("append=%v, operations %d to %d of %s %s (there are %d) fail with %q, writes after a part: %v", appending, nth, last, t.kind, strings.TrimPrefix(t.path, base), counts[t], errno, part)
		c.Note("%s", what)
		at, hit := 0, 0
		var cuts []int
		for i := 0; i < 16; i++ {
			cuts = append(cuts, r.Intn(1<<20))
		}
		w := watch(base, false)
		w.fault = func(kind, path string, n int) (error, int) {
			if kind == "pwrite" {
				kind = "write"
			}
			if kind == "ftruncate" {
				kind = "truncate"
			}
			if t.kind != "" && (t.kind != kind || t.path != path) {
				return nil, 0
			}
			at++
			if at-1 < nth || at-1 > last {
				return nil, 0
			}
			hit++
			if part && n > 1 {
				return errno, 1 + cuts[hit%len(cuts)]%(n-1)
			}
			return errno, 0
		}
		err := session(root, func(int) {})
		w.stop()
		if err == nil {
			idx, err := dupi.OpenIndex(root)
			c.NoErr(err, "%s: all calls succeeded, opening the index", what)
			if err := ref.CheckAll(idx, root, false, nil, []int{7}); err != nil {
				c.Fatalf("%s: all calls succeeded, but %v", what, err)
			}
			idx.Close()
		} else if acked != nil {
			added(root, what, acked)
		}
		c.SubEval(fmt.Sprint("op", k, what), hit > 0)
		if hit > 0 {
			kind := t.kind
			if kind == "" {
				kind = "any operation"
			}
			c.Class("failing "+kind, true)
			c.Class("operation failed, no call failed", err == nil)
			if err == nil {
				c.Class("unreported "+t.kind+" "+filepath.Base(t.path), true)
			}
		}
	}
	c.Class("appending", appending)
	c.Class("long lists", bulk > 0)
}
