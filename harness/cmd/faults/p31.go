package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P31",
		Level: "fault_enumeration",
		Rule:  "A case is an index over slices of files and 24 rounds; in each, one activity (opening, looking up, extracting, statistics, loading, locating, matching texts, opening for appending, after which documents may be added) runs while reads and openings below its directory fail by hooks in the standard library: one, a few or all from a drawn one on, with an error of the operating system, or while reads give only a part of what was asked for, as is allowed. An activity gives an error or the answer of the reference; with parts only, it gives the answer. After it, without faults, the same open index answers everything as the reference does, and an opening for appending that failed has changed no file and can be repeated. Evaluations count rounds. Non-trivial: a read failed or was cut.",
		Quick: 6, Thorough: 160, HangSec: 60,
		Fn: p31,
	})
}

func p31(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 3, MaxShatters: 2})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 2, MaxDocs: 10, Dense: true, MaxWords: 40})
	copies := c.Pick("copies", 0, 0, 0, 520, 700)
	seed := c.Seed("seed")
	c.Describe("%s copies=%d seed=%d docs:%s", s, copies, seed, cp)
	r := model.Rand(c, "r")
	base := c.Dir()
	var docs []model.DocSpec
	for i := range cp.Docs {
		d := cp.Docs[i]
		pre := bytes.Repeat([]byte("# "), r.Intn(3)*r.Intn(3000))
		d.Path = filepath.Join(base, fmt.Sprintf("f%d", i))
		d.Start = uint32(len(pre))
		d.End = d.Start + uint32(len(d.Dat))
		if d.End == 0 {
			continue // 0:0 means the whole file
		}
		if err := os.WriteFile(d.Path, append(append(pre, d.Dat...), " rest of the file"...), 0644); err != nil {
			fw.Broken("%v", err)
		}
		docs = append(docs, d)
	}
	if len(docs) == 0 {
		d := model.DocSpec{Path: filepath.Join(base, "f"), Dat: []byte("lorem ipsum dolor sit amet"), End: 26}
		if err := os.WriteFile(d.Path, d.Dat, 0644); err != nil {
			fw.Broken("%v", err)
		}
		docs = append(docs, d)
	}
	for k := 0; k < copies; k++ {
		docs = append(docs, docs[r.Intn(min(3, len(docs)))])
	}
	ref := model.NewRef(s.Shape)
	for i := range docs {
		ref.Add(&docs[i])
	}
	root := filepath.Join(base, "idx")
	model.Build(c, s, root, docs)
	before := newImage()
	before.load(base)
	w := watch(base, true)
	defer w.stop()
	idx := model.Open(c, root)
	defer func() { idx.Close() }()
	shared := ref.Blots(2)
	all := ref.Blots(1)
	added := 0
	errnos := []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ENOMEM, syscall.EMFILE, syscall.ESTALE}
	batches := []int{1 + r.Intn(20)}
	for round := 0; round < 24; round++ {
		c.Beat()
		act := []string{"opening", "lookups", "lookups", "extraction", "extraction", "statistics", "loading", "locating", "matching", "opening for appending"}[r.Intn(10)]
		run := func() (failed bool) {
			switch act {
			case "opening":
				x, err := dupi.OpenIndex(root)
				if err != nil {
					return true
				}
				idx.Close()
				idx = x
			case "lookups":
				q := idx.StartQuery(dupi.QueryMaxBlot)
				for k := 0; k < 30 && len(all) > 0; k++ {
					b := all[(k*7+round)%len(all)]
					bl := dupi.Blot{Blot: b}
					if err := q.Get(&bl); err != nil {
						failed = true
						continue
					}
					if d := model.Diff(model.FromDocs(bl.Docs), ref.List(b)); d != "" {
						c.Fatalf("a lookup of blot %x gives no error, but %s", b, d)
					}
				}
			case "extraction":
				q := idx.StartQuery(dupi.QueryMaxBlot)
				n := 0
				for {
					dst := make([]dupi.Blot, batches[0])
					m, err := q.Next(dst)
					for i := range dst[:m] {
						if d := model.Diff(model.FromDocs(dst[i].Docs), ref.List(dst[i].Blot)); d != "" {
							c.Fatalf("extraction gives blot %x, but %s", dst[i].Blot, d)
						}
					}
					n += m
					if model.IsEOF(err) {
						if n != len(shared) {
							c.Fatalf("extraction ends without an error after %d of %d blots", n, len(shared))
						}
						return false
					}
					if err != nil {
						return true
					}
					if m == 0 {
						c.Fatalf("extraction makes no progress")
					}
				}
			case "statistics":
				if _, err := idx.Stats(); err != nil {
					return true
				}
				if err := ref.CheckStats(idx, root); err != nil {
					c.Fatalf("statistics without an error, but %v", err)
				}
			case "loading":
				for k := 0; k < 5; k++ {
					spec := &docs[r.Intn(len(docs))]
					d := dupi.Doc{Path: spec.Path, Start: spec.Start, End: spec.End}
					want := spec.Dat
					if k == 0 {
						d.Start, d.End = 0, 0
						want = before.files[spec.Path]
					}
					if err := d.Load(); err != nil {
						failed = true
					} else if !bytes.Equal(d.Dat, want) {
						c.Fatalf("loading %s %d:%d gives no error, but %d bytes which are not those", filepath.Base(spec.Path), spec.Start, spec.End, len(d.Dat))
					}
				}
			case "locating", "matching":
				for k := 0; k < 5; k++ {
					spec := &docs[r.Intn(len(docs))]
					ws := s.Windows(spec.Dat)
					if len(ws) == 0 {
						continue
					}
					w := ws[r.Intn(len(ws))]
					b := w.Raw % s.Range()
					d := dupi.Doc{Path: spec.Path, Start: spec.Start, End: spec.End}
					if act == "locating" {
						st, en, err := idx.FindBlot(b, &d)
						if err != nil {
							failed = true
							continue
						}
						ok := false
						for _, w := range ws {
							ok = ok || w.Raw%s.Range() == b && st == spec.Start+uint32(w.Start) && en == spec.Start+uint32(w.End)
						}
						if !ok {
							c.Fatalf("blot %x is located at %d:%d without an error", b, st, en)
						}
						continue
					}
					txt := spec.Dat[w.Start:w.End]
					got, err := idx.FindBlots(map[uint32][]byte{b: txt}, &d)
					if err != nil {
						failed = true
					} else if !bytes.Equal(got[b], txt) {
						c.Fatalf("text %q with blot %x is not found, without an error", txt, b)
					}
				}
			case "opening for appending":
				idx.Close()
				x, err := dupi.OpenIndexer(root)
				if err != nil {
					failed = true
				} else {
					w.fault = nil
					for k := r.Intn(3); k > 0; k-- {
						spec := &docs[r.Intn(len(docs))]
						c.NoErr(x.Add(spec.Doc()), "adding to an indexer which was opened with reads failing")
						ref.Add(spec)
						added++
					}
					c.NoErr(x.Close(), "closing an indexer which was opened with reads failing")
				}
			}
			return failed
		}
		// count its reads
		n := 0
		w.fault = func(kind, path string, _ int) (error, int) { n++; return nil, 0 }
		failed := run()
		w.fault = nil
		if failed {
			c.Fatalf("%s fails without faults", act)
		}
		if act == "opening for appending" {
			idx = model.Open(c, root)
			shared, all = ref.Blots(2), ref.Blots(1)
			before = newImage()
			before.load(base)
		}
		if n == 0 {
			c.SubEval(fmt.Sprint(round), false)
			c.Class("no reads in "+act, true)
			continue
		}
		nth := r.Intn(n)
		last := nth + []int{0, 0, 1, 2, 5, 1 << 30}[r.Intn(6)]
		errno := errnos[r.Intn(len(errnos))]
		short := r.Intn(3) == 0
		if short && r.Intn(2) == 0 {
			nth, last = 0, 1<<30
		}
		cuts := make([]int, 16)
		for i := range cuts {
			cuts[i] = r.Intn(1 << 20)
		}
		at, hit := 0, 0
		w.ops = nil
		w.fault = func(kind, path string, n int) (error, int) {
			at++
			if at-1 < nth || at-1 > last || kind == "write" || kind == "pwrite" || kind == "truncate" || kind == "ftruncate" {
				return nil, 0
			}
			if short {
				if n < 2 {
					return nil, 0
				}
				hit++
				if cuts[hit%len(cuts)]%3 == 0 {
					return nil, 1
				}
				return nil, 1 + cuts[hit%len(cuts)]%(n-1)
			}
			hit++
			return errno, 0
		}
		how := fmt.Sprintf("operations %d to %d of %d fail with %q", nth, last, n, errno)
		if short {
			how = fmt.Sprintf("reads %d to %d of %d give a part only", nth, last, n)
		}
		c.Note("%s, %s", act, how)
		failed = run()
		w.fault = nil
		if short && failed {
			c.Fatalf("%s fails when %s", act, how)
		}
		after := newImage()
		after.load(base)
		if act == "opening for appending" {
			if failed {
				if d := before.differs(after); d != "" {
					c.Fatalf("%s fails when %s, and has changed %s", act, how, d)
				}
				x, err := dupi.OpenIndexer(root)
				c.NoErr(err, "opening for appending again after it failed as %s", how)
				c.NoErr(x.Close(), "closing the indexer")
			}
			idx = model.Open(c, root)
			shared, all = ref.Blots(2), ref.Blots(1)
			before = newImage()
			before.load(base)
		}
		if err := ref.CheckAll(idx, root, round%12 == 0, nil, []int{9}); err != nil {
			c.Fatalf("after %s while %s: %v", act, how, err)
		}
		c.SubEval(fmt.Sprint(round, act, how), hit > 0)
		if hit > 0 {
			c.Class(act+", read cut", short)
			c.Class(act+", failed", failed)
			c.Class(act+", answered nevertheless", !short && !failed)
		}
	}
	c.Class("long lists", copies > 0)
	c.Class("documents added after opening", added > 0)
}
