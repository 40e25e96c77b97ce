package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/go-air/dupi/dmd"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P12",
		Rule:  "A case is 1 to 5 sessions of drawn record counts (0, 1, around the buffer size and its multiples, hundreds), each with its own buffer size, of records with extreme and random values; every id is looked up after drawn sessions and at the end, in random order, with ids beyond the last. Before some sessions the table grows by a drawn number of records, up to hundreds of millions, as a hole in its file. Evaluations count lookups. Non-trivial: the record was flushed before its session ended or belongs to an earlier session.",
		Quick: 500, Thorough: 20000,
		Fn: p12,
	})
}

type rec struct{ fid, start, end uint32 }

func p12(c *fw.C) {
	dir := c.Dir()
	nses := c.Int("sessions", 1, 5)
	var all []rec
	var ids []uint32  // of all
	last := uint32(0) // id
	early := map[int]bool{}
	type ses struct{ flush, n, grow int }
	var plan []ses
	for k := 0; k < nses; k++ {
		f := c.Pick("flush", 1, 2, 3, 4, 16, 100, 16384)
		n := 0
		switch c.Int("sizekind", 0, 3) {
		case 0:
			n = c.Int("n", 0, 3)
		case 1:
			n = f*c.Int("times", 0, 3) + c.Int("off", -1, 2)
		case 2:
			n = c.Int("n", 0, 300)
		}
		if n < 0 {
			n = 0
		}
		if n > 700 {
			n = 700
		}
		if k < 2 && c.Rare("bulk", 60) {
			// more records than an adder makes place for at once
			f = c.Pick("large buffer", 1<<16-1, 1<<16, 1<<16+1, 70000, 100000, 131072, 1<<20)
			n = c.Pick("bulk records", 65537, 70001, 140010, 200000)
			c.Class("more than 2^16 records", true)
		}
		g := 0
		if k > 0 && c.Chance("grow", 8) {
			g = c.Pick("by", 1000, 1<<20, 89478485, 178956970, 357913941, 500000000, 1000000000)
		}
		plan = append(plan, ses{f, n, g})
	}
	c.Describe("sessions (buffer, records, growth before): %v", plan)
	r := model.Rand(c, "records")
	val := func() uint32 {
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return ^uint32(0) >> r.Intn(32)
		case 2:
			return 1 << r.Intn(32)
		}
		return r.Uint32()
	}
	check := func(k int) {
		t, err := dmd.New(dir)
		c.NoErr(err, "opening the table after session %d", k)
		defer t.Close()
		nd, err := t.NumDocs()
		c.NoErr(err, "NumDocs")
		if nd != uint64(last) {
			c.Fatalf("sessions %v: after session %d NumDocs is %d, want %d", plan[:k+1], k, nd, last)
		}
		for _, i := range r.Perm(len(all)) {
			f, s, e, err := t.Lookup(ids[i])
			c.NoErr(err, "lookup of id %d", ids[i])
			if (rec{f, s, e}) != all[i] {
				c.Fatalf("sessions %v: id %d gives %v, want %v", plan[:k+1], ids[i], rec{f, s, e}, all[i])
			}
			if len(all) < 5000 || i%50 == 0 {
				c.SubEval(fmt.Sprint(k, i), early[i])
			}
		}
		for _, d := range []uint32{1, 2, 3, 1000, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
			id := last + d
			if id <= last {
				continue
			}
			if _, _, _, err := t.Lookup(id); err == nil {
				c.Fatalf("sessions %v: lookup of id %d beyond the last, %d, gives no error", plan[:k+1], id, last)
			}
		}
	}
	for k, p := range plan {
		if p.grow > 0 && last > 0 {
			// other records, all zero
			last += uint32(p.grow)
			if err := os.Truncate(filepath.Join(dir, "dmd"), 12*(int64(last)+1)); err != nil {
				fw.Broken("%v", err)
			}
			all, ids = append(all, rec{}), append(ids, last)
			c.Class("a table of more than 2 GB", last > 1<<31/12)
		}
		a, err := dmd.NewAdder(dir, p.flush)
		c.NoErr(err, "opening the adder of session %d", k)
		if k > 0 || p.n > 0 {
			if l := a.Last(); l != last {
				c.Fatalf("sessions %v: at the start of session %d the last id is %d, want %d", plan[:k+1], k, l, last)
			}
		}
		for i := 0; i < p.n; i++ {
			v := rec{val(), val(), val()}
			id, err := a.Add(v.fid, v.start, v.end)
			c.NoErr(err, "Add")
			last++
			all, ids = append(all, v), append(ids, last)
			if id != last {
				c.Fatalf("sessions %v: record %d got id %d", plan[:k+1], last, id)
			}
			if a.Last() != id {
				c.Fatalf("sessions %v: after id %d was given out Last is %d", plan[:k+1], id, a.Last())
			}
			if i+p.flush < p.n || k < nses-1 {
				early[len(all)-1] = true
			}
		}
		c.NoErr(a.Close(), "closing session %d", k)
		if k == nses-1 || c.Chance("check", 3) {
			check(k)
		}
	}
	c.Class("several sessions", nses > 1)
	c.Class("some session longer than its buffer", len(early) > 0)
}
