package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P26",
		Rule:  "A case is one file of drawn length (0 to 70000 bytes, also with holes, read-only or through a link; or 2 to 5 GB, nearly all of it a hole) and 40 drawn ranges around its ends, inside it, empty, inverted, beyond the end and near 2^32, and documents that already hold text; plus missing files, directories and unreadable files. Evaluations count loads. Non-trivial: a proper range of a non-empty file, or one that must be refused.",
		Quick: 2500, Thorough: 100000,
		Fn: p26,
	})
}

// p26large loads pieces of a large file.
func p26large(c *fw.C) {
	n := []int64{1<<31 - 1, 1 << 31, 1<<31 + 5000, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 70000, 5 << 30}[c.Int("size", 0, 7)]
	c.Describe("file of %d bytes, with holes", n)
	r := model.Rand(c, "r")
	path := filepath.Join(c.Dir(), "large")
	f, err := os.Create(path)
	if err != nil {
		fw.Broken("%v", err)
	}
	defer f.Close()
	if err := f.Truncate(n); err != nil {
		fw.Broken("%v", err)
	}
	at := []int64{0, 4096, 1<<31 - 1, 1 << 31, 1<<32 - 1, n, n - 1<<32, r.Int63n(n), r.Int63n(n)}
	for _, a := range at { // text around it
		b := make([]byte, 3000)
		r.Read(b)
		a -= 1500
		if a < 0 || a >= n {
			a = 0
		}
		if a+3000 > n {
			b = b[:n-a]
		}
		if _, err := f.WriteAt(b, a); err != nil {
			fw.Broken("%v", err)
		}
	}
	for k := 0; k < 60; k++ {
		s := at[r.Intn(len(at))] + int64(r.Intn(2000)) - 1000
		if r.Intn(8) == 0 {
			s = at[r.Intn(len(at))]
		}
		e := s + int64(r.Intn(2000))
		if r.Intn(8) == 0 {
			e = at[r.Intn(len(at))]
		}
		if r.Intn(20) == 0 {
			s, e = e, s
		}
		if s < 0 || e < 0 || s > 1<<32-1 || e > 1<<32-1 || s == 0 && e == 0 || e-s > 1<<20 && e <= n {
			continue
		}
		d := &dupi.Doc{Path: path, Start: uint32(s), End: uint32(e)}
		err := d.Load()
		what := fmt.Sprintf("loading %d:%d of a file of %d bytes", s, e, n)
		c.SubEval(fmt.Sprint(s, e), true)
		if s > e || e > n {
			if err == nil {
				c.Fatalf("%s: no error, %d bytes", what, len(d.Dat))
			}
			continue
		}
		c.NoErr(err, "%s", what)
		want := make([]byte, e-s)
		if _, err := f.ReadAt(want, s); err != nil {
			fw.Broken("%v", err)
		}
		if !bytes.Equal(d.Dat, want) || int64(d.Start) != s || int64(d.End) != e {
			c.Fatalf("%s: wrong bytes (%d of them) or range, %d:%d", what, len(d.Dat), d.Start, d.End)
		}
		c.Class("beyond 2 GB", s > 1<<31)
	}
	c.Class("a file of more than 2 GB", true)
}

func p26(c *fw.C) {
	if c.Chance("large", 6) {
		p26large(c)
		return
	}
	dir := c.Dir()
	n := c.Pick("size", 0, 1, 2, 10, 511, 512, 513, 4095, 4096, 4097, 20000, 65536, 70000)
	seed := c.Seed("seed")
	kind := c.Int("kind", 0, 3)
	c.Describe("file of %d bytes kind %d seed %d", n, kind, seed)
	r := model.Rand(c, "r")
	dat := make([]byte, n)
	r.Read(dat)
	path := filepath.Join(dir, "a file")
	must := func(err error) {
		if err != nil {
			fw.Broken("%v", err)
		}
	}
	if kind == 1 && n > 0 { // a hole at the end
		h := r.Intn(n)
		for i := h; i < n; i++ {
			dat[i] = 0
		}
		must(os.WriteFile(path, dat[:h], 0444|0200))
		must(os.Truncate(path, int64(n)))
	} else {
		must(os.WriteFile(path, dat, 0444))
	}
	if kind == 2 {
		must(os.Symlink(path, path+".link"))
		path += ".link"
	}
	near := func() uint32 {
		v := []int64{0, 1, int64(n), int64(n) - 1, int64(n) + 1, int64(n) / 2, 1<<32 - 1, 1 << 31, int64(n) + 4096, r.Int63n(int64(n) + 1), r.Int63n(int64(n) + 1), r.Int63n(int64(n) + 1)}[r.Intn(12)]
		if v < 0 {
			v = 0
		}
		return uint32(v)
	}
	for k := 0; k < 40; k++ {
		d := &dupi.Doc{Path: path, Start: near(), End: near()}
		if r.Intn(3) == 0 && d.Start > d.End {
			d.Start, d.End = d.End, d.Start
		}
		if k == 0 {
			d.Start, d.End = 0, 0
		}
		s, e := d.Start, d.End
		if r.Intn(8) == 0 {
			d.Dat = []byte("old text")
		}
		err := d.Load()
		what := fmt.Sprintf("loading %d:%d of a file of %d bytes", s, e, n)
		switch {
		case s == 0 && e == 0:
			c.NoErr(err, "%s", what)
			if !bytes.Equal(d.Dat, dat) || d.Start != 0 || int(d.End) != n {
				c.Fatalf("%s: got %d bytes and range %d:%d", what, len(d.Dat), d.Start, d.End)
			}
		case s > e || int64(e) > int64(n):
			if err == nil {
				c.Fatalf("%s: no error, %d bytes", what, len(d.Dat))
			}
			c.Class("inverted", s > e)
			c.Class("beyond the end", int64(e) > int64(n))
		default:
			c.NoErr(err, "%s", what)
			if !bytes.Equal(d.Dat, dat[s:e]) {
				c.Fatalf("%s: wrong bytes (%d of them)", what, len(d.Dat))
			}
			if d.Start != s || d.End != e || d.Path != path {
				c.Fatalf("%s changed the range to %d:%d", what, d.Start, d.End)
			}
		}
		c.SubEval(fmt.Sprint(s, e, len(d.Dat)), n > 0 && (s != 0 || e != 0))
	}
	s, e := near(), near()
	must(os.WriteFile(filepath.Join(dir, "secret"), dat, 0))
	for _, p := range []string{filepath.Join(dir, "missing"), dir, "", filepath.Join(path, "below"), filepath.Join(dir, "secret")} {
		if p == filepath.Join(dir, "secret") && os.Geteuid() == 0 {
			continue
		}
		for _, d := range []*dupi.Doc{{Path: p, Start: s, End: e}, {Path: p}} {
			if s == e && s > 0 && d.Start > 0 && p == dir {
				continue // nothing of a directory
			}
			if err := d.Load(); err == nil {
				c.Fatalf("loading %d:%d of %q: no error", d.Start, d.End, p)
			}
			c.SubEval(p+fmt.Sprint(d.Start, d.End), true)
		}
	}
}
