package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P11",
		Rule:  "A case is a list of 1 to 300 document paths (components of arbitrary bytes, separators doubled, dot and dot-dot, trailing slashes, relative and absolute, thousands of bytes long or hundreds of components deep, prefixes and extensions of earlier paths, repeats; sometimes also 66000 to 75000 plain ones) given to documents of equal text over 1 to 4 sessions, so that one lookup lists them all. In some cases the working directory changes from document to document. Evaluations count paths. Non-trivial: the path extends, is a prefix of, or equals an earlier one, or is not clean.",
		Quick: 30, Thorough: 500,
		Fn: p11,
	})
}

func genPath(r *rand.Rand, prev []string) string {
	comp := func() string {
		switch r.Intn(12) {
		case 0:
			return "."
		case 1:
			return ".."
		case 2:
			return ""
		case 3: // arbitrary bytes
			b := make([]byte, 1+r.Intn(6))
			r.Read(b)
			return strings.Map(func(x rune) rune { return x }, strings.ReplaceAll(string(b), "/", "x"))
		case 4:
			return strings.Repeat("long", 1+r.Intn(1500))
		case 5:
			return []string{" ", "\n", "a b", "\xff", "日本", "...", "~", "*", "é", "e\u0301", "-", "\x00", "\\", ":"}[r.Intn(14)]
		case 6:
			return strings.Repeat("c", []int{63, 64, 127, 128, 129, 255, 256, 16383, 16384}[r.Intn(9)])
		default:
			return string(rune('a' + r.Intn(4)))
		}
	}
	if len(prev) > 0 {
		p := prev[r.Intn(len(prev))]
		switch r.Intn(8) {
		case 0:
			return p
		case 1:
			return p + "/" + comp()
		case 2:
			if d := filepath.Dir(p); d != "/" && d != "." {
				return d
			}
		case 3:
			return p + "/"
		case 4:
			return p + string(rune('a'+r.Intn(3)))
		}
	}
	var cs []string
	k := 1 + r.Intn(6)
	if r.Intn(25) == 0 { // deep
		k = []int{30, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}[r.Intn(11)]
	}
	for deep := k > 6; k > 0; k-- {
		if deep {
			cs = append(cs, string(rune('a'+r.Intn(2))))
			continue
		}
		cs = append(cs, comp())
	}
	p := strings.Join(cs, "/")
	if r.Intn(3) > 0 {
		p = "/" + p
	}
	return p
}

func p11(c *fw.C) {
	n := c.Pick("paths", 5, 20, 60, 300, 1)
	seed := c.Seed("paths")
	nses := c.Int("sessions", 1, 4)
	rootOK := c.Chance("root path", 10)
	r := rand.New(rand.NewSource(seed))
	var paths []string
	for len(paths) < n {
		p := genPath(r, paths)
		if model.AbsPath(p) == "/" && !rootOK {
			continue
		}
		paths = append(paths, p)
	}
	var show []string
	for _, p := range paths {
		if len(show) < 12 && len(p) < 80 {
			show = append(show, p)
		}
	}
	moving := c.Chance("working directories", 3)
	many := 0
	if c.Chance("many", 30) {
		many = c.Int("how many", 66000, 75000) // more than 16 bits can number
	}
	c.Describe("n=%d seed=%d sessions=%d moving=%v many=%d: %q ...", n, seed, nses, moving, many, show)
	wd, err := os.Getwd()
	if err != nil {
		fw.Broken("%v", err)
	}
	defer os.Chdir(wd)
	var wds []string
	for _, d := range []string{"w1", "w1/a", "w2", "w2/a/b"} {
		d = filepath.Join(c.Dir(), d)
		if err := os.MkdirAll(d, 0755); err != nil {
			fw.Broken("%v", err)
		}
		wds = append(wds, d)
	}
	s := model.Setup{Shape: model.Shape{B: 2, I: 1, Shards: 1}, Shatters: 1 + r.Intn(3), Flush: []int{1, 5, 16384}[r.Intn(3)]}
	ref := model.NewRef(s.Shape)
	var docs []model.DocSpec
	seen := map[string]bool{}
	hasRoot := false
	for i := 0; i < many; i++ {
		p := fmt.Sprintf("/many/%d", i)
		if i%5 == 0 {
			p = fmt.Sprintf("/many/%d/in/%d", i/50, i)
		}
		d := model.DocSpec{Path: p, Start: uint32(i), End: uint32(i + 9), Dat: []byte("one two")}
		docs = append(docs, d)
		ref.Add(&d)
	}
	for i, p := range paths {
		d := model.DocSpec{Path: p, Start: uint32(i), End: uint32(i + 9), Dat: []byte("one two")}
		if moving && !strings.HasPrefix(p, "/") {
			d.Wd = wds[r.Intn(len(wds))]
		}
		docs = append(docs, d)
		ref.Add(&d)
		a := model.AbsPath(p)
		rel := seen[a] || a != p
		hasRoot = hasRoot || a == "/"
		for q := a; q != "/"; q = filepath.Dir(q) {
			rel = rel || seen[q]
		}
		seen[a] = true
		c.SubEval(fmt.Sprint(i), rel)
	}
	var cuts []int
	left := len(docs)
	for k := 1; k < nses; k++ {
		x := r.Intn(left + 1)
		cuts = append(cuts, x)
		left -= x
	}
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, docs, cuts...)
	for k := 0; k < 2; k++ {
		idx := model.Open(c, root)
		q := idx.StartQuery(dupi.QueryMaxBlot)
		for _, b := range ref.Blots(1) {
			if err := ref.CheckLookup(q, b); err != nil {
				c.Fatalf("%v", err)
			}
		}
		st, err := idx.Stats()
		c.NoErr(err, "Stats")
		if !hasRoot && st.NumPaths != uint64(ref.NumPaths()) {
			c.Fatalf("%d nodes in the path tree, want %d", st.NumPaths, ref.NumPaths())
		}
		idx.Close()
	}
	c.Class("changing working directory", moving)
	c.Class("more than 65535 paths", many > 0)
	c.Class("several sessions", nses > 1)
	c.Class("100+ paths", n > 100)
}
