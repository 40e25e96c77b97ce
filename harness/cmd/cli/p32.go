package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P32",
		Rule:  "A case is up to five indexes of different documents and shapes at the places a command may be told to use: the default place, one named by the environment, and others, with odd names (those of verbs and of options, with spaces, relative). Twenty runs of the reading commands name one of them in a drawn way with the others as decoys, and sometimes one that does not exist: the answer must be that index's, or an error with nothing printed as an answer. Then fifteen runs with something wrong (unknown verbs and options, malformed blots and numbers, missing files and configurations, an index where one is, or to append to where none is) must exit with failure, and fifteen with arguments drawn from a grammar must end without a crash. Nothing but the gops directory and locks may change. Evaluations count runs. Non-trivial: there was a decoy, or failure was due.",
		Quick: 6, Thorough: 150,
		Fn: p32,
	})
}

type place struct {
	root string
	s    model.Setup
	ref  *model.Ref // nil: no index
	docs []model.DocSpec
}

func p32(c *fw.C) {
	e := newEnv(c)
	e.dir = filepath.Join(e.home, "work dir")
	os.MkdirAll(e.dir, 0755)
	r := model.Rand(c, "names")
	names := []string{"index", "blot", "unblot", "like", "inspect", "extract", "an index", "idx", "-r", "--", "-x", "é", "a/../b", "./c", "=d", "$HOME", "cash$5", "${DUPIROOT}x", "~", "*", "%41", "a\\ b", "nl\nname", " sp "}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	spell := []string{filepath.Join(e.home, ".dupi"), filepath.Join(e.home, "env index"), names[0], names[1], names[2]}
	var places []*place
	n := c.Int("places", 2, 5)
	for i := 0; i < n; i++ {
		p := &place{root: e.at(spell[i])}
		p.s = model.GenSetup(c, model.SetupOpts{MaxShards: 3, MaxB: 3})
		cp := model.GenCorpus(c, p.s.Shape, model.CorpusOpts{MinDocs: 1, MaxDocs: 5, Dense: true, MaxWords: 20})
		if c.Chance("missing", 4) {
			places = append(places, p)
			continue
		}
		p.ref = model.NewRef(p.s.Shape)
		for k := range cp.Docs {
			d := cp.Docs[k]
			d.Path = filepath.Join(e.home, "docs", fmt.Sprintf("%d.%d", i, k))
			d.Start, d.End = 0, uint32(len(d.Dat))
			write(d.Path, d.Dat)
			p.docs = append(p.docs, d)
			p.ref.Add(&p.docs[k])
		}
		model.Build(c, p.s, p.root, p.docs)
		if c.Chance("linked", 5) { // the name is that of a symbolic link to the index
			real := filepath.Join(e.home, fmt.Sprint("real ", i))
			if os.Rename(p.root, real) != nil || os.Symlink(real, p.root) != nil {
				fw.Broken("cannot link %q", p.root)
			}
			c.Class("linked", true)
		}
		places = append(places, p)
	}
	seed := c.Seed("runs")
	c.Describe("places=%q seed=%d", spell[:n], seed)
	r = rand.New(rand.NewSource(seed))
	if err := os.WriteFile(filepath.Join(e.dir, "empty"), nil, 0644); err != nil {
		fw.Broken("%v", err)
	}
	before := model.Snapshot(e.home)
	quiet := func(args []string) {
		c.Helper()
		d := before.Diff(model.Snapshot(e.home), func(p string) bool {
			return strings.HasPrefix(p, filepath.Join(e.home, ".config")) || strings.HasSuffix(p, ".lock") || p == e.home || p == e.dir
		})
		if d != "" {
			c.Fatalf("dupi %q with %q has changed %s", args, e.vars, d)
		}
	}
	// choose names a place in a drawn way.
	choose := func(i int) []string {
		e.vars = nil
		other := []string{"", "DUPIROOT=" + places[r.Intn(n)].root, "DUPIROOT=" + e.at("nothing")}[r.Intn(3)]
		switch {
		case i == 0 && r.Intn(3) > 0:
			if r.Intn(3) == 0 {
				e.vars = []string{"DUPIROOT="} // as if not set
			}
			return nil
		case i == 1 && r.Intn(3) > 0:
			e.vars = []string{"DUPIROOT=" + places[1].root}
			if r.Intn(3) == 0 {
				return []string{"-r", ""} // as if not given
			}
			return nil
		}
		if other != "" {
			e.vars = []string{other}
		}
		sp := spell[i]
		if r.Intn(3) == 0 {
			sp = places[i].root
		}
		return [][]string{{"-r", sp}, {"-r=" + sp}, {"--r", sp}, {"--r=" + sp}, {"-r", "nowhere", "-r", sp}}[r.Intn(5)]
	}
	for k := 0; k < 20; k++ {
		i := r.Intn(n)
		p := places[i]
		g := choose(i)
		verb := []string{"inspect", "inspect", "extract", "blot", "unblot", "like"}[r.Intn(6)]
		args := append([]string{}, g...)
		var spec *model.DocSpec
		from := places[r.Intn(n)]
		if p.ref != nil && r.Intn(2) == 0 {
			from = p
		}
		if from.ref != nil {
			spec = &from.docs[r.Intn(len(from.docs))]
		} else {
			spec = &model.DocSpec{Path: filepath.Join(e.dir, "empty")}
		}
		var blot uint32
		switch verb {
		case "inspect":
			args = append(args, verb, "-json")
		case "extract":
			args = append(args, verb, "-b", "-sigma=-1e6")
		case "blot":
			args = append(args, verb, spec.Path)
		case "unblot":
			if p.ref != nil {
				bs := p.ref.Blots(1)
				if len(bs) == 0 {
					continue
				}
				blot = bs[r.Intn(len(bs))]
			}
			args = append(args, verb, "-all", fmt.Sprintf("%x", blot))
		case "like":
			args = append(args, verb, spec.Path)
		}
		res := e.dupi(args...)
		quiet(args)
		what := fmt.Sprintf("dupi %q with %q in %s", args, e.vars, e.dir)
		c.SubEval(fmt.Sprint("run", k), n > 1)
		c.Class(verb, true)
		if p.ref == nil {
			if res.code == 0 || res.out != "" {
				c.Fatalf("%s, where no index is, exits with %d and prints %s", what, res.code, cut(res.out))
			}
			c.Class("no index", true)
			continue
		}
		if res.code != 0 {
			c.Fatalf("%s exits with %d: %s", what, res.code, res.err)
		}
		switch verb {
		case "inspect":
			var st dupi.Stats
			if err := json.Unmarshal([]byte(res.out), &st); err != nil {
				c.Fatalf("%s: %v in %s", what, err, cut(res.out))
			}
			root := p.root
			if a, err := os.Stat(root); err == nil && filepath.IsAbs(st.Root) {
				if b, err := os.Stat(st.Root); err == nil && os.SameFile(a, b) {
					root = st.Root
				}
			}
			if err := p.ref.CompareStats(&st, root); err != nil {
				c.Fatalf("%s: %v", what, err)
			}
		case "extract":
			got := strings.Fields(res.out)
			var want []string
			for _, b := range p.ref.Blots(2) {
				want = append(want, fmt.Sprintf("%x", b))
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				c.Fatalf("%s prints %s, want %q", what, cut(res.out), want)
			}
		case "blot":
			var want strings.Builder
			for _, w := range p.s.Windows(spec.Dat) {
				fmt.Fprintf(&want, "%x\n", w.Raw%p.s.Range())
			}
			if res.out != want.String() {
				c.Fatalf("%s prints %s, want %s", what, cut(res.out), cut(want.String()))
			}
		case "unblot":
			paths := map[string]bool{}
			for _, d := range p.ref.List(blot) {
				paths[d.Path] = true
			}
			for _, q := range places {
				for _, d := range q.docs {
					if strings.Contains(res.out, "\t"+d.Path+" 0:") != paths[d.Path] {
						c.Fatalf("%s prints %s, want the documents %v", what, cut(res.out), paths)
					}
				}
			}
		case "like":
			if !strings.Contains(res.out, spec.Path) {
				c.Fatalf("%s prints %s", what, cut(res.out))
			}
			for _, q := range places {
				for _, d := range q.docs {
					listed := strings.Contains(res.out, "\t"+d.Path+" 0:")
					if listed && q != p {
						c.Fatalf("%s lists %s, which another index has", what, d.Path)
					}
					if !listed && q == p && d.Path == spec.Path && len(p.s.Windows(d.Dat)) > 0 {
						c.Fatalf("%s does not list the document itself", what)
					}
				}
			}
		}
	}
	// what must fail
	for k := 0; k < 15; k++ {
		i := r.Intn(n)
		p := places[i]
		g := choose(i)
		gone := filepath.Join(e.dir, "gone")
		bad := [][]string{
			{}, {"nosuchverb"}, {"Index", "empty"}, {"-q", "inspect"}, {"-r"}, {"inspect", "-nosuch"}, {"extract", "-sigma=x"}, {"extract", "-sigma"},
			{"index", "-n", "x"}, {"index", "-t", ""}, {"index", "-c", gone}, {"index", "-c", e.dir}, {"index", "-n", "0", "empty"}, {"index", "-t", "-1", "empty"}, {"index", "-s", "0", "empty"},
			{"like", gone}, {"blot", gone}, {"blot", e.dir}, {"like", e.dir}, {"blot", "empty", gone}, {"blot", gone, "empty"},
			{"unblot", "zz"}, {"unblot", ""}, {"unblot", "-all", "12 34"}, {"unblot", "0x12"}, {"unblot", "12zz"}, {"unblot", "123456789"}, {"unblot", "-12"}, {"unblot", "1.5"},
		}
		b := bad[r.Intn(len(bad))]
		if p.ref != nil && r.Intn(6) == 0 {
			b = []string{"index", "-n", "2", "empty"} // there is one
		}
		if p.ref == nil && r.Intn(3) == 0 {
			b = []string{"index", "-a", "empty"} // there is none
		}
		args := append(append([]string{}, g...), b...)
		if len(b) == 0 {
			args = g
		}
		if len(b) > 0 && b[0] == "-r" {
			args = []string{"-r"}
		}
		res := e.dupi(args...)
		quiet(args)
		if res.code == 0 {
			c.Fatalf("dupi %q with %q in %s (index there: %v) exits with 0, prints %s %s", args, e.vars, e.dir, p.ref != nil, cut(res.out), cut(res.err))
		}
		if strings.TrimSpace(res.err) == "" {
			c.Fatalf("dupi %q with %q in %s fails without a message", args, e.vars, e.dir)
		}
		c.SubEval(fmt.Sprint("bad", k), true)
	}
	// anything
	words := []string{"inspect", "extract", "blot", "unblot", "like", "-r", "-json", "-b", "-all", "-offsets", "-sigma", "-h", "--help", "-files", "empty", "", "-", "--", "0", "ffffffff", "NaN", "-sigma=NaN", "-sigma=Inf", "-sigma=-Inf", "-sigma=1e308", "gone", "-json=false", "-json=x", "é", "\xff", "\n", "%s%n", spell[n-1], places[0].root, "-r=" + places[n-1].root}
	for k := 0; k < 15; k++ {
		args := choose(r.Intn(n))
		if r.Intn(3) > 0 {
			args = append(args, words[r.Intn(5)])
		}
		for m := r.Intn(5); m > 0; m-- {
			args = append(args, words[r.Intn(len(words))])
		}
		indexing := false
		for _, a := range args {
			indexing = indexing || a == "index"
		}
		if indexing && spell[n-1] == "index" {
			continue // may be the verb
		}
		e.dupi(args...)
		quiet(args)
		c.SubEval(fmt.Sprint("any", k), n > 1)
	}
}
