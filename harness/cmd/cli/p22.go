package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"path/filepath"
	"strings"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P22",
		Rule:  "A case is an index built with the library and the extract command run on it with six values of sigma (drawn, and computed to put the threshold next to the number of documents of a blot) in its three forms. Each form's output is parsed; the set of blots, their documents in order and the falling numbers of documents must be those of the reference, and nothing else may be printed. Where rounding of the threshold depends on less than a millionth, either side is accepted. Evaluations count runs. Non-trivial: at least two blots have two or more documents.",
		Quick: 8, Thorough: 160,
		Fn: p22,
	})
}

func p22(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 4, Many: true})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 0, MaxDocs: 16, Dense: true, Bulk: true, MaxWords: 40, Long: 12})
	seed := c.Seed("runs")
	sessions := c.Int("first session", 0, len(cp.Docs))
	for i := range cp.Docs {
		if c.Chance("odd path", 8) {
			cp.Docs[i].Path += []string{" with space", "\nline", " @1:2", "é", "\"q\"", "<&>", " ", "\n"}[i%8]
		}
	}
	for i := range cp.Docs {
		if n := len(cp.Docs[i].Dat); n > 8000 && c.Bool("again") {
			// thousands of blots that two documents have
			d := cp.Docs[i]
			d.Path += "/again"
			cp.Docs = append(cp.Docs, d)
			c.Class("a long text twice", true)
			break
		}
	}
	c.Describe("%s sessions=%d runs=%d docs:%s", s, sessions, seed, cp)
	r := rand.New(rand.NewSource(seed))
	root := filepath.Join(c.Dir(), "idx")
	model.Build(c, s, root, cp.Docs, sessions)
	ref := cp.Ref(s.Shape)
	e := newEnv(c)
	before := model.Snapshot(root)
	mean, dev := ref.MeanSigma()
	all := ref.Blots(2)
	var sizes []int
	for _, b := range all {
		sizes = append(sizes, len(ref.M[b]))
	}
	for k := 0; k < 6; k++ {
		var sigma float64
		args := []string{"-r", root, "extract"}
		switch x := r.Intn(8); {
		case x == 0:
			sigma = 2 // the default
		case x == 1:
			sigma = []float64{0, 1, 3, -1, -1e6, 1e7, 0.5, 100}[r.Intn(8)]
		case x == 2 || len(sizes) == 0 || dev == 0:
			sigma = r.Float64() * 1000
		default: // around a size
			n := sizes[r.Intn(len(sizes))]
			sigma = (float64(n) + []float64{-0.49, 0, 0.49, 0.51, -0.51, 1}[r.Intn(6)] - mean) / dev
		}
		if sigma != 2 {
			args = append(args, fmt.Sprintf("-sigma=%v", sigma))
		}
		t := mean + sigma*dev
		lo := math.Round(t - 1e-6*(1+math.Abs(t)))
		hi := math.Round(t + 1e-6*(1+math.Abs(t)))
		must, may := map[uint32]bool{}, map[uint32]bool{}
		for _, b := range all {
			n := float64(len(ref.M[b]))
			if n >= hi {
				must[b] = true
			}
			if n >= lo {
				may[b] = true
			}
		}
		for form := 0; form < 3; form++ {
			a := append([]string{}, args...)
			switch form {
			case 1:
				a = append(a, "-json")
			case 2:
				a = append(a, "-b")
			}
			res := e.ok(a...)
			what := fmt.Sprintf("dupi %q (threshold %v)", a, t)
			var got []model.Page
			var err error
			switch form {
			case 0:
				got, err = parseText(ref, res.out)
			case 1:
				got, err = parseJSON(res.out)
			case 2:
				got, err = parseBlots(ref, res.out)
			}
			if err != nil {
				c.Fatalf("%s: %v in %s", what, err, cut(res.out))
			}
			seen := map[uint32]bool{}
			last := math.MaxInt
			for _, p := range got {
				if seen[p.Blot] {
					c.Fatalf("%s: blot %x is printed twice", what, p.Blot)
				}
				seen[p.Blot] = true
				n := len(ref.M[p.Blot])
				if !may[p.Blot] {
					c.Fatalf("%s: blot %x with %d documents is printed", what, p.Blot, n)
				}
				if d := model.Diff(p.Docs, ref.List(p.Blot)); d != "" {
					c.Fatalf("%s: blot %x: %s", what, p.Blot, d)
				}
				if n > last {
					c.Fatalf("%s: blot %x with %d documents is printed after one with %d", what, p.Blot, n, last)
				}
				last = n
			}
			for b := range must {
				if !seen[b] {
					c.Fatalf("%s: blot %x with %d documents is missing; %d of %d were printed", what, b, len(ref.M[b]), len(got), len(must))
				}
			}
			c.SubEval(fmt.Sprint(k, form), len(all) >= 2)
		}
		c.Class("some kept, some dropped", len(must) > 0 && len(may) < len(all))
		c.Class("all kept", len(all) > 0 && len(must) == len(all))
		c.Class("all dropped", len(all) > 0 && len(may) == 0)
	}
	c.Class("nothing to extract", len(all) == 0)
	if d := before.Diff(model.Snapshot(root), nil); d != "" {
		c.Fatalf("extracting changed the index: %s", d)
	}
	if res := e.dupi("-r", root+"x", "extract"); res.code == 0 || res.out != "" {
		c.Fatalf("extracting from an index that does not exist exits with %d and prints %q", res.code, res.out)
	}
}

func cut(s string) string {
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return fmt.Sprintf("%q", s)
}

func parseText(ref *model.Ref, out string) ([]model.Page, error) {
	// paths may hold anything, so recognise the lines by what is expected
	line := func(b uint32) string {
		var w strings.Builder
		fmt.Fprintf(&w, "%x", b)
		for _, d := range ref.List(b) {
			fmt.Fprintf(&w, " %s@%d:%d", d.Path, d.Start, d.End)
		}
		w.WriteByte('\n')
		return w.String()
	}
	var res []model.Page
	for out != "" {
		var b uint32
		i := strings.IndexAny(out, " \n")
		if i < 0 {
			return nil, fmt.Errorf("no end of line after %q", out)
		}
		if _, err := fmt.Sscanf(out[:i], "%x", &b); err != nil || fmt.Sprintf("%x", b) != out[:i] {
			return nil, fmt.Errorf("%q is no blot", out[:i])
		}
		l := line(b)
		if !strings.HasPrefix(out, l) {
			return nil, fmt.Errorf("line of blot %x is not %q", b, l)
		}
		out = out[len(l):]
		res = append(res, model.Page{Blot: b, Docs: ref.List(b)})
	}
	return res, nil
}

func parseBlots(ref *model.Ref, out string) ([]model.Page, error) {
	var res []model.Page
	for _, l := range strings.SplitAfter(out, "\n") {
		if l == "" {
			continue
		}
		var b uint32
		if _, err := fmt.Sscanf(l, "%x\n", &b); err != nil || fmt.Sprintf("%x\n", b) != l {
			return nil, fmt.Errorf("%q is no blot", l)
		}
		res = append(res, model.Page{Blot: b, Docs: ref.List(b)})
	}
	return res, nil
}

// parseJSON accepts any number of lists of blots.
func parseJSON(out string) ([]model.Page, error) {
	var res []model.Page
	d := json.NewDecoder(strings.NewReader(out))
	for {
		var ps []struct {
			Blot uint32
			Docs []struct {
				Path       string
				Start, End uint32
			}
		}
		if err := d.Decode(&ps); err == io.EOF {
			return res, nil
		} else if err != nil {
			return nil, fmt.Errorf("output is not JSON: %v", err)
		}
		for _, p := range ps {
			g := model.Page{Blot: p.Blot}
			for _, x := range p.Docs {
				g.Docs = append(g.Docs, model.RDoc{Path: x.Path, Start: x.Start, End: x.End})
			}
			res = append(res, g)
		}
	}
}
