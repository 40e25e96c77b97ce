package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P25",
		Rule:  "A case is a document set added in one to four sessions; after each session the statistics are read with the library (twice, between lookups, and by two indexes open at once) and with the inspect command in both forms, and every figure is compared with the reference: mean and standard deviation exactly from the list lengths, and rounded in the text form. Evaluations count sessions. Non-trivial: something is shared. Rarely the index has 64 to 300 shards; it is then stored by the writer of P35.",
		Quick: 14, Thorough: 300,
		Fn: p25,
	})
}

var figures = regexp.MustCompile(`-?[0-9]+(\.[0-9]+)?(e[+-][0-9]+)?|NaN|[+-]Inf`)

func p25(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 5, Many: true, Hundreds: true})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 0, MaxDocs: 14, Dense: true, Bulk: true, MaxWords: 40})
	r := model.Rand(c, "sessions")
	n := c.Int("sessions", 1, 4)
	var cuts []int
	left := len(cp.Docs)
	for k := 0; k < n-1; k++ {
		x := r.Intn(left + 1)
		cuts = append(cuts, x)
		left -= x
	}
	cuts = append(cuts, left)
	if s.Stored {
		cuts = []int{len(cp.Docs)}
	}
	c.Describe("%s sessions=%v docs:%s", s, cuts, cp)
	root := filepath.Join(c.Dir(), "idx")
	e := newEnv(c)
	e.dir = filepath.Dir(root)
	ref := model.NewRef(s.Shape)
	at := 0
	for k, m := range cuts {
		docs := cp.Docs[at : at+m]
		at += m
		for i := range docs {
			ref.Add(&docs[i])
		}
		if k == 0 {
			model.Build(c, s, root, docs)
		} else {
			x, err := dupi.OpenIndexer(root)
			c.NoErr(err, "opening append session %d", k)
			model.AddAll(c, x, docs, root)
		}
		idx := model.Open(c, root)
		idx2 := model.Open(c, root)
		check := func(x *dupi.Index, when string) {
			c.Helper()
			if err := ref.CheckStats(x, root); err != nil {
				c.Fatalf("after session %d %s: %v", k, when, err)
			}
		}
		check(idx, "")
		if err := ref.CheckExtraction(idx, []int{3}); err != nil {
			c.Fatalf("after session %d: %v", k, err)
		}
		check(idx, "a second time, after extraction")
		check(idx2, "by another open index")
		c.NoErr(idx.Close(), "closing")
		check(idx2, "after another open index was closed")
		c.NoErr(idx2.Close(), "closing")

		mean, sigma := ref.MeanSigma()
		res := e.ok("-r", root, "inspect", "-json")
		var st dupi.Stats
		d := json.NewDecoder(strings.NewReader(res.out))
		d.DisallowUnknownFields()
		if err := d.Decode(&st); err != nil {
			c.Fatalf("inspect -json after session %d: %v in %s", k, err, cut(res.out))
		}
		if err := ref.CompareStats(&st, root); err != nil {
			c.Fatalf("inspect -json after session %d: %v", k, err)
		}
		dir := root
		if r.Intn(2) == 0 {
			dir = "./idx"
		}
		res = e.ok("-r", dir, "inspect")
		out := res.out
		if !strings.Contains(out, root) {
			c.Fatalf("inspect after session %d prints %s, without the root %q", k, cut(out), root)
		}
		out = strings.ReplaceAll(out, root, "")
		fs := figures.FindAllString(out, -1)
		want := []string{fmt.Sprint(len(ref.Docs)), fmt.Sprint(ref.NumPaths()), fmt.Sprint(ref.NumPosts()), fmt.Sprint(ref.Range())}
		if len(fs) != 6 || fs[0] != want[0] || fs[1] != want[1] || fs[2] != want[2] || fs[3] != want[3] || !near(fs[4], mean) || !near(fs[5], sigma) {
			c.Fatalf("inspect after session %d prints %s, the figures are %v, %v, %v", k, cut(res.out), want, mean, sigma)
		}
		c.SubEval(fmt.Sprint(k), len(ref.Blots(2)) > 0)
		c.Class("appended", k > 0)
		c.Class("lists of more than 500", ref.MaxList() > 500)
	}
	huge(c, e, root, s.Shards, r)
}

// huge checks the figures of an index whose lists are said to be as long as
// they can be.  An index that is refused is fine, as the lists are not there.
func huge(c *fw.C, e *env, root string, shards int, r *rand.Rand) {
	if r.Intn(3) > 0 {
		return
	}
	var counts []uint64
	for i := 0; i < shards; i++ {
		p := filepath.Join(root, fmt.Sprintf("b%d.pos.iix", i))
		dat, err := os.ReadFile(p)
		if err != nil {
			fw.Broken("%v", err)
		}
		var out []byte
		for len(dat) > 0 {
			head, n := binary.Varint(dat)
			ct, m := binary.Varint(dat[n:])
			if n <= 0 || m <= 0 || len(dat) < n+m+4 {
				fw.Broken("heads of %s", p)
			}
			if r.Intn(2000) == 0 {
				ct = 1<<31 - 100 + r.Int63n(1<<31)
				if head < 0 {
					head = 0
				}
			}
			counts = append(counts, uint64(ct))
			out = binary.AppendVarint(binary.AppendVarint(out, head), ct)
			out = append(out, dat[n+m:n+m+4]...)
			dat = dat[n+m+4:]
		}
		if err := os.WriteFile(p, out, 0644); err != nil {
			fw.Broken("%v", err)
		}
	}
	var posts uint64
	var sos float64
	for _, n := range counts {
		posts += n
	}
	mean := float64(posts) / float64(len(counts))
	for _, n := range counts {
		sos += (float64(n) - mean) * (float64(n) - mean)
	}
	sigma := math.Sqrt(sos / float64(len(counts)))
	idx, err := dupi.OpenIndex(root)
	if err != nil {
		return
	}
	st, err := idx.Stats()
	cerr := idx.Close()
	c.NoErr(cerr, "closing")
	if err != nil {
		return
	}
	if st.NumPosts != posts || math.Abs(st.BlotMean-mean) > 1e-9*mean || math.Abs(st.BlotSigma-sigma) > 1e-6*sigma {
		c.Fatalf("an index of %d posts in %d lists, mean %v deviation %v, has %d, mean %v deviation %v", posts, len(counts), mean, sigma, st.NumPosts, st.BlotMean, st.BlotSigma)
	}
	if res := e.dupi("-r", root, "inspect", "-json"); res.code == 0 && !strings.Contains(res.out, fmt.Sprint(posts)) {
		c.Fatalf("an index of %d posts: inspect prints %s", posts, cut(res.out))
	}
	if res := e.dupi("-r", root, "inspect"); res.code == 0 {
		fs := figures.FindAllString(strings.ReplaceAll(res.out, root, ""), -1)
		if len(fs) != 6 || fs[2] != fmt.Sprint(posts) || !about(fs[4], mean) || !about(fs[5], sigma) {
			c.Fatalf("an index of %d posts in %d lists, mean %v deviation %v: inspect prints %s", posts, len(counts), mean, sigma, cut(res.out))
		}
	}
	c.Class("more than 2^32 posts", posts > 1<<32)
}

// about accepts a figure with two digits or with six significant ones.
func about(s string, x float64) bool {
	var f float64
	if _, err := fmt.Sscan(s, &f); err != nil {
		return false
	}
	return math.Abs(f-x) <= math.Max(0.005000001, 1e-5*x)
}

// near accepts a figure with two digits.
func near(s string, x float64) bool {
	var f float64
	if _, err := fmt.Sscan(s, &f); err != nil {
		return false
	}
	return math.Abs(f-x) <= 0.005000001
}
