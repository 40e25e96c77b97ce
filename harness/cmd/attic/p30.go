package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"time"

	"github.com/go-air/dupi/attic/ibloom"
	"github.com/go-air/dupi/attic/trigram"
	"github.com/go-air/dupi/token"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P30",
		Rule:  "A case draws a filter (number of bytes up to 2^33 for positions and 1 to 4000 for members, number of hashes, by constructor and by configuration, also degenerate ones, which must be refused), member sets of several families, and token sequences from generated texts and from arbitrary words. Checked are: members are had; the positions of a value are in range, the same by visiting and by storing, and exactly those set; stored configurations make the same filter; the measured rate of false positives is at most three times the estimated one (plus five standard deviations of the measurement); trigrams are in the alphabet, spell the last three letters, and FromTokens gives what VisitTokens visits apart from the two trigrams that are not complete, after what was there. Evaluations count filters, member sets and token sequences. Non-trivial: the set has members; the text has three letters.",
		Quick: 1000, Thorough: 40000,
		Fn: p30,
	})
}

func p30(c *fw.C) {
	seed := c.Seed("values")
	mb := c.Pick("bytes", 1, 2, 3, 5, 8, 13, 64, 100, 1000, 1024, 4000)
	k := c.Pick("hashes", 1, 1, 2, 3, 4, 7, 10, 31, 64)
	n := c.Int("members", 0, 300)
	family := c.Int("family", 0, 3)
	c.Describe("bytes=%d hashes=%d members=%d family=%d seed=%d", mb, k, n, family, seed)
	r := rand.New(rand.NewSource(seed))
	values := func(n int) []uint32 {
		base := r.Uint32()
		res := make([]uint32, n)
		for i := range res {
			switch family {
			case 0:
				res[i] = r.Uint32()
			case 1:
				res[i] = base + uint32(i)
			case 2:
				res[i] = uint32(i) << 8
			case 3:
				res[i] = []uint32{0, 1, math.MaxUint32, 1 << 31, 255, 256, 65535, 65536}[r.Intn(8)] + uint32(r.Intn(3))
			}
		}
		return res
	}
	bloomLaws(c, r, mb, k, n, values)
	bloomSizes(c, r)
	rate(c, r, family)
	trigrams(c, r)
}

func ones(f ibloom.Filter, v uint32) []int {
	var res []int
	f.Ones(v, func(i int) bool { res = append(res, i); return true })
	return res
}

func bloomLaws(c *fw.C, r *rand.Rand, mb, k, n int, values func(int) []uint32) {
	var f ibloom.Filter
	if r.Intn(2) == 0 {
		f = ibloom.NewFnv32(mb, k)
	} else {
		var err error
		f, err = ibloom.FromConfig(&ibloom.Config{Name: "fnv32", M: mb*8 + r.Intn(8), K: k})
		c.NoErr(err, "filter of %d bytes and %d hashes from a configuration", mb, k)
	}
	if f.K() != k || f.M() != mb*8 {
		c.Fatalf("filter of %d bytes and %d hashes says M=%d K=%d", mb, k, f.M(), f.K())
	}
	g, err := ibloom.FromConfig(f.Config())
	c.NoErr(err, "filter from the configuration %+v of a filter", f.Config())
	d := f.Set()
	if len(d) != mb {
		c.Fatalf("set of a filter of %d bytes has %d", mb, len(d))
	}
	for i := range d {
		if d[i] != 0 {
			c.Fatalf("new set is not empty")
		}
	}
	ref := map[int]bool{}
	ms := values(n)
	for i, v := range ms {
		os := ones(f, v)
		if len(os) != k {
			c.Fatalf("%d positions for value %d of a filter with %d hashes", len(os), v, k)
		}
		all := true
		for _, o := range os {
			if o < 0 || o >= mb*8 {
				c.Fatalf("position %d for value %d of a filter of %d bits", o, v, mb*8)
			}
			all = all && ref[o]
		}
		if got := f.Has(d, v); got != all {
			c.Fatalf("before value %d (%d of %v) is added Has is %v; of its positions %v are set: %v", v, i, ms, got, os, all)
		}
		dst := make([]uint32, k+1)
		dst[k] = 77
		f.PutOnes(dst, v)
		for j, o := range os {
			if dst[j] != uint32(o) {
				c.Fatalf("PutOnes of value %d stores %v, Ones visits %v", v, dst, os)
			}
		}
		if dst[k] != 77 {
			c.Fatalf("PutOnes wrote more than %d positions", k)
		}
		if !same(ones(g, v), os) {
			c.Fatalf("the filter with the same configuration has positions %v for value %d, not %v", ones(g, v), v, os)
		}
		// stopping early
		stop, at := r.Intn(k), 0
		if f.Ones(v, func(int) bool { at++; return at <= stop }) || at != stop+1 {
			c.Fatalf("Ones went on after it was told to stop (%d of %d)", at, stop+1)
		}
		f.Add(d, v)
		for _, o := range os {
			ref[o] = true
		}
	}
	for _, v := range ms {
		if !f.Has(d, v) || !g.Has(d, v) {
			c.Fatalf("member %d is denied", v)
		}
	}
	want := make([]byte, mb)
	for o := range ref {
		want[o/8] |= 1 << (o % 8)
	}
	if !bytes.Equal(want, d) {
		c.Fatalf("after adding %v the set is %x, want %x", ms, d, want)
	}
	c.SubEval("laws", n > 0)
}

// bloomSizes looks at filters too large for a set, and at useless ones.
func bloomSizes(c *fw.C, r *rand.Rand) {
	for _, mb := range []int{1 << 16, 1<<28 + r.Intn(1<<20), 1 << 29, 1<<29 + 1, 1 << 30, 1 << 32, 1<<32 + r.Intn(1000), 1 + r.Intn(1<<33)} {
		f := ibloom.NewFnv32(mb, 5)
		v := r.Uint32()
		for _, o := range ones(f, v) {
			if o < 0 || o >= mb*8 {
				c.Fatalf("position %d for value %d of a filter of %d bytes", o, v, mb)
			}
		}
	}
	for _, cfg := range []ibloom.Config{{"fnv32", r.Intn(8), 3}, {"fnv32", -8 - r.Intn(100), 3}, {"fnv32", 64, -1 - r.Intn(3)}, {"fnv64", 64, 3}, {"", 64, 3}} {
		done := make(chan string, 1)
		go func() {
			defer func() {
				if p := recover(); p != nil {
					done <- fmt.Sprint("panics: ", p)
				}
			}()
			f, err := ibloom.FromConfig(&cfg)
			if err != nil {
				done <- ""
				return
			}
			if cfg.Name != "fnv32" {
				done <- "is accepted"
				return
			}
			d := f.Set()
			f.Add(d, 5)
			if !f.Has(d, 5) {
				done <- "makes a filter that denies its member"
				return
			}
			done <- ""
		}()
		select {
		case s := <-done:
			if s != "" {
				c.Fatalf("configuration %+v %s", cfg, s)
			}
		case <-time.After(20 * time.Second):
			c.Fatalf("configuration %+v makes a filter that does not end adding a member", cfg)
		}
	}
	c.SubEval("sizes", false)
}

// rate measures false positives.
func rate(c *fw.C, r *rand.Rand, family int) {
	n := 100 + r.Intn(1500)
	p := []float64{0.5, 0.3, 0.15, 0.1, 0.05, 0.02, 0.01}[r.Intn(7)]
	m, k := ibloom.Estimate(float64(n), p)
	if m <= 0 || m%8 != 0 || k < 1 {
		c.Fatalf("Estimate(%d, %v) is m=%d k=%d", n, p, m, k)
	}
	// no more than a good filter needs
	need := float64(n) * -math.Log(p) / (math.Ln2 * math.Ln2)
	if float64(m) > 2*need+64 || float64(m) < need/2 {
		c.Fatalf("Estimate(%d, %v) is m=%d; %.0f bits are needed", n, p, m, need)
	}
	f := ibloom.NewFnv32(m/8, k)
	d := f.Set()
	base, step := r.Uint32(), uint32(1+2*r.Intn(1000))
	val := func(i int) uint32 { // no value twice
		if family%2 == 0 {
			x := base + uint32(i)
			x ^= x >> 16
			x *= 0x7feb352d
			x ^= x >> 15
			x *= 0x846ca68b
			x ^= x >> 16
			return x
		}
		return base + uint32(i)*step
	}
	for i := 0; i < n; i++ {
		f.Add(d, val(i))
	}
	const N = 20000
	fp := 0
	for i := 0; i < N; i++ {
		if f.Has(d, val(n+i)) {
			fp++
		}
	}
	q := float64(fp) / N
	if lim := 3*p + 5*math.Sqrt(3*p/N); q > lim && q > p {
		c.Fatalf("for %d members and rate %v, m=%d and k=%d are estimated; the measured rate is %v", n, p, m, k, q)
	}
	c.SubEval(fmt.Sprint("rate", n, p), true)
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

const letters = "0123456789abcdefghijklmnopqrstuvwxyz_"

// letter is the letter a byte of a word stands for.
func letter(b byte) byte {
	if b < 128 {
		if l := strings.ToLower(string(rune(b))); strings.Contains(letters, l) {
			return l[0]
		}
	}
	return '_'
}

func trigrams(c *fw.C, r *rand.Rand) {
	// letters
	for b := 0; b < 256; b++ {
		l := trigram.Letter(rune(b))
		if l >= trigram.NumLetters || byte(trigram.Unletter(byte(l))) != letter(byte(b)) {
			c.Fatalf("character %q has letter %d, which prints as %q", rune(b), l, trigram.Unletter(byte(l)))
		}
	}
	// any start, any shifts
	t := trigram.T(r.Intn(1 << 16))
	word := "???"
	for k := 0; k < 20; k++ {
		l := r.Intn(trigram.NumLetters)
		t = t.Shift(trigram.C(l))
		word = word[1:] + letters[l:l+1]
		if t >= trigram.NumTrigrams {
			c.Fatalf("after shifting letter %d the trigram is %d", l, t)
		}
		if k >= 2 && t.String() != word {
			c.Fatalf("after shifting %q the trigram prints as %q", word, t)
		}
	}
	if trigram.Zero().String() != "___" {
		c.Fatalf("the zero trigram prints as %q", trigram.Zero())
	}
	for k := 0; k < 4; k++ {
		var toks []token.T
		switch r.Intn(3) {
		case 0:
			v := model.GenVocab(c)
			ws := make([]int, r.Intn(8))
			for i := range ws {
				ws[i] = r.Intn(len(v))
			}
			toks = token.Tokenize(nil, model.Render(r, v, ws, 2), 0)
		default:
			for n := r.Intn(6); n > 0; n-- {
				if r.Intn(3) == 0 {
					toks = append(toks, token.T{Tag: token.Other, Lit: []byte("--")})
				} else {
					l := make([]byte, r.Intn(5))
					r.Read(l)
					for i := range l {
						if r.Intn(2) == 0 {
							l[i] = "abzAZ059_é"[r.Intn(10)]
						}
					}
					toks = append(toks, token.T{Tag: token.Word, Lit: l})
				}
			}
		}
		text := "___"
		for _, tok := range toks {
			switch tok.Tag {
			case token.Other:
				text += "_"
			case token.Word:
				for _, b := range tok.Lit {
					text += string(rune(letter(b)))
				}
			}
		}
		var want []string
		for i := 4; i <= len(text); i++ {
			want = append(want, text[i-3:i])
		}
		var got []string
		trigram.VisitTokens(toks, func(t trigram.T) {
			if t >= trigram.NumTrigrams {
				c.Fatalf("trigram %d of tokens %v", t, toks)
			}
			got = append(got, t.String())
		})
		if strings.Join(got, " ") != strings.Join(want, " ") {
			c.Fatalf("tokens %v: visited are %v, want %v", toks, got, want)
		}
		var dst []trigram.T
		for n := r.Intn(3); n > 0; n-- {
			dst = append(dst, trigram.T(r.Intn(trigram.NumTrigrams)))
		}
		old := fmt.Sprint(dst)
		all := trigram.FromTokens(dst, toks)
		if len(all) < len(dst) || fmt.Sprint(all[:len(dst)]) != old {
			c.Fatalf("tokens %v appended to %v give %v", toks, dst, all)
		}
		var rest []string
		for _, t := range all[len(dst):] {
			rest = append(rest, t.String())
		}
		if len(want) < 2 {
			want = nil
		} else {
			want = want[2:]
		}
		if strings.Join(rest, " ") != strings.Join(want, " ") {
			c.Fatalf("tokens %v: FromTokens gives %v, visited without the first two are %v", toks, rest, want)
		}
		c.SubEval(fmt.Sprint("tokens", k, toks), len(text) >= 6)
	}
}
