// Package fw is the property-based testing framework of the dupi checks: a
// driver that spreads generated cases over worker processes, and the worker
// side that generates, executes, shrinks and records them with rapid.
package fw

import (
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Prop is one executable property.
type Prop struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	Level string // evidence level; "" means exploration
	// Cases per worker and workers for each tier.
	Quick, Thorough int
	Workers         int  // default 8
	HangSec         int  // no-progress limit for one execution, default 60
	MaxProcs        int  // GOMAXPROCS of a worker, default 2
	RaceThorough    bool // informational: built with -race in the thorough tier
	Assumptions     []string
	Fn              func(c *C)
}

// C is the context of one execution of a property.
type C struct {
	*rapid.T
	w     *worker
	dir   string
	nSub  int
	first bool // explore execution, counted in the statistics

	mu         sync.Mutex
	classes    map[string]bool
	nonTrivial bool
	key        string
	desc       string
	evals      int
	distinct   []uint64
	tags       []string
}

// Dir returns a fresh directory private to this execution.
func (c *C) Dir() string {
	c.nSub++
	d := filepath.Join(c.dir, fmt.Sprintf("d%d", c.nSub))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(HarnessError{err.Error()})
	}
	return d
}

// HarnessError is a failure of the machinery, never a verdict.
type HarnessError struct{ msg string }

func (e HarnessError) Error() string { return e.msg }

// Broken aborts the run as a harness error.
func Broken(format string, args ...interface{}) {
	panic(HarnessError{fmt.Sprintf(format, args...)})
}

// Class labels the case for the distribution statistics.
func (c *C) Class(name string, cond bool) {
	if cond {
		c.mu.Lock()
		c.classes[name] = true
		c.mu.Unlock()
	}
}

// NonTrivial marks the case as non-trivial if cond holds.
func (c *C) NonTrivial(cond bool) {
	if cond {
		c.nonTrivial = true
	}
}

// Describe records the case's canonical text (identity for distinctness, sample
// text, and what is reported if the process dies while executing it).
func (c *C) Describe(format string, args ...interface{}) {
	c.desc = fmt.Sprintf(format, args...)
	c.key = c.desc
	if len(c.desc) > 4000 {
		h := fnv.New64a()
		h.Write([]byte(c.desc))
		c.desc = c.desc[:4000] + fmt.Sprintf("...(%d bytes, fnv64a %x)", len(c.desc), h.Sum64())
	}
	c.w.current(c.desc)
}

// Note records what is being done, for the report should the process die.
func (c *C) Note(format string, args ...interface{}) {
	c.w.current(fmt.Sprintf(format, args...) + "\n" + c.desc)
}

// SubEval counts one evaluation inside a case that explores many points.
func (c *C) SubEval(key string, nonTrivial bool) {
	c.evals++
	if nonTrivial {
		h := fnv.New64a()
		h.Write([]byte(c.key))
		h.Write([]byte{0})
		h.Write([]byte(key))
		c.distinct = append(c.distinct, h.Sum64())
	}
	c.w.beat()
}

// Beat tells the driver that the execution is making progress.
func (c *C) Beat() { c.w.beat() }

// Int draws an integer in [lo,hi].
func (c *C) Int(name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(c.T, name) }

// Pick draws one of the given integers.
func (c *C) Pick(name string, xs ...int) int { return rapid.SampledFrom(xs).Draw(c.T, name) }

// Seed draws a seed of a pseudo-random source, nearly uniformly.
func (c *C) Seed(name string) int64 {
	var x int64
	for k := 0; k < 5; k++ {
		x = x<<8 | int64(rapid.IntRange(0, 255).Draw(c.T, name))
	}
	return x
}

// Bool draws a boolean.
func (c *C) Bool(name string) bool { return rapid.Bool().Draw(c.T, name) }

// Chance draws true with probability about 1/n (shrinks to false).
func (c *C) Chance(name string, n int) bool {
	return rapid.IntRange(0, n-1).Draw(c.T, name) == n-1
}

// Rare draws true with probability 1/n, nearly uniformly (shrinks to false).
func (c *C) Rare(name string, n int) bool {
	x := uint64(c.Seed(name))
	y := x * 0x9E3779B97F4A7C15
	y ^= y >> 29
	y *= 0xBF58476D1CE4E5B9
	return x != 0 && (y>>32)%uint64(n) == 0
}

// NoErr fails the property if err is not nil.
func (c *C) NoErr(err error, what string, args ...interface{}) {
	c.Helper()
	if err != nil {
		c.Fatalf("%s: unexpected error: %v", fmt.Sprintf(what, args...), err)
	}
}

// --- rapid's TB ---

type recTB struct {
	mu     sync.Mutex
	name   string
	out    []string
	failed bool
	w      *worker
}

type tbFailNow struct{}

func (t *recTB) Helper()      {}
func (t *recTB) Name() string { return t.name }
func (t *recTB) log(s string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(s) > 20000 {
		s = s[:20000] + "..."
	}
	if len(t.out) < 400 {
		t.out = append(t.out, s)
	}
}
func (t *recTB) Logf(f string, a ...any)   { t.log(fmt.Sprintf(f, a...)) }
func (t *recTB) Log(a ...any)              { t.log(fmt.Sprint(a...)) }
func (t *recTB) Skipf(f string, a ...any)  { t.log(fmt.Sprintf(f, a...)); panic(tbFailNow{}) }
func (t *recTB) Skip(a ...any)             { t.log(fmt.Sprint(a...)); panic(tbFailNow{}) }
func (t *recTB) SkipNow()                  { panic(tbFailNow{}) }
func (t *recTB) Errorf(f string, a ...any) { t.log(fmt.Sprintf(f, a...)); t.failed = true }
func (t *recTB) Error(a ...any)            { t.log(fmt.Sprint(a...)); t.failed = true }
func (t *recTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbFailNow{}) }
func (t *recTB) Fatal(a ...any)            { t.Error(a...); panic(tbFailNow{}) }
func (t *recTB) FailNow()                  { t.failed = true; panic(tbFailNow{}) }
func (t *recTB) Fail()                     { t.failed = true }
func (t *recTB) Failed() bool              { return t.failed }

// --- worker ---

// memLimit bounds the address space of a worker.
const memLimit = 4 << 30

type workerSpec struct {
	Prop     string
	Tier     string
	Seed     uint64
	Index    int
	Cases    int
	OneSeed  uint64 // run only this case
	FailFile string // replay this rapid fail file
	Out      string
	Hb       string
	Cur      string
	Dir      string
	Shrink   string
	Budget   int // seconds after which no further case is begun
	Aux      map[string]string
}

type workerResult struct {
	Cases       int
	Short       int // cases left out for lack of time
	Evaluations int
	Distinct    []uint64
	Classes     map[string]int
	Samples     []string
	Tags        map[string]int
	Failed      bool
	CaseSeed    uint64
	Message     string
	FailFile    string
	HarnessErr  string
}

type worker struct {
	spec  workerSpec
	prop  *Prop
	hb    *os.File
	n     uint64
	res   workerResult
	seen  map[uint64]bool
	execs int
}

var theWorker *worker

// Aux returns a named auxiliary value given to the workers (such as the path
// of the command line binary).
func (c *C) Aux(name string) string { return c.w.spec.Aux[name] }

// Thorough says whether the thorough tier is running.
func (c *C) Thorough() bool { return c.w.spec.Tier == "thorough" }

func (w *worker) beat() {
	w.n++
	fmt.Fprintf(w.hb, ".")
	if w.n%4096 == 0 {
		w.hb.Truncate(0)
		w.hb.Seek(0, 0)
	}
}

func (w *worker) current(s string) {
	os.WriteFile(w.spec.Cur, []byte(s), 0644)
}

func caseSeed(seed uint64, idx, k int) uint64 {
	x := seed*0x9E3779B97F4A7C15 + uint64(idx)*0xBF58476D1CE4E5B9 + uint64(k)*0x94D049BB133111EB
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	if x == 0 {
		x = 1
	}
	return x
}

func setFlag(k, v string) {
	if err := flag.Set(k, v); err != nil {
		panic(err)
	}
}

// runOne executes one case under rapid; it reports whether it failed.
func (w *worker) runOne(seed uint64, failfile string) (bool, string) {
	tb := &recTB{name: w.prop.ID, w: w}
	setFlag("rapid.checks", "1")
	setFlag("rapid.seed", fmt.Sprint(seed))
	setFlag("rapid.failfile", failfile)
	setFlag("rapid.nofailfile", "false")
	setFlag("rapid.shrinktime", w.spec.Shrink)
	executions := 0
	func() {
		defer func() {
			p := recover()
			if p == nil {
				return
			}
			if _, ok := p.(tbFailNow); ok {
				return
			}
			panic(p)
		}()
		rapid.Check(tb, func(t *rapid.T) {
			executions++
			w.exec(t, executions == 1)
		})
	}()
	return tb.failed, strings.Join(tb.out, "\n")
}

type statsPending struct {
	c *C
}

func (w *worker) exec(t *rapid.T, first bool) {
	w.beat()
	w.execs++
	dir := filepath.Join(w.spec.Dir, fmt.Sprintf("x%d", w.execs))
	if err := os.MkdirAll(dir, 0755); err != nil {
		w.harness(err.Error())
	}
	c := &C{T: t, w: w, dir: dir, first: first, classes: map[string]bool{}}
	defer func() {
		p := recover()
		os.RemoveAll(dir)
		if p != nil {
			if he, ok := p.(HarnessError); ok {
				w.harness(he.msg)
			}
			panic(p)
		}
		if first {
			w.record(c)
		}
	}()
	w.prop.Fn(c)
}

func (w *worker) record(c *C) {
	r := &w.res
	r.Cases++
	for k := range c.classes {
		r.Classes[k]++
	}
	if c.evals > 0 {
		r.Evaluations += c.evals
		for _, h := range c.distinct {
			if !w.seen[h] {
				w.seen[h] = true
				r.Distinct = append(r.Distinct, h)
			}
		}
	} else {
		r.Evaluations++
		if c.nonTrivial {
			h := fnv.New64a()
			h.Write([]byte(c.key))
			x := h.Sum64()
			if !w.seen[x] {
				w.seen[x] = true
				r.Distinct = append(r.Distinct, x)
			}
		}
	}
	if len(r.Samples) < 2 && c.desc != "" && (c.nonTrivial || c.evals > 0) {
		d := c.desc
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		r.Samples = append(r.Samples, d)
	}
}

func (w *worker) harness(msg string) {
	w.res.HarnessErr = msg
	w.flush()
	fmt.Fprintf(os.Stderr, "HARNESS ERROR: %s\n", msg)
	os.Exit(4)
}

func (w *worker) flush() {
	writeJSON(w.spec.Out, &w.res)
}

func workerMain(props []*Prop, specFile string) {
	var spec workerSpec
	readJSON(specFile, &spec)
	if spec.Aux["race"] != "1" {
		// one broken case must not take the machine's memory
		lim := syscall.Rlimit{Cur: memLimit, Max: memLimit}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	w := &worker{spec: spec, seen: map[uint64]bool{}}
	theWorker = w
	w.res.Classes = map[string]int{}
	for _, p := range props {
		if p.ID == spec.Prop {
			w.prop = p
		}
	}
	if w.prop == nil {
		fmt.Fprintf(os.Stderr, "no property %s in this binary\n", spec.Prop)
		os.Exit(4)
	}
	mp := w.prop.MaxProcs
	if mp == 0 {
		mp = 2
	}
	runtime.GOMAXPROCS(mp)
	var err error
	w.hb, err = os.Create(spec.Hb)
	if err != nil {
		w.harness(err.Error())
	}
	if err := os.Chdir(spec.Dir); err != nil {
		w.harness(err.Error())
	}
	run := func(seed uint64, ff string) bool {
		w.res.CaseSeed = seed
		failed, msg := w.runOne(seed, ff)
		if failed {
			w.res.Failed = true
			w.res.Message = msg
			ms, _ := filepath.Glob(filepath.Join(spec.Dir, "testdata", "rapid", "*", "*.fail"))
			sort.Strings(ms)
			if len(ms) > 0 {
				d, _ := os.ReadFile(ms[len(ms)-1])
				w.res.FailFile = string(d)
			}
			w.flush()
			os.Exit(1)
		}
		return failed
	}
	switch {
	case spec.FailFile != "":
		// a stored shrunk case: rapid runs it before anything else
		run(1, spec.FailFile)
	case spec.OneSeed != 0:
		run(spec.OneSeed, "")
	default:
		began := time.Now()
		for k := 0; k < spec.Cases; k++ {
			if k > 0 && spec.Budget > 0 && time.Since(began) > time.Duration(spec.Budget)*time.Second {
				w.res.Short = spec.Cases - k
				break
			}
			s := caseSeed(spec.Seed, spec.Index, k)
			os.WriteFile(spec.Cur+".seed", []byte(fmt.Sprint(s)), 0644)
			run(s, "")
		}
	}
	w.flush()
	os.Exit(0)
}
