package fw

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const nobody = 65534

func writeJSON(path string, v interface{}) {
	d, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path+".tmp", d, 0644); err != nil {
		panic(err)
	}
	if err := os.Rename(path+".tmp", path); err != nil {
		panic(err)
	}
}

func readJSON(path string, v interface{}) {
	d, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(d, v); err != nil {
		panic(err)
	}
}

// Replay is the content of a replay file.
type Replay struct {
	Property string
	Tier     string
	Kind     string // failfile or case
	FailFile string
	CaseSeed uint64
	Race     bool
	Message  string
	Case     string
}

type driver struct {
	prop    *Prop
	tier    string
	seed    uint64
	self    string
	scratch string
	verif   string
	aux     map[string]string
	start   time.Time
}

type running struct {
	spec   workerSpec
	cmd    *exec.Cmd
	stderr *os.File
	errf   string
	done   chan error
	hbSize int64
	idle   int
}

func (d *driver) die(code int, format string, args ...interface{}) {
	fmt.Printf("ERROR property=%s %s\n", d.prop.ID, fmt.Sprintf(format, args...))
	os.Exit(code)
}

func (d *driver) spawn(spec workerSpec, tag string) *running {
	wd := filepath.Join(d.scratch, "w-"+tag)
	if err := os.MkdirAll(wd, 0755); err != nil {
		d.die(3, "%v", err)
	}
	os.Chown(wd, nobody, nobody)
	for _, sub := range []string{"cases", "home", "tmp"} {
		os.MkdirAll(filepath.Join(wd, sub), 0755)
		os.Chown(filepath.Join(wd, sub), nobody, nobody)
	}
	spec.Out = filepath.Join(wd, "out.json")
	spec.Hb = filepath.Join(wd, "hb")
	spec.Cur = filepath.Join(wd, "cur")
	spec.Dir = filepath.Join(wd, "cases")
	spec.Aux = d.aux
	specFile := filepath.Join(wd, "spec.json")
	writeJSON(specFile, &spec)
	r := &running{spec: spec, errf: filepath.Join(wd, "stderr"), done: make(chan error, 1)}
	f, err := os.Create(r.errf)
	if err != nil {
		d.die(3, "%v", err)
	}
	r.stderr = f
	cmd := exec.Command(d.self, "worker", specFile)
	cmd.Dir = wd
	cmd.Stdout = f
	cmd.Stderr = f
	cmd.Env = []string{
		"PATH=/usr/local/bin:/usr/local/go/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"HOME=" + filepath.Join(wd, "home"),
		"TMPDIR=" + filepath.Join(wd, "tmp"),
		"GOTRACEBACK=all",
		"GORACE=halt_on_error=1 exitcode=66",
	}
	attr := &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if os.Geteuid() == 0 {
		attr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody, Groups: []uint32{}}
	}
	cmd.SysProcAttr = attr
	r.cmd = cmd
	if err := cmd.Start(); err != nil {
		d.die(3, "cannot start worker as unprivileged user: %v", err)
	}
	go func() { r.done <- cmd.Wait() }()
	return r
}

func (r *running) killAll() {
	syscall.Kill(-r.cmd.Process.Pid, syscall.SIGKILL)
}

type outcome struct {
	kind   string // ok, failed, crash, hang, harness, oom
	res    workerResult
	stderr string
	spec   workerSpec
	cur    string
	seed   uint64
}

func (d *driver) collect(r *running, hang bool, err error) *outcome {
	r.stderr.Close()
	sb, _ := os.ReadFile(r.errf)
	if len(sb) > 1<<20 {
		sb = append(sb[:1<<19:1<<19], sb[len(sb)-1<<19:]...)
	}
	o := &outcome{stderr: string(sb), spec: r.spec}
	cb, _ := os.ReadFile(r.spec.Cur)
	o.cur = string(cb)
	sd, _ := os.ReadFile(r.spec.Cur + ".seed")
	o.seed, _ = strconv.ParseUint(strings.TrimSpace(string(sd)), 10, 64)
	if r.spec.OneSeed != 0 {
		o.seed = r.spec.OneSeed
	}
	if ob, e := os.ReadFile(r.spec.Out); e == nil {
		json.Unmarshal(ob, &o.res)
	}
	switch {
	case hang:
		o.kind = "hang"
	case err == nil:
		o.kind = "ok"
	default:
		code := -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		switch {
		case code == 1 && o.res.Failed:
			o.kind = "failed"
			o.seed = o.res.CaseSeed
		case code == 4:
			o.kind = "harness"
		default:
			o.kind = "crash"
			for _, s := range []string{"out of memory", "cannot allocate memory", "failed to create new OS thread", "no space left on device"} {
				if strings.Contains(o.stderr, s) {
					o.kind = "oom"
				}
			}
			if code == -1 { // killed by a signal
				o.kind = "oom"
			}
			if code == 66 || (code == 2 && (strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "fatal error:"))) {
				if o.kind != "oom" {
					o.kind = "crash"
				}
			} else if o.kind == "crash" {
				o.kind = "harness"
			}
		}
	}
	return o
}

// wait runs the given workers to their end; the first abnormal outcome stops
// all others. The no-progress limit counts the driver's own ticks, so a
// machine that stalls as a whole does not count as a hang.
func (d *driver) wait(rs []*running) []*outcome {
	hangTicks := d.prop.HangSec
	if hangTicks == 0 {
		hangTicks = 60
	}
	hangTicks *= 10
	var outs []*outcome
	live := map[*running]bool{}
	for _, r := range rs {
		live[r] = true
	}
	for len(live) > 0 {
		time.Sleep(100 * time.Millisecond)
		for r := range live {
			var o *outcome
			select {
			case err := <-r.done:
				o = d.collect(r, false, err)
			default:
				if fi, err := os.Stat(r.spec.Hb); err == nil && fi.Size() != r.hbSize {
					r.hbSize = fi.Size()
					r.idle = 0
				} else {
					r.idle++
				}
				if r.idle >= hangTicks {
					syscall.Kill(r.cmd.Process.Pid, syscall.SIGQUIT)
					select {
					case <-r.done:
					case <-time.After(10 * time.Second):
					}
					r.killAll()
					o = d.collect(r, true, nil)
				}
			}
			if o == nil {
				continue
			}
			r.killAll()
			delete(live, r)
			outs = append(outs, o)
			if o.kind != "ok" {
				for r2 := range live {
					r2.killAll()
					<-r2.done
					delete(live, r2)
				}
			}
		}
	}
	return outs
}

var frameRe = regexp.MustCompile(`github\.com/go-air/dupi[^\n]*\(`)

func inDupi(trace string) bool {
	return frameRe.MatchString(trace)
}

// crashHead returns the panic or fatal error text with the first goroutine.
func crashHead(s string) string {
	i := strings.Index(s, "panic:")
	for _, m := range []string{"fatal error:", "WARNING: DATA RACE"} {
		if j := strings.Index(s, m); j >= 0 && (i < 0 || j < i) {
			i = j
		}
	}
	if i < 0 {
		i = 0
	}
	s = s[i:]
	// the first goroutine and the one after it
	if i := strings.Index(s, "\n\ngoroutine "); i >= 0 {
		if j := strings.Index(s[i+2:], "\n\n"); j >= 0 {
			s = s[:i+2+j]
		}
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func (d *driver) violation(rp *Replay) {
	rp.Property = d.prop.ID
	rp.Tier = d.tier
	rp.Race = d.aux["race"] == "1"
	dir := filepath.Join(d.verif, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", d.prop.ID, rp.CaseSeed))
	b, _ := json.MarshalIndent(rp, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
	msg := rp.Message
	if len(msg) > 8000 {
		msg = msg[:8000] + "\n..."
	}
	fmt.Printf("%s\n", msg)
	if rp.Case != "" {
		c := rp.Case
		if len(c) > 3000 {
			c = c[:3000] + "..."
		}
		fmt.Printf("case: %s\n", c)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop.ID, path)
}

// judge turns an abnormal outcome into an exit code.
func (d *driver) judge(o *outcome) int {
	switch o.kind {
	case "failed":
		d.violation(&Replay{Kind: "failfile", FailFile: o.res.FailFile, CaseSeed: o.seed, Message: o.res.Message, Case: o.cur})
		return 1
	case "crash", "hang", "oom":
		// memory refused to one allocation of the code under test counts
		// as a crash when it happens again with nothing else running
		oom := func(o *outcome) bool {
			return o.kind == "oom" && strings.Contains(o.stderr, "out of memory") && inDupi(crashHead(o.stderr))
		}
		if o.kind == "oom" && !oom(o) {
			fmt.Printf("ERROR property=%s worker killed or out of resources: %s\n", d.prop.ID, tail(o.stderr, 1500))
			return 3
		}
		// run that one case again, in a fresh process
		sp := o.spec
		sp.OneSeed = o.seed
		if sp.FailFile == "" {
			again := d.wait([]*running{d.spawn(sp, fmt.Sprintf("again%d", time.Now().UnixNano()))})[0]
			if again.kind == "failed" {
				return d.judge(again)
			}
			if o.kind == "hang" && again.kind != "hang" && again.kind != "crash" {
				fmt.Printf("ERROR property=%s no progress for the limit in one run, but not when repeated: inconclusive\n%s\n", d.prop.ID, tail(o.stderr, 3000))
				return 3
			}
			if o.kind == "oom" && !oom(again) && again.kind != "crash" && again.kind != "hang" {
				fmt.Printf("ERROR property=%s out of memory once: %s\n", d.prop.ID, tail(o.stderr, 1500))
				return 3
			}
			if again.kind == "crash" || again.kind == "hang" || oom(again) {
				o = again
				o.seed = sp.OneSeed
			}
		}
		if !inDupi(o.stderr) && d.aux["crash_any"] != "1" && o.kind == "crash" {
			fmt.Printf("ERROR property=%s worker died outside dupi:\n%s\n", d.prop.ID, tail(crashHead(o.stderr), 3000))
			return 3
		}
		what := "the code under test crashed or deadlocked the process"
		if o.kind == "hang" {
			what = "the code under test made no progress, twice"
		}
		d.violation(&Replay{Kind: "case", CaseSeed: o.seed, Message: what + ":\n" + crashHead(o.stderr), Case: o.cur})
		return 1
	default:
		fmt.Printf("ERROR property=%s harness: %s %s\n", d.prop.ID, o.res.HarnessErr, tail(o.stderr, 3000))
		return 3
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Main is the entry point of a harness binary.
//
//	BIN worker SPEC                       (internal)
//	BIN run ID TIER SCRATCH VERIF [k=v..] explore
//	BIN replay FILE SCRATCH VERIF [k=v..] re-run a stored failure
//	BIN child ...                         property specific helper processes
func Main(props []*Prop, child func(args []string)) {
	if len(os.Args) < 2 {
		os.Exit(3)
	}
	runtime.LockOSThread() // workers end with the thread that started them
	switch os.Args[1] {
	case "worker":
		workerMain(props, os.Args[2])
	case "child":
		if child == nil {
			os.Exit(3)
		}
		child(os.Args[2:])
		os.Exit(0)
	case "has":
		for _, p := range props {
			if p.ID == os.Args[2] {
				os.Exit(0)
			}
		}
		os.Exit(1)
	case "run", "replay":
		os.Exit(driverMain(props))
	}
	os.Exit(3)
}

func driverMain(props []*Prop) int {
	d := &driver{start: time.Now(), aux: map[string]string{}}
	args := os.Args[2:]
	var rp Replay
	if os.Args[1] == "replay" {
		readJSON(args[0], &rp)
		d.tier = rp.Tier
		args = append([]string{rp.Property, rp.Tier}, args[1:]...)
	}
	d.tier = args[1]
	for _, p := range props {
		if p.ID == args[0] {
			d.prop = p
		}
	}
	if d.prop == nil {
		fmt.Printf("ERROR no property %s\n", args[0])
		return 3
	}
	d.scratch, d.verif = args[2], args[3]
	for _, kv := range args[4:] {
		if i := strings.IndexByte(kv, '='); i > 0 {
			d.aux[kv[:i]] = kv[i+1:]
		}
	}
	d.self, _ = os.Executable()
	d.seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 0, 64); err == nil {
			d.seed = v
		} else {
			for _, b := range []byte(s) {
				d.seed = d.seed*131 + uint64(b)
			}
		}
	}
	if os.Args[1] == "replay" {
		sp := workerSpec{Prop: d.prop.ID, Tier: d.tier, Shrink: "0s"}
		if rp.Kind == "failfile" && rp.FailFile != "" {
			ff := filepath.Join(d.scratch, "replay.fail")
			os.WriteFile(ff, []byte(rp.FailFile), 0644)
			sp.FailFile = ff
		} else {
			sp.OneSeed = rp.CaseSeed
		}
		o := d.wait([]*running{d.spawn(sp, "replay")})[0]
		if o.kind == "ok" {
			fmt.Printf("property=%s held on the replayed case\n", d.prop.ID)
			return 0
		}
		if o.kind == "failed" {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", o.res.Message, d.prop.ID, os.Args[2])
			return 1
		}
		if o.kind == "crash" || o.kind == "hang" {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", crashHead(o.stderr), d.prop.ID, os.Args[2])
			return 1
		}
		return d.judge(o)
	}
	n := d.prop.Quick
	shrink := "15s"
	// a slow or busy machine explores less rather than too long
	budget := 420
	if d.tier == "thorough" {
		n = d.prop.Thorough
		shrink = "60s"
		budget = 640
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	nw := d.prop.Workers
	if nw == 0 {
		nw = 8
	}
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	var rs []*running
	for i := 0; i < nw; i++ {
		rs = append(rs, d.spawn(workerSpec{Prop: d.prop.ID, Tier: d.tier, Seed: d.seed, Index: i, Cases: n, Shrink: shrink, Budget: budget}, fmt.Sprint(i)))
	}
	outs := d.wait(rs)
	code := 0
	viol := 0
	for _, o := range outs {
		if o.kind != "ok" {
			code = d.judge(o)
			if code == 1 {
				viol = 1
			}
			break
		}
	}
	d.evidence(outs, viol, nw, n)
	if code == 0 {
		fmt.Printf("property=%s tier=%s seed=%d held on everything explored (%.1fs)\n", d.prop.ID, d.tier, d.seed, time.Since(d.start).Seconds())
	}
	return code
}

func (d *driver) evidence(outs []*outcome, viol, nw, perWorker int) {
	evals, cases, short := 0, 0, 0
	seen := map[uint64]bool{}
	classes := map[string]int{}
	var samples []string
	for _, o := range outs {
		evals += o.res.Evaluations
		cases += o.res.Cases
		short += o.res.Short
		for _, h := range o.res.Distinct {
			seen[h] = true
		}
		for k, v := range o.res.Classes {
			classes[k] += v
		}
		samples = append(samples, o.res.Samples...)
	}
	sort.Strings(samples)
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if samples == nil {
		samples = []string{}
	}
	level := d.prop.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(seen),
		"rule":                d.prop.Rule,
		"samples":             samples,
		"cases":               cases,
		"classes":             classes,
		"workers":             nw,
		"cases_per_worker":    perWorker,
		"cases_left_out":      short, // when time was up
	}
	ev := map[string]interface{}{
		"property":   d.prop.ID,
		"tier":       d.tier,
		"seed":       d.seed,
		"level":      level,
		"coverage":   cov,
		"wall_s":     time.Since(d.start).Seconds(),
		"violations": viol,
	}
	if len(d.prop.Assumptions) > 0 {
		ev["assumptions"] = d.prop.Assumptions
	}
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	enc.Encode(ev)
	dir := filepath.Join(d.verif, "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, d.prop.ID+".json"), b.Bytes(), 0644)
	var ks []string
	for k := range classes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	fmt.Printf("cases=%d evaluations=%d distinct_nontrivial=%d\n", cases, evals, len(seen))
	for _, k := range ks {
		fmt.Printf("  class %-40s %6d (%.1f%%)\n", k, classes[k], 100*float64(classes[k])/float64(max(cases, 1)))
	}
}
