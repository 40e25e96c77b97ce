package main

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"dupiverif/fw"
)

// run is one use of the command line program.
type run struct {
	out, err string
	code     int
}

// env gives the surroundings of a run.
type env struct {
	c    *fw.C
	home string
	dir  string   // working directory
	vars []string // more environment
}

func newEnv(c *fw.C) *env {
	e := &env{c: c, home: c.Dir()}
	e.dir = e.home
	return e
}

// dupi runs the program. For a run which does not end, the driver
// sees no progress.
func (e *env) dupi(args ...string) run {
	e.c.Helper()
	return e.program("dupi", args...)
}

func (e *env) program(name string, args ...string) run {
	e.c.Helper()
	cmd := exec.Command(e.c.Aux(name), args...)
	cmd.Dir = e.dir
	cmd.Env = append([]string{"HOME=" + e.home, "PATH=/usr/bin:/bin", "GOMAXPROCS=3"}, e.vars...)
	var o, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &er
	e.c.Note("%s %q in %s", name, args, e.dir)
	err := cmd.Run()
	e.c.Beat()
	r := run{out: o.String(), err: er.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			fw.Broken("running %s: %v", e.c.Aux(name), err)
		}
		r.code = ee.ExitCode()
	}
	for _, s := range []string{"panic:", "fatal error:", "DATA RACE"} {
		if strings.Contains(r.err, s) {
			if strings.Contains(r.err, "cannot allocate memory") || strings.Contains(r.err, "pthread_create") {
				fw.Broken("%s %q: %s", name, args, r.err)
			}
			e.c.Fatalf("%s %q crashed:\n%s", name, args, r.err)
		}
	}
	if strings.Contains(r.err, "bind:") || strings.Contains(r.err, "gops") {
		fw.Broken("%s %q could not start its agent: %s", name, args, r.err)
	}
	return r
}

// ok runs the program and expects success.
func (e *env) ok(args ...string) run {
	e.c.Helper()
	r := e.dupi(args...)
	if r.code != 0 {
		e.c.Fatalf("dupi %q exits with %d:\n%s", args, r.code, r.err)
	}
	return r
}

func write(path string, dat []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		fw.Broken("%v", err)
	}
	if err := os.WriteFile(path, dat, 0644); err != nil {
		fw.Broken("%v", err)
	}
}

// at is the place of a name in the working directory of e.
func (e *env) at(p string) string {
	if strings.HasPrefix(p, "/") {
		return filepath.Clean(p)
	}
	return filepath.Join(e.dir, p)
}
