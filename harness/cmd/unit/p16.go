package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/go-air/dupi/lock"

	"dupiverif/fw"
	"dupiverif/model"
	"dupiverif/rpc"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P16",
		Rule:  "A case is a history of 40 to 250 drawn operations (new handle, lock, shared lock, unlock, close, including repeated unlocks and conversions) by this process and, in half of the cases, a second one, on handles of two or three paths, one of them under two spellings. Operations the model grants must return; operations it does not grant must still be waiting after a moment (in some cases, three seconds) and, when the holders give up one by one in drawn order (by unlocking, closing, converting to shared, or the death of the second process), return exactly when the last one has. Evaluations count operations. Non-trivial: the operation meets a lock held by another handle on its path, or gives one up.",
		Quick: 60, Thorough: 1500, HangSec: 60,
		Fn: p16,
	})
	children["locks"] = func(args []string) {
		s := &lockServer{h: map[string]*lock.File{}}
		rpc.Serve(s.do)
	}
}

// lockServer performs operations on named handles, in whichever process.
type lockServer struct {
	mu sync.Mutex
	h  map[string]*lock.File
}

func (s *lockServer) do(op string, args []string) (string, error) {
	s.mu.Lock()
	f := s.h[args[0]]
	s.mu.Unlock()
	switch op {
	case "new":
		f, err := lock.New(args[1])
		if err != nil {
			return "", err
		}
		s.mu.Lock()
		s.h[args[0]] = f
		s.mu.Unlock()
		return "", nil
	case "lock":
		return "", f.Lock()
	case "shared":
		return "", f.LockShared()
	case "unlock":
		return "", f.Unlock()
	case "close":
		return "", f.Close()
	}
	return "", fmt.Errorf("unknown operation %s", op)
}

type lockHandle struct {
	name   string
	file   int // number of the lock file
	remote bool
	mode   int // 0 none, 1 shared, 2 exclusive
}

func p16(c *fw.C) {
	dir := c.Dir()
	seed := c.Seed("seed")
	nops := c.Pick("nops", 250, 40, 100)
	two := c.Bool("second process")
	c.Describe("%d operations, second process=%v, seed=%d", nops, two, seed)
	r := model.Rand(c, "ops")
	local := &lockServer{h: map[string]*lock.File{}}
	var cl *rpc.Client
	if two {
		cl = rpc.Start(c, "locks")
		defer func() { cl.Kill() }()
	}
	start := func(h *lockHandle, op string, args ...string) chan rpc.Result {
		args = append([]string{h.name}, args...)
		if h.remote {
			return cl.Go(op, args...)
		}
		ch := make(chan rpc.Result, 1)
		go func() {
			out, err := local.do(op, args)
			ch <- rpc.Result{Out: out, Err: err}
		}()
		return ch
	}
	var trace []string
	var hs []*lockHandle
	fail := func(format string, args ...interface{}) {
		st := ""
		for _, h := range hs {
			st += fmt.Sprintf(" %s(file %d%s):%s", h.name, h.file, map[bool]string{true: ", other process"}[h.remote], []string{"none", "shared", "exclusive"}[h.mode])
		}
		t := trace
		if len(t) > 40 {
			t = t[len(t)-40:]
		}
		c.Fatalf("%s\nhandles:%s\nlast operations: %s", fmt.Sprintf(format, args...), st, strings.Join(t, "; "))
	}
	finish := func(h *lockHandle, op string, ch chan rpc.Result) {
		select {
		case res := <-ch:
			if res.Err != nil {
				fail("%s of %s: unexpected error %v", op, h.name, res.Err)
			}
		case <-time.After(20 * time.Second):
			fail("%s of %s does not return although nothing stands in its way", op, h.name)
		}
	}
	others := func(h *lockHandle) (shared, excl int) {
		for _, o := range hs {
			if o != h && o.file == h.file {
				switch o.mode {
				case 1:
					shared++
				case 2:
					excl++
				}
			}
		}
		return
	}
	drop := func(h *lockHandle) {
		for i := range hs {
			if hs[i] == h {
				hs = append(hs[:i:i], hs[i+1:]...)
				return
			}
		}
	}
	nfiles := 2 + r.Intn(2)
	nh, waits := 0, 0
	long := -1
	if c.Rare("long wait", 12) {
		long = 0
	}
	for k := 0; k < nops; k++ {
		what := r.Intn(10)
		if len(hs) == 0 || what == 0 && len(hs) < 6 {
			h := &lockHandle{name: fmt.Sprint("h", nh), file: r.Intn(nfiles), remote: two && r.Intn(2) == 0}
			nh++
			p := filepath.Join(dir, fmt.Sprint("lock", h.file))
			if h.file == 0 && r.Intn(2) == 0 {
				p = dir + "/./lock0"
			}
			trace = append(trace, "new "+h.name)
			hs = append(hs, h)
			finish(h, "creation", start(h, "new", p))
			c.SubEval(fmt.Sprint(k), false)
			continue
		}
		h := hs[r.Intn(len(hs))]
		sh, ex := others(h)
		switch {
		case what <= 2:
			trace = append(trace, "unlock "+h.name)
			held := h.mode
			finish(h, "unlocking", start(h, "unlock"))
			h.mode = 0
			c.SubEval(fmt.Sprint(k, "unlock", held, sh, ex), held > 0)
		case what == 3:
			trace = append(trace, "close "+h.name)
			held := h.mode
			finish(h, "closing", start(h, "close"))
			drop(h)
			c.SubEval(fmt.Sprint(k, "close", held, sh, ex), held > 0 || ex > 0)
		default:
			op, mode := "shared", 1
			if r.Intn(2) == 0 {
				op, mode = "lock", 2
			}
			blocked := ex > 0 || mode == 2 && sh > 0
			if blocked && waits >= 25 {
				continue // waiting takes time
			}
			trace = append(trace, op+" "+h.name)
			ch := start(h, op)
			if !blocked {
				finish(h, "granting "+op, ch)
				h.mode = mode
				c.SubEval(fmt.Sprint(k, op, sh, ex), sh > 0)
				continue
			}
			waits++
			if long == 0 && waits > 1 {
				long = k
			}
			h.mode = 0 // whatever it held before it may have lost while waiting
			check := func(d time.Duration) {
				select {
				case res := <-ch:
					s2, e2 := others(h)
					fail("%s of %s was granted (error %v) while other handles hold %d shared and %d exclusive locks", op, h.name, res.Err, s2, e2)
				case <-time.After(d):
				}
			}
			if k == long {
				check(3 * time.Second) // however long it takes
				c.Class("wait of 3 s", true)
			} else {
				check(8 * time.Millisecond)
			}
			c.SubEval(fmt.Sprint(k, op, "blocked", sh, ex), true)
			for {
				s2, e2 := others(h)
				if !(e2 > 0 || mode == 2 && s2 > 0) {
					break
				}
				check(time.Millisecond)
				var holders []*lockHandle
				for _, o := range hs {
					if o != h && o.file == h.file && o.mode > 0 {
						holders = append(holders, o)
					}
				}
				o := holders[r.Intn(len(holders))]
				how := r.Intn(4)
				if how == 3 && !(o.mode == 2 && mode == 1) {
					how = 0
				}
				if two && !h.remote && r.Intn(12) == 0 {
					// the second process dies, which gives up its locks
					trace = append(trace, "second process dies")
					cl.Kill()
					for i := 0; i < len(hs); i++ {
						if hs[i].remote {
							drop(hs[i])
							i--
						}
					}
					cl = rpc.Start(c, "locks")
					c.Class("death of a holder", true)
					continue
				}
				switch how {
				case 1:
					trace = append(trace, "close "+o.name)
					finish(o, "closing", start(o, "close"))
					drop(o)
				case 3: // an exclusive lock turned shared lets shared ones in
					trace = append(trace, "shared "+o.name)
					finish(o, "conversion to shared", start(o, "shared"))
					o.mode = 1
				default:
					trace = append(trace, "unlock "+o.name)
					finish(o, "unlocking", start(o, "unlock"))
					o.mode = 0
				}
			}
			finish(h, "granting "+op+" after the holders gave up", ch)
			h.mode = mode
		}
	}
	for len(hs) > 0 {
		h := hs[0]
		finish(h, "closing", start(h, "close"))
		drop(h)
	}
	c.Class("second process", two)
	c.Class("waits", waits > 0)
}
