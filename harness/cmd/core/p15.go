package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
	"dupiverif/rpc"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P15",
		Rule:  "A case is a history of 10 to 50 drawn operations (open for reading, open for appending, create, create where an index is, query, add, close, remove) by this process and a second one on two indexes whose names share a prefix, each time under a drawn spelling of the path (absolute, relative, with ./, .., doubled and trailing separators, by way of symbolic links to it or above it, or as such in a configuration). An open the readers-writer model does not allow must not succeed until the holders have been closed, one by one, and then sees every document added; allowed ones succeed. Evaluations count operations. Non-trivial: the operation meets an index held by somebody else.",
		Quick: 5, Thorough: 90, HangSec: 90,
		Fn: p15,
	})
	children["users"] = func(args []string) {
		s := newUserServer()
		rpc.Serve(s.do)
	}
}

// userServer performs operations on named indexes and indexers.
type userServer struct {
	mu sync.Mutex
	r  map[string]*dupi.Index
	w  map[string]*dupi.Indexer
}

func newUserServer() *userServer {
	return &userServer{r: map[string]*dupi.Index{}, w: map[string]*dupi.Indexer{}}
}

const userText = "some shared words"

var userShape = model.Shape{B: 3, I: 1, Shards: 1}

func (s *userServer) do(op string, args []string) (string, error) {
	h := args[0]
	s.mu.Lock()
	idx, ixr := s.r[h], s.w[h]
	s.mu.Unlock()
	put := func(x *dupi.Indexer, err error) (string, error) {
		if err == nil {
			s.mu.Lock()
			s.w[h] = x
			s.mu.Unlock()
		}
		return "", err
	}
	switch op {
	case "reader":
		x, err := dupi.OpenIndex(args[1])
		if err == nil {
			s.mu.Lock()
			s.r[h] = x
			s.mu.Unlock()
		}
		return "", err
	case "appender":
		return put(dupi.OpenIndexer(args[1]))
	case "creator":
		return put(dupi.CreateIndexer(args[1], userShape.Shards, userShape.S()))
	case "rawcreator":
		cfg := model.Setup{Shape: userShape, Shatters: 1, Flush: 2}.Config("/x")
		cfg.IndexRoot = args[1]
		return put(dupi.IndexerFromConfig(cfg))
	case "query":
		b := dupi.Blot{Blot: userShape.Windows([]byte(userText))[0].Raw % userShape.Range()}
		if err := idx.StartQuery(dupi.QueryMaxBlot).Get(&b); err != nil {
			return "", err
		}
		var ps []string
		for _, d := range b.Docs {
			ps = append(ps, d.Path)
		}
		out, _ := json.Marshal(ps)
		return string(out), nil
	case "add":
		return "", ixr.Add(&dupi.Doc{Path: args[1], Dat: []byte(userText), End: uint32(len(userText))})
	case "close":
		if idx != nil {
			return "", idx.Close()
		}
		return "", ixr.Close()
	case "remove":
		if idx != nil {
			return "", dupi.RemoveIndex(idx)
		}
		return "", dupi.RemoveIndexer(ixr)
	case "count":
		st, err := idx.Stats()
		if err != nil {
			return "", err
		}
		return fmt.Sprint(st.NumDocs), nil
	}
	return "", fmt.Errorf("unknown operation %s", op)
}

// viaLink gives p by way of a new symbolic link in links, to p itself or to a
// directory above it.
func viaLink(r *rand.Rand, links, p string) string {
	if err := os.MkdirAll(links, 0755); err != nil {
		panic(err)
	}
	to, rest := p, ""
	if _, err := os.Stat(p); err != nil {
		to, rest = filepath.Dir(p), filepath.Base(p)
	}
	for n := r.Intn(4); n > 1 && filepath.Dir(to) != filepath.Dir(links); n-- {
		to, rest = filepath.Dir(to), filepath.Join(filepath.Base(to), rest)
	}
	for n := r.Intn(4); n >= 1; n-- { // sometimes links to links
		es, err := os.ReadDir(links)
		if err != nil {
			panic(err)
		}
		l := filepath.Join(links, fmt.Sprint("l", len(es)))
		t := to
		if r.Intn(2) == 0 {
			if t, err = filepath.Rel(links, to); err != nil {
				panic(err)
			}
		}
		if err := os.Symlink(t, l); err != nil {
			panic(err)
		}
		to = l
	}
	return filepath.Join(to, rest)
}

// spell writes an absolute path differently.
func spell(r *rand.Rand, p string, kind int) string {
	dir, base := filepath.Split(p)
	dir = strings.TrimSuffix(dir, "/")
	switch kind {
	case 1:
		return p + "/"
	case 2:
		return dir + "/./" + base
	case 3:
		return dir + "//" + base + "//"
	case 4:
		return dir + "/" + base + "/../" + base
	case 5:
		return p + "/."
	case 6, 7:
		wd, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		rel, err := filepath.Rel(wd, p)
		if err != nil {
			panic(err)
		}
		if kind == 7 {
			return "./" + rel + "/"
		}
		return rel
	case 8:
		return dir + "/nosuch/../" + base
	}
	return p
}

type p15user struct {
	name   string
	ix     *p15index
	kind   string // reader or writer
	remote bool
	added  []string
	stale  bool // another user removed the index
}

type p15index struct {
	root    string
	exists  bool
	docs    []string
	holders []*p15user
}

func p15(c *fw.C) {
	dir := c.Dir()
	seed := c.Seed("seed")
	nops := c.Pick("nops", 40, 10, 20, 50)
	c.Describe("%d operations, seed=%d", nops, seed)
	r := model.Rand(c, "ops")
	local := newUserServer()
	cl := rpc.Start(c, "users")
	defer cl.Kill()
	ixs := []*p15index{{root: filepath.Join(dir, "idx")}, {root: filepath.Join(dir, "idx2")}}
	var trace []string
	fail := func(format string, args ...interface{}) {
		st := ""
		for _, ix := range ixs {
			st += fmt.Sprintf(" %s exists=%v:", filepath.Base(ix.root), ix.exists)
			for _, h := range ix.holders {
				st += fmt.Sprintf(" %s(%s%s)", h.name, h.kind, map[bool]string{true: ", other process"}[h.remote])
			}
		}
		t := trace
		if len(t) > 30 {
			t = t[len(t)-30:]
		}
		c.Fatalf("%s\nholders:%s\nlast operations: %s", fmt.Sprintf(format, args...), st, strings.Join(t, "; "))
	}
	start := func(h *p15user, op string, args ...string) chan rpc.Result {
		c.Beat()
		args = append([]string{h.name}, args...)
		trace = append(trace, op+" "+strings.ReplaceAll(strings.Join(args, " "), dir, "DIR"))
		if h.remote {
			return cl.Go(op, args...)
		}
		ch := make(chan rpc.Result, 1)
		go func() {
			out, err := local.do(op, args)
			ch <- rpc.Result{Out: out, Err: err}
		}()
		return ch
	}
	await := func(h *p15user, what string, ch chan rpc.Result) rpc.Result {
		select {
		case res := <-ch:
			return res
		case <-time.After(40 * time.Second):
			fail("%s by %s does not return although nothing stands in its way", what, h.name)
		}
		panic("unreachable")
	}
	drop := func(u *p15user) {
		hs := u.ix.holders
		for i := range hs {
			if hs[i] == u {
				u.ix.holders = append(hs[:i:i], hs[i+1:]...)
				return
			}
		}
	}
	query := func(u *p15user) {
		if u.stale {
			return
		}
		res := await(u, "query", start(u, "query"))
		if res.Err != nil {
			fail("query by %s: %v", u.name, res.Err)
		}
		var got []string
		json.Unmarshal([]byte(res.Out), &got)
		if fmt.Sprint(got) != fmt.Sprint(u.ix.docs) {
			fail("reader %s of %s sees documents %v, want %v", u.name, u.ix.root, got, u.ix.docs)
		}
	}
	ndoc := 0
	add := func(u *p15user) {
		ndoc++
		p := fmt.Sprintf("/doc/%d", ndoc)
		if res := await(u, "adding", start(u, "add", p)); res.Err != nil {
			fail("adding by %s: %v", u.name, res.Err)
		}
		u.added = append(u.added, p)
	}
	closeUser := func(u *p15user) {
		if res := await(u, "closing", start(u, "close")); res.Err != nil {
			fail("closing by %s: %v", u.name, res.Err)
		}
		drop(u)
		if u.kind == "writer" && !u.stale {
			u.ix.exists = true
			u.ix.docs = append(u.ix.docs, u.added...)
		}
	}
	removeBy := func(u *p15user) {
		c.Class("removed while others read it", len(u.ix.holders) > 1)
		if res := await(u, "removing", start(u, "remove")); res.Err != nil && !u.stale {
			fail("removing by %s: %v", u.name, res.Err)
		}
		drop(u)
		u.ix.exists = false
		u.ix.docs = nil
		for _, h := range u.ix.holders {
			h.stale = true
		}
	}
	// granted takes note of a completed opening.
	granted := func(u *p15user) {
		u.ix.holders = append(u.ix.holders, u)
		if u.kind == "reader" {
			query(u)
		} else {
			add(u)
		}
	}
	blockedBy := func(ix *p15index, kind string) bool {
		for _, h := range ix.holders {
			if kind == "writer" || h.kind == "writer" {
				return true
			}
		}
		return false
	}
	nu, waits := 0, 0
	for k := 0; k < nops; k++ {
		ix := ixs[r.Intn(2)*r.Intn(2)]
		what := r.Intn(12)
		if len(ix.holders) > 4 {
			what = 11
		}
		if what >= 8 && len(ix.holders) > 0 {
			u := ix.holders[r.Intn(len(ix.holders))]
			switch {
			case what == 10 && (len(ix.holders) > 1 || r.Intn(4) == 0):
				removeBy(u)
			case what >= 10:
				closeUser(u)
			case u.kind == "reader":
				query(u)
			default:
				add(u)
			}
			c.SubEval(fmt.Sprint(k), false)
			continue
		}
		u := &p15user{name: fmt.Sprint("u", nu), ix: ix, remote: r.Intn(2) == 0, kind: "reader"}
		nu++
		op := "reader"
		switch {
		case what <= 2:
			op, u.kind = "appender", "writer"
		case what == 3 || !ix.exists && what <= 5:
			op, u.kind = []string{"creator", "rawcreator"}[r.Intn(2)], "writer"
		}
		create := strings.HasSuffix(op, "creator")
		sp := r.Intn(11)
		if create && op == "creator" && sp >= 1 && !ix.exists && r.Intn(2) == 0 {
			sp = 0
		}
		arg := spell(r, ix.root, sp)
		if sp >= 9 {
			arg = viaLink(r, filepath.Join(dir, "links"), ix.root)
			if r.Intn(2) == 0 {
				arg = spell(r, arg, []int{0, 1, 2, 3, 5, 6, 7}[r.Intn(7)])
			}
			c.Class("by way of a symbolic link", true)
		}
		blocked := blockedBy(ix, u.kind)
		if blocked && waits >= 12 {
			continue
		}
		held := len(ix.holders) > 0
		c.Class("spelled differently", sp > 0)
		key := fmt.Sprint(k, op, sp, held, blocked, u.remote)
		ch := start(u, op, arg)
		// outcome judges the result once nobody stands in the way
		outcome := func(res rpc.Result) {
			switch {
			case create && ix.exists:
				if res.Err == nil {
					fail("%s created an index over the existing one at %s", u.name, ix.root)
				}
			case !create && !ix.exists:
				if res.Err == nil {
					fail("%s opened the index at %s, which does not exist", u.name, ix.root)
				}
			case res.Err != nil:
				fail("%s by %s of %s (%q) with nothing in its way: %v", op, u.name, ix.root, arg, res.Err)
			default:
				granted(u)
			}
		}
		if !blocked {
			outcome(await(u, op, ch))
			c.SubEval(key, held)
			continue
		}
		waits++
		refused := false
		check := func(d time.Duration) {
			if refused {
				return
			}
			select {
			case res := <-ch:
				if res.Err == nil {
					fail("%s by %s of %s (%q) succeeded while others hold it", op, u.name, ix.root, arg)
				}
				refused = true // excluded as well
			case <-time.After(d):
			}
		}
		check(120 * time.Millisecond)
		c.SubEval(key, true)
		for blockedBy(ix, u.kind) {
			hs := ix.holders
			h := hs[r.Intn(len(hs))]
			c.Class("excluded across processes", h.remote != u.remote)
			c.Class("excluded by "+h.kind+", wants "+u.kind, true)
			if r.Intn(3) == 0 {
				if h.kind == "reader" {
					query(h)
				} else {
					add(h)
				}
			}
			check(25 * time.Millisecond)
			closeUser(h)
		}
		if !refused {
			outcome(await(u, op, ch))
		} else {
			c.Class("refused instead of waiting", true)
		}
	}
	for _, ix := range ixs {
		for len(ix.holders) > 0 {
			closeUser(ix.holders[0])
		}
		if ix.exists {
			u := &p15user{name: "end" + filepath.Base(ix.root), ix: ix, kind: "reader"}
			if res := await(u, "opening", start(u, "reader", ix.root)); res.Err != nil {
				fail("opening at the end: %v", res.Err)
			}
			granted(u)
			closeUser(u)
		}
	}
}
