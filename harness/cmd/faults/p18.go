package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P18",
		Level: "fault_enumeration",
		Rule:  "A case is a document set indexed in one to three sessions, the last of which is watched: every operation that changes a file is recorded in order (by hooks in the standard library), and the directory is put together again as it was after a prefix of them, which is what a process that dies there leaves. Prefixes are taken after every operation on files with few of them and after the first, the last and drawn ones on the others, inside writes that cross a page, and anywhere inside writes that make a file grow. Each state is opened and queried: an error, or lookups and extraction that list every document of the completed sessions, and only documents whose addition had begun and that have the blot; a creation that did not complete must be refused or be complete. From some states, also such with half a write, another session appends, after which the same must hold including its documents. The state after all operations must equal the real directory. Evaluations count states. Non-trivial: not all operations were performed.",
		Quick: 5, Thorough: 110, HangSec: 120,
		Fn: p18,
	})
}

func p18(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 2, MaxShatters: 3, MaxB: 5})
	s.Flush = c.Pick("flush", 1, 2, 3, 7, 16384)
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 3, MaxDocs: 14, Dense: true, MaxWords: 30})
	bulk := c.Pick("copies", 0, 0, 520, 560, 1100)
	nsess := c.Int("earlier sessions", 0, 2)
	seed := c.Seed("seed")
	c.Describe("%s copies=%d earlier=%d seed=%d docs:%s", s, bulk, nsess, seed, cp)
	r := model.Rand(c, "points")
	docs := append([]model.DocSpec{}, cp.Docs...)
	if bulk > 0 {
		src := docs[0]
		for i := range docs {
			if n := len(model.Words(docs[i].Dat)); n >= s.S() && n < s.S()+30 {
				src = docs[i]
			}
		}
		if len(model.Words(src.Dat)) < s.S() {
			src.Dat = []byte(strings.Repeat("lorem ipsum dolor ", 8))
		}
		for k := 0; k < bulk; k++ {
			d := src
			d.Path = fmt.Sprintf("/copies/%d", k%50)
			docs = append(docs, d)
		}
		r.Shuffle(len(docs), func(i, j int) { docs[i], docs[j] = docs[j], docs[i] })
	}
	for i := range docs { // no two the same
		docs[i].Path += fmt.Sprintf(".%d", i)
	}
	base := c.Dir()
	root := filepath.Join(base, "idx")
	done := 0
	for k := 0; k < nsess; k++ {
		n := done + r.Intn(len(docs)-done)
		if k == 0 {
			model.Build(c, s, root, docs[done:n])
		} else {
			x, err := dupi.OpenIndexer(root)
			c.NoErr(err, "opening for appending")
			model.AddAll(c, x, docs[done:n], root)
		}
		done = n
	}
	img := newImage()
	img.load(base)

	// the session that will be interrupted
	w := watch(base, false)
	begun := make([]int, len(docs)) // operations before the addition began
	var x *dupi.Indexer
	var err error
	if nsess == 0 {
		x, err = dupi.IndexerFromConfig(s.Config(root))
	} else {
		x, err = dupi.OpenIndexer(root)
	}
	if err == nil {
		for i := done; i < len(docs); i++ {
			w.mu.Lock()
			begun[i] = len(w.ops)
			w.mu.Unlock()
			if err = x.Add(docs[i].Doc()); err != nil {
				break
			}
		}
		if err == nil {
			err = x.Close()
		}
	}
	w.stop()
	c.NoErr(err, "the session without interruption")
	if w.odd != "" {
		fw.Broken("cannot follow %s", w.odd)
	}
	c.Beat()

	// where to look
	per := map[string]int{}
	for i := range w.ops {
		per[w.ops[i].path]++
	}
	nth := map[string]int{}
	var points []int // number of operations performed
	var extra []int
	for i := range w.ops {
		p := w.ops[i].path
		nth[p]++
		switch n := nth[p]; {
		case per[p] <= 60 || n <= 2 || n > per[p]-2:
			points = append(points, i+1)
		default:
			extra = append(extra, i+1)
		}
	}
	limit := 70
	if c.Thorough() {
		limit = 150
	}
	r.Shuffle(len(points), func(i, j int) { points[i], points[j] = points[j], points[i] })
	if len(points) > limit {
		points = points[:limit]
	}
	if len(extra) > 0 {
		for k := 0; k < 25; k++ {
			points = append(points, extra[r.Intn(len(extra))])
		}
	}
	points = append(points, 0, len(w.ops))
	sort.Ints(points)

	completed := model.NewRef(s.Shape)
	for i := 0; i < done; i++ {
		completed.Add(&docs[i])
	}
	all := model.NewRef(s.Shape)
	number := map[model.RDoc]int{}
	for i := range docs {
		all.Add(&docs[i])
		number[all.Docs[i]] = i
	}
	var later []model.DocSpec // for the session after
	for k := 0; k < 3; k++ {
		d := docs[r.Intn(len(docs))]
		d.Path = fmt.Sprintf("/later/%d", k)
		later = append(later, d)
	}
	after := completed.Clone()
	allAfter := all.Clone()
	for i := range later {
		after.Add(&later[i])
		allAfter.Add(&later[i])
		number[allAfter.Docs[len(docs)+i]] = len(docs) + i
	}
	begunAfter := append(append([]int{}, begun...), make([]int, len(later))...)
	resume := map[int]bool{}
	for k := 0; k < 5; k++ {
		resume[points[r.Intn(len(points))]] = true
	}
	var posts []int // after posts were written
	for _, n := range points {
		if n > 0 && n < len(w.ops) && strings.HasSuffix(w.ops[n-1].path, ".pos") {
			posts = append(posts, n)
		}
	}
	for k := 0; k < 6 && len(posts) > 0; k++ {
		resume[posts[r.Intn(len(posts))]] = true
	}
	// again appends another session
	again := func(dir, what string, n int) {
		c.Helper()
		x, err := dupi.OpenIndexer(filepath.Join(dir, "idx"))
		c.Class("resuming refused", err != nil)
		if err != nil {
			return
		}
		for i := range later {
			if err = x.Add(later[i].Doc()); err != nil {
				break
			}
		}
		if cerr := x.Close(); err == nil {
			err = cerr
		}
		c.Class("resumed", err == nil)
		if err == nil {
			judge(c, s, dir, what+", and another session", false, n, begunAfter, after, allAfter, number)
		}
	}
	at, torn := 0, 0
	k := 0
	for pi, n := range points {
		if pi > 0 && points[pi-1] == n && n != len(w.ops) {
			continue
		}
		for ; at < n; at++ {
			o := &w.ops[at]
			img.apply(o)
		}
		if n < len(w.ops) && n > 0 && w.ops[n].kind == "write" && len(w.ops[n].data) > 1 {
			// within the next write
			o := w.ops[n]
			next := (o.off/4096 + 1) * 4096
			if have := int64(len(img.files[o.path])); next >= o.off+int64(len(o.data)) && o.off >= have && (r.Intn(4) == 0 || strings.HasSuffix(o.path, "/dmd") && r.Intn(2) == 0) {
				// where the disk is full, or files may not be larger
				next = o.off + 1 + r.Int63n(int64(len(o.data))-1)
				c.Class("inside a write, where files cannot grow", true)
			}
			if next < o.off+int64(len(o.data)) {
				part := newImage()
				for p, d := range img.files {
					part.files[p] = d
				}
				for p := range img.dirs {
					part.dirs[p] = true
				}
				part.files[o.path] = append([]byte{}, img.files[o.path]...)
				o.data = o.data[:next-o.off]
				part.apply(&o)
				c.Class("inside a write", true)
				k++
				what := fmt.Sprintf("%d operations and %d bytes of the next, a write of %d bytes at %d of %s", n, len(o.data), len(w.ops[n].data), o.off, filepath.Base(o.path))
				dir := look(c, s, part, base, what, nsess == 0, n, begun, completed, all, number)
				c.SubEval(fmt.Sprint("within ", n), true)
				if torn < 6 && (strings.HasSuffix(o.path, "/dmd") || r.Intn(6) == 0) {
					torn++
					again(dir, what, n)
				}
				os.RemoveAll(dir)
			}
		}
		what := fmt.Sprintf("%d of %d operations", n, len(w.ops))
		if n > 0 {
			what += fmt.Sprintf(", the last a %s of %s", w.ops[n-1].kind, filepath.Base(w.ops[n-1].path))
		}
		if n < len(w.ops) {
			what += fmt.Sprintf(", the next a %s of %s", w.ops[n].kind, filepath.Base(w.ops[n].path))
		}
		c.Note("%s", what)
		dir := look(c, s, img, base, what, nsess == 0 && n < len(w.ops), n, begun, completed, all, number)
		if resume[n] {
			again(dir, what, n)
		}
		os.RemoveAll(dir)
		c.SubEval(fmt.Sprint(n), n < len(w.ops))
	}
	real := newImage()
	real.load(base)
	if d := img.differs(real); d != "" {
		fw.Broken("the operations recorded do not make %s what it is", d)
	}
	c.Class("creating", nsess == 0)
	c.Class("appending", nsess > 0)
	c.Class("long lists", bulk > 0)
}

// look writes an image to a new directory and judges it.
func look(c *fw.C, s model.Setup, img *image, base, what string, creating bool, n int, begun []int, completed, all *model.Ref, number map[model.RDoc]int) string {
	dir := c.Dir()
	img.dump(base, dir)
	judge(c, s, dir, what, creating, n, begun, completed, all, number)
	return dir
}

func judge(c *fw.C, s model.Setup, dir, what string, creating bool, n int, begun []int, completed, all *model.Ref, number map[model.RDoc]int) {
	idx, err := dupi.OpenIndex(filepath.Join(dir, "idx"))
	if err != nil {
		c.Class("refused", true)
		return
	}
	defer idx.Close()
	if creating {
		// it says that it is complete
		if err := all.CheckOrError(idx, []int{3}); err != nil {
			c.Fatalf("creation interrupted after %s: the index opens without an error, but %v", what, err)
		}
		c.Class("complete before the end", true)
		return
	}
	answers := 0
	list := func(b uint32, got []model.RDoc, how string) {
		seen := map[int]bool{}
		for _, d := range got {
			i, ok := number[d]
			if !ok {
				c.Fatalf("interrupted after %s: %s of blot %x lists %v, which was never added", what, how, b, d)
			}
			if seen[i] {
				c.Fatalf("interrupted after %s: %s of blot %x lists %v twice", what, how, b, d)
			}
			seen[i] = true
			has := false
			for _, m := range all.M[b] {
				has = has || m == i
			}
			if !has {
				c.Fatalf("interrupted after %s: %s of blot %x lists %v, which does not have it", what, how, b, d)
			}
			if begun[i] > n {
				c.Fatalf("interrupted after %s: %s of blot %x lists %v, which was not added yet", what, how, b, d)
			}
		}
		for _, d := range completed.List(b) {
			if !seen[number[d]] {
				c.Fatalf("interrupted after %s: %s of blot %x does not list %v of a completed session, and gives no error (%d documents)", what, how, b, d, len(got))
			}
		}
	}
	q := idx.StartQuery(dupi.QueryMaxBlot)
	for k, b := range all.Blots(1) {
		bs := []uint32{b}
		if k%8 == 0 {
			bs = append(bs, (b+1)%s.Range())
		}
		for _, b := range bs {
			bl := dupi.Blot{Blot: b}
			if err := q.Get(&bl); err == nil {
				answers++
				list(b, model.FromDocs(bl.Docs), "a lookup")
			}
		}
	}
	q = idx.StartQuery(dupi.QueryMaxBlot)
	seen := map[uint32]bool{}
	for calls := 0; ; calls++ {
		dst := make([]dupi.Blot, 4)
		m, err := q.Next(dst)
		for i := range dst[:m] {
			if seen[dst[i].Blot] {
				c.Fatalf("interrupted after %s: extraction gives blot %x twice", what, dst[i].Blot)
			}
			seen[dst[i].Blot] = true
			list(dst[i].Blot, model.FromDocs(dst[i].Docs), "extraction")
		}
		if model.IsEOF(err) {
			for _, b := range completed.Blots(2) {
				if !seen[b] {
					c.Fatalf("interrupted after %s: extraction ends without an error and without blot %x, which has %d documents of completed sessions", what, b, len(completed.M[b]))
				}
			}
			break
		}
		if err != nil || m == 0 || calls > 100000 {
			break
		}
	}
	c.Class("answered", answers > 0)
}
