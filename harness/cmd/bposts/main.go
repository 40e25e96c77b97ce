// Command bposts holds the check of the posting sets of the attic.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/go-air/dupi/attic"
	"github.com/go-air/dupi/attic/ibloom"

	"dupiverif/fw"
)

var props = []*fw.Prop{{
	ID:    "P34",
	Rule:  "A case is a filter of drawn size (1 to 600 bytes) and number of hashes (1 to 12) and a history of 10 to 120 drawn operations on up to five sets of postings made of it, empty ones and ones of everything: add a posting, ask for one, unite, intersect (also a set with itself), ask for emptiness, list the bits. A model holds the bits each set has, from the positions the filter gives for each posting, and the number of postings added, repeats in a row not counted (until the set is intersected). After every operation all sets have the bits of the model, so the operands are as before, no set shares memory with another, and all that was added is had. Evaluations count operations. Non-trivial: a set united or intersected had members.",
	Quick: 300, Thorough: 20000,
	Fn: p34,
}}

func main() { fw.Main(props, nil) }

type set struct {
	s     *attic.BPosts
	bits  map[int]bool
	must  map[uint32]bool // has been added and not taken away by an intersection
	total uint32
	cut   bool // was intersected, so that a posting may be new again
	last  uint32
	root  string
}

func (s *set) list() []int {
	res := []int{}
	for b := range s.bits {
		res = append(res, b)
	}
	sort.Ints(res)
	return res
}

func p34(c *fw.C) {
	seed := c.Seed("operations")
	mb := c.Pick("bytes", 1, 2, 3, 7, 8, 9, 31, 64, 100, 600)
	k := c.Pick("hashes", 1, 2, 3, 5, 12)
	nops := c.Pick("nops", 40, 10, 120)
	c.Describe("bytes=%d hashes=%d operations=%d seed=%d", mb, k, nops, seed)
	r := rand.New(rand.NewSource(seed))
	f := ibloom.NewFnv32(mb, k)
	pos := func(v uint32) []int {
		var res []int
		f.Ones(v, func(i int) bool { res = append(res, i); return true })
		return res
	}
	var trace []string
	fail := func(format string, args ...interface{}) {
		c.Fatalf("%s\noperations: %s", fmt.Sprintf(format, args...), strings.Join(trace, "; "))
	}
	var sets []*set
	make1 := func() {
		n := &set{bits: map[int]bool{}, must: map[uint32]bool{}}
		if r.Intn(4) == 0 {
			trace = append(trace, fmt.Sprintf("%d is everything", len(sets)))
			n.s = attic.BPostOnes(f)
			for i := 0; i < 8*mb; i++ {
				n.bits[i] = true
			}
		} else {
			trace = append(trace, fmt.Sprintf("%d is empty", len(sets)))
			n.s = &attic.BPosts{}
			n.root = fmt.Sprint("root", len(sets))
			attic.BPostInit(n.s, n.root, f)
		}
		sets = append(sets, n)
	}
	family := r.Intn(3)
	value := func() uint32 {
		switch family {
		case 0:
			return r.Uint32()
		case 1:
			return uint32(r.Intn(20))
		}
		return []uint32{0, 1, math.MaxUint32, 1 << 31, 255, 256, 65535, 65536}[r.Intn(8)]
	}
	make1()
	make1()
	for n := 0; n < nops; n++ {
		i, j := r.Intn(len(sets)), r.Intn(len(sets))
		a, b := sets[i], sets[j]
		nontriv := false
		switch what := r.Intn(14); {
		case what == 0 && len(sets) < 5:
			make1()
		case what <= 5:
			v := value()
			if r.Intn(5) == 0 {
				v = a.last
			}
			trace = append(trace, fmt.Sprintf("add %d to %d", v, i))
			if err := a.s.AddPost(v); err != nil {
				fail("adding %d: %v", v, err)
			}
			if v != a.last || a.total == 0 {
				a.total++
			}
			a.last = v
			a.must[v] = true
			for _, p := range pos(v) {
				a.bits[p] = true
			}
		case what <= 7:
			trace = append(trace, fmt.Sprintf("unite %d with %d", i, j))
			nontriv = len(b.bits) > 0
			if got := a.s.Union(b.s); got != a.s {
				fail("Union gives something else than the set that was united")
			}
			for p := range b.bits {
				a.bits[p] = true
			}
			for v := range b.must {
				a.must[v] = true
			}
		case what <= 9:
			trace = append(trace, fmt.Sprintf("intersect %d with %d", i, j))
			nontriv = len(b.bits) > 0 && len(a.bits) > 0
			a.cut = true
			if got := a.s.Intersect(b.s); got != a.s {
				fail("Intersect gives something else than the set that was intersected")
			}
			for p := range a.bits {
				if !b.bits[p] {
					delete(a.bits, p)
				}
			}
			for v := range a.must { // had as long as all of its bits are
				for _, p := range pos(v) {
					if !a.bits[p] {
						delete(a.must, v)
						break
					}
				}
			}
		default:
			v := value()
			trace = append(trace, fmt.Sprintf("ask %d for %d", i, v))
			want := true
			for _, p := range pos(v) {
				want = want && a.bits[p]
			}
			if got := a.s.HasPost(v); got != want {
				fail("asked for %d, with the bits %v, a set with the bits %v says %v", v, pos(v), a.list(), got)
			}
		}
		for x, s := range sets {
			want := s.list()
			pre := []int{}
			for m := r.Intn(3); m > 0; m-- {
				pre = append(pre, -m)
			}
			got := s.s.Ones(append([]int{}, pre...))
			if fmt.Sprint(got) != fmt.Sprint(append(pre, want...)) {
				fail("set %d lists, after %v, the bits %v, want %v", x, pre, got, want)
			}
			if s.s.IsZero() != (len(want) == 0) {
				fail("set %d with the bits %v says it is empty: %v", x, want, s.s.IsZero())
			}
			for v := range s.must {
				if !s.s.HasPost(v) {
					fail("set %d denies %d, which was added", x, v)
				}
			}
			if !s.cut && s.s.Total != s.total {
				fail("set %d counts %d postings, %d were added", x, s.s.Total, s.total)
			}
			if s.s.Root != s.root {
				fail("set %d has the root %q, not %q", x, s.s.Root, s.root)
			}
			for y := range sets[:x] {
				if &sets[y].s.Set[0] == &s.s.Set[0] {
					fail("sets %d and %d share memory", x, y)
				}
			}
			if len(s.s.Set) != mb || bytes.Count(s.s.Set, []byte{0}) == mb != (len(want) == 0) {
				fail("set %d holds %x, want the bits %v", x, s.s.Set, want)
			}
		}
		c.SubEval(fmt.Sprint(n, trace[len(trace)-1]), nontriv)
	}
	c.Class("several sets", len(sets) > 2)
}
