// Command shard holds the check of the posting lists of one shard.
package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/go-air/dupi/post"
	"github.com/go-air/dupi/zzverif/shardx"

	"dupiverif/fw"
)

var props = []*fw.Prop{{
	ID:    "P13",
	Rule:  "A case is 1 to 4 sessions of posting batches for one shard, as the indexer sends them (document ids never decreasing, repeats within a document, values reduced from 32 bits), with drawn id gaps (1 to 2^28, so every delta width), drawn numbers of values and list lengths around block boundaries and up to 3000, rarely beyond 65536, interleaved or one value at a time. In some cases ids go up to the largest, and the posting file grows by gigabytes (a hole) at drawn moments. All 65536 values are read back in the final index, some after each session. Evaluations count lists read back that are not empty. Non-trivial: the list fills more than one storage block or spans sessions.",
	Quick: 24, Thorough: 350,
	Fn: p13,
}}

func main() { fw.Main(props, nil) }

type batch struct {
	doc  uint32
	vals []uint32 // 32 bit values as the shatterers send them
}

func size(path string) int64 {
	fi, err := os.Stat(path)
	if err != nil {
		fw.Broken("%v", err)
	}
	return fi.Size()
}

// grow makes the file longer, as postings for other values would.
func grow(path string, r *rand.Rand) {
	fi, err := os.Stat(path)
	if err == nil && fi.Size() < 1<<35 {
		err = os.Truncate(path, fi.Size()+1<<28+r.Int63n(1<<31))
	}
	if err != nil {
		fw.Broken("%v", err)
	}
}

func p13(c *fw.C) {
	path := filepath.Join(c.Dir(), "b0.pos")
	nses := c.Int("sessions", 1, 4)
	seed := c.Seed("postings")
	nval := c.Pick("values", 1, 2, 5, 40, 1000)
	gapKind := c.Int("gap", 0, 4)
	lenKind := c.Int("len", 0, 4)
	rep := c.Bool("repeats")
	long := c.Chance("long", 24)
	holes := c.Chance("holes", 4)
	first := c.Pick("first id", 1, 1, 2, 200, 1<<20, 1<<31-100, 1<<32-5000)
	var sizes []int
	for k := 0; k < nses; k++ {
		n := 0
		switch lenKind {
		case 0:
			n = c.Int("n", 0, 20)
		case 1:
			n = c.Pick("n", 511, 512, 513, 256, 1024, 1025, 0)
		case 2:
			n = c.Int("n", 200, 1500)
		case 3:
			n = c.Pick("n", 170, 171, 127, 128, 129, 102, 103)
		case 4:
			n = c.Pick("n", 3000, 1, 0)
		}
		if nval >= 1000 && n > 300 {
			n = 300
		}
		sizes = append(sizes, n)
	}
	if long {
		sizes[c.Int("long session", 0, nses-1)] += c.Int("long n", 65000, 140000)
		nval = min(nval, 5)
	}
	c.Describe("sessions=%v values=%d gap=%d repeats=%v first=%d holes=%v seed=%d", sizes, nval, gapKind, rep, first, holes, seed)
	r := rand.New(rand.NewSource(seed))
	// the values used
	vals := make([]uint32, nval)
	for i := range vals {
		vals[i] = uint32(r.Intn(1 << 16))
		if r.Intn(6) == 0 {
			vals[i] = []uint32{0, 1, 0xffff, 0x8000, 0x7fff, 0xff}[r.Intn(6)]
		}
	}
	want := map[uint16][]uint32{}
	spans := map[uint16]int{}
	doc := uint32(first) - 1
	if first == 1 {
		doc = 0
	}
	gap := func() uint32 {
		switch gapKind {
		case 0:
			return 1
		case 1:
			return 1 + uint32(r.Intn(300))
		case 2:
			return []uint32{1, 127, 128, 129, 255, 16383, 16384, 16385}[r.Intn(8)]
		case 3:
			if r.Intn(50) == 0 {
				return 1 << uint(r.Intn(22))
			}
			return 1
		}
		return 1 + uint32(r.Intn(1<<18))
	}
	readBack := func(k int, every bool) {
		x := &shardx.Index{}
		c.NoErr(x.Init(path), "opening the shard after session %d", k)
		defer x.Close()
		list := func(rs *shardx.ReadState, v uint16) {
			if rs.Blot != v {
				c.Fatalf("the read state of value %x is labelled %x", v, rs.Blot)
			}
			l := want[v]
			if rs.Total != uint32(len(l)) || x.Count(uint32(v)) != uint32(len(l)) {
				c.Fatalf("after session %d: value %x has count %d/%d, want %d", k, v, rs.Total, x.Count(uint32(v)), len(l))
			}
			for i := 0; ; i++ {
				d, err := rs.Next()
				if err == io.EOF {
					if i != len(l) {
						c.Fatalf("after session %d: the list of value %x ends after %d of %d documents", k, v, i, len(l))
					}
					break
				}
				c.NoErr(err, "after session %d: reading document %d of value %x", k, i, v)
				if i >= len(l) {
					c.Fatalf("after session %d: the list of value %x has more than its %d documents: %d", k, v, len(l), d)
				}
				if d != l[i] {
					c.Fatalf("after session %d: document %d of value %x is %d, want %d", k, i, v, d, l[i])
				}
			}
			if _, err := rs.Next(); err != io.EOF {
				c.Fatalf("after session %d: reading value %x after its end gives %v", k, v, err)
			}
		}
		var ttl uint64
		for v := 0; v < 1<<16; v++ {
			l := want[uint16(v)]
			ttl += uint64(len(l))
			if !every && len(l) == 0 && v%97 != 0 {
				continue
			}
			list(x.ReadStateFor(uint16(v)), uint16(v))
			if len(l) > 0 {
				c.SubEval(fmt.Sprint(k, v), len(l) > 512 || gapKind > 0 && len(l) > 256 || spans[uint16(v)] > 1)
			}
		}
		if x.NumPosts() != ttl {
			c.Fatalf("after session %d: NumPosts is %d, want %d", k, x.NumPosts(), ttl)
		}
		if x.NumBlots() != 1<<16 {
			c.Fatalf("NumBlots is %d", x.NumBlots())
		}
		// frequency order
		seen := make([]bool, 1<<16)
		last := uint32(1<<32 - 1)
		for i := 0; i < 1<<16; i++ {
			v := x.BlotAt(uint16(i))
			if seen[v] {
				c.Fatalf("value %x is enumerated twice", v)
			}
			seen[v] = true
			n := x.Count(uint32(v))
			if n > last {
				c.Fatalf("value %x with %d documents is enumerated after one with %d", v, n, last)
			}
			last = n
			if n > 0 || i%4099 == 0 {
				rs := x.ReadStateAt(uint16(i))
				if rs.At != uint16(i) {
					c.Fatalf("the read state at %d says it is at %d", i, rs.At)
				}
				if n < 2000 || i == 0 {
					list(rs, v)
				}
			}
		}
	}
	for k, n := range sizes {
		x := &shardx.Indexer{}
		if k == 0 {
			c.NoErr(x.InitCreate(3, path, 16384), "creating the shard")
		} else {
			c.NoErr(x.InitAppend(3, path, 16384), "opening session %d", k)
		}
		ch := x.PostChan()
		done := make(chan bool)
		go func() { x.Serve(); close(done) }()
		used := map[uint16]bool{}
		one := r.Intn(3) == 0
		cur := 0
		for i := 0; i < n; i++ {
			g := gap()
			if g > 1<<32-1-doc {
				break
			}
			doc += g
			if holes && r.Intn(200) == 0 {
				grow(path, r)
			}
			var ps []post.T
			vs := map[uint32]bool{}
			if one { // long stretches of one value
				if r.Intn(100) == 0 {
					cur = r.Intn(nval)
				}
				vs[vals[cur]] = true
			} else {
				for j := 1 + r.Intn(4); j > 0; j-- {
					vs[vals[r.Intn(nval)]] = true
				}
				if nval <= 5 && r.Intn(10) > 0 {
					for _, v := range vals {
						vs[v] = true
					}
				}
			}
			order := make([]uint32, 0, len(vs))
			for v := range vs {
				order = append(order, v)
			}
			sort.Slice(order, func(a, b int) bool { return order[a] < order[b] })
			r.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
			for _, v := range order {
				// the high half of a value is not the shard's
				ps = append(ps, post.Make(doc, v|uint32(r.Intn(3))<<16))
				if rep && r.Intn(2) == 0 {
					ps = append(ps, post.Make(doc, v))
				}
			}
			if rep && r.Intn(2) == 0 && len(order) > 0 {
				ps = append(ps, post.Make(doc, order[r.Intn(len(order))]))
			}
			for _, v := range order {
				want[uint16(v)] = append(want[uint16(v)], doc)
				if !used[uint16(v)] {
					used[uint16(v)] = true
					spans[uint16(v)]++
				}
			}
			ch <- ps
			<-ch
			if i%7 == 0 { // documents without postings for this shard
				ch <- nil
				<-ch
			}
		}
		close(ch)
		<-done
		c.NoErr(x.Close(), "closing session %d", k)
		c.Beat()
		if k == nses-1 {
			readBack(k, true)
		} else if c.Chance("read back", 2) {
			readBack(k, false)
		}
	}
	max := 0
	for _, l := range want {
		if len(l) > max {
			max = len(l)
		}
	}
	c.Class("list over 512", max > 512)
	c.Class("list over 65536", max > 65536)
	c.Class("ids over 2^31", doc > 1<<31)
	c.Class("file over 4 GB", size(path) > 1<<32)
	c.Class("several sessions", nses > 1)
	c.Class("wide deltas", gapKind == 2 || gapKind == 4)
}
