package model

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The form of a stored index, written down independently of the code:
//
//	cfg.json   the configuration
//	dmd        for every document id three big endian 32 bit numbers: node of
//	           its path, start and end; id 0 is not used
//	files.fnm  the number of nodes of the path tree; for every node the length
//	           of its name, the name, and the number of its parent, which comes
//	           before it; node 0 is the root. Numbers are uvarints.
//	bI.pos     blocks of the posting lists of shard I: a varint, the length of
//	           what follows; document ids as uvarint differences to the one
//	           before; 64 bits big endian: where the next block of the list is,
//	           or -1
//	bI.pos.iix for each of 65536 lists, in order: varints of the place of its
//	           first block, or -1, and of the number of its documents, and 32
//	           bits big endian: its last document
//
// blot b is list b / N of shard b % N.

// maxBlock is the most that a block may have besides its link: a block is
// ended by the difference with which it has 512 bytes or more.
const maxBlock = 511

// WriteIndex stores an index of docs at root, which is made, in blocks cut by
// r. name is the root in the configuration.
func WriteIndex(root, name string, s Setup, docs []DocSpec, r *rand.Rand) error {
	if err := os.Mkdir(root, 0755); err != nil {
		return err
	}
	put := func(n string, d []byte) error { return os.WriteFile(filepath.Join(root, n), d, 0644) }
	cfg, err := json.MarshalIndent(map[string]any{
		"IndexRoot":    name,
		"SeqLen":       s.S(),
		"NumShards":    s.Shards,
		"NumShatters":  s.Shatters,
		"DocFlushRate": s.Flush,
		"TokenConfig":  map[string]any{"Name": "words.simple"},
		"BlotConfig":   map[string]any{"SeqLen": s.B, "Interleave": s.I},
	}, "", "\t")
	if err != nil {
		return err
	}
	if err := put("cfg.json", append(cfg, '\n')); err != nil {
		return err
	}
	// paths and documents
	type node struct {
		name   string
		parent int
	}
	nodes := []node{{}}
	at := map[string]int{"/": 0}
	dmd := make([]byte, 12)
	for i := range docs {
		abs := AbsPath(docs[i].Path)
		cur, n := "", 0
		for _, part := range strings.Split(abs[1:], "/") {
			cur += "/" + part
			k, ok := at[cur]
			if !ok {
				k = len(nodes)
				nodes = append(nodes, node{part, n})
				at[cur] = k
			}
			n = k
		}
		for _, v := range []uint32{uint32(n), docs[i].Start, docs[i].End} {
			dmd = binary.BigEndian.AppendUint32(dmd, v)
		}
	}
	if err := put("dmd", dmd); err != nil {
		return err
	}
	fnm := binary.AppendUvarint(nil, uint64(len(nodes)))
	for _, n := range nodes {
		fnm = binary.AppendUvarint(fnm, uint64(len(n.name)))
		fnm = append(fnm, n.name...)
		fnm = binary.AppendUvarint(fnm, uint64(n.parent))
	}
	if err := put("files.fnm", fnm); err != nil {
		return err
	}
	// postings
	ref := NewRef(s.Shape)
	for i := range docs {
		ref.Add(&docs[i])
	}
	var lists []uint32
	for b := range ref.M {
		lists = append(lists, b)
	}
	sort.Slice(lists, func(i, j int) bool { return lists[i] < lists[j] })
	for sh := 0; sh < s.Shards; sh++ {
		type list struct {
			blot       uint32
			left       []int
			head, link int64
			last       uint32
			total      int
		}
		known := map[uint16]*list{}
		var open []*list
		for _, b := range lists {
			if b%uint32(s.Shards) == uint32(sh) {
				l := &list{blot: b, left: ref.M[b], head: -1, total: len(ref.M[b])}
				known[uint16(b/uint32(s.Shards))] = l
				open = append(open, l)
			}
		}
		var pos []byte
		how := r.Intn(4) // 0: full blocks, 1: one document each, others: any
		for len(open) > 0 {
			k := r.Intn(len(open))
			l := open[k]
			if r.Intn(50) == 0 { // what a session that did not complete has left
				pos = append(pos, make([]byte, r.Intn(40))...)
			}
			here := int64(len(pos))
			if l.head == -1 {
				l.head = here
			} else {
				binary.BigEndian.PutUint64(pos[l.link:], uint64(here))
			}
			most := maxBlock
			switch how {
			case 1:
				most = 0
			case 2, 3:
				most = r.Intn(maxBlock)
				if r.Intn(4) > 0 {
					most = r.Intn(5)
				}
			}
			var blk []byte
			for len(l.left) > 0 && len(blk) <= most {
				id := uint32(l.left[0] + 1)
				blk = binary.AppendUvarint(blk, uint64(id-l.last))
				l.last = id
				l.left = l.left[1:]
			}
			pos = binary.AppendVarint(pos, int64(len(blk)+8))
			pos = append(pos, blk...)
			l.link = int64(len(pos))
			pos = binary.BigEndian.AppendUint64(pos, ^uint64(0))
			if len(l.left) == 0 {
				open[k] = open[len(open)-1]
				open = open[:len(open)-1]
			}
		}
		var iix []byte
		for b := 0; b < 1<<16; b++ {
			l := known[uint16(b)]
			if l == nil {
				l = &list{head: -1}
			}
			iix = binary.AppendVarint(iix, l.head)
			iix = binary.AppendVarint(iix, int64(l.total))
			iix = binary.BigEndian.AppendUint32(iix, l.last)
		}
		n := fmt.Sprintf("b%d.pos", sh)
		if err := put(n, pos); err != nil {
			return err
		}
		if err := put(n+".iix", iix); err != nil {
			return err
		}
	}
	return nil
}

// ReadIndex tells how what is stored at root differs from an index of the
// documents of r with setup s, or gives an empty string.
func (r *Ref) ReadIndex(root string, s Setup) (diff string, err error) {
	get := func(n string) []byte {
		d, e := os.ReadFile(filepath.Join(root, n))
		if e != nil && err == nil {
			err = e
		}
		return d
	}
	cfg, dmd, fnm := get("cfg.json"), get("dmd"), get("files.fnm")
	if err != nil {
		return "", err
	}
	var cf struct {
		SeqLen, NumShards, NumShatters, DocFlushRate int
		TokenConfig                                  struct{ Name string }
		BlotConfig                                   struct{ SeqLen, Interleave int }
	}
	if e := json.Unmarshal(cfg, &cf); e != nil {
		return fmt.Sprintf("cfg.json: %v", e), nil
	}
	if cf.SeqLen != s.S() || cf.NumShards != s.Shards || cf.NumShatters != s.Shatters || cf.DocFlushRate != s.Flush ||
		cf.TokenConfig.Name != "words.simple" || cf.BlotConfig.SeqLen != s.B || cf.BlotConfig.Interleave != s.I {
		return fmt.Sprintf("cfg.json has %+v", cf), nil
	}
	// path tree
	rd := bytes.NewReader(fnm)
	num := func() int {
		v, e := binary.ReadUvarint(rd)
		if e != nil && diff == "" {
			diff = "files.fnm ends early or is malformed"
		}
		return int(v)
	}
	n := num()
	if n != r.NumPaths() {
		return fmt.Sprintf("files.fnm has %d nodes, not %d", n, r.NumPaths()), nil
	}
	paths := make([]string, n)
	for i := range paths {
		l := num()
		if diff != "" || l > rd.Len() {
			return "files.fnm ends early or is malformed", nil
		}
		name := make([]byte, l)
		rd.Read(name)
		p := num()
		switch {
		case i == 0:
			if l != 0 || p != 0 {
				return "files.fnm does not begin with the root", nil
			}
		case p >= i:
			return fmt.Sprintf("files.fnm: node %d has parent %d", i, p), nil
		default:
			paths[i] = paths[p] + "/" + string(name)
		}
	}
	if diff != "" {
		return diff, nil
	}
	// documents
	if len(dmd) != 12*(len(r.Docs)+1) {
		return fmt.Sprintf("dmd has %d bytes for %d documents", len(dmd), len(r.Docs)), nil
	}
	for i, d := range r.Docs {
		f := func(k int) uint32 { return binary.BigEndian.Uint32(dmd[12*(i+1)+4*k:]) }
		if int(f(0)) >= n || (RDoc{paths[f(0)], f(1), f(2)}) != d {
			return fmt.Sprintf("dmd has %d %d:%d for document %d, %v", f(0), f(1), f(2), i+1, d), nil
		}
	}
	// postings
	for sh := 0; sh < s.Shards; sh++ {
		name := fmt.Sprintf("b%d.pos", sh)
		pos, iix := get(name), bytes.NewReader(get(name+".iix"))
		if err != nil {
			return "", err
		}
		for k := 0; k < 1<<16; k++ {
			b := uint32(k*s.Shards + sh)
			want := r.M[b]
			head, e1 := binary.ReadVarint(iix)
			total, e2 := binary.ReadVarint(iix)
			var last [4]byte
			if _, e := iix.Read(last[:]); e1 != nil || e2 != nil || e != nil {
				return fmt.Sprintf("%s.iix ends at list %d", name, k), nil
			}
			if total != int64(len(want)) {
				return fmt.Sprintf("%s.iix says list %d (blot %x) has %d documents, not %d", name, k, b, total, len(want)), nil
			}
			if total == 0 {
				continue
			}
			if l := binary.BigEndian.Uint32(last[:]); l != uint32(want[len(want)-1]+1) {
				return fmt.Sprintf("%s.iix says list %d (blot %x) ends with document %d, not %d", name, k, b, l, want[len(want)-1]+1), nil
			}
			id := uint64(0)
			for at := 0; at < len(want); {
				if head < 0 || head >= int64(len(pos)) {
					return fmt.Sprintf("%s: list %d (blot %x) continues at %d after %d of %d documents", name, k, b, head, at, len(want)), nil
				}
				v, n := binary.Varint(pos[head:])
				end := head + int64(n) + v
				if n <= 0 || v <= 8 || end > int64(len(pos)) {
					return fmt.Sprintf("%s: list %d (blot %x) has a malformed block at %d", name, k, b, head), nil
				}
				for blk := pos[head+int64(n) : end-8]; len(blk) > 0 && at < len(want); at++ {
					d, n := binary.Uvarint(blk)
					if n <= 0 {
						return fmt.Sprintf("%s: list %d (blot %x) has a malformed difference", name, k, b), nil
					}
					blk = blk[n:]
					id += d
					if id != uint64(want[at]+1) {
						return fmt.Sprintf("%s: list %d (blot %x) has document %d where %d belongs", name, k, b, id, want[at]+1), nil
					}
				}
				head = int64(binary.BigEndian.Uint64(pos[end-8:]))
			}
		}
		if iix.Len() != 0 {
			return fmt.Sprintf("%s.iix has %d bytes too many", name, iix.Len()), nil
		}
	}
	return "", nil
}
