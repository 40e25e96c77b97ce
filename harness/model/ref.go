package model

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-air/dupi"
)

// DocSpec is one document to add.
type DocSpec struct {
	Path       string
	Start, End uint32
	Dat        []byte
	Wd         string // the working directory to add it from, or ""
}

// chdir goes where d is added from. The caller goes back.
func (d *DocSpec) chdir() {
	if d.Wd != "" {
		if err := os.Chdir(d.Wd); err != nil {
			panic(err)
		}
	}
}

// Doc makes a fresh dupi document.
func (d *DocSpec) Doc() *dupi.Doc {
	if d.Start == 0 && d.End == 0 {
		return dupi.NewDoc(d.Path, string(d.Dat))
	}
	return &dupi.Doc{Path: d.Path, Start: d.Start, End: d.End, Dat: append([]byte{}, d.Dat...)}
}

// RDoc identifies a document in an answer.
type RDoc struct {
	Path       string
	Start, End uint32
}

func (r RDoc) String() string { return fmt.Sprintf("%q@%d:%d", r.Path, r.Start, r.End) }

// Ref is the reference index.
type Ref struct {
	Shape
	Docs  []RDoc
	M     map[uint32][]int // reduced blot -> document numbers
	posts int
	paths map[string]bool // nodes of the path tree
}

// NewRef makes an empty reference index.
func NewRef(s Shape) *Ref {
	return &Ref{Shape: s, M: map[uint32][]int{}, paths: map[string]bool{"/": true}}
}

// AbsPath is the reference form of a document path.
func AbsPath(p string) string {
	if !strings.HasPrefix(p, "/") {
		wd, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		p = wd + "/" + p
	}
	return filepath.Clean(p)
}

// Add adds a document.
func (r *Ref) Add(d *DocSpec) {
	d.chdir()
	n := len(r.Docs)
	abs := AbsPath(d.Path)
	r.Docs = append(r.Docs, RDoc{abs, d.Start, d.End})
	for p := abs; p != "/"; p = filepath.Dir(p) {
		r.paths[p] = true
	}
	for _, w := range r.Windows(d.Dat) {
		b := w.Raw % r.Range()
		l := r.M[b]
		if len(l) > 0 && l[len(l)-1] == n {
			continue
		}
		r.M[b] = append(l, n)
		r.posts++
	}
}

// NumPosts is the number of distinct (document, blot) pairs.
func (r *Ref) NumPosts() int { return r.posts }

// NumPaths is the number of nodes of the path tree.
func (r *Ref) NumPaths() int { return len(r.paths) }

// Stats gives the exact mean and the standard deviation of documents per blot.
func (r *Ref) MeanSigma() (mean, sigma float64) {
	n := float64(r.Range())
	mean = float64(r.posts) / n
	var sos float64
	for _, l := range r.M {
		d := float64(len(l)) - mean
		sos += d * d
	}
	sos += (n - float64(len(r.M))) * mean * mean
	return mean, math.Sqrt(sos / n)
}

// Blots lists the blots with at least min documents in increasing order.
func (r *Ref) Blots(min int) []uint32 {
	var res []uint32
	for b, l := range r.M {
		if len(l) >= min {
			res = append(res, b)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i] < res[j] })
	return res
}

// List gives the documents of a blot.
func (r *Ref) List(b uint32) []RDoc {
	l := r.M[b]
	res := make([]RDoc, len(l))
	for i, n := range l {
		res[i] = r.Docs[n]
	}
	return res
}

// MaxList is the length of the longest list.
func (r *Ref) MaxList() int {
	m := 0
	for _, l := range r.M {
		if len(l) > m {
			m = len(l)
		}
	}
	return m
}

// FromDocs converts answer documents.
func FromDocs(ds []dupi.Doc) []RDoc {
	res := make([]RDoc, len(ds))
	for i := range ds {
		res[i] = RDoc{ds[i].Path, ds[i].Start, ds[i].End}
	}
	return res
}

// Diff describes the first difference of two lists, or is empty.
func Diff(got, want []RDoc) string {
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("document %d is %v, want %v (%d documents, want %d)", i, got[i], want[i], len(got), len(want))
		}
	}
	if len(got) != len(want) {
		s := fmt.Sprintf("%d documents, want %d", len(got), len(want))
		if len(got) > len(want) {
			s += fmt.Sprintf("; first extra %v", got[len(want)])
		} else {
			s += fmt.Sprintf("; first missing %v", want[len(got)])
		}
		return s
	}
	return ""
}

// CheckLookup compares the lookup of one blot.
func (r *Ref) CheckLookup(q *dupi.Query, b uint32) error {
	blot := dupi.Blot{Blot: b}
	if err := q.Get(&blot); err != nil {
		return fmt.Errorf("lookup of blot %x: %v", b, err)
	}
	if blot.Blot != b {
		return fmt.Errorf("lookup of blot %x relabelled the blot %x", b, blot.Blot)
	}
	l := r.M[b%r.Range()]
	if len(l) == 0 && len(blot.Docs) == 0 {
		return nil
	}
	if s := Diff(FromDocs(blot.Docs), r.List(b%r.Range())); s != "" {
		return fmt.Errorf("lookup of blot %x: %s", b, s)
	}
	return nil
}

// CheckLookups compares the lookup of every blot of the reference, and if
// sweep is set of every possible blot, else of the extra ones.
func (r *Ref) CheckLookups(idx *dupi.Index, sweep bool, extra []uint32) error {
	q := idx.StartQuery(dupi.QueryMaxBlot)
	if sweep {
		for b := uint32(0); b < r.Range(); b++ {
			if err := r.CheckLookup(q, b); err != nil {
				return err
			}
		}
	} else {
		for _, b := range r.Blots(1) {
			if err := r.CheckLookup(q, b); err != nil {
				return err
			}
			// neighbours are mostly absent
			for _, nb := range []uint32{b ^ 1, b + uint32(r.Shards), b + 1} {
				if err := r.CheckLookup(q, nb%r.Range()); err != nil {
					return err
				}
			}
		}
	}
	for _, b := range extra {
		if err := r.CheckLookup(q, b); err != nil {
			return err
		}
	}
	return nil
}

// Page is one filled slot of an extraction.
type Page struct {
	Blot uint32
	Docs []RDoc
}

// CheckExtraction iterates the index with the given batch sizes (used
// cyclically) and compares with the reference.
func (r *Ref) CheckExtraction(idx *dupi.Index, batches []int) error {
	q := idx.StartQuery(dupi.QueryMaxBlot)
	other := idx.StartQuery(dupi.QueryMaxBlot)
	want := len(r.Blots(2))
	some := r.Blots(1)
	seen := map[uint32]bool{}
	last := -1
	looked := 0
	for call := 0; ; call++ {
		dst := make([]dupi.Blot, batches[call%len(batches)])
		n, err := Next(q, dst)
		if n < 0 || n > len(dst) {
			return fmt.Errorf("Next returned n=%d for %d slots", n, len(dst))
		}
		if call%4 == 1 {
			// lookups with the same query and another extraction do not disturb it
			if b := uint32(0); len(some) > 0 && looked < 300000 {
				b = some[call*13%len(some)]
				looked += len(r.M[b])
				if err := r.CheckLookup(q, b); err != nil {
					return fmt.Errorf("while extracting with the same query: %v", err)
				}
			}
			var one [1]dupi.Blot
			if _, err := Next(other, one[:]); err != nil && !IsEOF(err) {
				return fmt.Errorf("a second extraction: %v", err)
			}
			if s := Diff(FromDocs(one[0].Docs), r.List(one[0].Blot)); one[0].Docs != nil && s != "" {
				return fmt.Errorf("a second extraction, blot %x: %s", one[0].Blot, s)
			}
		}
		for i := range dst[:n] {
			d := &dst[i]
			if d.Blot >= r.Range() {
				return fmt.Errorf("extraction gave blot %x outside the range %x", d.Blot, r.Range())
			}
			if seen[d.Blot] {
				return fmt.Errorf("extraction gave blot %x twice", d.Blot)
			}
			seen[d.Blot] = true
			if len(d.Docs) < 2 {
				return fmt.Errorf("extraction gave blot %x with %d documents", d.Blot, len(d.Docs))
			}
			if s := Diff(FromDocs(d.Docs), r.List(d.Blot)); s != "" {
				return fmt.Errorf("extraction, blot %x: %s", d.Blot, s)
			}
			if last >= 0 && len(d.Docs) > last {
				return fmt.Errorf("extraction gave blot %x with %d documents after one with %d", d.Blot, len(d.Docs), last)
			}
			last = len(d.Docs)
		}
		if err != nil {
			if !IsEOF(err) {
				return fmt.Errorf("extraction: %v", err)
			}
			break
		}
		if n == 0 && len(dst) > 0 {
			return fmt.Errorf("Next returned no blot and no error for %d slots (call %d)", len(dst), call)
		}
		if call > 10*want+1000+len(batches)*(want+2) {
			return fmt.Errorf("extraction does not end")
		}
	}
	if len(seen) != want {
		for _, b := range r.Blots(2) {
			if !seen[b] {
				return fmt.Errorf("extraction ended after %d of %d blots; blot %x with %d documents is missing", len(seen), want, b, len(r.M[b]))
			}
		}
	}
	// the end stays the end
	for k := 0; k < 3; k++ {
		dst := make([]dupi.Blot, 1+k)
		n, err := Next(q, dst)
		if n != 0 || !IsEOF(err) {
			return fmt.Errorf("Next after the end of data returned n=%d err=%v", n, err)
		}
	}
	return nil
}

// CheckStats compares the statistics.
func (r *Ref) CheckStats(idx *dupi.Index, root string) error {
	st, err := idx.Stats()
	if err != nil {
		return fmt.Errorf("Stats: %v", err)
	}
	return r.CompareStats(st, root)
}

// CompareStats compares given statistics.
func (r *Ref) CompareStats(st *dupi.Stats, root string) error {
	if root != "" && st.Root != AbsPath(root) {
		return fmt.Errorf("Stats.Root is %q, want %q", st.Root, AbsPath(root))
	}
	if st.NumDocs != uint64(len(r.Docs)) {
		return fmt.Errorf("Stats.NumDocs is %d, want %d", st.NumDocs, len(r.Docs))
	}
	if st.NumPaths != uint64(r.NumPaths()) {
		return fmt.Errorf("Stats.NumPaths is %d, want %d", st.NumPaths, r.NumPaths())
	}
	if st.NumPosts != uint64(r.posts) {
		return fmt.Errorf("Stats.NumPosts is %d, want %d", st.NumPosts, r.posts)
	}
	if st.NumBlots != uint64(r.Range()) {
		return fmt.Errorf("Stats.NumBlots is %d, want %d", st.NumBlots, r.Range())
	}
	mean, sigma := r.MeanSigma()
	if !close(st.BlotMean, mean) || !close(st.BlotSigma, sigma) {
		return fmt.Errorf("Stats mean/sigma are %v/%v, want %v/%v", st.BlotMean, st.BlotSigma, mean, sigma)
	}
	return nil
}

func close(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*(1+math.Abs(b))
}

// CheckAll compares lookups, extraction and statistics.
func (r *Ref) CheckAll(idx *dupi.Index, root string, sweep bool, extra []uint32, batches []int) error {
	if err := r.CheckLookups(idx, sweep, extra); err != nil {
		return err
	}
	if err := r.CheckExtraction(idx, batches); err != nil {
		return err
	}
	return r.CheckStats(idx, root)
}

// Clone copies the reference index.
func (r *Ref) Clone() *Ref {
	n := &Ref{Shape: r.Shape, Docs: append([]RDoc{}, r.Docs...), M: map[uint32][]int{}, posts: r.posts, paths: map[string]bool{}}
	for k, v := range r.M {
		n.M[k] = append([]int{}, v...)
	}
	for k := range r.paths {
		n.paths[k] = true
	}
	return n
}

// CheckOrError accepts errors in place of answers, but no wrong answers.
func (r *Ref) CheckOrError(idx *dupi.Index, batches []int) error {
	q := idx.StartQuery(dupi.QueryMaxBlot)
	for b := range r.M {
		for _, b := range []uint32{b, b ^ 1} {
			blot := dupi.Blot{Blot: b}
			if err := q.Get(&blot); err != nil {
				continue
			}
			if s := Diff(FromDocs(blot.Docs), r.List(b)); s != "" {
				return fmt.Errorf("lookup of blot %x gave no error, but %s", b, s)
			}
		}
	}
	q = idx.StartQuery(dupi.QueryMaxBlot)
	seen := map[uint32]bool{}
	last := -1
	for call := 0; ; call++ {
		dst := make([]dupi.Blot, batches[call%len(batches)])
		n, err := Next(q, dst)
		for i := range dst[:n] {
			d := &dst[i]
			if seen[d.Blot] {
				return fmt.Errorf("extraction gave blot %x twice", d.Blot)
			}
			seen[d.Blot] = true
			if s := Diff(FromDocs(d.Docs), r.List(d.Blot)); s != "" || len(d.Docs) < 2 {
				return fmt.Errorf("extraction gave blot %x without an error, but %d documents, %s", d.Blot, len(d.Docs), s)
			}
			if last >= 0 && len(d.Docs) > last {
				return fmt.Errorf("extraction out of order at blot %x", d.Blot)
			}
			last = len(d.Docs)
		}
		if err != nil {
			if IsEOF(err) && len(seen) != len(r.Blots(2)) {
				return fmt.Errorf("extraction ended without an error after %d of %d blots", len(seen), len(r.Blots(2)))
			}
			return nil
		}
		if n == 0 {
			return fmt.Errorf("extraction makes no progress")
		}
	}
}
