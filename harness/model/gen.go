package model

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/blotter"
	"github.com/go-air/dupi/token"

	"dupiverif/fw"
)

// Setup is a generated index configuration.
type Setup struct {
	Shape
	Shatters int
	Flush    int
	// Stored: Build stores the index itself, in the form of disk.go, which
	// takes much less memory than the code if there are many shards.
	Stored bool
}

func (s Setup) String() string {
	return fmt.Sprintf("shards=%d shatterers=%d window=%dx%d flush=%d", s.Shards, s.Shatters, s.B, s.I, s.Flush)
}

// Config builds the configuration for an index at root.
func (s Setup) Config(root string) *dupi.Config {
	abs, err := filepath.Abs(root)
	if err != nil {
		fw.Broken("abs: %v", err)
	}
	return &dupi.Config{
		IndexRoot:    abs,
		SeqLen:       s.S(),
		NumShards:    s.Shards,
		NumShatters:  s.Shatters,
		DocFlushRate: s.Flush,
		TokenConfig:  *token.DefaultConfig(),
		BlotConfig:   blotter.Config{SeqLen: s.B, Interleave: s.I},
	}
}

// SetupOpts bounds configuration generation.
type SetupOpts struct {
	MaxShards   int  // default 3
	MaxShatters int  // default 4
	MaxB        int  // default 10
	Many        bool // sometimes up to 20 shards
	Hundreds    bool // rarely up to 300 shards, stored
}

// GenSetup draws a configuration.
func GenSetup(c *fw.C, o SetupOpts) Setup {
	if o.MaxShards == 0 {
		o.MaxShards = 3
	}
	if o.MaxShatters == 0 {
		o.MaxShatters = 4
	}
	if o.MaxB == 0 {
		o.MaxB = 10
	}
	s := Setup{}
	s.Shards = c.Int("shards", 1, o.MaxShards)
	s.Shatters = c.Int("shatterers", 1, o.MaxShatters)
	s.I = c.Pick("interleave", 1, 1, 1, 2, 3)
	s.B = c.Pick("blotlen", 1, 2, 3, 3, 4, 5, 10)
	if s.B > o.MaxB {
		s.B = o.MaxB
	}
	s.Flush = c.Pick("flush", 1, 2, 3, 7, 16384, 16384)
	if c.Rare("unusual", 9) {
		r := Rand(c, "unusual shape")
		pick := func(p *int, xs ...int) {
			if r.Intn(2) == 0 {
				*p = xs[r.Intn(len(xs))]
			}
		}
		pick(&s.Shatters, 5, 8, 9, 15, 16, 17, 31, 33, 64, 100, 257)
		if o.MaxB > 5 {
			pick(&s.B, 6, 7, 8, 9, 11, 15, 16, 17, 20, 31, 32, 33, 64, 100, 256)
			pick(&s.I, 4, 5, 7, 8, 10, 16)
			for s.B*s.I > 600 {
				s.B /= 2
			}
		}
		pick(&s.Flush, 4, 5, 8, 15, 16, 100, 511, 512, 1000, 1024, 4096, 1<<16, 1<<20)
		if o.Many && r.Intn(3) == 0 {
			s.Shards = []int{5, 7, 8, 9, 12, 16, 17, 20}[r.Intn(8)]
			if s.Shatters > 16 {
				s.Shatters = 16
			}
		}
		c.Class("unusual shape", true)
	}
	if o.Hundreds && c.Rare("hundreds", 30) {
		s.Shards = c.Pick("shard number", 64, 100, 255, 256, 256, 257, 300)
		s.Stored = true
		c.Class("64 to 300 shards", true)
	}
	return s
}

var wordPool = []string{
	"a", "the", "of", "x1", "7", "2021", "naïve", "straße", "日本", "語", "Ωmega", "éa", "b", "Zeta",
	"don", "t", "q9q", "٣٤", "ñandú", "word", "lorem", "ipsum", "dolor", "sit", "amet", "ḿ", "𝔘nicode", "çedille", "Ж", "жук",
	"\u212aelvin", "ΟΔΟΣ", "ſet", "ǅem", "İzmir", "ﬁn", "ªº", "Ⱥb", "ẞ", "10", "0",
	"cats", "s", "testing", "ed",
}

// Vocab is the vocabulary of a case.
type Vocab []string

// GenVocab draws a vocabulary.
func GenVocab(c *fw.C) Vocab {
	n := c.Pick("vocab", 1, 2, 3, 6, 20, 20, 80, 400)
	v := make(Vocab, n)
	off := c.Int("vocaboff", 0, len(wordPool)-1)
	for i := range v {
		w := wordPool[(i+off)%len(wordPool)]
		if i >= len(wordPool) {
			w += fmt.Sprint(i)
		}
		v[i] = w
	}
	return v
}

var seps = []string{" ", " ", " ", "\n", ", ", " -- ", "\t", "。", "…", "\u00a0", "\x00", "'", "\r\n", "_", "  \n\n", "💥", "-", "\u0301", "½", "Ⅷ", "\u200d", "\ufeff", "\x1b[", "\ufffd"}

func init() {
	for _, s := range seps {
		if len(Words([]byte(s))) > 0 {
			panic("separator " + s)
		}
	}
	for _, w := range wordPool {
		if ws := Words([]byte(w)); len(ws) != 1 || ws[0].Text != w {
			panic("word " + w)
		}
	}
}

// CaseVariant changes the letter case of w in a way that lower-casing undoes.
func CaseVariant(w string, k int) string {
	v := w
	switch k % 4 {
	case 1:
		v = strings.ToUpper(w)
	case 2:
		v = strings.ToLower(w)
	case 3:
		v = strings.Title(w)
	}
	if strings.ToLower(v) != strings.ToLower(w) {
		return w
	}
	ws := Words([]byte(v))
	if len(ws) != 1 || ws[0].Text != v {
		return w
	}
	return v
}

// Render writes the words with varied separators and letter case.
func Render(r *rand.Rand, v Vocab, ws []int, style int) []byte {
	var b bytes.Buffer
	sep := func() string {
		switch style {
		case 0:
			return " "
		case 1:
			return seps[r.Intn(len(seps))]
		default:
			s := seps[r.Intn(len(seps))]
			if r.Intn(2) == 0 {
				s += seps[r.Intn(len(seps))]
			}
			return s
		}
	}
	if style > 0 && r.Intn(3) == 0 {
		b.WriteString(sep())
	}
	for i, w := range ws {
		if i > 0 {
			b.WriteString(sep())
		}
		s := v[w]
		if style > 0 {
			s = CaseVariant(s, r.Intn(6))
		}
		b.WriteString(s)
	}
	if style > 0 && r.Intn(3) == 0 {
		b.WriteString(sep())
	}
	return b.Bytes()
}

// Corpus is a generated sequence of documents.
type Corpus struct {
	Vocab Vocab
	Docs  []DocSpec
	words [][]int
	desc  strings.Builder
}

// CorpusOpts bounds document generation.
type CorpusOpts struct {
	MinDocs, MaxDocs int
	MaxWords         int  // default 60
	Bulk             bool // allow many repeats of one document
	Huge             bool // with Bulk: sometimes more than 65536 documents
	Dense            bool // more shared passages
	Long             int  // one in so many cases has a document of more than 64 KB
	Prefix           string
}

// LongText writes a text of about n bytes: of words that seldom repeat,
// often with only one kind of separator, rarely with very long words or
// separators; or of more words than 16 bits can number, whatever n is.
func LongText(r *rand.Rand, n int) []byte {
	only := []string{" ", "\n", "\n", "\t", ".", "\u00a0", "。", "\r\n", "", ""}[r.Intn(10)]
	odd := r.Intn(3) == 0
	var b bytes.Buffer
	if n > 1<<15 && r.Intn(4) == 0 {
		// a text of little more than 2^16 words, which are short
		const letters = "abcdefghijklmnopqrstuvwxyz0123456789ABCXYZ"
		if only == "" {
			only = " "
		}
		for k := 1<<16 - 300 + r.Intn([]int{600, 3000, 40000}[r.Intn(3)]); k > 0; k-- {
			b.WriteByte(letters[r.Intn(len(letters))])
			if k := r.Intn(3 * len(letters)); k < len(letters) {
				b.WriteByte(letters[k])
			}
			b.WriteString(only)
		}
		return b.Bytes()
	}
	for b.Len() < n {
		x := r.Uint64()
		switch r.Intn(8) {
		case 0:
			b.WriteString(wordPool[r.Intn(len(wordPool))])
		case 1:
			fmt.Fprintf(&b, "é%X", x>>40)
		default:
			fmt.Fprintf(&b, "w%x", x>>uint(8+r.Intn(48)))
		}
		sep := only
		if sep == "" {
			sep = seps[r.Intn(len(seps))]
		}
		if odd && r.Intn(n/8+1) < 60 {
			k := 1 << uint(r.Intn(18))
			if r.Intn(2) == 0 {
				b.WriteString(strings.Repeat("éx"[:2+r.Intn(2)], k/2))
			} else {
				sep = strings.Repeat(sep, k/len(sep)+1)
			}
		}
		b.WriteString(sep)
	}
	return b.Bytes()
}

// LongSize draws a size around and above some powers of two.
func LongSize(r *rand.Rand) int {
	n := 1 << uint(12+r.Intn(7))
	if r.Intn(2) == 0 {
		return n - 20 + r.Intn(40)
	}
	return n + r.Intn(n)
}

// Rand draws a pseudo-random source that shrinks as one number.
func Rand(c *fw.C, name string) *rand.Rand {
	return rand.New(rand.NewSource(c.Seed(name)))
}

// GenCorpus draws documents. Paths start with o.Prefix.
func GenCorpus(c *fw.C, s Shape, o CorpusOpts) *Corpus {
	if o.MaxWords == 0 {
		o.MaxWords = 60
	}
	if o.Prefix == "" {
		o.Prefix = "/docs"
	}
	cp := &Corpus{Vocab: GenVocab(c)}
	n := c.Int("ndocs", o.MinDocs, o.MaxDocs)
	if n < 4 && o.MaxDocs > 6 && (o.Dense || c.Bool("more docs")) && !c.Chance("few docs", 6) {
		n = c.Int("ndocs", 4, o.MaxDocs)
	}
	S := s.S()
	for i := 0; i < n; i++ {
		cp.genDoc(c, S, o, i)
	}
	if o.Long > 0 && c.Rare("long", o.Long) {
		r := Rand(c, "longtext")
		for k := 1 + r.Intn(2); k > 0; k-- {
			dat := LongText(r, LongSize(r))
			d := DocSpec{Path: o.Prefix + "/long", Dat: dat, Start: uint32(r.Intn(2) * 77)}
			if k == 2 && r.Intn(2) == 0 {
				// have some passages of it on their own
				for j := 0; j < 20; j++ {
					a := r.Intn(len(dat))
					e := a + 1 + r.Intn(400)
					if e > len(dat) {
						e = len(dat)
					}
					p := DocSpec{Path: fmt.Sprintf("%s/passage/%d", o.Prefix, j), Dat: dat[a:e]}
					p.End = uint32(e - a)
					cp.Docs = append(cp.Docs, p)
				}
			}
			d.End = d.Start + uint32(len(dat))
			at := r.Intn(len(cp.Docs) + 1)
			cp.Docs = append(cp.Docs[:at:at], append([]DocSpec{d}, cp.Docs[at:]...)...)
			fmt.Fprintf(&cp.desc, " +document of %d bytes at %d, %q...", len(dat), at, dat[:60])
		}
		c.Class("long document", true)
	}
	if o.Bulk && c.Chance("bulk", 7) {
		// a posting list block takes about 512 deltas of one byte
		k := c.Pick("bulkcopies", 511, 512, 513, 600, 1023, 1025, 1300, 256, 170, 171)
		gap := c.Pick("bulkgap", 0, 0, 1, 3)
		wide := c.Chance("bulkwide", 4) // deltas of two bytes
		huge := o.Huge && c.Rare("huge", 10)
		var withWin []int
		for j := range cp.Docs {
			if n := len(Words(cp.Docs[j].Dat)); n >= S && n < S+40 {
				withWin = append(withWin, j)
			}
		}
		var src DocSpec
		b := -1
		if len(withWin) > 0 {
			b = withWin[c.Int("bulkof", 0, len(withWin)-1)]
			src = cp.Docs[b]
		} else {
			src = DocSpec{Dat: Render(Rand(c, "r"), cp.Vocab, cp.drawN(c, S+2), 0)}
		}
		if wide {
			gap = 130
			if k > 300 {
				k = 300
			}
		}
		if huge {
			if c.Bool("far apart") { // deltas of three bytes
				k, gap = c.Int("farcopies", 2, 5), c.Pick("fargap", 16382, 16383, 16384, 20000)
				c.Class("documents more than 2^14 apart", true)
			} else {
				k, gap = c.Pick("hugecopies", 65535, 65536, 65537, 66000), 0
				c.Class("list of more than 65534 documents", true)
			}
		}
		for j := 0; j < k; j++ {
			d := src
			d.Path = fmt.Sprintf("%s/bulk/%d", o.Prefix, j)
			cp.Docs = append(cp.Docs, d)
			for g := 0; g < gap; g++ {
				cp.Docs = append(cp.Docs, DocSpec{Path: o.Prefix + "/gap", Dat: []byte("filler")})
			}
		}
		c.Class("bulk", true)
		fmt.Fprintf(&cp.desc, " +%d copies of document %d with gap %d", k, b, gap)
	}
	return cp
}

func (cp *Corpus) genDoc(c *fw.C, S int, o CorpusOpts, i int) {
	kind := c.Int("kind", 0, 19)
	if o.Dense && kind < 3 && c.Chance("dense", 2) {
		kind = 8
	}
	var ws []int
	var dat []byte
	style := c.Int("style", 0, 2)
	switch {
	case kind == 0:
		dat = []byte{}
		c.Class("empty document", true)
	case kind == 1: // not UTF-8
		dat = Render(Rand(c, "r"), cp.Vocab, cp.drawN(c, S+3), 0)
		at := c.Int("at", 0, len(dat))
		dat = append(dat[:at:at], append([]byte{0xff}, dat[at:]...)...)
		c.Class("invalid UTF-8 document", true)
	case kind == 2: // around the window length
		n := S + c.Int("delta", -1, 1)
		ws = cp.drawN(c, n)
	case kind <= 7 && len(cp.words) > 0: // verbatim or reformatted copy
		ws = cp.words[c.Int("copyof", 0, len(cp.words)-1)]
		c.Class("copied document", true)
	case kind <= 12 && len(cp.words) > 0: // splice copied segments
		parts := c.Int("parts", 1, 3)
		for k := 0; k < parts; k++ {
			src := cp.words[c.Int("seg", 0, len(cp.words)-1)]
			if len(src) > 0 {
				a := c.Int("a", 0, len(src)-1)
				b := c.Int("b", a, len(src))
				ws = append(ws, src[a:b]...)
			}
			if c.Bool("mix") {
				ws = append(ws, cp.drawN(c, c.Int("n", 1, 4))...)
			}
		}
		c.Class("spliced document", true)
	case kind == 19:
		ws = cp.drawN(c, c.Int("len", 0, S))
	default:
		ws = cp.drawN(c, S+c.Int("len", 0, o.MaxWords))
	}
	if dat == nil {
		dat = Render(Rand(c, "r"), cp.Vocab, ws, style)
	}
	cp.words = append(cp.words, ws)
	d := DocSpec{Dat: dat}
	switch c.Int("pathkind", 0, 5) {
	case 0:
		d.Path = fmt.Sprintf("%s/%c/%d", o.Prefix, 'a'+i%3, i)
	case 1:
		d.Path = fmt.Sprintf("%s/%d.txt", o.Prefix, i)
	case 2:
		d.Path = fmt.Sprintf("rel/../rel//%d", i%5)
	case 3:
		d.Path = o.Prefix + "/same"
	default:
		d.Path = fmt.Sprintf("%s/deep/er/%d/x", o.Prefix, i%7)
	}
	switch c.Int("rangekind", 0, 3) {
	case 0:
		d.Start = uint32(c.Int("start", 0, 100000))
	case 1:
		d.Start = uint32(c.Pick("start", 1, 12, 255, 256, 65535, 65536, 1<<24, 1<<31, math.MaxUint32))
		if uint64(d.Start)+uint64(len(dat)) > math.MaxUint32 {
			d.Start = math.MaxUint32 - uint32(len(dat))
		}
	}
	if d.Start > 0 || c.Int("norange", 0, 5) > 0 {
		d.End = d.Start + uint32(len(dat))
	}
	cp.Docs = append(cp.Docs, d)
	if len(dat) > 200 {
		fmt.Fprintf(&cp.desc, " {%s %d:%d %q...}", d.Path, d.Start, d.End, dat[:200])
	} else {
		fmt.Fprintf(&cp.desc, " {%s %d:%d %q}", d.Path, d.Start, d.End, dat)
	}
}

func (cp *Corpus) drawN(c *fw.C, n int) []int {
	if n < 0 {
		n = 0
	}
	r := Rand(c, "words")
	ws := make([]int, n)
	for i := range ws {
		ws[i] = r.Intn(len(cp.Vocab))
	}
	return ws
}

func (cp *Corpus) String() string { return cp.desc.String() }

// Ref builds the reference index of the corpus.
func (cp *Corpus) Ref(s Shape) *Ref {
	r := NewRef(s)
	for i := range cp.Docs {
		r.Add(&cp.Docs[i])
	}
	return r
}

// Build creates an index at root with the given documents split into sessions
// of the given sizes (the rest goes into the last one).
func Build(c *fw.C, s Setup, root string, docs []DocSpec, sessions ...int) {
	c.Helper()
	if s.Stored {
		if err := WriteIndex(root, root, s, docs, Rand(c, "blocks")); err != nil {
			fw.Broken("storing an index: %v", err)
		}
		c.Beat()
		return
	}
	x, err := dupi.IndexerFromConfig(s.Config(root))
	c.NoErr(err, "creating the index (%s)", s)
	AddAll(c, x, docs, root, sessions...)
}

// AddAll adds documents to an open indexer, closing it and appending again
// according to sessions, and closes it at the end.
func AddAll(c *fw.C, x *dupi.Indexer, docs []DocSpec, root string, sessions ...int) {
	c.Helper()
	k, left := 0, -1
	if len(sessions) > 0 {
		left = sessions[0]
	}
	var err error
	var one dupi.Doc
	for i := range docs {
		for left == 0 {
			c.NoErr(x.Close(), "closing session %d", k)
			x, err = dupi.OpenIndexer(root)
			c.NoErr(err, "opening append session %d", k+1)
			k++
			left = -1
			if k < len(sessions) {
				left = sessions[k]
			}
			c.Beat()
		}
		docs[i].chdir()
		d := docs[i].Doc()
		if len(docs)%3 == 1 { // one Doc for all of them
			one = *d
			d = &one
		}
		c.NoErr(x.Add(d), "adding document %d", i)
		left--
	}
	c.NoErr(x.Close(), "closing the indexer")
	c.Beat()
}

// Open opens an index for reading.
func Open(c *fw.C, root string) *dupi.Index {
	c.Helper()
	idx, err := dupi.OpenIndex(root)
	c.NoErr(err, "opening the index")
	return idx
}

// Extra draws arbitrary blots to look up.
func Extra(c *fw.C, n int) []uint32 {
	r := Rand(c, "extrablots")
	res := make([]uint32, n)
	for i := range res {
		res[i] = r.Uint32()
	}
	return res
}

// Remove deletes a scratch directory.
func Remove(dir string) {
	if !strings.HasPrefix(dir, "/dev/shm/dupiverif.") && !strings.HasPrefix(dir, "/tmp/dupiverif.") {
		fw.Broken("refusing to remove %s", dir)
	}
	os.RemoveAll(dir)
}
