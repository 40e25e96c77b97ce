package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"unicode"
	"unicode/utf8"

	"github.com/go-air/dupi/token"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P08",
		Rule:  "A case is a batch of 400 byte strings: structured texts built from word and separator rune classes (ASCII, every width of UTF-8, combining marks, digits of other scripts, NUL, lone runes, words and separators at both ends), single runes drawn from all of Unicode, mutations that break the encoding, and raw bytes, each with a drawn offset and sometimes tokens already in the destination. Further, a 64th of all characters, each among others, all texts of five of 16 units that start with a drawn pair, and sometimes a text of up to 500 KB. Evaluations count the 400 strings. Non-trivial: valid UTF-8 with both a word and a separator.",
		Quick: 60, Thorough: 6000,
		Fn: p08,
	})
}

func isWord(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) }

var wordRunes = []rune("abzAZ059éßñΩжЖ日語ḿ𝔘𝟗٣٤ʰªºǅ")
var otherRunes = []rune(" \n\t.,;'\"-_\x00\x7f\u00a0\u0301\u200b\u2028。…💥\ufeff\ufffd²½Ⅷ")

func genText(r *rand.Rand) []byte {
	var b bytes.Buffer
	switch r.Intn(10) {
	case 0: // any runes at all
		for k := r.Intn(8); k >= 0; k-- {
			x := rune(r.Intn(0x110000))
			if x >= 0xd800 && x < 0xe000 {
				x = 'x'
			}
			b.WriteRune(x)
		}
	case 1: // one rune
		b.WriteRune(append(append([]rune{}, wordRunes...), otherRunes...)[r.Intn(len(wordRunes)+len(otherRunes))])
	case 2: // raw
		d := make([]byte, r.Intn(12))
		r.Read(d)
		return d
	case 3: // nothing, or one class only
		p := wordRunes
		if r.Intn(2) == 0 {
			p = otherRunes
		}
		for k := r.Intn(6); k > 0; k-- {
			b.WriteRune(p[r.Intn(len(p))])
		}
	default:
		runs := 1 + r.Intn(8)
		w := r.Intn(2) == 0
		long := r.Intn(20) == 0
		for k := 0; k < runs; k++ {
			p := otherRunes
			if w {
				p = wordRunes
			}
			n := 1 + r.Intn(4)
			if long {
				n = 1 + r.Intn(3000)
			}
			for j := 0; j < n; j++ {
				b.WriteRune(p[r.Intn(len(p))])
			}
			w = !w
		}
	}
	d := b.Bytes()
	if r.Intn(12) == 0 && len(d) > 0 { // break the encoding
		switch r.Intn(3) {
		case 0:
			d[r.Intn(len(d))] ^= 0x80
		case 1:
			d = d[:r.Intn(len(d))]
		case 2:
			i := r.Intn(len(d) + 1)
			d = append(d[:i:i], append([]byte{[]byte{0xff, 0xc0, 0xed}[r.Intn(3)]}, d[i:]...)...)
		}
	}
	return d
}

// checkTokens is the oracle: laws of a partition into maximal runs.
func checkTokens(d []byte, off uint32, pre, got []token.T) error {
	if len(got) < len(pre) {
		return fmt.Errorf("%d tokens were in the destination, %d came back", len(pre), len(got))
	}
	for i := range pre {
		if pre[i].Tag != got[i].Tag || pre[i].Pos != got[i].Pos || !bytes.Equal(pre[i].Lit, got[i].Lit) {
			return fmt.Errorf("token %d already in the destination was changed", i)
		}
	}
	toks := got[len(pre):]
	if !utf8.Valid(d) {
		if len(toks) != 0 {
			return fmt.Errorf("%d tokens from text that is not UTF-8", len(toks))
		}
		return nil
	}
	at := 0
	for i, t := range toks {
		if len(t.Lit) == 0 {
			return fmt.Errorf("token %d is empty", i)
		}
		if t.Pos != off+uint32(at) {
			return fmt.Errorf("token %d is at %d, want %d", i, t.Pos, off+uint32(at))
		}
		if at+len(t.Lit) > len(d) || !bytes.Equal(t.Lit, d[at:at+len(t.Lit)]) {
			return fmt.Errorf("token %d is %q, which is not the text at %d", i, t.Lit, at)
		}
		if t.Tag != token.Word && t.Tag != token.Other {
			return fmt.Errorf("token %d has tag %d", i, int(t.Tag))
		}
		if i > 0 && toks[i-1].Tag == t.Tag {
			return fmt.Errorf("tokens %d and %d are of the same kind", i-1, i)
		}
		if !utf8.Valid(t.Lit) {
			return fmt.Errorf("token %d splits a character", i)
		}
		for _, r := range string(t.Lit) {
			if isWord(r) != (t.Tag == token.Word) {
				return fmt.Errorf("token %d (%q, word=%v) contains %q", i, t.Lit, t.Tag == token.Word, r)
			}
		}
		at += len(t.Lit)
	}
	if at != len(d) {
		return fmt.Errorf("the tokens cover %d of %d bytes", at, len(d))
	}
	return nil
}

func oneText(c *fw.C, d []byte, off uint32, pre []token.T) {
	c.Helper()
	in := append([]byte{}, d...)
	dst := make([]token.T, len(pre), len(pre)+3)
	copy(dst, pre)
	keep := append([]token.T{}, pre...)
	got := token.Tokenize(dst, in, off)
	if !bytes.Equal(in, d) {
		c.Fatalf("text %q offset %d: the text was modified", d, off)
	}
	if err := checkTokens(d, off, keep, got); err != nil {
		// shrink the text by leaving out runs of bytes, long ones first
		work := 0
		for n := len(d); n > 0; {
			again := false
			for i := 0; i+n <= len(d) && work < 1<<28; {
				e := append(append([]byte{}, d[:i]...), d[i+n:]...)
				work += len(d) + 100
				if err2 := checkTokens(e, off, keep, token.Tokenize(append([]token.T{}, keep...), e, off)); err2 != nil {
					d, err, again = e, err2, true
				} else {
					i += n
				}
			}
			c.Beat()
			if !again || n > 1 {
				n /= 2
			}
		}
		if len(d) > 1000 {
			c.Fatalf("text of %d bytes %q... offset %d: %v", len(d), d[:1000], off, err)
		}
		c.Fatalf("text %q offset %d: %v", d, off, err)
	}
	ws := model.Words(d)
	c.SubEval(string(d), utf8.Valid(d) && len(ws) > 0 && string(d) != ws[0].Text)
	c.Class("batch with text not UTF-8", !utf8.Valid(d))
	c.Class("batch with text ending in a word", len(ws) > 0 && ws[len(ws)-1].End == len(d))
	c.Class("batch with tokens in the destination", len(pre) > 0)
}

// the units of short texts: a character of every class and width, nothing,
// and bytes that are no text.
var shortUnits = []string{"", "a", "Z", "0", "é", "日", "𝔘", " ", ".", "\x00", "\u0301", "。", "💥", "²", "\xff", "\xc3"}

func quickText(c *fw.C, d []byte) {
	if checkTokens(d, 3, nil, token.Tokenize(nil, d, 3)) != nil {
		oneText(c, d, 3, nil)
	}
}

func p08(c *fw.C) {
	// one text shrinks by itself; the batch gives volume
	if c.Chance("shape", 2) {
		var d []byte
		for k := c.Int("runes", 0, 6); k > 0; k-- {
			rs := append(append([]rune{}, wordRunes...), otherRunes...)
			d = append(d, string(rs[c.Int("rune", 0, len(rs)-1)])...)
		}
		oneText(c, d, uint32(c.Int("offset", 0, 1<<31)), nil)
	}
	seed := c.Seed("batch")
	c.Describe("batch %d", seed)
	r := rand.New(rand.NewSource(seed))
	var sample []string
	for k := 0; k < 400; k++ {
		d := genText(r)
		var off uint32
		switch r.Intn(4) {
		case 0:
			off = r.Uint32() >> 1
		case 1:
			off = 1
		}
		var pre []token.T
		if r.Intn(4) == 0 {
			for j := r.Intn(4); j >= 0; j-- {
				pre = append(pre, token.T{Tag: token.Tag(int(token.Word) + r.Intn(2)), Lit: []byte("kept"), Pos: r.Uint32()})
			}
		}
		if len(sample) < 4 && len(d) < 60 {
			sample = append(sample, fmt.Sprintf("%q@%d", d, off))
		}
		if k == 0 {
			c.Describe("batch %d", seed)
		}
		oneText(c, d, off, pre)
	}
	c.Describe("batch %d: %v ...", seed, sample)
	// a block of all characters, each among others
	block := rune(uint64(seed) * 0x9E3779B97F4A7C15 >> 58)
	for x := block * 0x4400; x < (block+1)*0x4400; x++ {
		if x >= 0xd800 && x < 0xe000 {
			continue
		}
		var buf [12]byte
		e := append(append(append(buf[:0], "a ."[r.Intn(3)]), string(x)...), "b,\n"[r.Intn(3)])
		quickText(c, e)
	}
	// all short texts that start with a drawn pair
	pre := shortUnits[r.Intn(len(shortUnits))] + shortUnits[r.Intn(len(shortUnits))]
	for _, a := range shortUnits {
		for _, b := range shortUnits {
			for _, z := range shortUnits {
				quickText(c, []byte(pre+a+b+z))
			}
		}
	}
	// a long text
	if r.Intn(4) == 0 {
		quickText(c, model.LongText(r, model.LongSize(r)))
		c.Class("long text", true)
		if r.Intn(4) == 0 {
			quickText(c, model.LongText(r, 1<<20+r.Intn(1<<21)))
			c.Class("text over 1 MB", true)
		}
	}
	// the configured tokenizer is the same function
	tf, err := token.FromConfig(token.DefaultConfig())
	c.NoErr(err, "default tokenizer")
	d := genText(r)
	if err := checkTokens(d, 5, nil, tf(nil, d, 5)); err != nil {
		c.Fatalf("configured tokenizer, text %q: %v", d, err)
	}
}
