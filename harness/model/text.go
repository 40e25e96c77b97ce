// Package model is the reference side of the dupi checks: an independent
// tokeniser, window hash and inverted index, and generators of documents.
package model

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-air/dupi/blotter"
)

// Word is a maximal run of letters and digits, d[Start:End].
type Word struct {
	Start, End int
	Text       string
}

func isWordRune(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) }

// Words splits d into words; text that is not UTF-8 has none.
func Words(d []byte) []Word {
	if !utf8.Valid(d) {
		return nil
	}
	var ws []Word
	start := -1
	for i := 0; i < len(d); {
		r, n := utf8.DecodeRune(d[i:])
		if isWordRune(r) {
			if start < 0 {
				start = i
			}
		} else if start >= 0 {
			ws = append(ws, Word{start, i, string(d[start:i])})
			start = -1
		}
		i += n
	}
	if start >= 0 {
		ws = append(ws, Word{start, len(d), string(d[start:])})
	}
	return ws
}

var hashCache = map[string]uint32{}

// WordHash is the hash of one word, taken from the code under test as a black
// box (a window of one word).
func WordHash(w string) uint32 {
	l := strings.ToLower(w)
	h, ok := hashCache[l]
	if !ok {
		if len(hashCache) > 200000 {
			hashCache = map[string]uint32{}
		}
		h = blotter.NewCirc(1).Blot([]byte(l))
		hashCache[l] = h
	}
	return h
}

// Shape is the window shape of an index.
type Shape struct {
	B, I   int // blotter sequence length and interleaving
	Shards int
}

// S is the window length in words.
func (s Shape) S() int { return s.B * s.I }

// Range is the number of possible blots.
func (s Shape) Range() uint32 { return uint32(s.Shards) << 16 }

// Win is a window of words of a document.
type Win struct {
	Raw        uint32 // blot before reduction
	Start, End int    // byte range of the window's words in the document
}

// Windows lists the full windows of d in order.
func (s Shape) Windows(d []byte) []Win {
	return s.WindowsOf(Words(d))
}

// WindowsOf lists the full windows of the given words.
func (s Shape) WindowsOf(ws []Word) []Win {
	var res []Win
	S := s.S()
	for i := S - 1; i < len(ws); i++ {
		var h uint32
		for j := 0; j < s.B; j++ {
			h ^= WordHash(ws[i-j*s.I].Text)
		}
		res = append(res, Win{h, ws[i-S+1].Start, ws[i].End})
	}
	return res
}
