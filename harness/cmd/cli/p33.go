package main

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/go-air/dupi"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P33",
		Rule:  "A case is an export of up to 40 messages as a file of comma separated records of two fields (quoted or not, with commas, quotes, empty lines, several kinds of line ends, headers and bodies of drawn texts, messages without a body or without headers, empty ones), which dupenron imports with drawn numbers of shards and words under a drawn spelling of the paths, and copies in part. The index must have a document for every record, all of the one path, the figures of the reference, and every blot, present or not, must list as many documents as messages have it. The copied records must be those at the beginning of the file. Exports that are missing or malformed, and places where an index is, must make it fail. Evaluations count runs. Non-trivial: some message has headers, and some blot is in several.",
		Quick: 20, Thorough: 400,
		Fn: p33,
	})
}

func p33(c *fw.C) {
	e := newEnv(c)
	s := model.GenSetup(c, model.SetupOpts{MaxShards: 3})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 0, MaxDocs: 40, Dense: true, MaxWords: 60})
	seed := c.Seed("records")
	r := model.Rand(c, "messages")
	pick := func(ss ...string) string { return ss[r.Intn(len(ss))] }
	var file bytes.Buffer
	var recs [][2]string // as they are read
	norm := func(t string) string { return strings.ReplaceAll(t, "\r\n", "\n") }
	field := func(t string) {
		if t == "" || strings.ContainsAny(t, "\",\r\n\x00") || t[0] == ' ' || r.Intn(3) == 0 {
			t = `"` + strings.ReplaceAll(t, `"`, `""`) + `"`
		}
		file.WriteString(t)
	}
	headers, big := 0, 0
	if c.Rare("big", 5) {
		big = 2
	}
	for i := range cp.Docs {
		body := string(cp.Docs[i].Dat)
		if i > 0 && r.Intn(6) == 0 {
			body = string(cp.Docs[r.Intn(i)].Dat)
		}
		if big > 0 && r.Intn(3) == 0 {
			big--
			body = string(model.LongText(r, 30000+r.Intn(300000)))
			body = strings.NewReplacer("\r", " ", "\x00", " ").Replace(body)
			c.Class("a long message", true)
		}
		nl := pick("\n", "\n", "\r\n")
		var m string
		switch r.Intn(6) {
		case 0: // no headers
			m = body
		case 1: // no empty line
			m = "Subject: " + strings.ReplaceAll(norm(body), "\n\n", "\n ")
		case 2: // no body
			m = "Subject: nothing" + nl + nl
		case 3: // several empty lines
			m = "From: a@b, c" + nl + nl + nl + body + nl + nl + body
		default:
			m = "From: \"x\" <y@z>" + nl + "Subject: " + strings.ReplaceAll(norm(body), "\n\n", "\n ") + nl + nl + body
			headers++
		}
		id := pick("", "mail/", "a, b/", "q\"", "l"+nl) + fmt.Sprint(i, ".")
		field(id)
		file.WriteString(",")
		field(m)
		file.WriteString(pick("\n", "\n", "\r\n"))
		recs = append(recs, [2]string{norm(id), norm(m)})
	}
	dat := file.Bytes()
	if len(recs) > 0 && r.Intn(4) == 0 { // no line end at the end
		dat = bytes.TrimRight(dat, "\r\n")
	}
	c.Describe("%s seed=%d records: %s", s, seed, cut(fmt.Sprintf("%q", recs)))
	// what encoding/csv reads is what the export is
	rd := csv.NewReader(bytes.NewReader(dat))
	rd.LazyQuotes = true
	all, err := rd.ReadAll()
	if err != nil || len(all) != len(recs) {
		fw.Broken("%d records of %d: %v in %q", len(all), len(recs), err, dat)
	}
	for i := range all {
		if len(all[i]) != 2 || all[i][0] != recs[i][0] || all[i][1] != recs[i][1] {
			fw.Broken("record %d is %q, not %q", i, all[i], recs[i])
		}
	}
	e.dir = filepath.Join(e.home, "work")
	os.MkdirAll(e.at("sub"), 0755)
	name := pick("mail.csv", "an export", "sub/../mail.csv", "./m.csv", e.home+"/x.csv")
	write(e.at(name), dat)
	idxName := pick("idx", "the index", "./idx/", e.home+"/idx", "")
	L := s.S()
	args := []string{fmt.Sprintf("-n=%d", s.Shards), fmt.Sprintf("-s=%d", L)}
	root := e.at(idxName)
	if idxName == "" { // the default
		root = e.at("dupi.idx")
	} else {
		args = append(args, "-r", idxName)
	}
	res := e.enron(append(args, name)...)
	what := fmt.Sprintf("dupenron %q", append(args, name))
	if res.code != 0 {
		c.Fatalf("%s exits with %d: %s", what, res.code, res.err)
	}
	cfg, err := dupi.ReadConfigFromRoot(root)
	c.NoErr(err, "%s: the configuration", what)
	if cfg.SeqLen != L || cfg.NumShards != s.Shards {
		c.Fatalf("%s made an index of %d shards and sequences of %d words", what, cfg.NumShards, cfg.SeqLen)
	}
	sh := model.Shape{Shards: s.Shards, B: cfg.BlotConfig.SeqLen, I: cfg.BlotConfig.Interleave}
	ref := model.NewRef(sh)
	path := e.at(name)
	for i, m := range recs {
		t := m[1]
		if k := strings.Index(t, "\n\n"); k >= 0 {
			t = t[k+2:]
		}
		// the ranges are not claimed: any that tells them apart
		ref.Add(&model.DocSpec{Path: path, Start: uint32(i), End: uint32(i), Dat: []byte(t)})
	}
	idx, err := dupi.OpenIndex(root)
	c.NoErr(err, "%s: opening the index", what)
	if err := ref.CheckStats(idx, root); err != nil {
		c.Fatalf("%s: %v", what, err)
	}
	q := idx.StartQuery(dupi.QueryMaxBlot)
	blots := append(ref.Blots(1), model.Extra(c, 50)...)
	for _, b := range blots {
		bl := dupi.Blot{Blot: b}
		c.NoErr(q.Get(&bl), "%s: lookup of blot %x", what, b)
		if n := len(ref.M[b%sh.Range()]); len(bl.Docs) != n {
			c.Fatalf("%s: blot %x lists %d documents, and %d messages have it", what, b, len(bl.Docs), n)
		}
		for _, d := range bl.Docs {
			if d.Path != path {
				c.Fatalf("%s: blot %x lists a document of %q", what, b, d.Path)
			}
		}
	}
	c.NoErr(idx.Close(), "closing")
	shared := len(ref.Blots(2)) > 0
	c.SubEval("import", headers > 0 && shared)
	// copies
	for k := 0; k < 3; k++ {
		n := r.Intn(len(recs) + 3)
		args := []string{"-o", fmt.Sprintf("-n=%d", n), name}
		res := e.enron(args...)
		what := fmt.Sprintf("dupenron %q", args)
		if res.code != 0 {
			c.Fatalf("%s exits with %d: %s", what, res.code, res.err)
		}
		if n > len(recs) {
			n = len(recs)
		}
		got, err := csv.NewReader(strings.NewReader(res.out)).ReadAll()
		if err != nil || len(got) != n {
			c.Fatalf("%s prints %d records, %v: %s", what, len(got), err, cut(res.out))
		}
		for i := range got {
			if got[i][0] != recs[i][0] || got[i][1] != recs[i][1] {
				c.Fatalf("%s prints record %d as %q, want %q", what, i, got[i], recs[i])
			}
		}
		c.SubEval(fmt.Sprint("copy", k, n), n > 0)
	}
	// what must fail
	bad := append(append([]byte{}, dat...), pick("\none\n", "\na,b,c\n", "\n\"x\",y,\n")...)
	write(e.at("bad.csv"), bad)
	os.Mkdir(e.at("dir"), 0755)
	for i, args := range [][]string{
		{"-n=1", "-r=other1", "nothing.csv"},
		{"-n=1", "-r=other2", "bad.csv"},
		{"-n=1", "-r", root, name},
		{"-n=0", "-r=other3", name},
		{"-o", "nothing.csv"},
		{"-o", "-n=1000", "bad.csv"},
		{"-n=1", "-r=no/such/dir", name},
	} {
		if r.Intn(3) > 0 {
			continue
		}
		if res := e.enron(args...); res.code == 0 {
			c.Fatalf("dupenron %q, which must fail, exits with 0 (%s)", args, cut(res.out))
		}
		c.SubEval(fmt.Sprint("failure", i), true)
	}
	c.Class("no record", len(recs) == 0)
	c.Class("shared blots", shared)
}

// enron runs the importer of mail exports.
func (e *env) enron(args ...string) run {
	return e.program("dupenron", args...)
}
