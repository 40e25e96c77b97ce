package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/go-air/dupi"
	"github.com/go-air/dupi/token"

	"dupiverif/fw"
	"dupiverif/model"
)

func init() {
	props = append(props, &fw.Prop{
		ID:    "P21",
		Rule:  "A case is a directory tree (nested and hidden directories and files, names with spaces, line feeds, dashes and bytes that are not UTF-8, empty, binary and shared texts, hard links, links to files, dangling links and links to directories, pipes, files of more than 4 GB, unreadable files and directories) and one to three runs of the index command on drawn arguments (directories, files, several mentions, spelled relative to several working directories, also through the parent directory), the later ones appending, with drawn options, configuration files and ways of naming the index. The index is then opened with the library: documents, lookups, statistics and shape must be those of the files mentioned, the run must fail exactly if something mentioned cannot be read, and the documents stay as they were. At the end there may be a run for which some of the files of the index cannot be written: it must fail, or have added everything. Evaluations count runs. Non-trivial: the run met a hidden entry, a problem, a repeated mention or an append.",
		Quick: 12, Thorough: 400,
		Fn: p21,
	})
}

type tree struct {
	r     *rand.Rand
	base  string
	dirs  []string
	files []string // everything a command may mention that is not a directory
	bad   bool
	focus string // a directory that matters, if any
}

var oddNames = []string{"a", "b.txt", "c d", "-x", "nl\nname", "ü", "x'y", "\xff\xfe", "a", "README", "~", "%s", "..", "*", "index", "B", "tab\t"}

func (t *tree) name() string {
	n := oddNames[t.r.Intn(len(oddNames))]
	if n == ".." {
		n = "x..y"
	}
	if t.r.Intn(2) == 0 {
		n += fmt.Sprint(t.r.Intn(100))
	}
	return n
}

func (t *tree) grow(c *fw.C, dir string, depth int, texts [][]byte) {
	t.dirs = append(t.dirs, dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		fw.Broken("%v", err)
	}
	for n := t.r.Intn(6); n >= 0; n-- {
		p := filepath.Join(dir, t.name())
		if t.r.Intn(6) == 0 {
			p = filepath.Join(dir, "."+t.name())
			if t.r.Intn(4) == 0 {
				p = filepath.Join(dir, "..."[:2+t.r.Intn(2)]+"h")
			}
		}
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		k := t.r.Intn(18)
		if k >= 13 && !t.bad {
			k = t.r.Intn(13)
		}
		switch {
		case k < 4 && depth > 0:
			t.grow(c, p, depth-1, texts)
			continue
		case k < 12:
			dat := texts[t.r.Intn(len(texts))]
			if t.r.Intn(8) == 0 {
				dat = []byte(strings.Repeat(string(dat)+" ", 1+t.r.Intn(1+min(3000, 2<<20/(len(dat)+1)))))
			}
			write(p, dat)
		case k == 12: // link to a file
			if len(t.files) == 0 {
				continue
			}
			f := t.files[t.r.Intn(len(t.files))]
			if fi, err := os.Lstat(f); err == nil && fi.Mode().IsRegular() && t.r.Intn(2) == 0 {
				if err := os.Link(f, p); err != nil {
					// some systems refuse links to files one cannot write
					continue
				}
				c.Class("a file with two names", true)
				break
			}
			if err := os.Symlink(f, p); err != nil {
				fw.Broken("%v", err)
			}
			c.Class("link to a file", true)
		case k == 13:
			to := "nowhere/at all"
			if t.r.Intn(2) == 0 {
				to = t.dirs[t.r.Intn(len(t.dirs))]
			}
			if err := os.Symlink(to, p); err != nil {
				fw.Broken("%v", err)
			}
		case k == 14:
			write(p, []byte("secret"))
			if err := os.Chmod(p, 0); err != nil {
				fw.Broken("%v", err)
			}
		case k == 15:
			if err := syscall.Mkfifo(p, 0644); err != nil {
				fw.Broken("%v", err)
			}
			c.Class("pipe", true)
			continue
		case k == 16:
			if t.r.Intn(3) > 0 {
				continue
			}
			write(p, nil)
			if err := os.Truncate(p, math.MaxUint32+1+int64(t.r.Intn(100))); err != nil {
				fw.Broken("%v", err)
			}
			c.Class("a file larger than ranges can say", true)
		default:
			write(filepath.Join(p, "inside"), texts[0])
			if err := os.Chmod(p, 0); err != nil {
				fw.Broken("%v", err)
			}
			t.dirs = append(t.dirs, p)
			continue
		}
		t.files = append(t.files, p)
	}
}

// extend makes the tree deep, wide or heavy.
func (t *tree) extend(c *fw.C, texts [][]byte) {
	top := t.dirs[t.r.Intn(len(t.dirs))]
	if fi, err := os.Stat(top); err != nil || fi.Mode().Perm() == 0 {
		top = filepath.Join(t.base, "more")
	}
	t.focus = top
	put := func(p string, dat []byte) {
		write(p, dat)
		t.files = append(t.files, p)
	}
	switch t.r.Intn(3) {
	case 0:
		d := filepath.Join(top, "deep")
		for n := 20 + t.r.Intn(60); n > 0; n-- {
			d = filepath.Join(d, []string{"a", "b c", "ü"}[t.r.Intn(3)])
			if err := os.MkdirAll(d, 0755); err != nil {
				fw.Broken("%v", err)
			}
			t.dirs = append(t.dirs, d)
			if n == 1 || t.r.Intn(4) == 0 {
				put(filepath.Join(d, "f"), texts[t.r.Intn(len(texts))])
			}
		}
		c.Class("a deep tree", true)
	case 1:
		for n := 500 + t.r.Intn(2000); n > 0; n-- {
			put(filepath.Join(top, fmt.Sprintf("wide%d", n)), texts[n%len(texts)][:min(60, len(texts[n%len(texts)]))])
		}
		c.Class("a wide directory", true)
	default:
		n := 1<<20 + t.r.Intn(9<<20)
		dat := model.LongText(t.r, 1<<17)
		dat = []byte(strings.Repeat(string(dat), n/len(dat)+1)[:n])
		put(filepath.Join(top, "heavy"), dat)
		c.Class("a file of more than 1 MB", true)
	}
}

// open undoes the permissions.
func (t *tree) open() {
	for _, d := range t.dirs {
		os.Chmod(d, 0755)
	}
}

// expect lists the files below p that must be indexed and counts what cannot
// be read.
func expect(p string, top bool, seen func(path string, dat []byte), hidden, odd *int) (problems int) {
	fi, err := os.Lstat(p)
	if err != nil {
		return 1
	}
	if !top && strings.HasPrefix(filepath.Base(p), ".") {
		*hidden++
		return 0
	}
	if fi.IsDir() {
		es, err := os.ReadDir(p)
		if err != nil {
			return 1
		}
		for _, e := range es {
			problems += expect(filepath.Join(p, e.Name()), false, seen, hidden, odd)
		}
		return problems
	}
	fi, err = os.Stat(p)
	if err != nil || fi.Size() > math.MaxUint32 {
		return 1
	}
	if !fi.Mode().IsRegular() && !fi.IsDir() {
		*odd++ // reported or ignored
		return 0
	}
	dat, err := os.ReadFile(p)
	if err != nil {
		return 1
	}
	seen(p, dat)
	return 0
}

func p21(c *fw.C) {
	s := model.GenSetup(c, model.SetupOpts{MaxB: 4})
	cp := model.GenCorpus(c, s.Shape, model.CorpusOpts{MinDocs: 3, MaxDocs: 8, MaxWords: 20, Dense: true, Long: 12})
	seed := c.Seed("tree")
	trouble := c.Bool("trouble")
	nruns := c.Int("runs", 1, 3)
	way := c.Int("way of naming the index", 0, 3)
	byCfg := c.Int("configuration", 0, 3)
	if byCfg != 0 {
		s.I = 1 // what the options can say
	}
	c.Describe("%s tree=%d trouble=%v runs=%d way=%d cfg=%d texts:%s", s, seed, trouble, nruns, way, byCfg, cp)
	r := rand.New(rand.NewSource(seed))
	var texts [][]byte
	for i := range cp.Docs {
		texts = append(texts, cp.Docs[i].Dat)
	}
	e := newEnv(c)
	base := filepath.Join(c.Dir(), []string{"t", "the index files"}[r.Intn(2)])
	t := &tree{r: r, base: base, bad: trouble}
	defer t.open()
	t.grow(c, filepath.Join(base, "docs"), 3, texts)
	t.grow(c, filepath.Join(base, "more"), 1, texts)
	if c.Rare("extent", 6) {
		t.extend(c, texts)
	}
	before := model.Snapshot(base)

	// how the index is named
	root := filepath.Join(filepath.Dir(base), "the index")
	var g []string
	switch way {
	case 0:
		root = filepath.Join(e.home, ".dupi")
	case 1:
		e.vars = append(e.vars, "DUPIROOT="+root)
	case 2:
		g = []string{"-r", root}
		e.vars = append(e.vars, "DUPIROOT="+filepath.Join(e.home, "not this"))
	case 3:
		root = filepath.Join(base, "docs", ".idx") // hidden in the tree, with its lock
		os.RemoveAll(root)
		g = []string{"-r=" + root}
	}
	if _, err := os.Lstat(root); err == nil {
		fw.Broken("%s exists", root)
	}

	shape := s
	var ref *model.Ref
	for k := 0; k < nruns; k++ {
		args := append(append([]string{}, g...), "index")
		if k > 0 {
			args = append(args, "-a")
			if r.Intn(2) == 0 { // of no meaning when appending
				args = append(args, "-t", "4", "-n", "5")
			}
		} else {
			switch byCfg {
			case 0: // a configuration file
				cfg := s.Config(root)
				p := filepath.Join(e.home, "my.json")
				writeCfg(cfg, p)
				args = append(args, "-c", p, "-t", "7", "-n", "6")
			case 1: // defaults
				shape = model.Setup{Shape: model.Shape{B: 10, I: 1, Shards: 4}, Shatters: 4}
			default:
				args = append(args, "-t", fmt.Sprint(s.S()), "-n", fmt.Sprint(s.Shards))
				shape.Shatters = 4
				if r.Intn(2) == 0 {
					args = append(args, "-s", fmt.Sprint(s.Shatters))
					shape.Shatters = s.Shatters
				}
			}
		}
		if r.Intn(4) == 0 {
			args = append(args, "-v")
		}
		// working directory and arguments
		var open []string
		for _, d := range t.dirs {
			if fi, err := os.Stat(d); err == nil && fi.Mode().Perm() != 0 {
				if _, err := os.ReadDir(d); err == nil {
					open = append(open, d)
				}
			}
		}
		e.dir = base
		if r.Intn(2) == 0 {
			e.dir = open[r.Intn(len(open))]
		}
		var paths []string
		dotdot := false
		for n := r.Intn(4); n >= 0; n-- {
			var p string
			switch x := r.Intn(7); {
			case x == 0:
				p = "."
			case x == 1 && e.dir != base:
				p = ".."
				if e.at(p) == base && r.Intn(2) == 0 {
					p = "../docs/.."
				}
				dotdot = true
			case t.focus != "" && x <= 3:
				p = t.focus
			case x <= 3 || len(t.files) == 0:
				p = t.dirs[r.Intn(len(t.dirs))]
			default:
				p = t.files[r.Intn(len(t.files))]
			}
			if trouble && r.Intn(9) == 0 {
				p = filepath.Join(base, "no such", "file")
			}
			if strings.HasPrefix(p, "/") {
				if r.Intn(2) == 0 {
					rel, err := filepath.Rel(e.dir, p)
					if err != nil {
						fw.Broken("%v", err)
					}
					if strings.HasPrefix(rel, "-") {
						rel = "./" + rel
					}
					p = rel
				} else if r.Intn(3) == 0 {
					p = strings.Replace(p, "/docs", "//docs/.", 1)
				}
			}
			paths = append(paths, p)
		}
		args = append(args, paths...)
		if ref == nil {
			ref = model.NewRef(shape.Shape)
		}
		var want []model.DocSpec
		problems, hidden, odd, explicit := 0, 0, 0, false
		mentions := map[string]int{}
		for _, p := range paths {
			a := e.at(p)
			if strings.HasPrefix(filepath.Base(a), ".") && filepath.Base(p) != ".." {
				explicit = true
			}
			problems += expect(a, true, func(path string, dat []byte) {
				want = append(want, model.DocSpec{Path: path, End: uint32(len(dat)), Dat: dat})
				mentions[path]++
			}, &hidden, &odd)
		}
		repeated := false
		for _, n := range mentions {
			repeated = repeated || n > 1
		}
		res := e.dupi(args...)
		what := fmt.Sprintf("run %d: dupi %q in %s (exit %d, %s)", k, args, e.dir, res.code, strings.TrimSpace(res.err))
		switch {
		case problems > 0 && res.code == 0:
			c.Fatalf("%s: %d things cannot be read, but the command reports success", what, problems)
		case problems == 0 && odd == 0 && res.code != 0:
			c.Fatalf("%s: everything could be read, but the command failed", what)
		}
		for i := range want {
			ref.Add(&want[i])
		}
		check := func(when string) {
			idx, err := dupi.OpenIndex(root)
			c.NoErr(err, "%s: opening the index", what)
			cfg, err := dupi.ReadConfigFromRoot(root)
			c.NoErr(err, "%s: reading the configuration", what)
			if cfg.BlotConfig.SeqLen*cfg.BlotConfig.Interleave != shape.S() || cfg.SeqLen != shape.S() || cfg.NumShards != shape.Shards || cfg.NumShatters != shape.Shatters {
				c.Fatalf("%s: the index has %+v, asked for were %s", what, cfg, shape)
			}
			if cfg.BlotConfig.SeqLen != shape.B && k == 0 { // by number
				shape.B, shape.I = cfg.BlotConfig.SeqLen, cfg.BlotConfig.Interleave
				ref = model.NewRef(shape.Shape)
				for i := range want {
					ref.Add(&want[i])
				}
			}
			if cfg.BlotConfig.SeqLen != shape.B {
				fw.Broken("sequence length %d by number gives a blotter of %+v", shape.S(), cfg.BlotConfig)
			}
			if err := sameDocs(ref, idx); err != nil {
				c.Fatalf("%s%s: %v", what, when, err)
			}
			if err := ref.CheckStats(idx, root); err != nil {
				c.Fatalf("%s%s: %v", what, when, err)
			}
			c.NoErr(idx.Close(), "closing the index")
		}
		check("")
		c.SubEval(fmt.Sprint(k, args), hidden > 0 || problems > 0 || repeated || k > 0)
		c.Class("hidden entries", hidden > 0)
		c.Class("problems", problems > 0)
		c.Class("repeated mention", repeated)
		c.Class("through the parent", dotdot)
		c.Class("explicit hidden mention", explicit)
		c.Class("append", k > 0)
		if k == 0 && r.Intn(3) == 0 {
			// an index is not created over another
			a2 := append(append([]string{}, g...), "index", "-n", "1", filepath.Join(base, "more"))
			if byCfg == 0 {
				a2 = append(append([]string{}, g...), "index", "-c", filepath.Join(e.home, "my.json"), filepath.Join(base, "more"))
			}
			if res := e.dupi(a2...); res.code == 0 {
				c.Fatalf("dupi %q succeeds although the index exists", a2)
			}
			check(", after an attempt to create it again")
			c.Class("creation refused", true)
		}
	}
	if d := before.Diff(model.Snapshot(base), func(p string) bool {
		return strings.HasPrefix(p, filepath.Join(base, "docs", ".idx")) || p == filepath.Join(base, "docs")
	}); d != "" {
		c.Fatalf("the documents were changed: %s", d)
	}
	// appending to nothing
	if c.Chance("nothing", 4) {
		e.dir = base
		if res := e.dupi("-r", filepath.Join(base, "no index"), "index", "-a", "docs"); res.code == 0 {
			c.Fatalf("appending to an index that does not exist reports success")
		}
		if _, err := os.Lstat(filepath.Join(base, "no index")); err == nil {
			c.Fatalf("appending to an index that does not exist made something")
		}
	}
	if c.Chance("cannot write", 2) {
		cannotWrite(c, e, r, base, root, g, ref)
	}
}

// cannotWrite has a further run of the command, of which some of what it has
// to write cannot be written: it must fail, or else have added everything.
func cannotWrite(c *fw.C, e *env, r *rand.Rand, base, root string, g []string, ref *model.Ref) {
	e.dir = base
	more := filepath.Join(e.home, "last", "a")
	dat := []byte(strings.Repeat("some more words for the last run of all ", 4))
	write(more, dat)
	args := append(append([]string{}, g...), "index")
	var names []string
	es, err := os.ReadDir(root)
	if err != nil {
		fw.Broken("%v", err)
	}
	for _, en := range es {
		if en.Type().IsRegular() && !strings.HasSuffix(en.Name(), ".lock") {
			names = append(names, en.Name())
		}
	}
	what := ""
	old := root
	if r.Intn(3) > 0 {
		args = append(args, "-a", more)
		denied := map[string]bool{}
		for n := r.Intn(2); n >= 0; n-- {
			denied[names[r.Intn(len(names))]] = true
		}
		for n := range denied {
			if err := os.Chmod(filepath.Join(root, n), 0444); err != nil {
				fw.Broken("%v", err)
			}
			what += fmt.Sprintf(" %q cannot be written;", n)
		}
	} else {
		root = filepath.Join(e.home, "full")
		args = []string{"-r", root, "index", "-n", fmt.Sprint(ref.Shards), "-t", fmt.Sprint(ref.S()), more}
		n := names[r.Intn(len(names))]
		if err := os.Mkdir(root, 0755); err != nil {
			fw.Broken("%v", err)
		}
		if r.Intn(3) > 0 {
			err = os.Symlink("/dev/full", filepath.Join(root, n))
		} else {
			err = os.Mkdir(filepath.Join(root, n), 0755)
		}
		if err != nil {
			fw.Broken("%v", err)
		}
		what = fmt.Sprintf(" %q cannot be written, in a new index;", n)
		ref = model.NewRef(ref.Shape)
	}
	ref.Add(&model.DocSpec{Path: more, End: uint32(len(dat)), Dat: dat})
	res := e.dupi(args...)
	for _, n := range names {
		os.Chmod(filepath.Join(old, n), 0644)
	}
	c.SubEval("cannot write "+what, true)
	c.Class("something cannot be written", true)
	if res.code != 0 {
		if strings.TrimSpace(res.err) == "" {
			c.Fatalf("dupi %q:%s it fails without a message", args, what)
		}
		c.Class("the run fails since something cannot be written", true)
		return
	}
	idx, err := dupi.OpenIndex(root)
	if err == nil {
		err = sameDocs(ref, idx)
		if err == nil {
			err = ref.CheckStats(idx, root)
		}
		idx.Close()
	}
	if err != nil {
		c.Fatalf("dupi %q:%s it reports success, but %v", args, what, err)
	}
}

func writeCfg(cfg *dupi.Config, p string) {
	d, err := json.Marshal(map[string]interface{}{
		"IndexRoot": cfg.IndexRoot, "SeqLen": cfg.SeqLen, "NumShards": cfg.NumShards,
		"NumShatters": cfg.NumShatters, "DocFlushRate": cfg.DocFlushRate,
		"TokenConfig": map[string]string{"Name": token.DefaultConfig().Name},
		"BlotConfig":  map[string]int{"SeqLen": cfg.BlotConfig.SeqLen, "Interleave": cfg.BlotConfig.Interleave},
	})
	if err != nil {
		fw.Broken("%v", err)
	}
	write(p, d)
}

// sameDocs compares lookups and extraction with the reference, apart from the
// order of the documents.
func sameDocs(ref *model.Ref, idx *dupi.Index) error {
	q := idx.StartQuery(dupi.QueryMaxBlot)
	for _, b := range ref.Blots(1) {
		for _, b := range []uint32{b, b ^ 1} {
			bl := dupi.Blot{Blot: b}
			if err := q.Get(&bl); err != nil {
				return fmt.Errorf("lookup of %x: %v", b, err)
			}
			if s := model.Diff(sorted(model.FromDocs(bl.Docs)), sorted(ref.List(b))); s != "" {
				return fmt.Errorf("lookup of blot %x: %s", b, s)
			}
		}
	}
	return nil
}

func sorted(ds []model.RDoc) []model.RDoc {
	sort.Slice(ds, func(i, j int) bool {
		a, b := ds[i], ds[j]
		if a.Path != b.Path {
			return a.Path < b.Path
		}
		if a.Start != b.Start {
			return a.Start < b.Start
		}
		return a.End < b.End
	})
	return ds
}
