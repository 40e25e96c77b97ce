From 37393eea76491477bbb6a66e01fd5ab58160f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 01/29] fix: token: the last rune of a text was dropped by
 Tokenize

---
 token/t.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/token/t.go b/token/t.go
index b5ff4af..3b88015 100644
--- a/token/t.go
+++ b/token/t.go
@@ -86,6 +86,8 @@ func Tokenize(dst []T, d []byte, offset uint32) []T {
 		}
 		inWord = false
 	}
+	// i is the start of the last rune, not the end of the text
+	i = len(d)
 	if j < i {
 		if inWord {
 			dst = append(dst,
-- 
2.43.0


From 39033a0e0768a95b950d7a61473eff6ecc00cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 02/29] fix: the first full window of a document had no blot,
 and located text had one word too many

---
 cmd/dupi/blot.go |  2 +-
 cmd/dupi/like.go |  2 +-
 index.go         | 10 +++++-----
 shatter.go       |  2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index e53e1f3..237cbb3 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -78,7 +78,7 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 	for i, b := range blots {
 		if *bc.offsets {
 			beg := toks[i].Pos
-			end := toks[i+seqLen].Pos + uint32(len(toks[i+seqLen].Lit))
+			end := toks[i+seqLen-1].Pos + uint32(len(toks[i+seqLen-1].Lit))
 			fmt.Printf("%x %d:%d\n", b%N, beg, end)
 		} else {
 			fmt.Printf("%x\n", b%N)
diff --git a/cmd/dupi/like.go b/cmd/dupi/like.go
index 73f5f7e..525d0f5 100644
--- a/cmd/dupi/like.go
+++ b/cmd/dupi/like.go
@@ -95,7 +95,7 @@ func doFilename(idx *dupi.Index, fname string) error {
 	bm := make(map[uint32][]byte, len(blots))
 	for i, b := range blots {
 		beg := toks[i].Pos
-		end := toks[i+seqLen].Pos + uint32(len(toks[i+seqLen].Lit))
+		end := toks[i+seqLen-1].Pos + uint32(len(toks[i+seqLen-1].Lit))
 		bm[b%N] = dat[beg:end]
 	}
 	query := idx.StartQuery(dupi.QueryMaxBlot)
diff --git a/index.go b/index.go
index d04621b..c793860 100644
--- a/index.go
+++ b/index.go
@@ -166,7 +166,7 @@ func (x *Index) BlotDoc(dst []uint32, doc *Doc) []uint32 {
 	seqLen := x.SeqLen()
 	for i, tok := range toks[:j] {
 		blot := blotter.Blot(tok.Lit)
-		if i < seqLen {
+		if i < seqLen-1 {
 			continue
 		}
 		dst = append(dst, blot)
@@ -211,14 +211,14 @@ func (x *Index) FindBlots(m map[uint32][]byte, doc *Doc) (map[uint32][]byte, err
 	res := make(map[uint32][]byte)
 	for i, tok := range toks[:j] {
 		blot := blotter.Blot(tok.Lit)
-		if i < seqLen {
+		if i < seqLen-1 {
 			continue
 		}
 		blot %= nShard * (1 << 16)
 		if m[blot] == nil {
 			continue
 		}
-		start := toks[i-seqLen].Pos
+		start := toks[i-seqLen+1].Pos
 		end := tok.Pos + uint32(len(tok.Lit))
 		txt := doc.Dat[start:end]
 		if bytes.Equal(m[blot], txt) {
@@ -251,14 +251,14 @@ func (x *Index) FindBlot(theBlot uint32, doc *Doc) (start, end uint32, err error
 	nShard := uint32(x.NumShards())
 	for i, tok := range toks[:j] {
 		blot := blotter.Blot(tok.Lit)
-		if i < seqLen {
+		if i < seqLen-1 {
 			continue
 		}
 		blot %= nShard * (1 << 16)
 		if blot != theBlot {
 			continue
 		}
-		start = toks[i-seqLen].Pos
+		start = toks[i-seqLen+1].Pos
 		end = tok.Pos + uint32(len(tok.Lit))
 		return
 	}
diff --git a/shatter.go b/shatter.go
index dc4e37e..9def944 100644
--- a/shatter.go
+++ b/shatter.go
@@ -103,7 +103,7 @@ func (s *shatter) do(did, offset uint32, msg []byte) {
 		case token.Word:
 			b = s.bler.Blot(tok.Lit)
 			words++
-			if words > s.seqlen {
+			if words >= s.seqlen {
 				s.blot(did, b)
 			}
 		default:
-- 
2.43.0


From eb5dd44a3f8ed879c63eb328e863e75a550c2a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 03/29] fix: Query.Next: spinning after the end of data, and
 lost pages with bounded slots

---
 query.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/query.go b/query.go
index 115a5a7..9df6646 100644
--- a/query.go
+++ b/query.go
@@ -89,6 +89,7 @@ func (q *Query) Get(blot *Blot) error {
 
 func (q *Query) Next(dst []Blot) (n int, err error) {
 	state := q.state
+	state.nilCount = 0
 	for n < len(dst) {
 		dstBlot := &dst[n]
 		shardState := state.shardStates[state.i]
@@ -108,12 +109,18 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 			continue
 		}
 		lim := dstBlot.Docs != nil
-		_, err = q.fillBlot(dstBlot, shardState, state.i)
+		pos := state.i
+		got, err := q.fillBlot(dstBlot, shardState, pos)
 		if err != nil {
-			return
+			return n, err
+		}
+		if shardState.Total <= 1 {
+			// no duplicates left in this shard
+			q.advance(shardState, pos)
 		}
-		if len(dstBlot.Docs) <= 1 {
-			q.advance(shardState, state.i)
+		// with room left and nothing found, the last page ended exactly
+		// at the end of the list of the blot, and fillBlot has advanced.
+		if shardState.Total <= 1 || got == 0 && (!lim || dstBlot.Len() < dstBlot.Cap()) {
 			if lim {
 				dstBlot.Docs = dstBlot.Docs[:0]
 			} else {
-- 
2.43.0


From f9e542b3621d8ab5be29be9b354510917cc964dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 04/29] fix: dmd: NumDocs counted the reserved record

---
 dmd/t.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dmd/t.go b/dmd/t.go
index deeab69..f926ab2 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -44,7 +44,11 @@ func (t *T) NumDocs() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint64(fi.Size()) / rcdSize, nil
+	n := uint64(fi.Size()) / rcdSize
+	if n > 0 {
+		n-- // record 0 is reserved
+	}
+	return n, nil
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
-- 
2.43.0


From 4d4028156029407bebd26b6f197a4625ce8e8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 05/29] fix: dmd: concurrent lookups moved each other's file
 position

---
 dmd/t.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dmd/t.go b/dmd/t.go
index f926ab2..16441be 100644
--- a/dmd/t.go
+++ b/dmd/t.go
@@ -17,7 +17,6 @@ package dmd
 
 import (
 	"encoding/binary"
-	"io"
 	"os"
 	"path/filepath"
 )
@@ -52,13 +51,10 @@ func (t *T) NumDocs() (uint64, error) {
 }
 
 func (t *T) Lookup(did uint32) (fid, start, end uint32, err error) {
+	// ReadAt, since lookups share the file and may run concurrently
 	f := t.file
-	_, err = f.Seek(int64(did)*rcdSize, 0)
-	if err != nil {
-		return
-	}
 	var buf [rcdSize]byte
-	_, err = io.ReadFull(f, buf[:])
+	_, err = f.ReadAt(buf[:], int64(did)*rcdSize)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 5afe63f4b7737bdbb4ec3fc8eb20fa4926f0c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 06/29] fix: FindBlots took a document's file positions for
 offsets in its text

---
 index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.go b/index.go
index c793860..6f714ea 100644
--- a/index.go
+++ b/index.go
@@ -220,7 +220,7 @@ func (x *Index) FindBlots(m map[uint32][]byte, doc *Doc) (map[uint32][]byte, err
 		}
 		start := toks[i-seqLen+1].Pos
 		end := tok.Pos + uint32(len(tok.Lit))
-		txt := doc.Dat[start:end]
+		txt := doc.Dat[start-doc.Start : end-doc.Start]
 		if bytes.Equal(m[blot], txt) {
 			res[blot] = txt
 		} else {
-- 
2.43.0


From 3299fd571c9d4296d117bd30403b166fd5b61219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 07/29] fix: config: leftovers of a longer stored config,
 sequence lengths other than 10 asked for by number, unusable configs accepted

---
 config.go  | 22 +++++++++++++++++++++-
 indexer.go |  3 +++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 36ded45..8d8a0f2 100644
--- a/config.go
+++ b/config.go
@@ -68,6 +68,7 @@ func NewConfig(root string, nbuckets, seqLen int) (*Config, error) {
 	}
 	cfg.NumShards = nbuckets
 	cfg.SeqLen = seqLen
+	cfg.BlotConfig.SeqLen = seqLen
 	err = cfg.check()
 	if err != nil {
 		return nil, err
@@ -75,7 +76,26 @@ func NewConfig(root string, nbuckets, seqLen int) (*Config, error) {
 	return cfg, nil
 }
 
+// blots have 32 bits, 16 of which address a list in a shard.
+const maxShards = 1<<16 - 1
+
 func (cfg *Config) check() error {
+	if cfg.NumShards < 1 || cfg.NumShards > maxShards {
+		return fmt.Errorf("invalid number of shards: %d", cfg.NumShards)
+	}
+	if cfg.NumShatters < 1 {
+		return fmt.Errorf("invalid number of shatterers: %d", cfg.NumShatters)
+	}
+	if cfg.DocFlushRate < 1 {
+		return fmt.Errorf("invalid document flush rate: %d", cfg.DocFlushRate)
+	}
+	if cfg.BlotConfig.SeqLen < 1 || cfg.BlotConfig.Interleave < 1 {
+		return fmt.Errorf("invalid sequence config: %d interleaved %d",
+			cfg.BlotConfig.SeqLen, cfg.BlotConfig.Interleave)
+	}
+	if _, err := token.FromConfig(&cfg.TokenConfig); err != nil {
+		return err
+	}
 	if cfg.SeqLen != cfg.BlotConfig.Interleave*cfg.BlotConfig.SeqLen {
 		return fmt.Errorf("inconsistent sequence config")
 	}
@@ -138,7 +158,7 @@ func ReadConfig(path string) (*Config, error) {
 }
 
 func (cfg *Config) Write() error {
-	f, err := os.OpenFile(cfg.Path(), os.O_CREATE|os.O_WRONLY, 0644)
+	f, err := os.OpenFile(cfg.Path(), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 	if err != nil {
 		return err
 	}
diff --git a/indexer.go b/indexer.go
index fdfceb9..fe4f8e3 100644
--- a/indexer.go
+++ b/indexer.go
@@ -41,6 +41,9 @@ type Indexer struct {
 
 func IndexerFromConfig(cfg *Config) (*Indexer, error) {
 	var err error
+	if err = cfg.check(); err != nil {
+		return nil, err
+	}
 	res := &Indexer{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
-- 
2.43.0


From 9bb837a6e58c5d7db15de6799f934732fdfc89ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 08/29] fix: dmd: a huge document flush rate allocated all its
 records in advance

---
 dmd/adder.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dmd/adder.go b/dmd/adder.go
index 275ae3f..37f64b1 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -17,10 +17,14 @@ package dmd
 import (
 	"encoding/binary"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 )
 
+// how many records to allocate place for in advance.
+const maxBufCap = 1 << 16
+
 type Adder struct {
 	path      string
 	flushed   uint32
@@ -29,7 +33,13 @@ type Adder struct {
 }
 
 func NewAdder(root string, fr int) (*Adder, error) {
-	ufr := uint32(fr)
+	ufr := uint32(math.MaxUint32)
+	if int64(fr) < math.MaxUint32 {
+		ufr = uint32(fr)
+	}
+	if fr > maxBufCap {
+		fr = maxBufCap // only the initial capacity
+	}
 	path := filepath.Join(root, "dmd")
 	adder := &Adder{path: path, flushRate: ufr}
 	fi, err := os.Stat(path)
-- 
2.43.0


From 11b44dc691822d1d46e259b0283701fdb23f2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 09/29] fix: lock: Unlock took a shared lock instead of giving
 the lock up

---
 lock/unix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lock/unix.go b/lock/unix.go
index a083eba..b69323f 100644
--- a/lock/unix.go
+++ b/lock/unix.go
@@ -26,7 +26,7 @@ func (f *File) Lock() error {
 }
 
 func (f *File) Unlock() error {
-	return unix.Flock(int(f.handle.Fd()), unix.LOCK_SH)
+	return unix.Flock(int(f.handle.Fd()), unix.LOCK_UN)
 }
 
 func (f *File) LockShared() error {
-- 
2.43.0


From e179d9aa22d0f40e739afec2bbaee25ea0b77011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 10/29] fix: an index that was moved or copied was taken for
 the one at its original place

---
 config.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 8d8a0f2..5eb7295 100644
--- a/config.go
+++ b/config.go
@@ -126,12 +126,20 @@ func (cfg *Config) PostPath(i int) string {
 	return filepath.Join(cfg.IndexRoot, fmt.Sprintf("b%d.pos", i))
 }
 
+// ReadConfigFromRoot reads the configuration of the index at root.  The
+// index may have been moved or copied since it was stored.
 func ReadConfigFromRoot(root string) (*Config, error) {
 	cfg, err := DefaultConfig(root)
 	if err != nil {
 		return nil, err
 	}
-	return ReadConfig(cfg.Path())
+	root = cfg.IndexRoot
+	cfg, err = ReadConfig(cfg.Path())
+	if err != nil {
+		return nil, err
+	}
+	cfg.IndexRoot = root
+	return cfg, nil
 }
 
 func ReadConfig(path string) (*Config, error) {
-- 
2.43.0


From 90f24363b70b44ac7404e81ddb9dc5247774df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 11/29] fix: opening an index: append sessions excluded nobody,
 spellings of a path had different locks, failures kept locks, files and
 goroutines

---
 index.go                  |  30 ++++++-
 indexer.go                | 183 +++++++++++++++++++++-----------------
 internal/shard/indexer.go |   7 ++
 3 files changed, 135 insertions(+), 85 deletions(-)

diff --git a/index.go b/index.go
index 6f714ea..45f1bf0 100644
--- a/index.go
+++ b/index.go
@@ -20,6 +20,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"path/filepath"
 
 	"github.com/go-air/dupi/blotter"
 	"github.com/go-air/dupi/dmd"
@@ -36,15 +37,24 @@ type Index struct {
 	shards []shard.Index
 }
 
-func OpenIndex(root string) (*Index, error) {
-	var err error
+func OpenIndex(root string) (_ *Index, err error) {
+	// the lock has one name, however the root is spelled
+	root, err = filepath.Abs(root)
+	if err != nil {
+		return nil, err
+	}
 	cfg := &Config{IndexRoot: root}
 	res := &Index{config: cfg}
 	res.lock, err = lock.New(cfg.LockPath())
 	if err != nil {
 		return nil, err
 	}
-	if err := res.lock.LockShared(); err != nil {
+	defer func() {
+		if err != nil {
+			res.abandon()
+		}
+	}()
+	if err = res.lock.LockShared(); err != nil {
 		return nil, err
 	}
 	cfg, err = ReadConfigFromRoot(root)
@@ -68,13 +78,25 @@ func OpenIndex(root string) (*Index, error) {
 	res.shards = make([]shard.Index, cfg.NumShards)
 	for i := range res.shards {
 		shard := &res.shards[i]
-		if err := shard.Init(cfg.PostPath(i)); err != nil {
+		if err = shard.Init(cfg.PostPath(i)); err != nil {
+			res.shards = res.shards[:i]
 			return nil, fmt.Errorf("error initializing shard %d: %w", i, err)
 		}
 	}
 	return res, nil
 }
 
+// abandon gives back what an index whose opening failed holds.
+func (x *Index) abandon() {
+	for i := range x.shards {
+		x.shards[i].Close()
+	}
+	if x.dmd != nil {
+		x.dmd.Close()
+	}
+	x.lock.Close()
+}
+
 func (x *Index) Close() error {
 	var err error
 	defer func() { err = x.lock.Close() }()
diff --git a/indexer.go b/indexer.go
index fe4f8e3..e5235ed 100644
--- a/indexer.go
+++ b/indexer.go
@@ -17,6 +17,7 @@ package dupi
 import (
 	"log"
 	"os"
+	"path/filepath"
 
 	"github.com/go-air/dupi/dmd"
 	"github.com/go-air/dupi/internal/shard"
@@ -39,127 +40,139 @@ type Indexer struct {
 	fnames  *fnames
 }
 
-func IndexerFromConfig(cfg *Config) (*Indexer, error) {
-	var err error
+func IndexerFromConfig(cfg *Config) (_ *Indexer, err error) {
 	if err = cfg.check(); err != nil {
 		return nil, err
 	}
-	res := &Indexer{config: cfg}
-	res.lock, err = lock.New(cfg.LockPath())
-	if err != nil {
-		return nil, err
-	}
-	err = res.lock.Lock()
+	res, err := lockedIndexer(cfg.IndexRoot)
 	if err != nil {
 		return nil, err
 	}
-	res.shards = make([]shard.Indexer, cfg.NumShards)
+	defer func() {
+		if err != nil {
+			res.abandon()
+		}
+	}()
+	root := res.Root()
+	*res.config = *cfg
+	res.config.IndexRoot = root
+	cfg = res.config
 	res.fnames = newFnames()
-	if err := os.Mkdir(res.Root(), 0755); err != nil {
-		return nil, err
-	}
-	tokfn, err := token.FromConfig(&cfg.TokenConfig)
-	if err != nil {
+	if err = os.Mkdir(res.Root(), 0755); err != nil {
 		return nil, err
 	}
 	res.dmds, err = dmd.NewAdder(cfg.IndexRoot, cfg.DocFlushRate)
 	if err != nil {
 		return nil, err
 	}
-	postChans := make([]chan []post.T, len(res.shards))
-	for i := range res.shards {
-		shard := &res.shards[i]
-		broot := cfg.PostPath(i)
-		if err := shard.InitCreate(uint32(i), broot, uint32(cfg.DocFlushRate)); err != nil {
-			return nil, err
-		}
-		postChans[i] = shard.PostChan()
-		go shard.Serve()
-	}
-	res.shatter, err = startShatter(cfg.NumShatters,
-		len(res.shards), cfg.SeqLen, res.dmds.Last(), tokfn,
-		&cfg.BlotConfig, postChans)
-	if err != nil {
+	if err = res.start((*shard.Indexer).InitCreate); err != nil {
 		return nil, err
 	}
-
 	return res, nil
 }
 
-func OpenIndexer(root string) (*Indexer, error) {
-	cfg, err := ReadConfigFromRoot(root)
+// OpenIndexer opens an existing index for adding documents.
+func OpenIndexer(root string) (_ *Indexer, err error) {
+	res, err := lockedIndexer(root)
 	if err != nil {
 		return nil, err
 	}
-	idx, err := openFromConfig(cfg)
+	defer func() {
+		if err != nil {
+			res.abandon()
+		}
+	}()
+	// only now, since the index may have been in use before
+	res.config, err = ReadConfigFromRoot(res.Root())
 	if err != nil {
 		return nil, err
 	}
-	return idx, nil
-}
-
-// CreateIndexer attempts to creat a new dupy index.
-// root is the directory root of the dupy index
-// nbuckets states how many buckets
-// docCap should be a conservative estimate of
-// number of documents
-// toksPerDoc should indicate about how many tokens
-// are expected per document.
-func CreateIndexer(root string, nbuckets, seqLen int) (*Indexer, error) {
-	cfg, err := NewConfig(root, nbuckets, seqLen)
-	if err != nil {
+	cfg := res.config
+	if _, err = os.Stat(cfg.DmdPath()); err != nil {
 		return nil, err
 	}
-	return IndexerFromConfig(cfg)
-}
-
-// opens an index from a config.  cfg
-// actually is read from the index as a first
-// step, and this completes opening.
-func openFromConfig(cfg *Config) (*Indexer, error) {
-	var err error
-	res := &Indexer{config: cfg}
-	// lock file
-	res.lock, err = lock.New(cfg.LockPath())
+	res.dmds, err = dmd.NewAdder(cfg.IndexRoot, cfg.DocFlushRate)
 	if err != nil {
 		return nil, err
 	}
-	err = res.lock.LockShared()
-	if err != nil {
+	if err = res.readfiles(); err != nil {
 		return nil, err
 	}
-	// internal setup
-	res.shards = make([]shard.Indexer, cfg.NumShards)
-	res.dmds, err = dmd.NewAdder(cfg.IndexRoot, cfg.DocFlushRate)
-	if err != nil {
+	if err = res.start((*shard.Indexer).InitAppend); err != nil {
 		return nil, err
 	}
+	return res, nil
+}
 
-	if err = res.readfiles(); err != nil {
+// lockedIndexer gives an indexer which holds the lock of root, whatever the
+// spelling of root, and nothing else.
+func lockedIndexer(root string) (*Indexer, error) {
+	root, err := filepath.Abs(root)
+	if err != nil {
 		return nil, err
 	}
-	tokenfn, err := token.FromConfig(&cfg.TokenConfig)
+	res := &Indexer{config: &Config{IndexRoot: root}}
+	res.lock, err = lock.New(res.config.LockPath())
 	if err != nil {
 		return nil, err
 	}
+	if err = res.lock.Lock(); err != nil {
+		res.lock.Close()
+		return nil, err
+	}
+	return res, nil
+}
 
-	postChans := make([]chan []post.T, len(res.shards))
-	for i := range res.shards {
-		shard := &res.shards[i]
-		broot := cfg.PostPath(i)
-		if err := shard.InitAppend(uint32(i), broot, uint32(cfg.DocFlushRate)); err != nil {
-			return nil, err
+// start initialises the shards with init and starts all goroutines, or none.
+func (x *Indexer) start(init func(s *shard.Indexer, id uint32, root string, flushRate uint32) error) error {
+	cfg := x.config
+	tokfn, err := token.FromConfig(&cfg.TokenConfig)
+	if err != nil {
+		return err
+	}
+	shards := make([]shard.Indexer, cfg.NumShards)
+	postChans := make([]chan []post.T, len(shards))
+	for i := range shards {
+		x.shards = shards[:i+1]
+		shard := &shards[i]
+		if err := init(shard, uint32(i), cfg.PostPath(i), uint32(cfg.DocFlushRate)); err != nil {
+			return err
 		}
 		postChans[i] = shard.PostChan()
-		go shard.Serve()
 	}
-	res.shatter, err = startShatter(cfg.NumShatters,
-		len(res.shards), cfg.SeqLen, res.dmds.Last(), tokenfn,
+	x.shatter, err = startShatter(cfg.NumShatters,
+		len(shards), cfg.SeqLen, x.dmds.Last(), tokfn,
 		&cfg.BlotConfig, postChans)
+	if err != nil {
+		return err
+	}
+	for i := range shards {
+		go shards[i].Serve()
+	}
+	return nil
+}
+
+// abandon gives back what an indexer whose opening failed holds.
+func (x *Indexer) abandon() {
+	for i := range x.shards {
+		x.shards[i].Abandon()
+	}
+	x.lock.Close()
+}
+
+// CreateIndexer attempts to creat a new dupy index.
+// root is the directory root of the dupy index
+// nbuckets states how many buckets
+// docCap should be a conservative estimate of
+// number of documents
+// toksPerDoc should indicate about how many tokens
+// are expected per document.
+func CreateIndexer(root string, nbuckets, seqLen int) (*Indexer, error) {
+	cfg, err := NewConfig(root, nbuckets, seqLen)
 	if err != nil {
 		return nil, err
 	}
-	return res, nil
+	return IndexerFromConfig(cfg)
 }
 
 // write the files that apeared in added documents.
@@ -207,13 +220,10 @@ func (x *Indexer) Close() error {
 	for i := 0; i < x.config.NumShards; i++ {
 		close(x.shards[i].PostChan())
 	}
-	if err := x.config.Write(); err != nil {
-		return err
-	}
-	if err := x.writeFiles(); err != nil {
-		return err
-	}
-	if err := x.dmds.Close(); err != nil {
+	if err := x.writeMeta(); err != nil {
+		for i := range x.shards {
+			x.shards[i].Abandon()
+		}
 		return err
 	}
 	errs := make(chan error, len(x.shards))
@@ -235,6 +245,17 @@ func (x *Indexer) Close() error {
 	return err
 }
 
+// writeMeta writes everything but the shards.
+func (x *Indexer) writeMeta() error {
+	if err := x.config.Write(); err != nil {
+		return err
+	}
+	if err := x.writeFiles(); err != nil {
+		return err
+	}
+	return x.dmds.Close()
+}
+
 // Add adds 'doc' to the index.
 func (x *Indexer) Add(doc *Doc) error {
 	did, err := x.doc2Id(doc)
diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index e41b2d0..68b62c7 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -110,6 +110,13 @@ func (x *Indexer) readIix() error {
 // list of doc info
 // delta, delta, delta fileid, start-lastend, end-start
 // this assumes the postChn is closed.
+// Abandon closes the files of x without writing anything.
+func (x *Indexer) Abandon() {
+	if x.postFile != nil {
+		x.postFile.Close()
+	}
+}
+
 func (x *Indexer) Close() error {
 	if err := x.flushInd(); err != nil {
 		return err
-- 
2.43.0


From 30cdbf3854ff62dd5061ddb1deb4c73bc4961b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 12/29] fix: Doc.Load: an inverted or out of range request
 allocated up to 4 GB or loaded nothing without an error

---
 doc.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/doc.go b/doc.go
index f8df994..8ea076a 100644
--- a/doc.go
+++ b/doc.go
@@ -18,7 +18,6 @@ package dupi
 
 import (
 	"fmt"
-	"io"
 	"io/ioutil"
 	"os"
 )
@@ -55,15 +54,20 @@ func (doc *Doc) Load() error {
 		}
 		doc.End = uint32(len(doc.Dat))
 	} else {
-		_, err = f.Seek(int64(doc.Start), io.SeekStart)
+		fi, err := f.Stat()
 		if err != nil {
-			return fmt.Errorf("seek: %w", err)
+			return fmt.Errorf("stat: %w", err)
 		}
-		doc.Dat = make([]byte, doc.End-doc.Start)
-		_, err = f.ReadAt(doc.Dat, int64(doc.Start))
+		// before making place for it
+		if doc.End < doc.Start || int64(doc.End) > fi.Size() {
+			return fmt.Errorf("%s: no range %d:%d in %d bytes", doc.Path, doc.Start, doc.End, fi.Size())
+		}
+		dat := make([]byte, doc.End-doc.Start)
+		_, err = f.ReadAt(dat, int64(doc.Start))
 		if err != nil {
-			return fmt.Errorf("readat %s len=%d at=%d: %w\n", doc.Path, len(doc.Dat), doc.Start, err)
+			return fmt.Errorf("readat %s len=%d at=%d: %w\n", doc.Path, len(dat), doc.Start, err)
 		}
+		doc.Dat = dat
 	}
 	return nil
 }
-- 
2.43.0


From 2f94f87e0190d54a3270e1e96ff54ca1a2ab86da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 13/29] fix: damaged path and posting files crashed, looped or
 allocated without bound

---
 fnames.go                | 29 ++++++++++++++++++-----------
 index.go                 |  3 +++
 internal/shard/poster.go | 12 ++++++------
 internal/shard/posts.go  |  9 ++++++++-
 4 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/fnames.go b/fnames.go
index 8205c2c..71055ad 100644
--- a/fnames.go
+++ b/fnames.go
@@ -124,33 +124,40 @@ func breadFnames(r *bufio.Reader) (*fnames, error) {
 	if err != nil {
 		return nil, err
 	}
+	if v == 0 {
+		return nil, fmt.Errorf("no root in path data")
+	}
 	s := &fnames{}
-	s.d = make([]fname, v)
-	var buf []byte
-	for i := range s.d {
+	n := v
+	// the data may be damaged, so don't make place for
+	// numbers and lengths before reading what they announce.
+	var buf bytes.Buffer
+	for i := uint32(0); i < n; i++ {
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
 		}
-		if v > uint32(len(buf)) {
-			buf = make([]byte, v)
-		}
-		_, err = io.ReadFull(r, buf[:v])
+		buf.Reset()
+		_, err = io.CopyN(&buf, r, int64(v))
 		if err != nil {
 			return nil, err
 		}
-		fname := &s.d[i]
-		fname.name = string(buf[:v])
+		fname := fname{name: buf.String()}
 		v, err = readUvarint32(r)
 		if err != nil {
 			return nil, err
 		}
+		// parents are added before their children
+		if v > i || v == i && i != 0 {
+			return nil, fmt.Errorf("invalid parent %d of path %d", v, i)
+		}
 		fname.parent = v
-		pname := &s.d[fname.parent]
+		s.d = append(s.d, fname)
+		pname := &s.d[v]
 		if pname.children == nil {
 			pname.children = make(map[string]uint32)
 		}
-		pname.children[fname.name] = uint32(i)
+		pname.children[fname.name] = i
 	}
 	return s, nil
 }
diff --git a/index.go b/index.go
index 45f1bf0..b37fb2b 100644
--- a/index.go
+++ b/index.go
@@ -314,6 +314,9 @@ func (x *Index) docid2Doc(did uint32, doc *Doc) error {
 	if err != nil {
 		return fmt.Errorf("docid2Doc(%d) dmd gave %w", did, err)
 	}
+	if int64(fid) >= int64(len(x.fnames.d)) {
+		return fmt.Errorf("docid2Doc(%d): no path %d", did, fid)
+	}
 	doc.Path = x.fnames.abs(fid)
 	doc.Start = start
 	doc.End = end
diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 43c557b..37d977e 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -118,10 +118,7 @@ func (p *poster) readToLink(f *os.File) error {
 		if err != nil {
 			return err
 		}
-		if v > int64(len(buf)) {
-			buf = make([]byte, v*2)
-		}
-		if v <= 8 {
+		if v <= 8 || v > int64(len(buf)) {
 			return fmt.Errorf("%s: invalid length of flushed post buffer: %d", p, v)
 		}
 		_, err = f.ReadAt(buf[:v], head+n)
@@ -132,9 +129,12 @@ func (p *poster) readToLink(f *os.File) error {
 		if link == -1 {
 			p.link = head + n + v - 8
 			return nil
-		} else {
-			head = link
 		}
+		// lists only grow at the end of the file
+		if link < head+n+v {
+			return fmt.Errorf("%s: invalid link: %d", p, link)
+		}
+		head = link
 	}
 }
 
diff --git a/internal/shard/posts.go b/internal/shard/posts.go
index f009769..aef89c7 100644
--- a/internal/shard/posts.go
+++ b/internal/shard/posts.go
@@ -91,6 +91,9 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 	if err != nil {
 		return fmt.Errorf("1 %w\n", err)
 	}
+	if v <= 8 || v > int64(len(p.buf)) {
+		return fmt.Errorf("invalid length of posts: %d", v)
+	}
 	_, err = r.ReadAt(p.buf[:v], p.nextpos+n)
 	if err != nil {
 		return fmt.Errorf("2 %w\n", err)
@@ -120,7 +123,11 @@ func (p *Posts) readNext(r io.ReaderAt) error {
 			break
 		}
 	}
-	p.nextpos = int64(binary.BigEndian.Uint64(buf[i:]))
+	next := int64(binary.BigEndian.Uint64(buf[i:]))
+	if next != -1 && next < p.nextpos+n+v {
+		return fmt.Errorf("invalid link: %d", next)
+	}
+	p.nextpos = next
 	p.i = 0
 	return nil
 }
-- 
2.43.0


From 4c658dfd0512dbf28042240f50bd855858a306bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 14/29] fix: indexing dropped posts it could not write, and
 reported success

---
 internal/shard/indexer.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/internal/shard/indexer.go b/internal/shard/indexer.go
index 68b62c7..63e505a 100644
--- a/internal/shard/indexer.go
+++ b/internal/shard/indexer.go
@@ -31,6 +31,7 @@ type Indexer struct {
 	ind     [1 << 16]poster
 
 	postFile *os.File
+	err      error // first failure to write a post
 }
 
 func (x *Indexer) initCommon(id uint32, root string, flushRate uint32) {
@@ -104,12 +105,6 @@ func (x *Indexer) readIix() error {
 	return nil
 }
 
-//
-// Flush everything and close
-//
-// list of doc info
-// delta, delta, delta fileid, start-lastend, end-start
-// this assumes the postChn is closed.
 // Abandon closes the files of x without writing anything.
 func (x *Indexer) Abandon() {
 	if x.postFile != nil {
@@ -117,7 +112,20 @@ func (x *Indexer) Abandon() {
 	}
 }
 
+//
+// Flush everything and close
+//
+// list of doc info
+// delta, delta, delta fileid, start-lastend, end-start
+// this assumes the postChn is closed.
+//
+// If a post could not be written, Close writes nothing and returns the
+// reason.
 func (x *Indexer) Close() error {
+	if x.err != nil {
+		x.Abandon()
+		return x.err
+	}
 	if err := x.flushInd(); err != nil {
 		return err
 	}
@@ -172,11 +180,15 @@ func (x *Indexer) Serve() {
 			return
 		}
 		for _, p := range ps {
+			if x.err != nil {
+				break
+			}
 			docid, hash := p.Docid(), p.Blot()
 			hash &= 0xffff
 			err := x.ind[hash].AddPost(docid, x.postFile)
 			if err != nil {
 				log.Printf("couldn't add post: %s", err)
+				x.err = fmt.Errorf("couldn't add post: %w", err)
 			}
 		}
 		x.postChn <- nil
-- 
2.43.0


From c136414920869c208b8f3212d1f42c2bd201988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 15/29] fix: dupi index: a file that cannot be read silently
 ended the walk, .. was skipped as hidden, pipes hung

---
 cmd/dupi/index.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/cmd/dupi/index.go b/cmd/dupi/index.go
index 2211487..298d31d 100644
--- a/cmd/dupi/index.go
+++ b/cmd/dupi/index.go
@@ -16,9 +16,11 @@ package main
 
 import (
 	"flag"
+	"fmt"
 	"io/fs"
 	"io/ioutil"
 	"log"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -102,14 +104,16 @@ func (x *indexCmd) Run(args []string) error {
 	return reterr
 }
 
-func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, err error) error {
+// mkWalkFn gives a function for walking root which adds the files found.
+// What cannot be read is reported, left in *perr and does not stop the walk.
+func (x *indexCmd) mkWalkFn(root string, perr *error) func(path string, entry fs.DirEntry, err error) error {
 	return func(path string, entry fs.DirEntry, err error) error {
 		if err != nil {
 			log.Printf("error %s", err)
 			*perr = err
 			return fs.SkipDir
 		}
-		if strings.HasPrefix(entry.Name(), ".") && len(entry.Name()) > 1 {
+		if path != root && strings.HasPrefix(entry.Name(), ".") {
 			if entry.IsDir() {
 				return fs.SkipDir
 			}
@@ -118,16 +122,11 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 		if entry.IsDir() {
 			return nil
 		}
-
-		f, e := os.Open(path)
-		if e != nil {
-			return e
-		}
-		defer f.Close()
-		dat, err := ioutil.ReadAll(f)
+		dat, err := readFile(path, path == root)
 		if err != nil {
+			log.Printf("error %s", err)
 			*perr = err
-			return err
+			return nil
 		}
 		doc := &dupi.Doc{Path: path, Dat: dat, End: uint32(len(dat))}
 		if *x.verbose {
@@ -137,8 +136,26 @@ func (x *indexCmd) mkWalkFn(perr *error) func(path string, entry fs.DirEntry, er
 	}
 }
 
+// readFile reads the file at path, which need not be a regular file if it
+// was given explicitly.
+func readFile(path string, explicit bool) ([]byte, error) {
+	fi, err := os.Stat(path)
+	if err != nil {
+		return nil, err
+	}
+	if !explicit && !fi.Mode().IsRegular() {
+		return nil, fmt.Errorf("%s: not a regular file", path)
+	}
+	if fi.Size() > math.MaxUint32 {
+		return nil, fmt.Errorf("%s: too large", path)
+	}
+	return ioutil.ReadFile(path)
+}
+
 func (x *indexCmd) doPath(fpath string) error {
 	var err error
-	filepath.WalkDir(fpath, x.mkWalkFn(&err))
+	if werr := filepath.WalkDir(fpath, x.mkWalkFn(fpath, &err)); werr != nil {
+		return werr
+	}
 	return err
 }
-- 
2.43.0


From ab750ec3af43e440c4fde11697276413c325471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:04 +0000
Subject: [PATCH 16/29] fix: dupi blot -offsets: positions of tokens instead of
 words

---
 cmd/dupi/blot.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index 237cbb3..13d265c 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -71,7 +71,7 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 	blots := idx.BlotDoc(nil, doc)
 	var toks []token.T
 	if *bc.offsets {
-		toks = idx.TokenFunc()(nil, doc.Dat, 0)
+		toks = words(idx, doc.Dat)
 	}
 	N := uint32(idx.NumShards()) * (1 << 16)
 	seqLen := idx.SeqLen()
@@ -86,3 +86,17 @@ func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
 	}
 	return nil
 }
+
+// words gives the tokens of dat that count for blots.
+func words(idx *dupi.Index, dat []byte) []token.T {
+	toks := idx.TokenFunc()(nil, dat, 0)
+	j := 0
+	for i := range toks {
+		if toks[i].Tag != token.Word {
+			continue
+		}
+		toks[j] = toks[i]
+		j++
+	}
+	return toks[:j]
+}
-- 
2.43.0


From 0a2654fd5559a4ef11fc7675a9fd86cb2bf1ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:58 +0000
Subject: [PATCH 17/29] fix: dupi like: documents missed when windows of the
 file have equal blots

---
 cmd/dupi/like.go | 52 ++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/cmd/dupi/like.go b/cmd/dupi/like.go
index 525d0f5..7688a2a 100644
--- a/cmd/dupi/like.go
+++ b/cmd/dupi/like.go
@@ -23,7 +23,6 @@ import (
 	"sort"
 
 	"github.com/go-air/dupi"
-	"github.com/go-air/dupi/token"
 )
 
 type likeCmd struct {
@@ -80,24 +79,13 @@ func doFilename(idx *dupi.Index, fname string) error {
 	}
 	doc := &dupi.Doc{Path: fname, Dat: dat, End: uint32(len(dat))}
 	blots := idx.BlotDoc(nil, doc)
-	var toks []token.T
-	toks = idx.TokenFunc()(nil, doc.Dat, 0)
-	j := 0
-	for i := range toks {
-		if toks[i].Tag != token.Word {
-			continue
-		}
-		toks[j] = toks[i]
-		j++
-	}
 	N := uint32(idx.NumShards()) * (1 << 16)
-	seqLen := idx.SeqLen()
-	bm := make(map[uint32][]byte, len(blots))
-	for i, b := range blots {
-		beg := toks[i].Pos
-		end := toks[i+seqLen-1].Pos + uint32(len(toks[i+seqLen-1].Lit))
-		bm[b%N] = dat[beg:end]
-	}
+	// several texts can have the same blot
+	texts := make(map[string]bool, len(blots))
+	eachWindow(idx, dat, func(txt []byte) bool {
+		texts[string(txt)] = true
+		return true
+	})
 	query := idx.StartQuery(dupi.QueryMaxBlot)
 	var db dupi.Blot
 	found := make(map[docKey]int)
@@ -114,14 +102,16 @@ func doFilename(idx *dupi.Index, fname string) error {
 			if found[dk] != 0 {
 				continue
 			}
-			rm, err := idx.FindBlots(bm, doc)
-			if err != nil {
+			if err := doc.Load(); err != nil {
 				return err
 			}
-			if len(rm) == 0 {
-				continue
-			}
-			found[dk]++
+			eachWindow(idx, doc.Dat, func(txt []byte) bool {
+				if texts[string(txt)] {
+					found[dk]++
+					return false
+				}
+				return true
+			})
 		}
 	}
 	keys := make([]docKey, 0, len(found))
@@ -137,3 +127,17 @@ func doFilename(idx *dupi.Index, fname string) error {
 	}
 	return nil
 }
+
+// eachWindow calls f with the text of each full window of words of dat, until
+// f returns false.
+func eachWindow(idx *dupi.Index, dat []byte, f func(txt []byte) bool) {
+	toks := words(idx, dat)
+	seqLen := idx.SeqLen()
+	for i := seqLen - 1; i < len(toks); i++ {
+		beg := toks[i-seqLen+1].Pos
+		end := toks[i].Pos + uint32(len(toks[i].Lit))
+		if !f(dat[beg:end]) {
+			return
+		}
+	}
+}
-- 
2.43.0


From e24bb251e9fb15b776497cfc646f19e69fad7f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 18/29] fix: ibloom: unusable and very large filters, and
 correlated positions with up to 100 times the estimated false positives

---
 attic/ibloom/config.go |  3 +++
 attic/ibloom/fnv32.go  | 36 +++++++++++++++++++-----------------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/attic/ibloom/config.go b/attic/ibloom/config.go
index a82a562..e96e83e 100644
--- a/attic/ibloom/config.go
+++ b/attic/ibloom/config.go
@@ -24,6 +24,9 @@ type Config struct {
 func FromConfig(cfg *Config) (Filter, error) {
 	switch cfg.Name {
 	case "fnv32":
+		if cfg.M < 8 || cfg.K < 1 {
+			return nil, fmt.Errorf("invalid filter: m=%d k=%d", cfg.M, cfg.K)
+		}
 		return NewFnv32(cfg.M/8, cfg.K), nil
 	default:
 		return nil, fmt.Errorf("unknown filter name: '%s'", cfg.Name)
diff --git a/attic/ibloom/fnv32.go b/attic/ibloom/fnv32.go
index db3db47..e5af4e7 100644
--- a/attic/ibloom/fnv32.go
+++ b/attic/ibloom/fnv32.go
@@ -62,33 +62,35 @@ func (b *fnv32) Set() []byte {
 }
 
 func (b *fnv32) Ones(post uint32, fn func(int) bool) bool {
-	hh := fnv32Hash(post)
-	k := uint32(b.k)
-	for i := uint32(0); i < k; i++ {
-		hb := hh ^ (i + 'a')
-		hb *= fnv32Prime
-		hb = clamp(hb, uint32(b.mbytes))
-		if !fn(int(hb)) {
+	h, step := b.hashes(post)
+	for i := 0; i < b.k; i++ {
+		if !fn(int(b.clamp(h))) {
 			return false
 		}
+		h += step
 	}
 	return true
 }
 
 func (f *fnv32) PutOnes(dst []uint32, v uint32) {
-	hh := fnv32Hash(v)
-	k := uint32(f.k)
-	for i := uint32(0); i < k; i++ {
-		hb := hh ^ (i + 'a')
-		hb *= fnv32Prime
-		hb = clamp(hb, uint32(f.mbytes))
-		dst[i] = hb
+	h, step := f.hashes(v)
+	for i := 0; i < f.k; i++ {
+		dst[i] = uint32(f.clamp(h))
+		h += step
 	}
 }
 
-func clamp(h, n uint32) uint32 {
-	bits := n * 8
-	return h % bits
+// hashes gives the first position for v and the distance of the following
+// ones.  Positions must not depend on each other or the set fills up with
+// few of them and membership means little.
+func (b *fnv32) hashes(v uint32) (h, step uint64) {
+	hh := fnv32Hash(v)
+	// the number of positions is even, so this goes on
+	return uint64(hh), uint64(fnv32Hash(hh) | 1)
+}
+
+func (b *fnv32) clamp(h uint64) uint64 {
+	return h % (uint64(b.mbytes) * 8)
 }
 
 func (b *fnv32) Has(d []byte, v uint32) bool {
-- 
2.43.0


From efa2dd68b8aef9ad7d34a3c90b1bceaf244425e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 19/29] fix: trigram.FromTokens: panic on short texts, dropped
 what dst held

---
 attic/trigram/t.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/attic/trigram/t.go b/attic/trigram/t.go
index 0756b1f..1703cf6 100644
--- a/attic/trigram/t.go
+++ b/attic/trigram/t.go
@@ -104,12 +104,18 @@ func VisitTokens(toks []token.T, fn func(T)) {
 	}
 }
 
+// FromTokens appends the trigrams of toks to dst, without the first two,
+// which have less than three letters of toks.
 func FromTokens(dst []T, toks []token.T) []T {
+	n := len(dst)
 	tri := Zero()
 	for _, tok := range toks {
 		tri, dst = FromToken(dst, tri, tok)
 	}
-	return dst[2:]
+	if len(dst) < n+2 {
+		return dst[:n]
+	}
+	return append(dst[:n], dst[n+2:]...)
 }
 
 func FromToken(dst []T, start T, tok token.T) (T, []T) {
-- 
2.43.0


From 7cab326b9d0d6294992ee66946f2d10e9500ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 20/29] fix: appending after an interrupted append session gave
 documents for blots they do not have

An append session that died left posts after the ends of lists (and
possibly a part of a document record). They were counted by readers, and
the next append session added its posts after them, or after the part of
the record. Lists now end where their counts say, and document records
where the last whole one ends.
---
 dmd/adder.go                 |  4 ++--
 internal/shard/poster.go     | 15 +++++++++++++--
 internal/shard/read_state.go | 12 ++++++++++++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/dmd/adder.go b/dmd/adder.go
index 37f64b1..b257e85 100644
--- a/dmd/adder.go
+++ b/dmd/adder.go
@@ -16,7 +16,6 @@ package dmd
 
 import (
 	"encoding/binary"
-	"io"
 	"math"
 	"os"
 	"path/filepath"
@@ -90,7 +89,8 @@ func (t *Adder) flush() error {
 		return err
 	}
 	defer f.Close()
-	_, err = f.Seek(0, io.SeekEnd)
+	// an interrupted or failed flush may have left some more
+	err = f.Truncate(int64(t.flushed) * rcdSize)
 	if err != nil {
 		return err
 	}
diff --git a/internal/shard/poster.go b/internal/shard/poster.go
index 37d977e..c2f3ba8 100644
--- a/internal/shard/poster.go
+++ b/internal/shard/poster.go
@@ -113,6 +113,7 @@ func (p *poster) readToLink(f *os.File) error {
 	}
 	buf := make([]byte, flushRate+binary.MaxVarintLen64+8+10)
 	head := p.head
+	count := uint32(0)
 	for {
 		v, n, err := readVarintAt(f, head)
 		if err != nil {
@@ -125,11 +126,21 @@ func (p *poster) readToLink(f *os.File) error {
 		if err != nil {
 			return err
 		}
-		link := int64(binary.BigEndian.Uint64(buf[v-8 : v]))
-		if link == -1 {
+		// every post is one uvarint
+		for _, b := range buf[:v-8] {
+			if b < 0x80 {
+				count++
+			}
+		}
+		if count > p.total {
+			return fmt.Errorf("%s: more than %d posts", p, p.total)
+		}
+		if count == p.total {
+			// what may follow was left by a session which did not complete.
 			p.link = head + n + v - 8
 			return nil
 		}
+		link := int64(binary.BigEndian.Uint64(buf[v-8 : v]))
 		// lists only grow at the end of the file
 		if link < head+n+v {
 			return fmt.Errorf("%s: invalid link: %d", p, link)
diff --git a/internal/shard/read_state.go b/internal/shard/read_state.go
index 38bfc90..443ccd5 100644
--- a/internal/shard/read_state.go
+++ b/internal/shard/read_state.go
@@ -24,10 +24,22 @@ type ReadState struct {
 	Posts *Posts
 	Error error
 	rdr   io.ReaderAt
+	read  uint32 // number of posts given by Next
 }
 
 func (s *ReadState) Next() (uint32, error) {
+	// what follows was left by a session which did not complete.
+	if s.read == s.Total {
+		s.Error = io.EOF
+		return 0, s.Error
+	}
 	var docid uint32
 	docid, s.Error = s.Posts.next(s.rdr)
+	if s.Error == io.EOF {
+		s.Error = io.ErrUnexpectedEOF
+	}
+	if s.Error == nil {
+		s.read++
+	}
 	return docid, s.Error
 }
-- 
2.43.0


From a307d79e4b4ecc0d7eb4c2d5a8ed08993a4f0eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 21/29] fix: dupi unblot: malformed blots were taken for
 another (0x12 for 0, 12zz for 12)

---
 cmd/dupi/unblot.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/dupi/unblot.go b/cmd/dupi/unblot.go
index b1827c6..e5fea45 100644
--- a/cmd/dupi/unblot.go
+++ b/cmd/dupi/unblot.go
@@ -18,6 +18,7 @@ import (
 	"flag"
 	"fmt"
 	"log"
+	"strconv"
 
 	"github.com/go-air/dupi"
 )
@@ -48,10 +49,11 @@ func (ub *unblotCmd) Run(args []string) error {
 	defer idx.Close()
 	query := idx.StartQuery(dupi.QueryMaxBlot)
 	for _, arg := range ub.flags.Args() {
-		var hex uint32
-		if _, err := fmt.Sscanf(arg, "%x", &hex); err != nil {
-			return err
+		v, err := strconv.ParseUint(arg, 16, 32)
+		if err != nil {
+			return fmt.Errorf("invalid blot: %w", err)
 		}
+		hex := uint32(v)
 		blot := &dupi.Blot{Blot: hex}
 		if err := query.Get(blot); err != nil {
 			return err
-- 
2.43.0


From 03f679465bcab0e9c37bc443a3c6c131bf2d6339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 22/29] fix: dupi blot: success reported when a file could not
 be read

---
 cmd/dupi/blot.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/dupi/blot.go b/cmd/dupi/blot.go
index 13d265c..6f16383 100644
--- a/cmd/dupi/blot.go
+++ b/cmd/dupi/blot.go
@@ -49,12 +49,14 @@ func (b *blotCmd) Run(args []string) error {
 		log.Fatalf("couldn't open dupi index at '%s': %s", root, err)
 	}
 	defer idx.Close()
+	var reterr error
 	for _, fname := range b.flags.Args() {
 		if err = b.doFilename(fname, idx); err != nil {
 			log.Printf("error processing %s: %s", fname, err)
+			reterr = err
 		}
 	}
-	return nil
+	return reterr
 }
 
 func (bc *blotCmd) doFilename(fname string, idx *dupi.Index) error {
-- 
2.43.0


From 4c8f65720efec8e3a375c9b2898790e282299e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 23/29] fix: dupi: an index root with the name of a verb was
 taken for the verb

---
 cmd/dupi/dupi.go | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/cmd/dupi/dupi.go b/cmd/dupi/dupi.go
index 97f6311..30d977a 100644
--- a/cmd/dupi/dupi.go
+++ b/cmd/dupi/dupi.go
@@ -56,20 +56,6 @@ func getIndexRoot() string {
 	return filepath.Join(home, ".dupi")
 }
 
-// returns global argument list
-func splitArgs(args []string) ([]string, []string) {
-	var i int
-	var arg string
-	var sc Verb
-	for i, arg = range args {
-		sc = scMap[arg]
-		if sc != nil {
-			break
-		}
-	}
-	return args[:i], args[i:]
-}
-
 func usage(w io.Writer) {
 	fmt.Fprintf(w, "usage: dupi [global opts] <verb> <args>\n")
 	fmt.Fprintf(w, "verbs are:\n")
@@ -96,7 +82,10 @@ func main() {
 	}); err != nil {
 		log.Fatal(err)
 	}
-	gargs, largs := splitArgs(os.Args[1:])
+	// the verb is the first argument which is no option and no value of one
+	gFlags.Usage = func() { usageFatal(os.Stderr) }
+	gFlags.Parse(os.Args[1:])
+	largs := gFlags.Args()
 	if len(largs) == 0 {
 		usageFatal(os.Stderr)
 	}
@@ -104,8 +93,6 @@ func main() {
 	if sc == nil {
 		usageFatal(os.Stderr)
 	}
-	gFlags.Usage = func() { usageFatal(os.Stderr) }
-	gFlags.Parse(gargs)
 	if err := sc.Run(largs[1:]); err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 7be269a5418fac4792b1f3dfe8d7225c1e6190c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 24/29] fix: Query.Next keeps the documents that bounded slots
 have

---
 query.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/query.go b/query.go
index 9df6646..b30a7e3 100644
--- a/query.go
+++ b/query.go
@@ -109,6 +109,7 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 			continue
 		}
 		lim := dstBlot.Docs != nil
+		had := dstBlot.Len()
 		pos := state.i
 		got, err := q.fillBlot(dstBlot, shardState, pos)
 		if err != nil {
@@ -122,7 +123,7 @@ func (q *Query) Next(dst []Blot) (n int, err error) {
 		// at the end of the list of the blot, and fillBlot has advanced.
 		if shardState.Total <= 1 || got == 0 && (!lim || dstBlot.Len() < dstBlot.Cap()) {
 			if lim {
-				dstBlot.Docs = dstBlot.Docs[:0]
+				dstBlot.Docs = dstBlot.Docs[:had]
 			} else {
 				dstBlot.Docs = nil
 			}
-- 
2.43.0


From 3665b2eaa1f6ba81db6f97e1ac2cf4cde80673d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 25/29] fix: one lock for an index, also when it is reached
 through symbolic links

The lock file of an index stood beside whatever path the index was opened
by, so that a writer and a reader (or two writers) which reached it through
different symbolic links did not exclude each other, and removing an index
opened through a link removed only the link.
---
 config.go  | 17 +++++++++++++++++
 index.go   |  3 +--
 indexer.go |  3 +--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/config.go b/config.go
index 5eb7295..3aebe20 100644
--- a/config.go
+++ b/config.go
@@ -61,6 +61,23 @@ func DefaultConfig(root string) (*Config, error) {
 	return cfg, nil
 }
 
+// realRoot gives the one name which the index at root has, however root is
+// spelled, also by way of symbolic links.
+func realRoot(root string) (string, error) {
+	abs, err := filepath.Abs(root)
+	if err != nil {
+		return "", err
+	}
+	if real, err := filepath.EvalSymlinks(abs); err == nil {
+		return real, nil
+	}
+	// there may be no index yet
+	if dir, err := filepath.EvalSymlinks(filepath.Dir(abs)); err == nil {
+		return filepath.Join(dir, filepath.Base(abs)), nil
+	}
+	return abs, nil
+}
+
 func NewConfig(root string, nbuckets, seqLen int) (*Config, error) {
 	cfg, err := DefaultConfig(root)
 	if err != nil {
diff --git a/index.go b/index.go
index b37fb2b..54b6827 100644
--- a/index.go
+++ b/index.go
@@ -20,7 +20,6 @@ import (
 	"log"
 	"math"
 	"os"
-	"path/filepath"
 
 	"github.com/go-air/dupi/blotter"
 	"github.com/go-air/dupi/dmd"
@@ -39,7 +38,7 @@ type Index struct {
 
 func OpenIndex(root string) (_ *Index, err error) {
 	// the lock has one name, however the root is spelled
-	root, err = filepath.Abs(root)
+	root, err = realRoot(root)
 	if err != nil {
 		return nil, err
 	}
diff --git a/indexer.go b/indexer.go
index e5235ed..078358d 100644
--- a/indexer.go
+++ b/indexer.go
@@ -17,7 +17,6 @@ package dupi
 import (
 	"log"
 	"os"
-	"path/filepath"
 
 	"github.com/go-air/dupi/dmd"
 	"github.com/go-air/dupi/internal/shard"
@@ -107,7 +106,7 @@ func OpenIndexer(root string) (_ *Indexer, err error) {
 // lockedIndexer gives an indexer which holds the lock of root, whatever the
 // spelling of root, and nothing else.
 func lockedIndexer(root string) (*Indexer, error) {
-	root, err := filepath.Abs(root)
+	root, err := realRoot(root)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 23163aa954a8b658c15ef6cdf90bfab9ee521a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 26/29] fix: a document of a result has no text of another one

The documents of a bounded result slot which is used again kept the text
that was loaded for the document before, in which blots were then located.
---
 index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/index.go b/index.go
index 54b6827..148ddfc 100644
--- a/index.go
+++ b/index.go
@@ -319,5 +319,6 @@ func (x *Index) docid2Doc(did uint32, doc *Doc) error {
 	doc.Path = x.fnames.abs(fid)
 	doc.Start = start
 	doc.End = end
+	doc.Dat = nil // may be the text of another document
 	return nil
 }
-- 
2.43.0


From 66f9a7df9e32afb56fe29b6745a0d1893d5259f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 27/29] fix: dupenron -o prints what it copies, and failures
 show

The copied records were never flushed, errors of copying were dropped, and
so were those of adding a message to the index.
---
 cmd/dupenron/main.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmd/dupenron/main.go b/cmd/dupenron/main.go
index 353b337..6281910 100644
--- a/cmd/dupenron/main.go
+++ b/cmd/dupenron/main.go
@@ -50,7 +50,9 @@ func csvReader(fname string) (*csv.Reader, func() error, error) {
 func main() {
 	flag.Parse()
 	if *O {
-		oEnron(flag.Args()[0])
+		if err := oEnron(flag.Args()[0]); err != nil {
+			log.Fatal(err)
+		}
 		return
 	}
 	if err := agent.Listen(agent.Options{
@@ -83,7 +85,7 @@ func oEnron(fname string) error {
 		rcd, err := rdr.Read()
 		if err != nil {
 			if err == io.EOF {
-				return nil
+				break
 			}
 			return fmt.Errorf("error reading csv: %s", err)
 		}
@@ -92,7 +94,8 @@ func oEnron(fname string) error {
 			return err
 		}
 	}
-	return nil
+	writer.Flush()
+	return writer.Error()
 }
 
 func indexEnron(index *dupi.Indexer, fname string) error {
@@ -123,7 +126,9 @@ func indexEnron(index *dupi.Indexer, fname string) error {
 			Start: offset + uint32(ibody) + 2 + uint32(len(rcd[0]))}
 		doc.End = offset + uint32(len(doc.Dat))
 		offset = doc.End
-		index.Add(doc)
+		if err := index.Add(doc); err != nil {
+			return err
+		}
 		rcds++
 		if rcds%10000 == 0 {
 			fmt.Printf("%d rcds\n", rcds)
-- 
2.43.0


From 57c520abc3aeb7c935771761a9838a7828f77883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 28/29] fix: a post can be added again after an intersection
 took it away

---
 attic/bposts.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attic/bposts.go b/attic/bposts.go
index f7cd69a..477edc3 100644
--- a/attic/bposts.go
+++ b/attic/bposts.go
@@ -83,11 +83,12 @@ func (t *bposts) Ones(dst []int) []int {
 }
 
 func (t *bposts) AddPost(post uint32) error {
+	// also if it was the last one, which Intersect may have taken away
+	t.Bloomer.Add(t.Set, post)
 	if t.Post == post && t.Total != 0 {
 		return nil
 	}
 	t.Post = post
 	t.Total++
-	t.Bloomer.Add(t.Set, post)
 	return nil
 }
-- 
2.43.0


From 87b63670b40b3cf4b430e2c6d4b060d6ab9588a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:10 +0000
Subject: [PATCH 29/29] fix: like takes its files after its options, as after
 --

---
 cmd/dupi/like.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/dupi/like.go b/cmd/dupi/like.go
index 7688a2a..04fd483 100644
--- a/cmd/dupi/like.go
+++ b/cmd/dupi/like.go
@@ -47,7 +47,7 @@ func (lc *likeCmd) Run(args []string) error {
 		log.Fatalf("couldn't open dupi index at '%s': %s", root, err)
 	}
 	defer idx.Close()
-	for _, fname := range args {
+	for _, fname := range lc.flags.Args() {
 		if err := doFilename(idx, fname); err != nil {
 			return err
 		}
-- 
2.43.0

