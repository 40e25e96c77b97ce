#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one property per line). Run: python3 tools/gen_properties.py
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=None)))

p("P01", "A blot lookup returns exactly the documents that contain the blot",
  "After documents have been added and the index closed and reopened, looking up any blot lists every document one of whose word windows has that blot, and no other document. Each is listed once, in the order the documents were added, with the absolute path and byte range it was added with.",
  ["inputs", "configurations"], "every sequence of documents (any size, any bytes, repeated, empty, invalid UTF-8), every valid configuration (shards, shatterers, sequence length, interleave, flush rate) and every blot value",
  "The only index test adds two documents and reads one record back by internal id; no test runs a single blot lookup, a list longer than two entries, or a configuration other than 4 shards x 10 words.",
  ["indexer.go", "shatter.go", "query.go", "index.go", "internal/shard/indexer.go", "internal/shard/poster.go", "internal/shard/posts.go", "internal/shard/index.go", "dmd/adder.go", "dmd/t.go", "fnames.go"],
  [("posts are sharded by blot modulo the number of shards, delta coded in linked blocks", "shatter.go blot, internal/shard/poster.go AddPost/flushTo"), ("lookups walk the linked blocks and map ids to documents", "query.go Get, internal/shard/posts.go readNext")],
  [("posting lists", "per 16-bit shard value, increasing document ids", "internal/shard"), ("document table", "id -> path node, start, end", "dmd")], ["Query.Get"])

p("P02", "Any two documents sharing a run of words are found as duplicates",
  "Whenever two indexed documents contain the same run of as many consecutive words as the index's sequence length, ignoring case, punctuation and white space, some blot is reported for both, wherever in either document the run stands, its very beginning and end included. The extraction over the whole index reports that blot with both documents.",
  ["inputs", "configurations"], "every pair of documents with a shared run, every position of the run in each, every formatting of the text between its words, every configuration and every set of surrounding documents",
  "No existing test indexes a duplicate at all, let alone one at a document boundary or under different formatting; the guarantee is over all pairs and positions.",
  ["token/t.go", "blotter/circ.go", "blotter/interleaved.go", "shatter.go", "query.go", "index.go", "docs/design.md", "docs/tutorial.md"],
  [("tokenising to words, lower-casing and hashing every window", "token/t.go, blotter/circ.go, shatter.go do"), ("extraction visits every blot with two or more documents", "query.go Next")],
  observe=["Query.Next", "Query.Get", "Index.BlotDoc"])

p("P03", "Extraction visits every shared blot exactly once, most frequent first",
  "Iterating a whole-index query yields each blot that has at least two documents exactly once, with its complete document list, in non-increasing order of the number of documents, and then reports end of data, also when asked again. This holds for every number of blots requested per call, also when lookups with the same query or other extractions are made in between, and leaves no call without progress.",
  ["inputs", "configurations", "histories"], "every index content, number of shards and sequence of batch sizes requested from the iterator",
  "No existing test starts a query (TestIndexQueryTrivial is empty), so neither order, completeness nor termination of extraction is exercised.",
  ["query.go", "index.go", "internal/shard/index.go", "internal/shard/read_state.go", "docs/design.md"],
  [("per-shard permutation sorted by count and a merge over shards by current maximum", "internal/shard/index.go readIix, query.go setMax/advance")],
  [("query cursor", "one position per shard plus the current shard", "query.go qstate")], ["Query.Next", "Query.Get"])

p("P04", "Bounded extraction pages through all documents of every shared blot",
  "When the caller provides result slots of limited document capacity, each slot receives at most that many documents, all belonging to the blot it is labelled with, and the pages of a blot concatenate to the complete document list of that blot. No blot with two or more documents is skipped or repeated because of the limit, and the bounded lookup of a single blot returns the leading documents of its list.",
  ["inputs", "configurations", "histories"], "every index content, shard count, and sequence of slot capacities and batch sizes",
  "Bounded result slots are documented but no test or command uses them; the interaction of page boundaries with the per-shard cursors needs specific list lengths and several shards.",
  ["blot.go", "query.go"],
  [("slots with non-nil document slices bound the page, the shard cursor keeps the rest", "query.go fillBlot/Next/Get, blot.go Next")],
  observe=["Query.Next", "Query.Get"])

p("P05", "Appending in several sessions equals indexing in one session",
  "Adding documents over any number of close-and-append sessions gives an index that answers every lookup, extraction and statistic exactly as one built in a single session from the same documents in the same order. An append session never alters the answers about documents added before it.",
  ["histories", "inputs", "configurations"], "every split of every document sequence into sessions, empty sessions included, every configuration",
  "The only append test covers the document table with two sessions and five records; nothing appends to an index or to a posting list with flushed blocks.",
  ["indexer.go", "internal/shard/indexer.go", "internal/shard/poster.go", "dmd/adder.go", "fnames.go", "config.go"],
  [("append resumes head, count, last id and the tail link of each posting list", "internal/shard/poster.go initAppend/readToLink"), ("document ids resume from the document table's length", "dmd/adder.go NewAdder")],
  observe=["OpenIndexer", "Indexer.Add", "Indexer.Close", "Query.Get"])

p("P06", "Indexing results do not depend on parallelism or scheduling",
  "The answers of an index depend only on the documents and the order in which they were added: the number of parallel shatterers, the number of processors and the relative speed at which documents are processed do not change any of them. Indexing always terminates and loses or duplicates no posting.",
  ["schedules", "inputs", "configurations"], "every interleaving of the shatterer and shard goroutines for every document sequence, with any mix of document sizes",
  "The one indexing test adds two equal-sized documents, never compares postings and never varies the number of shatterers; ordering between shatterers only matters when documents of very different sizes overlap.",
  ["shatter.go", "indexer.go", "internal/shard/indexer.go", "docs/design.md"],
  [("a condition variable releases documents to the shards in id order", "shatter.go send/mono"), ("one goroutine per shard, acknowledged hand-off of postings", "internal/shard/indexer.go Serve"), ("shutdown drains all shatterers before shards close", "indexer.go Close")],
  observe=["Query.Get", "Index.Stats"])

p("P07", "Concurrent queries on one index are independent",
  "Any number of queries, lookups and text locations running at the same time on one open index each give exactly the results they give when run alone.",
  ["schedules", "inputs"], "every interleaving of any number of concurrent queries over every index",
  "The design document promises that all query-side reads are safe to run concurrently; no test runs two queries, concurrently or not.",
  ["query.go", "index.go", "dmd/t.go", "internal/shard/posts.go", "internal/shard/read_state.go", "docs/design.md"],
  [("positional reads on shared file descriptors", "internal/shard/posts.go, dmd/t.go Lookup"), ("all cursor state lives in the query", "query.go qstate")],
  observe=["Query.Get", "Query.Next", "Index.FindBlot", "Index.FindBlots", "Index.BlotDoc"])

p("P08", "Tokenising splits text into maximal word and non-word runs, losing nothing",
  "Tokenising valid UTF-8 text yields runs that alternate between words (maximal sequences of letters and digits) and everything else, whose concatenation is the whole text and each of which is positioned at the given offset plus its place in the text. Tokens already in the destination are kept, and text that is not valid UTF-8 yields none.",
  ["inputs"], "every byte string, offset and destination slice",
  "TestToken prints the tokens of one string and asserts nothing; the first and last characters, multi-byte characters and invalid text are untested.",
  ["token/t.go", "token/config.go"],
  [("single pass over runes with a word flag", "token/t.go Tokenize")], observe=["token.Tokenize", "token.FromConfig"])

p("P09", "A blot is the order-blind, case-blind hash of the last window of words only",
  "The fingerprint emitted at a word is the exclusive-or of the hashes of the words of the window ending there (with interleaving, of every n-th word), where a word's hash depends only on its letters without regard to case. It does not depend on anything read before the window, so a document has one blot per full window, the same whichever documents were processed before it, and distinct words rarely share a hash.",
  ["inputs", "configurations", "histories"], "every sequence of words, window length and interleave, and every history of words processed before",
  "TestCirc feeds seven short words to one window of 3 and compares two values; interleaving, case folding, independence of history and the per-document blot sequence are untested.",
  ["blotter/circ.go", "blotter/interleaved.go", "blotter/config.go", "index.go", "docs/design.md"],
  [("circular buffer of hashes updated by exclusive-or", "blotter/circ.go Blot"), ("round robin over circular buffers", "blotter/interleaved.go Blot"), ("one blot per full window of a document", "index.go BlotDoc")],
  observe=["blotter.T.Blot", "blotter.FromConfig", "Index.BlotDoc"])

p("P10", "Locating a blot returns exactly the text that produced it",
  "For every document listed under a blot whose text is unchanged, locating the blot gives a byte range inside the document's own range whose text is a full window of words hashing to that blot; a blot the document does not have is reported as not found. Matching a set of expected window texts against a document returns exactly those that occur verbatim as windows of it, also for documents that are a slice of a larger file. Neither call changes the text, the path or the candidates it is given.",
  ["inputs", "configurations"], "every document, including those starting at a non-zero offset of their file, every blot value and every set of candidate texts",
  "No test calls the locating functions; window boundaries and documents at non-zero offsets are never exercised.",
  ["index.go", "doc.go", "token/t.go"],
  [("re-tokenising and re-blotting the document, mapping token positions to text", "index.go FindBlot/FindBlots"), ("loading the document's range from its file", "doc.go Load")],
  observe=["Index.FindBlot", "Index.FindBlots"])

p("P11", "Document paths come back exactly as given, made absolute",
  "Every document is reported under the cleaned absolute form of the path it was added with, byte for byte, whatever characters the path contains and however many other paths share its prefixes, and across any number of reopenings. Distinct paths stay distinct, equal paths are stored once, and a directory that is also a document path keeps both roles.",
  ["inputs", "histories"], "every set and order of relative and absolute paths, every split into sessions",
  "TestFnames checks four fixed short paths and one reload; arbitrary names, deep shared prefixes, relative forms and interleaved reload/add sequences are not covered.",
  ["fnames.go", "indexer.go", "index.go"],
  [("prefix tree of path components serialised with parent links", "fnames.go addPath/abs/write/readFnames")],
  [("path tree", "node -> (name, parent)", "fnames.go")], ["Query.Get documents' Path", "Stats.NumPaths"])

p("P12", "The document table returns every record under the id it was given",
  "Each added record gets the next consecutive id starting at one, and after closing, looking that id up gives exactly the three numbers stored, for any values, buffer size and number of append sessions. The number of documents reported equals the number of records added, and looking up an id beyond the last is an error.",
  ["inputs", "histories", "configurations"], "every sequence of records, flush rate (1 upwards) and split into sessions",
  "TestAdder stores five records in two sessions with one buffer size that is never exceeded, and checks three of them.",
  ["dmd/adder.go", "dmd/t.go", "dmd/fields.go"],
  [("fixed size big endian records appended in batches, id = record position", "dmd/adder.go Add/flush, dmd/t.go Lookup"), ("reserved record zero", "dmd/adder.go NewAdder")],
  observe=["dmd.Adder", "dmd.T"])

p("P13", "Posting lists return every posted document in order across blocks and sessions",
  "For every stream of postings with non-decreasing document ids, each posting list read back holds exactly the distinct ids posted for its value, in increasing order, for any id gaps, any list length spanning any number of storage blocks, any interleaving between values and any number of append sessions. Its count equals its length, and the frequency order enumerates every value exactly once by non-increasing count.",
  ["inputs", "histories"], "every posting stream over the 16-bit values with ids up to 2^32-1 and every split into append sessions",
  "TestPosts writes one list of 1311 small gaps in one session through internal calls; several values sharing a file, block boundaries under append, large gaps and duplicate ids are untested.",
  ["internal/shard/indexer.go", "internal/shard/poster.go", "internal/shard/posts.go", "internal/shard/index.go", "post/t.go"],
  [("delta + varint coded blocks chained by back-patched links", "internal/shard/poster.go flushTo"), ("resuming at the last link", "internal/shard/poster.go readToLink"), ("block decoding", "internal/shard/posts.go readNext")],
  observe=["shard.Index.ReadStateFor", "shard.Index.ReadStateAt", "shard.ReadState.Next"])

p("P14", "Configurations round-trip, and unusable ones are refused instead of crashing",
  "A configuration written to disk reads back equal, whatever was stored there before. Creating an index succeeds for every configuration with positive shards, shatterers, window and flush rate and consistent window lengths, including every positive sequence length asked for by number, and the index then behaves as configured and stays so when it is appended to, the configuration given being left as it was; a configuration that cannot work is refused with an error, never a crash or a hang.",
  ["configurations", "inputs"], "every configuration value, valid or not, and every previous content of the configuration file",
  "Tests use one hard-coded configuration (4 shards, 10 words) and never read one back or try an invalid one.",
  ["config.go", "indexer.go", "blotter/config.go", "token/config.go", "cmd/dupi/index.go"],
  [("consistency check when building and reading configurations", "config.go check"), ("JSON file in the index directory", "config.go Write/ReadConfig")],
  observe=["NewConfig", "DefaultConfig", "ReadConfig", "Config.Write", "IndexerFromConfig", "CreateIndexer"])

p("P15", "A writer excludes every other user of an index; readers share it",
  "While an indexer (creating or appending) is open on an index, no other indexer or reader can have it open, and while readers have it open no indexer can, in the same or another process and whatever spelling of the path each used; readers do not exclude each other. Exclusion ends when the holder is closed.",
  ["schedules", "histories"], "every sequence of opening and closing indexers and readers on the same and on different indexes, by relative, absolute and unclean spellings of the path and by way of symbolic links",
  "TestLock creates and closes a lock file without ever taking it; no test opens an index twice.",
  ["indexer.go", "index.go", "lock/file.go", "lock/unix.go", "config.go"],
  [("exclusive file lock for indexers, shared for readers, beside the index directory", "indexer.go IndexerFromConfig/openFromConfig, index.go OpenIndex, config.go LockPath")],
  observe=["OpenIndex", "OpenIndexer", "CreateIndexer", "Close"])

p("P16", "File locks exclude, share and release as a readers-writer lock",
  "Handles on the same path behave as a readers-writer lock: an exclusive lock is granted only when no other handle holds any lock, a shared one only when none holds it exclusively, unlocking gives up whatever the handle held, and closing never waits and gives up everything. Handles on different paths never affect each other.",
  ["histories", "schedules"], "every sequence of new, lock, shared lock, unlock and close operations over several handles and paths",
  "TestLock opens and closes one handle and takes no lock.",
  ["lock/file.go", "lock/unix.go"],
  [("advisory whole-file locks", "lock/unix.go")], observe=["lock.File"])

p("P17", "Failed opens change nothing and hold nothing; closing gives everything back",
  "Creating an index where something already exists, or opening one that is missing or unusable, reports an error, leaves whatever was there byte for byte unchanged and keeps no lock or open file, so a following correct operation succeeds. Closing an index or indexer releases its lock, its open files and its goroutines.",
  ["histories", "inputs"], "every sequence of successful and failing create, open, append and close operations over existing, missing and damaged indexes",
  "No test makes an operation fail or looks at what remains after closing.",
  ["indexer.go", "index.go", "lock/file.go", "shatter.go", "internal/shard/indexer.go", "remove.go"],
  [("directory creation fails if it exists", "indexer.go IndexerFromConfig"), ("Close releases lock, files and goroutines", "indexer.go Close, index.go Close, lock/file.go Close")],
  observe=["CreateIndexer", "OpenIndex", "OpenIndexer", "Close", "open files of the process"])

p("P18", "An interrupted indexing process never leaves silently wrong answers",
  "If the process creating an index or appending to it dies at any point, then opening and querying the result either reports an error or answers correctly: every completed session's document a lookup should list is listed, and every document listed was really added and has the blot. In particular an index whose creation did not complete is never opened as if it were complete. If a later session can append to it, the same holds after that session, with its documents.",
  ["crash_points", "inputs", "histories"], "every point of the sequence of file system operations of a creating or appending session, and every session after it",
  "No test interrupts indexing or opens a partial index.",
  ["indexer.go", "internal/shard/indexer.go", "internal/shard/poster.go", "dmd/adder.go", "fnames.go", "config.go", "index.go"],
  [("heads and counts are written only on close, and a short table fails to open", "internal/shard/indexer.go Close/flushIix, internal/shard/index.go readIix"), ("configuration written on close", "indexer.go Close")],
  observe=["OpenIndex", "Query.Get", "Query.Next"])

p("P19", "Indexing that cannot write says so",
  "If any write fails while documents are added or the index is closed (a full disk, a file size limit), even if writing works again later, then at least one of the calls of that session reports an error. When every call reports success, the index answers correctly for every document added; when closing succeeds although additions failed, it does for those whose addition succeeded.",
  ["fault_sequences", "inputs"], "every point in a session at which writes begin to fail and every point at which they work again",
  "No test makes a write fail.",
  ["indexer.go", "internal/shard/indexer.go", "internal/shard/poster.go", "dmd/adder.go", "config.go", "fnames.go"],
  [("errors of flushes and of Close are returned to the caller", "indexer.go Add/Close, internal/shard/indexer.go Serve/Close")],
  observe=["Indexer.Add", "Indexer.Close", "OpenIndex"])

p("P20", "Damaged index files produce errors, never crashes, hangs or invented documents",
  "Opening and querying an index any of whose files has been cut short gives either an error or correct answers. For arbitrary damage to the path, document and posting files, every operation terminates with an answer or an error; none crashes or runs forever.",
  ["inputs", "fault_sequences"], "every truncation and every corruption of the bytes of the path tree, document table, posting and posting-head files of every index",
  "No test reads a damaged file; the readers' sanity checks are never triggered.",
  ["fnames.go", "dmd/t.go", "internal/shard/posts.go", "internal/shard/index.go", "index.go", "query.go"],
  [("length, overflow and alignment checks while decoding", "internal/shard/posts.go readNext, fnames.go readUvarint32, internal/shard/index.go readIix")],
  observe=["OpenIndex", "Query.Get", "Query.Next", "Stats"])

p("P21", "The index command indexes every visible file it is given, or fails loudly",
  "Running the index command on files and directories adds each non-hidden regular file found exactly once per mention, with its full content and range, recursively, and the append form adds to what is there. A file that cannot be read does not stop the others from being indexed, and makes the command report the problem and exit with failure.",
  ["inputs", "configurations"], "every directory tree (hidden entries, nested directories, dangling links, odd names), argument list, and option setting",
  "cmd/dupi has no tests.",
  ["cmd/dupi/index.go", "cmd/dupi/dupi.go", "indexer.go", "docs/tutorial.md"],
  [("directory walk that skips hidden entries and collects errors", "cmd/dupi/index.go doPath/mkWalkFn")],
  observe=["dupi index", "dupi inspect", "dupi extract"])

p("P22", "The extract command prints exactly the blots above the threshold",
  "The extract command prints, most frequent first, every blot with at least two documents and at least the mean plus sigma standard deviations (rounded) documents, with all its documents, and nothing else. The text, JSON and blots-only forms describe the same result.",
  ["inputs", "configurations"], "every index and every sigma, in each output form",
  "cmd/dupi has no tests.",
  ["cmd/dupi/extract.go", "query.go", "index.go", "stats.go", "docs/tutorial.md"],
  [("iterates the most-frequent-first query and stops at the threshold", "cmd/dupi/extract.go Run")],
  observe=["dupi extract"])

p("P23", "The blot and unblot commands are inverse views of the indexed text",
  "The blot command prints the blots of a file in order exactly as they are used in the index, and with positions, the byte range of the window of words each stands for. The unblot command prints each document of a blot under a text that occurs in it and produces that blot, grouping documents by equal text, all groups on request and otherwise those with two or more documents.",
  ["inputs", "configurations"], "every file, index and blot",
  "cmd/dupi has no tests.",
  ["cmd/dupi/blot.go", "cmd/dupi/unblot.go", "index.go", "docs/tutorial.md"],
  [("shared blotting of documents", "index.go BlotDoc, cmd/dupi/blot.go doFilename"), ("locating and grouping by text", "cmd/dupi/unblot.go Run, index.go FindBlot")],
  observe=["dupi blot", "dupi unblot"])

p("P24", "The like command lists exactly the documents sharing a verbatim window",
  "The like command lists, once each, the indexed documents that contain verbatim some full window of words of the given file, and no document that does not.",
  ["inputs", "configurations"], "every file and every index of unchanged documents, including files whose windows collide in blot",
  "cmd/dupi has no tests.",
  ["cmd/dupi/like.go", "index.go", "query.go", "docs/tutorial.md"],
  [("candidate documents by blot, then verification of the text", "cmd/dupi/like.go doFilename, index.go FindBlots")],
  observe=["dupi like"])

p("P25", "Statistics count exactly what the index holds",
  "The statistics of an index report the number of documents added, the number of nodes of the path tree, the number of distinct (document, blot) pairs, the number of possible blots, and the mean and standard deviation of documents per possible blot, and the inspect command prints the same figures in both its forms.",
  ["inputs", "configurations", "histories"], "every index content, configuration and number of append sessions",
  "No test looks at statistics.",
  ["index.go", "stats.go", "dmd/t.go", "internal/shard/index.go", "cmd/dupi/inspect.go"],
  [("sums over the per-value counts and the document table's length", "index.go Stats")],
  observe=["Index.Stats", "dupi inspect"])

p("P26", "Loading a document reads exactly its range of its file",
  "Loading a document with a byte range yields exactly those bytes of its file, and one without a range yields the whole file and sets its range to it. A missing file, an inverted range or a range beyond the end of the file is reported as an error.",
  ["inputs"], "every file content and every range, valid or not",
  "No test loads a document.",
  ["doc.go"], [("whole-file read for the zero range, positional read otherwise", "doc.go Load")], observe=["Doc.Load"])

p("P27", "Indexing and removing touch only the index itself",
  "Creating, appending to, querying and removing an index change no file outside the index directory and its lock file: documents, sibling files and other indexes stay byte for byte as they were. After removal the index directory is gone and an index can be created afresh at the same place.",
  ["histories", "inputs"], "every sequence of operations over several indexes in one directory, any names",
  "Removal is untested, and no test looks outside the index.",
  ["remove.go", "index.go", "indexer.go", "config.go"],
  [("all paths derive from the index root", "config.go DmdPath/FnamesPath/PostPath"), ("removal of the root directory", "remove.go")],
  observe=["RemoveIndex", "RemoveIndexer", "directory snapshots"])

p("P28", "An index is the directory it is opened from, wherever it is moved or copied",
  "Opening, appending to or removing an index by a path acts on the index stored at that path, however the path is spelled and whether or not the directory was renamed, moved or copied since it was created. A copy and its original never affect each other.",
  ["histories", "inputs"], "every sequence of copying, renaming, appending, opening and removing, with every spelling of the path, symbolic links included",
  "Tests create and open one index under one spelling and never move it.",
  ["config.go", "index.go", "indexer.go", "remove.go"],
  [("the configuration read from a root describes that root", "config.go ReadConfigFromRoot, index.go OpenIndex, indexer.go OpenIndexer")],
  observe=["OpenIndex", "OpenIndexer", "Index.Root", "RemoveIndex"])

p("P29", "Blot values and their shard coordinates correspond one to one",
  "Splitting a blot into shard and shard value and joining them again gives the blot reduced to the index's range, every in-range pair is joined to a distinct in-range blot and splits back into itself, and looking up a blot or its reduced form gives the same documents. Packing a document id and a blot into a posting and unpacking it gives both back.",
  ["inputs", "configurations"], "every 32-bit blot, every shard count and every document id",
  "No test calls these functions.",
  ["index.go", "query.go", "shatter.go", "post/t.go"],
  [("modulo arithmetic on the shard count", "index.go SplitBlot/JoinBlot, query.go Get, shatter.go blot"), ("64-bit packing", "post/t.go")],
  observe=["Index.SplitBlot", "Index.JoinBlot", "Query.Get", "post.Make"])

p("P30", "The integer Bloom filters and trigrams of the attic keep their laws",
  "A Bloom filter built from any size, hash count or configuration never denies a member that was added, sets only bits inside its set, reports them consistently, and keeps the estimated false positive rate approximately for the estimated parameters. Trigrams always stay within the alphabet, print as the last three letters read, and the two ways of enumerating a text's trigrams agree.",
  ["inputs", "configurations"], "every set of integers and filter size; every token sequence",
  "The tests use two fixed filter sizes with random members, and print trigrams without asserting anything.",
  ["attic/ibloom/fnv32.go", "attic/ibloom/estimate.go", "attic/ibloom/config.go", "attic/trigram/t.go"],
  [("k derived positions per value", "attic/ibloom/fnv32.go Ones"), ("base-37 shifting", "attic/trigram/t.go Shift")],
  observe=["ibloom.Filter", "trigram.FromTokens", "trigram.VisitTokens"])

p("P31", "A failing read is reported and passes; partial reads change no answer",
  "When the operating system refuses to open or to read a file while an index is opened, queried, opened for appending, or a document is loaded or searched for a blot, then the call reports an error or gives the right answer, never a wrong or shortened one, and whatever was open goes on giving right answers once reading works again; no file is changed. Reads that return less than asked for, as the system may do, change no answer.",
  ["fault_sequences", "inputs"], "every sequence of failing and partial reads during opening, lookups, extraction, loading and locating",
  "No test makes a read fail or come back short.",
  ["index.go", "query.go", "doc.go", "fnames.go", "config.go", "dmd/t.go", "internal/shard/index.go", "internal/shard/posts.go", "internal/shard/read_state.go", "internal/shard/poster.go"],
  [("errors of reads are handed up, reads are positioned", "internal/shard/posts.go readNext, dmd/t.go Lookup, query.go Get/fillBlot"), ("failed openings are abandoned", "index.go abandon, indexer.go abandon")],
  observe=["OpenIndex", "OpenIndexer", "Query.Get", "Query.Next", "Doc.Load", "FindBlot", "FindBlots"])

p("P32", "Commands use exactly the index they are told to, and failure shows in the status",
  "Every command works on the index named by -r, else by DUPIROOT, else the one in the home directory, and on no other. Commands that read change no file. Unknown verbs and options, malformed blots and numbers, missing files and missing indexes make the command exit with failure and a message instead of an answer, and no arguments make it crash or run forever.",
  ["inputs", "configurations"], "every argument list, environment and set of indexes at the places a command could take",
  "cmd/dupi has no tests.",
  ["cmd/dupi/dupi.go", "cmd/dupi/verb.go", "cmd/dupi/inspect.go", "cmd/dupi/extract.go", "cmd/dupi/blot.go", "cmd/dupi/unblot.go", "cmd/dupi/like.go", "cmd/dupi/index.go"],
  [("option, then environment, then home directory", "cmd/dupi/dupi.go getIndexRoot"), ("errors of verbs end the program with failure", "cmd/dupi/dupi.go main")],
  observe=["standard output", "standard error", "exit status", "directory snapshots"])

p("P33", "Importing a mail export makes one document of the text of every message",
  "The importer of mail exports (dupenron) adds to the new index a document for every record of the file of comma separated records it is given, under the path of that file. Its words are those of the second field after the first empty line, or of the whole field if there is none, however fields are quoted and lines end: every blot lists as many documents as there are messages with it. Asked to copy (-o), it prints the first n records, equal to those of the file. A missing or malformed file, or a place where an index is, makes it fail.",
  ["inputs", "configurations"], "every sequence of records, way of quoting and shape of index",
  "cmd/dupenron has no tests.",
  ["cmd/dupenron/main.go", "indexer.go", "shatter.go"],
  [("text after the first empty line of the second field", "cmd/dupenron/main.go indexEnron"), ("copy of the first records", "cmd/dupenron/main.go oEnron")],
  observe=["dupi.Index", "standard output", "exit status"])

p("P34", "Posting sets on Bloom filters (attic) obey the laws of sets",
  "A posting set has every posting that was added to it or to a set it was united with, until an intersection takes it away, and again when it is added again. Union and intersection change only the set they are called on, to exactly the union or intersection of the bits; listing the bits gives them all in order; a set is empty exactly if no bit is set; the full set has everything.",
  ["inputs", "histories"], "every history of adding, uniting and intersecting over sets of one filter",
  "TestTridat adds random postings to one set; it never unites, intersects or lists.",
  ["attic/bposts.go", "attic/ibloom/fnv32.go"],
  [("byte-wise operations on the bits of a filter", "attic/bposts.go Union/Intersect/Ones/IsZero"), ("repeats in a row are not counted", "attic/bposts.go AddPost")],
  observe=["bposts (exported to the harness by a build overlay)"])

p("P35", "The stored form of an index stays the same",
  "An index whose files have the form which the pinned version stores (configuration, path tree, document records, posting lists in linked blocks and their heads), wherever its lists are cut into blocks, opens and answers everything as its documents require, and can be appended to. The files of an index built or appended to hold in that form exactly the documents, paths and postings that were added, so that any version can use them, and words keep their fingerprints.",
  ["histories", "inputs"], "every set of documents, every way to cut and order the blocks of the lists, every division into sessions",
  "Tests only read what the same build has just written, so a change of the form made in the writer and in the reader passes them all, and all indexes users have are lost.",
  ["config.go", "fnames.go", "dmd/adder.go", "dmd/t.go", "internal/shard/poster.go", "internal/shard/posts.go", "internal/shard/indexer.go", "internal/shard/index.go", "blotter/circ.go"],
  [("byte order, number encodings, order and links of the stored records", "internal/shard/poster.go flushTo, internal/shard/posts.go readNext, internal/shard/indexer.go flushIix, fnames.go write, dmd/adder.go flush"), ("the fingerprints of stored postings", "blotter/circ.go, token/t.go")],
  observe=["OpenIndex", "OpenIndexer", "Indexer.Close", "Query.Get", "Query.Next", "Index.Stats"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        for a in x["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", a)), a
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
