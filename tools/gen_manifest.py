#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
REF = "model-based property testing: generated histories against a reference inverted index"
T = {
 "P01": (REF, "exploration", "Generated document sets, all lookups compared with an independent reference index; trusts the single-word hash, which P09 examines."),
 "P02": ("metamorphic property testing: planted shared word runs must meet", "exploration", "Generated pairs with a planted run at every kind of position; the oracle does not know the hash."),
 "P03": (REF + ", generated batch-size sequences", "exploration", "Every iteration is compared as a whole with the reference."),
 "P04": (REF + ", generated slot capacities", "exploration", "Pages of every blot are concatenated and compared; capacities 0 (no room) are only used for single lookups."),
 "P05": ("stateful property testing: generated session splits against the one-session reference", "exploration", "All answers after drawn sessions and at the end."),
 "P06": ("differential property testing over generated parallelism and document sizes (thorough: under the race detector)", "exploration", "Schedules are those the runtime produces for the generated loads, not enumerated."),
 "P07": ("differential property testing: generated concurrent operations against the same run alone (thorough: under the race detector)", "exploration", "Schedules are sampled by repetition on 8 processors."),
 "P08": ("property-based testing of partition laws over structured and raw byte strings", "exploration", "Laws are checked against unicode.IsLetter/IsDigit directly."),
 "P09": ("metamorphic property testing: exclusive-or law, case, order and history invariance", "exploration", "The hash of one word is a black box; its spread is tested on structured word families."),
 "P10": ("property-based testing against independently enumerated windows of real files", "exploration", "Files and slices of files."),
 "P11": ("property-based testing of generated path sets against path cleaning", "exploration", "Paths of arbitrary bytes over several sessions."),
 "P12": ("stateful property testing against an in-memory table", "exploration", "Record counts around buffer sizes, extreme values."),
 "P13": ("stateful property testing of posting streams against in-memory lists", "exploration", "All 65536 values read back; lists over several blocks; document ids up to 2^31."),
 "P14": ("round-trip and robustness property testing of generated configurations", "exploration", "Valid configurations are used on a real index; invalid ones must be refused within the time limit."),
 "P15": ("stateful property testing of open and close histories against a readers-writer model", "exploration", "In one process and across processes; path spellings with symbolic links."),
 "P16": ("stateful property testing of lock histories against a readers-writer model", "exploration", "In one process and across processes."),
 "P17": ("stateful property testing with byte snapshots and descriptor, lock and goroutine accounting", "exploration", "Failures are those reachable without fault injection (missing, damaged, existing, unreadable files)."),
 "P18": ("crash-point enumeration of recorded file operations of generated sessions against the reference", "fault_enumeration", "Crash states are prefixes of the recorded sequence of system calls, as a killed process leaves them (no reordering by a power loss)."),
 "P19": ("fault-injection property testing: write failures at generated points against the reference", "fault_enumeration", "Write failures are injected by the operating system's file size limit and by hooks in the standard library (opening, writing whole or in part, truncating, making directories)."),
 "P20": ("mutation fuzzing of index files against error-or-subset oracles", "exploration", "Truncations of every file, byte mutations of path, document and posting files."),
 "P21": ("model-based property testing of the command on generated directory trees", "exploration", "Runs the real command as an unprivileged user."),
 "P22": ("model-based property testing of the command over thresholds and forms", "exploration", "Runs the real command; threshold computed from the reference statistics."),
 "P23": ("model-based property testing of the commands against independent windows", "exploration", "Runs the real command."),
 "P24": ("model-based property testing of the command against verbatim windows", "exploration", "Runs the real command."),
 "P25": (REF + ", statistics", "exploration", "Library figures and both forms of the command."),
 "P26": ("property-based testing of ranges against file slices", "exploration", "Ranges 0:0 mean the whole file."),
 "P27": ("stateful property testing with snapshots of everything outside the index", "exploration", "All operations run as an unprivileged user in a scratch directory."),
 "P28": ("stateful property testing of copies and moves against per-directory models", "exploration", "Spellings with symbolic links."),
 "P29": ("property-based testing of arithmetic laws, exhaustive over pairs per index", "exploration", "Shard counts 1 to 7 (thorough: to 17); the arithmetic alone up to 300."),
 "P31": ("fault-injection property testing: read failures and partial reads at generated points against the reference", "fault_enumeration", "Reads and openings fail by hooks in the standard library."),
 "P32": ("model-based property testing of the command over places, spellings and malformed arguments", "exploration", "Runs the real command."),
 "P33": ("model-based property testing of the importer on generated exports", "exploration", "Runs the real command; the ranges it gives documents are not claimed."),
 "P34": ("model-based property testing of histories of set operations", "exploration", "The positions of a posting are those the filter gives, which P30 examines."),
 "P35": ("differential property testing against an independent writer and reader of the stored form", "exploration", "The form is that of the pinned commit; reading indexes of other tokenizers is not claimed."),
 "P30": ("property-based testing of set laws and differential enumeration", "exploration", "False positive rate tested statistically with wide margins."),
}
done = set(open(os.path.join(V, "tools", "implemented")).read().split())
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": [], "not_applicable": [],
     "notes": "Checks need no hooks in /repo. See DESIGN.md."}
for i in ids:
    if i not in done:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
        continue
    t, lv, note = T[i]
    m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": t, "level": lv, "level_note": note})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
