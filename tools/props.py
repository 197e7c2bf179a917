#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # id, title, statement, over, qtext, why, files, mechanism, observe
C = {}   # id -> (technique, note)
NA = {}  # id -> reason
def prop(id, title, statement, over, qtext, why, files, mech, observe, check=None, na=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe}})
    if check: C[id] = check
    else: NA[id] = na

M = ["glob/glob.go", "glob/tree.go", "gglob/gglob.go", "gglob/gtree.go", "gtags/tagged_term.go", "gtags/items.go", "gtags/tree.go", "pkg/items/items.go", "pkg/items/tree.go"]

prop("C01", "Matching is read-only",
 "Matching a string, path or tag set against a parsed pattern or a pattern tree, and formatting or comparing parsed patterns, never writes the pattern, the tree, its arguments (other than the store or output buffer that was passed) or any package-level state. So any number of goroutines may match against one shared matcher at the same time without synchronisation.",
 ["inputs", "schedules"], "every matcher, every matched string and every interleaving of concurrent matches",
 "the tests match from one goroutine and look only at the result, a hidden write needs a specific input or interleaving to show",
 M, [("match functions have no writes through the receiver, the arguments or globals", "pkg/items, glob, gglob, gtags, pkg/utils")],
 ["Match", "MatchByParts", "MatchByTags", "MatchByTagsMap"],
 ("interprocedural mutation (effect) analysis over SSA", "every function of the module is summarised by the memory regions it can write (fixpoint, interface calls resolved to all implementers); trusted: the table of standard library effects, Store implementations of the caller"))
prop("C02", "Data passed by the caller is never modified",
 "Slices, maps and parsed patterns which a caller passes to parsing, registration, matching, splitting or expansion are not written: only the receiver of a registration, the store, an output buffer or a parameter documented as filled in place changes. In particular parts, tag and condition slices and tag maps keep their content and order.",
 ["inputs"], "every argument of every exported operation, with every content",
 "the tests build fresh arguments and do not compare them after the call",
 M + ["expand/expand.go", "gglob/utils.go"], [("no operation writes through a reference argument", "all packages")],
 ["arguments after the call"],
 ("interprocedural mutation (effect) analysis over SSA", "the write summary of each exported operation must not contain memory reachable from its inputs; trusted: the table of standard library effects"))
prop("C03", "Results depend only on the arguments",
 "Parsing, registration, matching, expansion and escaping are functions of their arguments and receiver: repeating a call gives the same result and the same order of reports, whatever was called before and from how many goroutines. No package-level state is kept between calls, and no result depends on time, randomness, addresses, scheduling or map iteration order.",
 ["inputs", "schedules", "histories"], "every call in every history of earlier calls of the process",
 "a test runs each call once in a fresh process; dependence on earlier calls or on map order shows only sometimes",
 M + ["expand/expand.go", "pkg/escape/unescape.go", "pkg/escape/url.go"], [("package variables are written only by initialisation; map iteration only where order does not matter", "all packages")],
 ["results of repeated calls"],
 ("reachability of nondeterminism sources and package state over SSA call graph", "scans every function reachable from 50 entry points; trusted: the listed standard library functions are functions of their arguments"))
prop("C04", "Returned text never changes afterwards",
 "A string returned to the caller or kept in a parsed pattern never changes after it was returned, whatever operations run later on the same or other objects. In particular no returned string shares memory with a buffer which is reused or written later.",
 ["inputs", "histories"], "every returned string and every later sequence of operations",
 "tests compare a result at once; the sharing shows only after the buffer is written again",
 ["pkg/utils/string.go", "expand/expand.go", "pkg/escape/unescape.go"], [("conversions of bytes to strings copy, or own a fresh buffer", "pkg/utils.CloneString, expand.expand")],
 ["returned strings after later calls"],
 ("escape/ownership analysis of unsafe string conversions over SSA", "each conversion without a copy must be over a buffer of the same call with no reachable later write or escape; only strings built through unsafe can change in Go"))

import glob as _g
for f in sorted(_g.glob(os.path.join(V, "tools", "props_*.py"))):
    exec(open(f).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
man = {"version": 1,
 "setup_cmd": "cd analyzer && GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor go build -o /dev/null .",
 "checks": [{"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "./run.sh " + i, "technique": C[i][0], "level": "other", "level_note": C[i][1]} for i in sorted(C)],
 "not_applicable": [{"property": i, "reason": NA[i]} for i in sorted(NA)],
 "notes": "static analysis only: a repository-specific analyzer (analyzer/, Go, golang.org/x/tools vendored) over the type-checked SSA form of /repo's working tree; no hooks in /repo."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
