#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
BASE = "Decided on the LLVM IR of every library translation unit compiled from /repo on each run; nothing is executed. "
C = {
 "C01": ("path-sensitive lock typestate with interprocedural summaries", BASE + "Every path of every function: the net lock change at each exit of every entry point must be zero; double lock/unlock and lost lock functions are reported too."),
 "C02": ("lock-order graph over the call graph (may/must lock sets), blocking-call rule", BASE + "Edges between kinds of locks from every call site made with a lock held; no cycle, no self loop on a non-recursive lock, nothing held at a waiting call. The SMTP queue's inversions are recorded as known findings."),
 "C03": ("interprocedural lockset analysis against a confirmed field-to-lock table", BASE + "Every access of every listed shared field must be made with its lock certainly held, in the function or by all its callers."),
 "C04": ("interprocedural may-held lock sets at every application callback site", BASE + "The locks possibly held on entry of every function are propagated over the call graph; every indirect call that runs application code must see the empty set. The SMTP client's callbacks, which run under its session and queue locks, are recorded as known findings."),
 "C05": ("path-sensitive ownership (typestate) analysis of heap objects with interprocedural summaries", BASE + "Every heap object acquired in a function is followed on all its paths until released, stored in something that outlives the call, or returned; a path that drops the last reference is reported. Functions confirmed correct for reasons beyond the analysis are listed by name."),
 "C06": ("path-sensitive typestate analysis of released objects with interprocedural summaries", BASE + "Every dereference, transfer and release on every explored path is checked against the objects already released on it; members left referring to released memory at a return are reported too. Functions confirmed correct for reasons beyond the analysis are listed by name."),
 "C07": ("path-sensitive release analysis of destructors (interprocedural summaries), member by member against the confirmed ownership", BASE + "At every return on which an object was released, each of its owned members must have been released or be empty; elements behind members and container callbacks are checked for the existence of their release."),
 "C08": ("must-initialise byte dataflow with interprocedural (result-dependent) summaries + compiler uninitialised-use diagnostics", BASE + "Every object allocated without clearing and every address-taken local: each read, each call that may read and each return must be preceded on every path by writes of the bytes concerned. Places the flow argument cannot establish on the confirmed tree are listed and not judged."),
 "C09": ("path-sensitive null-dereference analysis of pointer arguments (interprocedural summaries)", BASE + "Every path of every public function: a pointer argument that accepts NULL on the confirmed tree is never dereferenced, in the function or in what it calls, where it may be NULL."),
 "C10": ("who-may-call rule for the raw heap interface + SCEV-based wipe-before-free analysis of the allocator", BASE + "Every raw heap call site is enumerated; in the allocator every path to the system free must pass a non-removable wipe covering the block."),
 "C11": ("path-sensitive ownership analysis of descriptors + flag dataflow + dominance rule for signal blocking", BASE + "Every descriptor obtained must be closed or handed over on every path; every creating call must yield a close-on-exec descriptor on every path; sends and pipe writes must be protected from SIGPIPE."),
 "C12": ("effect analysis of the code a forked child executes (CFG region + call graph)", BASE + "All instructions reachable only in the child branch and their callees are checked against the async-signal-safe list."),
 "C13": ("who-may-call rule over all resolved call sites", BASE + "No call to a locale-dependent C function with locale-dependent effect."),
 "C14": ("who-may-call rule + effect rule on static storage", BASE + "Deny list from POSIX/glibc; stores to static storage must hold a lock, be atomic or belong to confirmed initialisation."),
 "C17": ("bijection and totality check of every mapping table and switch (enum to text, text to enum, code translations)", BASE + "Tables, switches and comparison chains are read from the IR and checked for totality, injectivity, round trip and against confirmed texts."),
 "C18": ("table verification against the published standards (Unicode data, WHATWG/ISO mappings, CRC/SHA constants) shipped with the installed tools", BASE + "Every constant table of the character set, codec and checksum code is decoded from the IR and compared entry by entry."),
 "C20": ("call-graph cycle analysis with depth-counter dataflow (strongly connected components) + computed stack allocation rule", BASE + "Every cycle of the call graph must be limited by an argument or member counted up each round and compared with a constant before going deeper (limit x stack frame within 4 MiB), or be one of the confirmed cycles that do not follow a document; the tree readers' depth counters are checked; no variable length array or alloca."),
 "C15": ("exhaustive conditional constant propagation over the outcomes of every verification step (reachability of the connected state)", BASE + "All combinations of verification level and failing step are evaluated; reaching the connected state or event with a required step failed, or without it, is a violation. Name matching and protocol mapping are evaluated for every flag and protocol set."),
 "C21": ("conditional value-set propagation from every failing call to the returns (dataflow over feasible edges, interprocedural)", BASE + "For every fallible call each failing result is put in and the sets of values the function may still return are computed over the feasible edges, loops in two rounds; where the confirmed tree can only return a failure, it must stay so."),
 "C24": ("conformance of registered operation tables + path-sensitive null guards at optional slots", BASE + "All functions put into callback slots (constant tables, stores, layer registrations) are compared with the confirmed interface of each back end; every call of an optional slot must be guarded on every path; constructors of required slots never store null."),
 "C25": ("type check of formatting calls (constant formats, conversion/argument agreement)", BASE + "Every call of a library formatting function is checked, formats resolved through constants, selects and phis."),
}
GEN = "quantifies over runtime values; deciding it needs functional reasoning about computed contents, which no sound static rule in reach bounds, and a runtime or solver check would be another family"
NA = {
 "C16": "whether a connection counts as failed, a statement as a query and a transaction as open is decided by error codes that back ends return through callback tables at run time; the return of pooled handles on every path is decided where it is an ownership fact (C05, C06), and the dropped result of a commit, rollback or fetch by C21, but the state-dependent rest (never handed out again, retried exactly when allowed) needs the history of the pool, which no static rule built here bounds",
 "C19": "the writers escape by hand-written loops and character tables inside the writing function (JSON, CSV, SQL identifiers, URL query), and they place data unescaped on purpose where an earlier validation in another call (at insertion into the header or document) has made it harmless; a taint rule on calls of an escaping function therefore flags correct code, and deciding that a loop escapes needs its computed language",
 "C22": "most output parameters here are optional, written through helper objects or conditionally on a run-time mode, and success and assignment are correlated through values (lengths, states) rather than branches; a must-assign rule gave alarms on correct functions, so it is not claimed (uninitialised outputs that a caller then reads are decided by C08)",
 "C23": "antisymmetry relates the results of two runs on exchanged operands, through string and numeric library comparisons; that is a relational property of computed values for a solver or a test, not a flow rule. (Shape rules for single comparison functions were rejected: each flags correct rewritings)",
 "C26": "the bounds of most writes are lengths computed at run time (parser cursors, growing buffers, negotiated sizes); a sound interval analysis leaves far more undecided than decided writes, and an unsound one would raise alarms on correct code, so it is not claimed (the facets with a sound rule are claimed separately: use after release C06, uninitialised memory C08, NULL handles C09, format arguments C25)",
 "C50": GEN + " (equality of a document with its reparsed serialisation)",
 "C51": GEN + " (calendar arithmetic over all instants and rule sets)",
 "C52": GEN + " (equality of container contents with an abstract sequence)",
 "C53": "exactly-once and ordering are liveness/temporal properties over schedules and queue contents; static rules decide only the locking around the queues (C01-C04)",
 "C54": GEN + " (numeric correctness of decimal and parsing arithmetic)",
 "C55": GEN + " (language equivalence of compiled automata)",
 "C56": GEN + " (equality of parse results over all fragmentations)",
 "C57": GEN + " (equality of byte streams through buffering layers)",
 "C58": "at-most/at-least-once delivery of log messages depends on runtime queue contents and scheduling; not expressible as a sound flow rule here",
 "C59": "delivery accounting depends on the runtime behaviour of the remote servers and of the queue over time",
}
PENDING = "no sound rule built for it (yet): a rule precise enough to stay quiet on correct code is not in place, so it is not claimed"
checks = []; na = []
for p in props:
    i = p["id"]
    if i in C:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i, technique=C[i][0], level="other", level_note=C[i][1]))
    else: na.append(dict(property=i, reason=NA.get(i, PENDING)))
json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
