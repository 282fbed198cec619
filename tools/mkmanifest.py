#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
CLAIM = {
 "R04": ("who-may-call analysis over the resolved call graph", "Every allocation site of the library is classified; assumes the embedded JSON parser honours a non-null allocator object."),
 "L01": ("effect analysis: writes to static storage per public root, non-reentrant callee rule", "Whole library; decides the shared-state part of thread safety (no data race through hidden state), not races on an object the caller shares."),
 "L02": ("effect and format-string rules over the type-checked IR", "Every call of every library function; formats resolved through phi/select and forwarded parameters."),
 "F06": ("conditional constant propagation per encoding, sibling cross-check", "All 256 encodings and 256 type letters, exact."),
 "F07": ("constant-initialiser comparison against recomputed definitions", "Every entry of every reference table, exact."),
}
try:
    from claims import CLAIM as C2
    CLAIM.update(C2)
except ImportError:
    pass
NA = {
 "L03": "The number and order of stored messages after a history of calls is runtime state of a linked list; its structural parts are claimed elsewhere (release of entries R01/R02, fixed-size text M04, failure reporting E02).",
 "T03": "Agreement of links and counters with the nodes linked, over lists of any length and any sequence of operations, needs shape invariants of unbounded heap structures; its structural parts are claimed elsewhere (dangling links R02/R05, failure R03, buffers of a segment T04, progress along the links T01).",
 "N01": "Exactness of calendar arithmetic is a statement about numerical results over all times; no structural clause is a necessary condition beyond table contents (F07) and index bounds (M05).",
 "N02": "Round-trip equality quantifies over sample values; only the bounds (M02, M03), sizes (F06) and byte order (F02) have structural form.",
 "N03": "Coverage and merge decisions depend on floating-point times and tolerances of runtime records; the link structure is T03.",
 "N04": "Equality of outcomes over delivery schedules is a relational runtime property; progress and bounds of the buffer handling are claimed elsewhere (T01, M04).",
 "N05": "Acceptance of a pattern language is a runtime relation between strings; static shape gives no verdict.",
 "N06": "Numerical precision of rate conversion has no structural necessary condition.",
 "N07": "Value semantics of a JSON document after a history of edits is runtime state.",
 "N08": "Exactly-once, in-order flushing depends on runtime counts; the record bytes' safety and error accounting are claimed (M03, E02, T04).",
 "N09": "Value preservation and precision tests are numerical.",
 "N10": "Numerical output of reports.",
 "N11": "Third-party parser correctness over all JSON texts; outside structural reach (its tables are checked in F07).",
 "N12": "Time and space bounds depend on runtime quantities; only progress is structural (T01).",
}
checks = []
for p in ids:
    if p in CLAIM:
        t, n = CLAIM[p][:2]
        lvl = CLAIM[p][2] if len(CLAIM[p]) > 2 else "other"
        checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                       "technique": t, "level": lvl, "level_note": n})
na = [{"property": p, "reason": NA.get(p, "Check not built yet.")} for p in ids if p not in CLAIM]
json.dump({"version": 1, "setup_cmd": "python3 -m msa.build", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
