"""E03: failures are explained in the log before an error is returned."""
import os
from multiprocessing import Pool
from .. import ir, model, report, build, paths, failflow, explained, resources

_P = None
_E = None
# documented failures that are expected outcomes and say nothing
SILENT = {
 ("ms3_detect", -1): "-1 also says that the buffer holds no record",
 ("ms_readleapseconds", -2): "the environment variable is not set",
}


def _run(fn):
    P = _P
    f = P.fn(fn)
    X = paths.Explorer(f)
    bad = {}
    cl = explained.Silent(X, _E, lambda s, r, v: (fn, v[0]) in SILENT and v[0] == v[1] or bad.setdefault(r.where(), s.trace))
    cl.prog = P
    try:
        X.run(cl)
    except Exception as e:
        return fn, [], str(e)
    return fn, sorted(bad), None


def check():
    global _P, _E
    R = report.Report("E03")
    R.rule("For every routine documented to log on error: every path to a failing return passes a message of warning or error level, "
           "or the failure of a routine that itself is shown (or documented and checked) to log on failure.")
    _P = P = ir.load(inlined=True)
    doc = explained.documented()
    cand = {f.name for f in P.defined if not f.skipped and not f.file.startswith("yyjson") and f.rty in ("i32", "i64", "ptr")
            and resources.norm(f.name) not in failflow.NONE and f.name != "main"}
    doc &= {f.name for f in P.defined if not f.skipped}
    import gc
    gc.freeze()
    explains = set(cand)
    bad = {}
    todo = set(cand)
    rounds = 0
    while todo:
        rounds += 1
        _E = frozenset(explains)
        gone = set()
        with Pool(int(os.environ.get("MSA_JOBS", "8"))) as pool:
            for fn, b, err in pool.imap_unordered(_run, sorted(todo), chunksize=1):
                R.count("functions_followed")
                if err and fn in doc:
                    R.undecided("%s: %s" % (fn, err))
                bad[fn] = b
                if (b or err) and fn not in doc:
                    gone.add(fn)
        gone &= explains
        explains -= gone
        todo = {f.name for f in P.defined if f.name in cand and any(x in f.calls for x in gone)} if gone else set()
    R.count("documented_routines", len(doc))
    R.count("routines_shown_to_log", len([f for f in explains if not bad.get(f)]))
    for fn in sorted(doc):
        R.sample(fn)
        for b in bad.get(fn, ()):
            R.violation("%s:%s" % (fn, b.split(" ")[0]), "%s returns a failure at %s on a path without a message" % (fn, b.split(" <-")[0]))
    R.assume("The failures expected as outcomes: " + "; ".join("%s %d (%s)" % (k[0], k[1], w) for k, w in SILENT.items()) + ".")
    R.assume("A comparison of the count returned by msr3_unpack_data() with the expected count holds when it did not fail; a product of a non-zero sample count and a sample size is not zero.")
    R.assume("Internal coders are called with buffers and non-zero sizes.")
    R.need("documented_routines", 40)
    return R.finish()
