"""E01: data that could not be written is reported to the caller.

Failure-flow analysis of every write to and every closing of an output stream, and a typestate rule for streams written
through a callback that has no result of its own."""
import os
from multiprocessing import Pool
from .. import ir, model, report, build, paths, failflow, written, resources
from ..failflow import NULLV, POSV, INF

_P = None
# diagnostics, not data
DIAG = {"rlog_int", "print_message_int", "ms_rlog", "ms_rlog_l", "ms_rlog_emit"}
E0 = frozenset()


def _jobs(P):
    out = []
    wr = written.writers(P)
    for f in P.roots():
        if f.skipped or f.file.startswith("yyjson") or f.file.startswith("logging"):
            continue
        for n, i in enumerate(x for x in f.insts() if x.op == "call"):
            c = resources.norm(model.callee(i) or "")
            if c == "fwrite" and written.output(P, f, i.args[3]) and f.rty != "void":
                out.append((f.name, n, "write"))
                out.append((f.name, n, "unfinished"))
            if c in written.RAW and f.rty != "void":
                out.append((f.name, n, "rawwrite"))
            if c in written.FINISH and written.output(P, f, i.args[0]) and f.rty != "void":
                out.append((f.name, n, "finish"))
            for k, a in enumerate(i.args):
                if getattr(a, "k", None) == "fn" and resources.norm(a.n) in {resources.norm(w) for w in wr}:
                    out.append((f.name, n, "callback"))
            if c == "ferror" and written.output(P, f, i.args[0]) and f.rty != "void":
                out.append((f.name, n, "indicator"))
    return out


def _run(job):
    fn, n, kind = job
    P = _P
    f = P.fn(fn)
    i = [x for x in f.insts() if x.op == "call"][n]
    X = paths.Explorer(f)
    bad = {}
    err = None
    try:
        if kind in ("callback", "unfinished"):
            X.run(written.Checked(X, i, kind == "callback", lambda s, r, why: bad.setdefault(r.where(), why)))
        else:
            facts = {"write": [(0, INF, E0)], "finish": [(-INF, -1, E0)], "rawwrite": [(-INF, -1, E0)], "indicator": [(1, INF, E0), (-INF, -1, E0)]}[kind]
            for fact in facts:
                X = paths.Explorer(f)
                X.run(written.Short(X, i, fact, lambda s, r, logged: bad.setdefault(r.where(), kind)))
    except Exception as e:
        err = str(e)
    return fn, kind, resources.norm(model.callee(i) or "?"), i.where(), sorted(bad.items()), err


def check():
    global _P
    R = report.Report("E01")
    R.rule("write: a write of fewer elements than requested to an output stream never leads to a return of success; "
           "finish: nor does a failed close or flush of an output stream; indicator: nor does a set error indicator.")
    R.rule("descriptor: a routine without a result does not write through a descriptor, and elsewhere a failed write to a descriptor never "
           "leads to a return of success.")
    R.rule("unfinished: after a write every return that may be a success has closed or flushed a stream.")
    R.rule("callback: where a stream is handed to a packing routine together with a handler that writes it and returns nothing, every return "
           "that may be a success has read the stream's error indicator before the stream is closed, and has closed or flushed it.")
    _P = P = ir.load(inlined=True)
    wr = written.writers(P)
    for w in sorted(wr):
        f = P.fn(w)
        R.count("handlers_without_result")
        # the handler itself says what happened
        for n, i in enumerate(x for x in f.insts() if x.op == "call"):
            if resources.norm(model.callee(i) or "") == "fwrite":
                X = paths.Explorer(f)
                silent = []
                X.run(written.Short(X, i, (0, INF, E0), lambda s, r, logged: logged or silent.append(r.where())))
                for r in silent:
                    R.violation("%s:silent" % w, "%s: a write that fails at %s is not reported" % (w, i.where()))
    raw = set()
    for f in P.roots():
        if f.skipped or f.file.startswith("yyjson"):
            continue
        for i in f.insts():
            if i.op == "call" and resources.norm(model.callee(i) or "") in written.RAW:
                if f.rty == "void":
                    raw.add(f.name)
                    R.violation("%s:unreported" % f.name, "%s writes with %s at %s, which leaves no error indicator, and has no result to report a failure"
                                % (f.name, resources.norm(model.callee(i)), i.where()))
    jobs = _jobs(P)
    import gc
    gc.freeze()
    with Pool(int(os.environ.get("MSA_JOBS", "8"))) as pool:
        for fn, kind, c, where, bad, err in pool.imap_unordered(_run, jobs, chunksize=1):
            R.count(kind + "_sites")
            R.sample("%s %s: %s at %s" % (kind, fn, c, where))
            if err:
                R.undecided("%s at %s: %s" % (fn, where, err))
            for r, why in bad:
                if kind in ("callback", "unfinished"):
                    R.violation("%s:%s:%s" % (fn, c, kind), "%s may return success at %s although %s after %s at %s" % (fn, r.split(" <-")[0], why, c, where))
                else:
                    R.violation("%s:%s:%s" % (fn, c, kind), "%s returns success at %s although %s at %s failed" % (fn, r.split(" <-")[0], c, where))
    R.need("finish_sites", 2)
    if not raw and R.cov.get("write_sites", 0) + R.cov.get("callback_sites", 0) < 3:
        raise build.AnalysisError("E01: no writes found")
    R.assume("A record handler supplied by an application reports its own failures.")
    return R.finish()
