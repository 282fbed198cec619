"""R03: every allocation failure is detected before the memory is used; a failed growth keeps the old block."""
import os
from multiprocessing import Pool
from .. import ir, model, report, build, paths, leak, resources, nullness, failflow
from . import e02

_P = None
_N = None


ALLOC = set(resources.ACQ_RET) | set(resources.REALLOC)


def _jobs(P):
    out = []
    for f in P.roots():
        if f.skipped:
            continue
        for n, (i, role, kind) in enumerate(leak.sites(f)):
            out.append((f.name, n, "Null"))
            if role is None and resources.norm(model.callee(i)) in ALLOC and f.name != "main" and not f.name.startswith("_priv_"):
                out.append((f.name, n, "Err"))
            if kind == "grown block" and f.name != "main":
                out.append((f.name, n, "Grow"))
    cost = {f.name: sum(len(b.insts) for b in f.blocks) for f in P.defined if not f.skipped}
    out.sort(key=lambda j: -cost[j[0]])
    return out


def _run(job):
    global _N
    fn, n, cls = job
    P = _P
    if _N is None:
        _N = nullness.Nullness(P)
    f = P.fn(fn)
    i, role, kind = list(leak.sites(f))[n]
    X = paths.Explorer(f)
    bad = {}
    err = None
    try:
        if cls == "Grow":
            X.run(leak.Grow(X, i, role, lambda c, s, r: bad.setdefault(r.where(), 1)))
        elif cls == "Err":
            c = resources.norm(model.callee(i))
            mode = e02.fallback(fn, c, i.srcfn, "fails")
            X.run(failflow.Fail(X, i, failflow.NULLV, lambda s, r, logged: mode == "any" or mode == "log" and logged or bad.setdefault(r.where(), 1)))
        else:
            X.run(nullness.NullFlow(X, i, role, _N, lambda s, r: bad.setdefault(r.where(), 1)))
    except Exception as e:
        err = str(e)
    return fn, cls, model.callee(i) or "?", role, kind, i.where(), list(bad), err


def check():
    global _P
    R = report.Report("R03")
    R.rule("For every allocation, growth or open request (resource table of msa/resources.py): on the paths on which it "
           "fails, the null result or the null handle is not dereferenced, copied through, or passed to a routine that "
           "dereferences that argument (routines outside the source by table, others by summary).")
    R.rule("On the paths on which an allocation fails the function does not return success.")
    R.rule("A growth request that fails leaves the old block reachable or releases it.")
    _P = P = ir.load(inlined=True)
    jobs = _jobs(P)
    R.count("functions", len({j[0] for j in jobs}))
    import gc
    gc.freeze()
    with Pool(int(os.environ.get("MSA_JOBS", "8"))) as pool:
        for fn, cls, c, role, kind, where, bad, err in pool.imap_unordered(_run, jobs, chunksize=1):
            R.count({"Null": "failing_requests_followed", "Err": "failing_allocations_followed_to_the_result", "Grow": "growth_sites_followed"}[cls])
            R.sample("%s: %s %s at %s" % (fn, kind, c, where))
            if err:
                R.undecided("%s at %s: %s" % (fn, where, err))
            for r in bad:
                if cls == "Null":
                    R.violation("%s:%s:%s" % (fn, resources.norm(c), r.split(" ")[0].rpartition(":")[0] + ":" + r.split("(")[1].split(")")[0]),
                                "the result of %s at %s is used at %s on a path on which the request failed" % (resources.norm(c), where, r))
                elif cls == "Err":
                    R.violation("%s:%s:error" % (fn, resources.norm(c)),
                                "%s at %s fails and success is returned at %s" % (resources.norm(c), where, r))
                else:
                    R.violation("%s:%s:grow" % (fn, resources.norm(c)),
                                "the block grown by %s at %s is lost when the request fails (return at %s)" % (resources.norm(c), where, r))
    R.need("failing_requests_followed", 70)
    R.need("failing_allocations_followed_to_the_result", 35)
    R.need("growth_sites_followed", 5)
    R.assume("Routines outside the analysed source dereference the arguments the table in msa/nullness.py lists.")
    return R.finish()
