"""R01: everything acquired is released, stored in an object the caller can release, or returned.

Typestate analysis over the SSA form with path-sensitive abstract execution (msa/paths.py): each acquisition
site is followed, one at a time, along every path of the function that contains it (static helpers and
everything of the caller inlined), including the failure return of every call made on the way."""
import os, time
from multiprocessing import Pool
from .. import ir, model, report, build, paths, leak, resources

_P = None


def _jobs(P):
    out = []
    for f in P.roots():
        if f.skipped or f.name == "main":
            continue
        for n, (i, role, kind) in enumerate(leak.sites(f)):
            out.append((f.name, n, "Leak"))
            if kind == "grown block":
                out.append((f.name, n, "Grow"))
    big = {"msr3_parse": 0, "msr3_unpack_mseed2": 0}
    cost = {f.name: sum(len(b.insts) for b in f.blocks) for f in P.defined if not f.skipped}
    out.sort(key=lambda j: -cost[j[0]])
    return out


def _run(job):
    fn, n, cls = job
    P = _P
    f = P.fn(fn)
    i, role, kind = list(leak.sites(f))[n]
    X = paths.Explorer(f)
    bad = {}

    def rep(c, s, r):
        if r.where() not in bad:
            bad[r.where()] = " -> ".join(c.trail(s)) if hasattr(c, "trail") else ""
    err = None
    try:
        X.run(getattr(leak, cls)(X, i, role, rep))
    except Exception as e:
        err = str(e)
    return fn, cls, model.callee(i) or "?", role, kind, i.where(), bad, err, i.srcfn if hasattr(i, "srcfn") else fn


def check():
    global _P
    R = report.Report("R01")
    R.rule("For every call that acquires memory, a stream, a transfer handle, a document, a record, a list or a parse "
           "state (resource table of msa/resources.py, allocation through the replaceable table included): on every "
           "path from that call to a return of the function, with every failure of every later call considered, the "
           "object is released by a matching release routine, or stored in an object reachable by the caller, or returned.")
    R.rule("A growth request that fails leaves the old block, which must stay reachable or be released on that path.")
    _P = P = ir.load(inlined=True)
    jobs = _jobs(P)
    if not jobs:
        raise build.AnalysisError("R01: no acquisition sites")
    R.count("functions", len({j[0] for j in jobs}))
    import gc
    gc.freeze()
    with Pool(int(os.environ.get("MSA_JOBS", "8"))) as pool:
        for fn, cls, c, role, kind, where, bad, err, src in pool.imap_unordered(_run, jobs, chunksize=1):
            R.count("acquisition_sites_followed" if cls == "Leak" else "growth_sites_followed")
            R.sample("%s: %s %s at %s" % (fn, kind, c, where))
            if err:
                R.undecided("%s at %s: %s" % (fn, where, err))
            for r in bad:
                s = where.split(" ")[0]
                R.violation("%s:%s:%s:%s" % (fn, resources.norm(c), role if role is not None else "ret", cls),
                            "%s from %s at %s is %s on a path that returns at %s" %
                            (kind, resources.norm(c), where, "lost" if cls == "Leak" else "lost when it cannot be grown", r))
    R.need("acquisition_sites_followed", 60)
    R.need("growth_sites_followed", 5)
    R.assume("Calls of functions outside the analysed source behave as the resource table states; a function of the library "
             "that is not inlined keeps the ownership contract stated for it in that table, and its own body is checked against the same rule.")
    R.assume("Programs' main() is excluded: what it holds is released by the end of the process.")
    return R.finish()
