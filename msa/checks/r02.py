"""R02: released memory and handles are never used or released again.

Typestate analysis (msa/paths.py, msa/released.py): each release, one at a time, is followed along every path of the function
that contains it; static helpers inlined."""
import os
from multiprocessing import Pool
from .. import ir, model, report, build, paths, released, resources

_P = None


def _jobs(P):
    out = []
    for f in P.roots():
        if f.skipped or f.name.startswith("_priv_"):
            continue
        for n, (i, c) in enumerate(released.sites(f)):
            out.append((f.name, n))
    cost = {f.name: sum(len(b.insts) for b in f.blocks) for f in P.defined if not f.skipped}
    out.sort(key=lambda j: -cost[j[0]])
    return out


def _run(job):
    fn, n = job
    f = _P.fn(fn)
    i, c = list(released.sites(f))[n]
    X = paths.Explorer(f)
    bad = {}
    err = None
    try:
        X.run(released.Released(X, i, lambda s, r, how: bad.setdefault((r.where(), how), 1)))
    except Exception as e:
        err = str(e)
    return fn, c, i.where(), list(bad), err


def check():
    global _P
    R = report.Report("R02")
    R.rule("For every call that releases a block, stream, transfer handle, document, record, list or parse state (and every growth "
           "request that moves a block): on every path from that call to a return of the function, no pointer to the released object is "
           "dereferenced, passed to a call, released again or returned, and no cell of an object that outlives the call still holds it at the return.")
    _P = P = ir.load(inlined=True)
    jobs = _jobs(P)
    R.count("functions", len({j[0] for j in jobs}))
    import gc
    gc.freeze()
    with Pool(int(os.environ.get("MSA_JOBS", "8"))) as pool:
        for fn, c, where, bad, err in pool.imap_unordered(_run, jobs, chunksize=1):
            R.count("releases_followed")
            R.sample("%s: %s at %s" % (fn, c, where))
            if err:
                R.undecided("%s at %s: %s" % (fn, where, err))
            for r, how in bad:
                R.violation("%s:%s:%s" % (fn, c, how), "what %s at %s releases %s at %s" % (c, where, how, r))
    R.need("releases_followed", 90)
    R.assume("Two pointers are taken for the same object when they have the same symbolic value; other aliases are not followed.")
    return R.finish()
