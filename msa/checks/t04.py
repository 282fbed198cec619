"""T04: sample buffers and their bookkeeping change together."""
import os
from multiprocessing import Pool
from .. import ir, model, report, build, paths, samples

_P = None


def _run(fn):
    f = _P.fn(fn)
    X = paths.Explorer(f)
    bad = {}
    err = None
    n = [0]
    cl = samples.Samples(X, lambda s, i, o, why: bad.setdefault((i.where() if i else "a later iteration", why), 1))
    try:
        X.run(cl)
    except Exception as e:
        err = str(e)
    return fn, sorted(bad), err


def check():
    global _P
    R = report.Report("T04")
    R.rule("buffer: when a path replaces or releases the sample buffer of a record or trace segment that outlives it, the size recorded "
           "at its end is the size that was requested for that buffer, and a released buffer goes with a cleared size and sample count.")
    R.rule("count: samples copied or decoded into a buffer require the sample count to be stored; type: samples converted or decoded "
           "require the sample type to be stored.")
    _P = P = ir.load(inlined=True)
    fs = []
    for f in P.roots():
        if f.skipped or f.file.startswith("yyjson"):
            continue
        n = sum(1 for i in f.insts() if i.op == "store" and samples.ROLE.get(model.fields(P, i.args[1])) in ("P", "Z", "N", "T"))
        if n:
            fs.append(f.name)
            R.count("member_stores_followed", n)
    with Pool(int(os.environ.get("MSA_JOBS", "8"))) as pool:
        for fn, bad, err in pool.imap_unordered(_run, fs, chunksize=1):
            R.count("functions_followed")
            R.sample(fn)
            if err:
                R.undecided("%s: %s" % (fn, err))
            for w, why in bad:
                R.violation("%s:%s" % (fn, why.replace(" ", "-")), "%s: at %s %s" % (fn, w.split(" <-")[0], why))
    R.need("functions_followed", 4)
    R.need("member_stores_followed", 30)
    R.assume("What a record or segment holds when a routine is entered describes its buffer.")
    return R.finish()
