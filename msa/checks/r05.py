"""R05: a failed parse or read leaves the caller's record and reader handles consistent."""
from .. import ir, model, report, build, paths, readers, released
from ..resources import norm

# parsing and reading routines with handles of the caller
PARSING = ("ms3_readmsr", "ms3_readtracelist", "mstl3_readbuffer", "msr3_unpack", "ms3_shift_msfp", "msr3_resize", "msr3_init")
KINDS = {1: "LMIO_FILE", 2: "LMIO_URL", 3: "LMIO_FD"}


def run(P, R, f, mk, what):
    X = paths.Explorer(f)
    bad = {}
    try:
        X.run(mk(X, lambda s, i, why="": bad.setdefault((i.where(), why), 1)))
    except Exception as e:
        R.undecided("%s: %s" % (f.name, e))
    R.count("routines_followed")
    R.sample("%s: %s" % (f.name, what))
    return sorted(bad)


def dangling(P, R, f, i, c):
    X = paths.Explorer(f)
    bad = {}

    def rep(s, r, how):
        if how.startswith("stays in"):
            bad.setdefault(r.where(), how)
    try:
        X.run(released.Released(X, i, rep))
    except Exception as e:
        R.undecided("%s at %s: %s" % (f.name, i.where(), e))
    R.count("handle_releases")
    for w, how in bad.items():
        R.violation("%s:%s:dangling" % (f.name, c), "%s: what %s at %s releases is still designated by a handle of the caller at %s" % (f.name, c, i.where(), w.split(" <-")[0]))


def check():
    R = report.Report("R05")
    R.rule("cleared: a reading routine that has touched its input and returns anything but success has released and cleared the caller's record handle.")
    R.rule("dangling: whatever a parsing or reading routine releases is, when it returns, not designated any more by a handle or object of the caller.")
    R.rule("cleanup: the cleanup call closes the stream if it is open, releases the read buffer if there is one, the record and the "
           "parameters (or resets the global ones) and clears the caller's handle.")
    R.rule("opened: an open that fails leaves no open handle behind; closed: closing closes the handle exactly once and clears it, for every kind of stream.")
    P = ir.load(inlined=True)
    n = 0
    for f in P.roots():
        if f.skipped or f.decl or not f.name.startswith("ms3_readmsr"):
            continue
        for a in f.args:
            calls = [i for i in f.insts() if i.op == "call" and (
                norm(model.callee(i) or "") == "msr3_parse" and i.args[2] is a or
                norm(model.callee(i) or "") in readers.READER and i.args[1] is a)]
            if not calls:
                continue
            n += 1
            for (w, _) in run(P, R, f, lambda X, rep: readers.Cleared(X, a.i, rep), "the record handle after a failure"):
                R.violation("%s:record" % f.name, "%s may return a failure at %s without having released and cleared the record handle" % (f.name, w.split(" <-")[0]))
    if n < 2:
        raise build.AnalysisError("R05: reading routines not found")
    for f in P.roots():
        if f.skipped or f.decl or not (f.name == "msr3_parse" or f.name.startswith(PARSING)):
            continue
        sites = list(released.sites(f))
        for i, c in sites:
            dangling(P, R, f, i, c)
    R.need("handle_releases", 4)
    f = P.fn("ms3_readmsr_selection")
    for (w, why) in run(P, R, f, lambda X, rep: readers.Cleanup(X, 2, rep), "the cleanup call"):
        R.violation("%s:cleanup:%s" % (f.name, why.replace(" ", "-")), "%s: cleanup at %s: %s" % (f.name, w.split(" <-")[0], why))
    f = P.fn("msio_fopen")
    for (w, _) in run(P, R, f, lambda X, rep: readers.Opened(X, 0, rep), "the handle after a failed open"):
        R.violation("%s:open" % f.name, "%s may fail at %s and leave an open handle behind" % (f.name, w.split(" <-")[0]))
    f = P.fn("msio_fclose")
    for k, t in KINDS.items():
        for (w, why) in run(P, R, f, lambda X, rep: readers.Closed(X, k, rep), "closing a stream of kind " + t):
            R.violation("%s:%s:%s" % (f.name, t, why.replace(" ", "-")), "%s: closing a stream of kind %s, at %s: %s" % (f.name, t, w.split(" <-")[0], why))
    R.need("routines_followed", 4)
    R.assume("An LMIO has one of the kinds FILE, URL and FD while its handle is set.")
    return R.finish()
