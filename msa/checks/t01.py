"""T01: loops always make progress.

For every natural loop: the values its exits depend on (backward slice over the SSA form and memory SSA), and what becomes of
them on every way round (the ways are told apart by the joins at which these values meet).  A loop is decided by a measure: a
value that moves strictly in one direction, a list followed from node to node, a chain of growing offsets that ends at 0, or a
step that consumes an input; several in lexicographic order.  See msa/loops.py."""
import os
import signal
import time
from multiprocessing import Pool
from .. import ir, bounds, oblig, report, loops, stall

_P = None
LIMIT = 240
OK = {"counter", "measure", "consumer"}


class Late(Exception):
    pass


def _late(*a):
    raise Late()


def _run(name):
    f = _P.funcs[name]
    out = []
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(LIMIT)
    try:
        B = bounds.Bounds(f, oblig.Contracts(), budget=loops.FUEL)
        for hid in sorted(B.loops):
            B.fuel = loops.FUEL
            w = f.blocks[hid].insts[-1]
            key = (w.loc[0][0] if w.loc else w.line, w.where().split(" <-")[0])
            try:
                L = loops.Loop(B, hid)
                v = L.verdict()
            except bounds.OutOfFuel:
                v = ("undecided", "step limit")
            if v[0] in ("stuck", "nomeasure"):
                t = v[1]
                at = sorted({e[0].insts[-1].line for e in t[0] if e[0].insts[-1].line} | {e[1].insts[0].line for e in t[0][1:] if e[1].insts[0].line})
                v = (v[0], "ways round through line %s" % ", ".join(map(str, at)))
            out.append((w.where(), key[1], v[0], str(v[1])))
    except Late:
        out.append((name, name, "undecided", "time limit"))
    except (RecursionError, KeyError, AttributeError, IndexError, TypeError) as e:
        out.append((name, name, "undecided", repr(e)))
    finally:
        signal.alarm(0)
    return name, out


def check():
    global _P
    R = report.Report("T01")
    R.rule("measure: on every way round a loop, a value that an exit of the loop depends on moves strictly in one direction, or is read from the "
           "object it designated (lists), or is replaced by a greater one or one with which the loop ends, or a step has consumed input; "
           "where several values take turns they do so in lexicographic order.")
    R.rule("exit: every loop can be left.  stalled: a reader whose source delivers nothing more, at its end or before, "
           "leaves its loop within two rounds unless it moves on in what it has.")
    _P = P = ir.load(inlined=True)
    names = [f.name for f in P.defined if not f.skipped and not f.file.startswith("yyjson") and f.dom().loops()]
    names.sort(key=lambda n: -sum(len(b.insts) for b in P.funcs[n].blocks))
    import gc
    gc.freeze()
    res = {}
    with Pool(int(os.environ.get("MSA_JOBS", "8"))) as pool:
        for name, out in pool.imap_unordered(_run, names, chunksize=1):
            for w, key, kind, why in out:
                res.setdefault(key, []).append((kind, w, why, name))
    for key, l in sorted(res.items()):
        R.count("loops")
        good = [x for x in l if x[0] in OK]
        if good:
            R.count("decided_by_" + good[0][0])
            R.sample("%s: %s" % (key, good[0][0]))
            # a helper that makes progress on its own does so wherever it is used
            own = [x for x in l if x[3] in key]
            if own and own[0][0] in OK or len(good) == len(l):
                continue
        bad = [x for x in l if x[0] not in OK and x[0] != "undecided"]
        for kind, w, why, name in bad[:1]:
            if kind == "endless":
                R.violation("%s:endless" % name, "the loop at %s has no exit" % w)
            else:
                R.violation("%s:%s" % (name, kind), "the loop at %s may go round without progress: %s" % (w, why))
        if not bad and not good:
            R.count("loops_undecided")
            R.undecided("%s: %s" % (key, l[0][2]))
    stall.check(R)
    R.need("loops", 80)
    R.assume("Lists are acyclic (T03), sums of positive amounts do not wrap, sources of input end, and the length of a parsed record is positive "
             "(every length outside 40 to 131172 bytes is refused before it is stored, M01).")
    return R.finish()
