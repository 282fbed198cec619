"""Shared driver of the bounds checks (M01-M06): decides a set of obligations per function in
parallel worker processes and reports those that are not proven."""
import multiprocessing as mp, os, signal, sys, time
from . import ir, model, bounds, oblig, report
from .ir import Const, Inst, Arg, fname

FUEL = 600000           # entailment queries per obligation
MAXBAD = 6              # unproven obligations after which a function is given up
JOBTIME = 700
PROMISE = ("result", "stored", "forwarded")     # obligations callers rely on: decided in the routine itself


class TimeUp(Exception):
    pass


def _alarm(*a):
    raise TimeUp()


def src_key(i, tag):
    l = i.loc[0] if i.loc else (i.f.file, 0, i.f.name)
    return (l[0], l[1], fname(l[2]), tag)


def inlined_sources(P):
    """names of functions that have inlined copies elsewhere"""
    s = set()
    for f in P.defined:
        for i in f.insts():
            if i.loc and len(i.loc) > 1:
                for l in i.loc[:-1]:
                    s.add(fname(l[2]))
    return s


_G = {}


def _job(a):
    name, skip = a
    P, obls, deadline = _G["P"], _G["obls"], _G["deadline"]
    f = P.funcs[name]
    ok, bad, none = [], [], 0
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(5, int(deadline - time.time())))
    B = None
    try:
        todo = None
        k = 0
        while True:
            if B is None:
                B = bounds.Bounds(f, _G["contracts"](), budget=FUEL)
                todo = list(obls(B))
            if k >= len(todo):
                break
            key, where, what, decide = todo[k]
            k += 1
            if key in skip:
                none += 0
                continue
            B.fuel = FUEL
            try:
                r = decide()
            except bounds.OutOfFuel:
                r = "not decided within the step limit: " + what
                B = None
            if r is None:
                none += 1
            elif r is True:
                ok.append(key)
            else:
                bad.append((key, where, r))
                if len(bad) >= MAXBAD:
                    break
    except TimeUp:
        bad.append((("", 0, fname(name), "time"), name, "analysis of %s did not finish" % name))
    finally:
        signal.alarm(0)
    return name, ok, bad, none, len(todo or ())


def decide(R, P, names, obls, contracts=oblig.Contracts):
    """Every obligation obls(B) yields - (key, where, what, decide) - must be proven.
    Internal helpers are decided on their own first; what cannot be decided without the
    caller's facts is decided in every inlined copy."""
    _G["P"], _G["obls"], _G["deadline"] = P, obls, time.time() + JOBTIME
    _G["contracts"] = contracts
    inl = inlined_sources(P)
    helpers = [n for n in names if P.funcs[n].internal and fname(n) in inl]
    tops = [n for n in names if n not in helpers]
    ctx = mp.get_context("fork")
    nproc = min(8, os.cpu_count() or 1)

    def size(n):
        return -sum(len(b.insts) for b in P.funcs[n].rblocks)
    skip = set()
    with ctx.Pool(nproc) as pool:
        okk, badk = set(), set()
        for name, ok, bad, none, tot in pool.imap_unordered(_job, [(n, frozenset()) for n in sorted(helpers, key=size)], 1):
            okk.update(ok)
            badk.update(k for k, w, r in bad)
            R.count("helper functions decided on their own")
            R.count("obligations proven", len(ok))
            for k, w, r in bad:
                if k[3] in PROMISE:
                    R.violation("%s:%s:%s" % (k[2], k[0], k[3]), "%s: %s" % (w, r))
            if bad and len(bad) >= MAXBAD:
                badk.add(("*", fname(name)))
        skip = {k for k in okk if k not in badk}
        for name, ok, bad, none, tot in pool.imap_unordered(_job, [(n, frozenset(skip)) for n in sorted(tops, key=size)], 1):
            R.count("functions")
            R.count("obligations proven", len(ok))
            R.count("accesses outside the scope of the rule", none)
            if ok:
                R.sample("%s: %d obligations proven" % (fname(name), len(ok)))
            for k, w, r in bad:
                if k[3] == "time":
                    R.undecided(r)
                    continue
                R.violation("%s:%s:%s" % (k[2], k[0], k[3]), "%s: %s" % (w, r))
    R.assume("LLVM IR produced by clang from the current sources at -O0 plus mem2reg/inlining represents the program; "
             "distinct heap objects and parameters do not overlap unless the rules of the memory model say so")


def base(B, root):
    """the object behind a pointer that moves through it in a loop or joins"""
    if root[0] == "v":
        i = B.f.byid[root[1]]
        if isinstance(i, Inst) and i.op == "phi":
            return B.phi_root(i) or root
    elif root[0] == "m" and root in B.mem.memphi:
        return B.mphi_root(root) or root
    return root


def access_obls(select, decide=None):
    """obligation generator over the memory accesses chosen by select(B, O, acc, root)"""
    def gen(B):
        O = oblig.Obl(B)
        for a in oblig.accesses(B.f):
            root = base(B, B.mem.ptr(a.ptr)[0])
            if not select(B, O, a, root):
                continue
            tag = "%s:%s" % (a.mode, a.size if a.size is not None else a.what)
            yield src_key(a.inst, tag), a.inst.where(), a.what, (lambda a=a: O.check(a))
    return gen


def fns(P, names):
    out = []
    for n in names:
        P.fn(n)
        out.append(n)
    return out


def closure(P, names):
    """the functions and every internal helper reachable from them (standalone copies)"""
    seen, st = set(), list(names)
    cg = model.callgraph(ir.load())
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        for c in cg.get(n, ()):
            g = P.funcs.get(c)
            if g is not None and not g.decl and not g.skipped and (g.internal and fname(c) == c or g.internal):
                st.append(c)
    return [n for n in seen if n in P.funcs and not P.funcs[n].decl]
