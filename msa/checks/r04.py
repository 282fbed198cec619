"""R04: who-may-call rule for the allocators.

 (a) no library function calls, or takes the address of, a system allocator; the only
     permitted reference is the static initialiser of the replaceable function table;
 (b) every call of the embedded JSON parser that may allocate passes a non-null
     allocator object whose three function slots are functions that reach the
     replaceable allocation functions and no system allocator;
 (c) a block obtained from X is released through X (implied by (a)+(b): only one
     allocator is reachable)."""
from .. import ir, model, report, build
from ..ir import Const, Inst, fname

SYS = {"malloc", "calloc", "realloc", "reallocarray", "free", "cfree", "strdup", "strndup", "asprintf", "vasprintf",
       "getline", "getdelim", "posix_memalign", "aligned_alloc", "memalign", "valloc", "pvalloc", "realpath",
       "open_memstream", "tempnam", "wcsdup", "scandir", "mmap"}


def slots_of_const(P, g):
    init = g.get("init")
    if not init or init["k"] != "struct":
        return None
    return [e.get("n") if e["k"] == "fn" else None for e in init["e"]]


def alc_value(P, f, v, at):
    """function names in an allocator object (a local struct initialised by copy from a
    constant, or stored slot by slot), or None"""
    root, off, vars = model.addr(v)
    if isinstance(root, tuple) and root[0] == "gv":
        g = P.globals[root[1]]
        return slots_of_const(P, g)
    if isinstance(root, Inst) and root.op == "alloca":
        slots = {}

        def visit(u, o):
            for i in u.uses:
                if i.op == "getelementptr" and not i.vars and i.base is u:
                    visit(i, o + i.off)
                elif i.op == "bitcast":
                    visit(i, o)
                elif i.op == "store" and i.args[1] is u:
                    slots.setdefault(o, set()).add(i.args[0].n if isinstance(i.args[0], Const) else None)
                elif i.op == "call" and (i.callee or "").startswith(("llvm.memcpy", "llvm.memmove")) and i.args[0] is u and o == 0:
                    r2, o2, _ = model.addr(i.args[1])
                    if isinstance(r2, tuple) and o2 == 0:
                        s = slots_of_const(P, P.globals[r2[1]])
                        if s:
                            for n, x in enumerate(s):
                                slots.setdefault(8 * n, set()).add(x)
        visit(root, 0)
        out = []
        for o in (0, 8, 16):
            s = slots.get(o)
            if not s or len(s) != 1:
                return None
            out.append(next(iter(s)))
        return out
    if isinstance(root, ir.Arg):
        return ("arg", root)
    return None


def check():
    R = report.Report("R04")
    P = ir.load()
    R.rule("(a) no reference to a system allocator in library code outside the initialiser of the replaceable table; "
           "(b) JSON parser entry points that allocate get an allocator object resolving to the replaceable functions")
    lib = model.lib_funcs(P)
    for f in lib:
        R.count("functions")
        for i in f.insts():
            if i.op == "call":
                c = model.callee(i)
                if c.startswith("mem:"):
                    R.count("sites via replaceable functions")
                    R.sample("%s %s" % (c, i.where()))
                if c in SYS:
                    R.violation("%s:%s" % (fname(f.name), c), "%s: library code calls system %s() directly instead of the replaceable allocation functions" % (i.where(), c))
            for a in i.args:
                if isinstance(a, Const) and a.k == "fn" and a.n in SYS:
                    R.violation("%s:&%s" % (fname(f.name), a.n), "%s: address of system %s() used in library code" % (i.where(), a.n))
    # static initialisers
    tab = P.globals.get("libmseed_memory")
    if not tab or slots_of_const(P, tab) is None:
        raise build.AnalysisError("replaceable allocation table not found")
    if slots_of_const(P, tab)[:3] != ["malloc", "realloc", "free"]:
        R.violation("libmseed_memory:init", "default allocation table is %s, expected malloc/realloc/free in the order of its slots" % slots_of_const(P, tab))
    for g in P.globals.values():
        if g["name"] == "libmseed_memory" or g.get("file") == "msi.c":
            continue

        def walk(c):
            if isinstance(c, dict):
                if c.get("k") == "fn" and c.get("n") in SYS and not (g.get("file") or "").startswith("yyjson"):
                    R.violation("global:%s" % fname(g["name"]), "initialiser of global %s refers to system %s()" % (g["name"], c["n"]))
                for x in c.get("e", []) + c.get("a", []):
                    walk(x)
        walk(g.get("init"))
    # replaceable table must not be assigned by the library
    for f in lib:
        for i in f.insts():
            if i.op == "store":
                r, o, _ = model.addr(i.args[1])
                if r == ("gv", "libmseed_memory"):
                    R.violation("%s:store libmseed_memory" % f.name, "%s: library code overwrites the application's allocation functions" % i.where())
    # JSON parser allocators
    for f in lib:
        for i in f.insts():
            if i.op != "call" or not i.callee:
                continue
            g = P.funcs.get(i.callee)
            if not g or not g.skipped:
                continue
            R.count("JSON parser calls")
            dt = g.dity[1:]
            apos = [n for n, t in enumerate(dt) if "yyjson_alc" in t]
            rt = g.dity[0] if g.dity else ""
            makes = ("yyjson_doc*" == rt or "yyjson_mut_doc*" == rt or rt == "char*") and "get" not in g.name
            if makes and not apos:
                R.violation("%s:%s" % (fname(f.name), g.name), "%s: %s() allocates with the parser's default (system) allocator" % (i.where(), g.name))
            for n in apos:
                if n >= len(i.args):
                    continue
                R.count("JSON allocator arguments")
                s = alc_value(P, f, i.args[n], i)
                if s is None or (isinstance(s, list) and None in s[:3]):
                    R.violation("%s:%s:alc" % (fname(f.name), g.name), "%s: allocator passed to %s() is null or cannot be shown to be the library's allocator" % (i.where(), g.name))
                    continue
                if isinstance(s, tuple):
                    # passed through from the caller: every caller of this function is examined by its own call
                    for h in lib:
                        for j in h.insts():
                            if j.op == "call" and j.callee == f.name:
                                s2 = alc_value(P, h, j.args[s[1].i], j)
                                if not isinstance(s2, list) or None in s2[:3]:
                                    R.violation("%s:%s:alc" % (fname(h.name), f.name), "%s: allocator passed for %s() cannot be shown to be the library's" % (j.where(), g.name))
                                else:
                                    check_slots(P, R, s2, j)
                    continue
                check_slots(P, R, s, i)
    R.need("sites via replaceable functions", 30)
    R.need("JSON allocator arguments", 4)
    R.assume("the embedded JSON parser allocates only through the allocator object it is given when that is non-null (third-party component)")
    return R.finish()


def check_slots(P, R, s, i):
    want = ["mem:malloc", "mem:realloc", "mem:free"]
    for n, w in enumerate(want):
        r = model.reach(P, s[n])
        if w not in r:
            R.violation("alc:%s" % s[n], "%s: allocator slot %d (%s) does not reach %s" % (i.where(), n, s[n], w))
        bad = r & SYS
        if bad:
            R.violation("alc:%s:%s" % (s[n], sorted(bad)[0]), "%s: allocator slot %s reaches system %s()" % (i.where(), s[n], sorted(bad)))
