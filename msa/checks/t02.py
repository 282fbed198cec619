"""T02: what callers pass as input is not modified."""
import re
from .. import bits, ir, model, modref, orders, report
from .. import format as F

# inputs that are not declared constant: parameter by function
INPUTS = [(r"msr_encode_\w+", 0), (r"msr_decode_\w+", 0), (r"mseh_add_\w+_r", 2), (r"mseh_set_ptr_r", 2)]


def constant(t):
    """how many levels of a parameter of this type are constant: 1 object, 2 the pointers it designates lead to constant objects"""
    if not t.startswith("const "):
        return 0
    return t.count("*")


def inputs(f):
    """{parameter: (level, how it is known to be an input)}"""
    r = {}
    for k, t in enumerate((f.dity or [])[1:]):
        if k < len(f.args) and f.args[k].ty == "ptr" and constant(t):
            r[k] = (constant(t), "declared '%s'" % t)
    for pat, k in INPUTS:
        if re.fullmatch(pat, f.name) and k < len(f.args) and f.args[k].ty == "ptr":
            r.setdefault(k, (1, "an input"))
    return r


def hosts(P, Q, g):
    """the functions of the inlined program that g became part of"""
    seen, todo, out = {g.name}, [g.name], []
    while todo:
        n = todo.pop()
        q = Q.byname.get(n)
        if q is not None:
            out.append(q)
            continue
        for f in P.defined:
            if f.name not in seen and any(i.op == "call" and model.callee(i) == n for i in f.insts()):
                seen.add(f.name)
                todo.append(f.name)
    return out


def restored(P, Q, f, n):
    """every byte of the object that parameter designates has its original value at every return (looked at after inlining)"""
    for q in hosts(P, Q, f):
        ks = [n] if q.name == f.name else [k for k, (lev, why) in inputs(q).items()]
        for big in (False, True):
            C = F.Case(Q, big, "le", None, rec=("a", 98), version=3, obj=Q.objinit)
            B = C.run(q)
            rets = {b.term.id for b, v in orders.returns(q)} | {b.term.id for b in q.blocks if b.term.op == "ret"}
            out = []

            def ev(i, mem):
                if i.id not in rets:
                    return
                for root in set(mem.c) | set(mem.ver):
                    if root[0] in ("l", "g", "o") or bits.strip(root) not in [("a", k) for k in ks] or root[0] == "*":
                        continue
                    if root in mem.ver or bits.strip(root) != root and mem.c.get(root):
                        out.append((i, None))
                        continue
                    for o, c in mem.c.get(root, {}).items():
                        if B.bytebits(c) != tuple((root, o, j) for j in range(8)):
                            out.append((i, o))
            B.events(ev)
            if out:
                return False
    return True


def check():
    R = report.Report("T02")
    R.rule("no store and no writing call goes through a pointer derived (by address arithmetic, casts, selection, local variables, results of calls, or loads from the "
           "object) from a parameter declared as pointer to a constant object, or from one of the inputs listed for encoders, decoders and extra header functions.")
    R.rule("no store and no writing call goes through a member declared as pointer to a constant object (raw record, record pointer, file name, log prefix).")
    R.rule("an input that is written all the same has every byte back at its original value at every return of that function.")
    P = ir.load()
    Q = ir.load(inlined=True)
    Q.objinit = F.initobject(Q)
    Q.byname = {f.name: f for f in Q.defined}
    M = modref.ModRef(P)
    exempt = set()
    undone = {}
    for f in M.fs:
        if f.file.startswith("yyjson"):
            continue
        for n, (lev, why) in inputs(f).items():
            own = {i.id: i for d in (0, 1) if d + 1 >= lev for i in M.w[f.name].get((n, d), {}).values()}
            if own:
                R.count("inputs_changed")
                if restored(P, Q, f, n):
                    undone[(f.name, n)] = len(own)
                    exempt |= {(f.name, k) for k in own}
    if exempt:
        M = modref.ModRef(P, exempt)
    for f in M.fs:
        if f.file.startswith("yyjson"):
            continue
        R.count("functions")
        ins = inputs(f)
        R.count("inputs", len(ins))
        for n, (lev, why) in ins.items():
            R.sample("%s: parameter '%s' (%s)" % (f.name, f.args[n].name, why))
            for d in (0, 1):
                if d + 1 < lev:
                    continue
                for i in M.w[f.name].get((n, d), {}).values():
                    c = model.callee(i) if i.op == "call" else None
                    if c in M.w:
                        # the callee's own input: reported there
                        g = M.name[c]
                        gi = inputs(g)
                        if any(k in gi and gi[k][0] <= d + 1 for k in range(len(i.args)) for p, _ in M.der[f.name].get(i.args[k]) if p == n):
                            continue
                    R.violation("%s:%s:%s" % (f.name, f.args[n].name, c or "store"), "%s: %s%s of %s(), which is %s" % (
                        i.where(), "%s() writes through " % c if c else "store to ", ("what parameter '%s' designates" if d == 0 else "memory reachable from parameter '%s'") % f.args[n].name, f.name, why))
        for (n, d), sites in M.w[f.name].items():
            if isinstance(n, str):
                for i in sites.values():
                    R.violation("%s:%s" % (f.name, n), "%s: memory designated by %s, a pointer to a constant object, is written" % (i.where(), n))
        # member pointers handed to functions that write through their parameter
    for (fn, n), k in undone.items():
        R.sample("%s: %d writes through '%s' undone before every return" % (fn, k, M.name[fn].args[n].name))
    R.count("constant_members", len(M.members))
    for f in M.fs:
        for i in f.insts():
            if i.op == "call":
                R.count("calls")
    R.need("functions", 60)
    R.need("inputs", 60)
    R.need("calls", 400)
    R.assume("External functions write only through the arguments of modref.EXT; callbacks given by the caller do not write to what they are passed.")
    R.assume("The JSON library (yyjson) does not write to the text it parses unless asked to parse in place, which is looked for.")
    return R.finish()
