"""M04: writes into fixed-size arrays (locals, static buffers, array members) stay inside them."""
from .. import ir, model, report, mcheck, oblig, lin as LN
from ..ir import Const, Inst, Arg
from ..bounds import Ctx

MIN_ARRAY = 2


def array_field(P, v):
    """(designating GEP, 'Struct.member', member offset, member size) for a pointer into a structure"""
    while isinstance(v, Inst):
        if v.op == "getelementptr":
            if v.fields:
                fl = P.field_name(*v.fields[-1])
                s, m = fl.split(".", 1)
                for n, o, z in P.distructs.get(s, []):
                    if n == m:
                        return v, fl, o, z
                return None
            v = v.base
        elif v.op == "bitcast":
            v = v.args[0]
        else:
            return None
    return None


def is_scalar_alloca(B, root):
    if root[0] != "v":
        return False
    i = B.f.byid[root[1]]
    return isinstance(i, Inst) and i.op == "alloca"


def writable(B, root):
    if root[0] == "g":
        g = B.P.globals.get(root[1])
        return bool(g) and not g["decl"] and not g.get("const")
    return is_scalar_alloca(B, root) or dest_param(B, root)


def dest_param(B, root):
    """destination buffer of documented size"""
    if root[0] != "v" or not isinstance(B.f.byid[root[1]], Arg):
        return False
    n = ir.fname(B.f.name)
    return n.startswith("ms_") and B.f.byid[root[1]].i in {k for k, s in oblig.BUFFERS.get(n, {}).items() if s[-1] == "w"}


# the difference windows of the Steim encoders: their fill level follows from the number of samples
# left, a relation between five variables that is outside the invariant templates (see DESIGN.md)
EXCLUDE_SRC = {"msr_encode_steim1", "msr_encode_steim2"}


def obls(B):
    O = oblig.Obl(B)
    P = B.P
    for a in oblig.accesses(B.f):
        if a.inst.srcfn in EXCLUDE_SRC and B.mem.ptr(a.ptr)[2]:
            continue
        if a.mode == "r" or a.inst.file.startswith("yyjson"):
            continue
        root, off, vs, fl = B.mem.ptr(a.ptr)
        root = mcheck.base(B, root)
        tag = "%s:%s" % (a.mode, a.size if a.size is not None else a.what)
        if writable(B, root):
            yield mcheck.src_key(a.inst, tag), a.inst.where(), a.what, (lambda a=a: O.check(a))
        af = array_field(P, a.ptr)
        if af:
            yield mcheck.src_key(a.inst, tag + ":" + af[1]), a.inst.where(), a.what, (lambda a=a, af=af: in_field(B, O, a, af))
    yield from termination(B, O)


def termination(B, O):
    """text copied into a fixed-size array is terminated inside it"""
    P = B.P
    for i in B.f.insts():
        if i.op != "call" or i.file.startswith("yyjson"):
            continue
        c = model.callee(i) or ""
        blk = c.startswith(("llvm.memcpy", "llvm.memmove")) and not isinstance(i.args[2], Const)
        if not (c == "strncpy" or blk):
            continue
        root, off, vs, fl = B.mem.ptr(i.args[0])
        af = array_field(P, i.args[0])
        loc = is_scalar_alloca(B, root)
        if not af and not loc:
            continue
        if af and af[3] <= 8 or vs:
            continue
        a = oblig.Access(i, "w", i.args[0], sizev=i.args[2], what="copied text and its terminator", plus=1)
        yield mcheck.src_key(i, "terminator"), i.where(), a.what, (lambda i=i, a=a, af=af, c=c: terminated(B, O, i, a, af, c))


def terminated(B, O, i, a, af, c):
    ts = texts(B.P, i.args[1]) if c == "strncpy" else None
    n = i.args[2]
    if ts and isinstance(n, Const) and all(t is not None and len(t) < n.v for t in ts):
        return True
    if zero_follows(B, i) or zero_before(B, i, a, af):
        return True
    if c == "strncpy":
        return "text copied by strncpy() is not terminated on every path"
    return in_field(B, O, a, af) if af else O.check(a)


def texts(P, v, seen=()):
    """the constant texts a value may designate (None for any other)"""
    if isinstance(v, Inst) and v.op in ("select", "phi") and v.id not in seen:
        src = v.args[1:] if v.op == "select" else [x for x, _ in v.inc]
        out = set()
        for x in src:
            out |= texts(P, x, seen + (v.id,))
        return out
    if isinstance(v, Inst) and v.id in seen:
        return set()
    return {model.const_string(P, v)}


def zero_before(B, i, a, af):
    """the array was zeroed by a dominating memset() and the copy leaves its last byte alone"""
    n = i.args[2]
    if not isinstance(n, Const):
        return False
    root, off, vs, fl = B.mem.ptr(i.args[0])
    if vs:
        return False
    if af:
        g, _, o, z = af
        gr = B.mem.ptr(g)
        if gr[2] or gr[0] != root or g.off < o:
            return False
        last = gr[1] + z - 1
    elif is_scalar_alloca(B, root):
        last = B.f.byid[root[1]].d["asz"] - 1
    else:
        return False
    if off + n.v > last:
        return False
    for j in B.f.insts():
        if j.op == "call" and (model.callee(j) or "").startswith("llvm.memset") and isinstance(j.args[1], Const) and j.args[1].v == 0 and isinstance(j.args[2], Const):
            r = B.mem.ptr(j.args[0])
            if r[0] == root and not r[2] and r[1] <= off and last < r[1] + j.args[2].v and \
                    (B.mem.pos[j.id] < B.mem.pos[i.id] if j.b is i.b else B.f.dom().dominates(j.b, i.b)):
                return True
    return False


def zero_follows(B, i):
    """every path from the copy stores a NUL into the same array before the function returns"""
    root = B.mem.ptr(i.args[0])[0]
    fl = B.mem.ptr(i.args[0])[3]

    def stop(j):
        if j.op == "store" and isinstance(j.args[0], Const) and j.args[0].v == 0 and j.d["sz"] == 1:
            r = B.mem.ptr(j.args[1])
            return r[0] == root and r[3] == fl
        return False
    seen, todo = set(), [(i.b, B.mem.pos[i.id] + 1)]
    while todo:
        b, k = todo.pop()
        hit = False
        for j in b.insts[k:]:
            if stop(j):
                hit = True
                break
            if j.op == "ret" or j is i:
                return False
        if hit:
            continue
        for s in b.succs:
            if s.id not in seen:
                seen.add(s.id)
                todo.append((s, 0))
    return True


def in_field(B, O, a, af):
    g, fl, o, z = af
    ctx = Ctx(B.ctx_at(a.inst.b))
    r1, e1 = B.ptrlin(a.ptr, ctx)
    r2, e2 = B.ptrlin(g, ctx)
    if r1 != r2 or g.vars or z < MIN_ARRAY:
        return None
    # the member starts where the designating address starts when that address is the member itself
    base = LN.add(e2, LN.const(g.off), -1) if g.off >= o else None
    if base is None:
        return None
    rel = LN.add(LN.add(e1, base, -1), LN.const(o), -1)
    n = O.size_lin(a, ctx)
    if n is None:
        return "%s: length of the access is not a linear expression" % fl
    if LN.isconst(rel) and LN.isconst(n) and 0 <= LN.cval(rel) and LN.cval(rel) + LN.cval(n) <= z:
        return True
    if not O.prove(rel, a.inst.b, ctx):
        return "%s (%d bytes): start of the %s may lie before it" % (fl, z, a.what)
    if not O.prove(LN.add(LN.add(LN.const(z), rel, -1), n, -1), a.inst.b, ctx):
        return "%s (%d bytes): end of the %s may lie beyond it" % (fl, z, a.what)
    return True


def check():
    R = report.Report("M04")
    P = ir.load(inlined=True)
    R.rule("for each write (store, block copy, bounded string routine) whose destination is a local or static buffer or an array member of a structure: "
           "offset >= 0 and offset + length <= size of that buffer, implied by dominating conditions, loop invariants and value definitions; "
           "text copied with a length limit leaves room for, or is followed on every path by, its terminator")
    names = [f.name for f in P.defined if "yyjson" not in f.name and not f.skipped]
    mcheck.decide(R, P, names, obls)
    R.need("obligations proven", 200)
    return R.finish()
