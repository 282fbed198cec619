"""Repository-specific facts shared by the checks: how memory, files and documents are
acquired and released, what external routines do, who calls whom."""
from .ir import Const, Inst, Arg, fname
from . import build

LIBFILE_EXCLUDE = {"msi.c"}


def is_lib(f):
    return bool(f.file) and f.file != "msi.c" and not f.skipped


def strip(v):
    """look through casts/zero-offset GEPs"""
    while isinstance(v, Inst):
        if v.op in ("bitcast", "addrspacecast"):
            v = v.args[0]
        elif v.op == "getelementptr" and v.off == 0 and not v.vars:
            v = v.base
        else:
            break
    return v


def callee(i):
    """Resolved callee name.  Calls through the replaceable allocation functions are
    resolved to mem:malloc / mem:realloc / mem:free by the slot that is loaded."""
    if i.op != "call":
        return None
    if i.callee:
        return i.callee
    fp = strip(i.fp)
    if isinstance(fp, Inst) and fp.op == "load":
        p = fp.args[0]
        base, off = p, 0
        while isinstance(base, Inst) and base.op == "getelementptr" and not base.vars:
            off += base.off
            base = base.base
        if isinstance(base, Const) and base.k == "gv" and base.n == "libmseed_memory":
            off += base.o
            return {0: "mem:malloc", 8: "mem:realloc", 16: "mem:free"}.get(off, "mem:?")
    if isinstance(fp, Const) and fp.k == "fn":
        return fp.n
    return "indirect"


def addr(v):
    """(root, const offset or None, var terms) of a pointer value"""
    off = 0
    vars = []
    while isinstance(v, Inst):
        if v.op == "getelementptr":
            off += v.off
            vars += v.vars
            v = v.base
        elif v.op in ("bitcast", "addrspacecast"):
            v = v.args[0]
        else:
            break
    if isinstance(v, Const) and v.k == "gv":
        return ("gv", v.n), off + v.o, vars
    return v, off, vars


def fields(P, v):
    """innermost struct field a GEP chain designates, e.g. 'MS3Record.extra'"""
    while isinstance(v, Inst):
        if v.op == "getelementptr":
            if v.fields:
                s, idx = v.fields[-1]
                return P.field_name(s, idx)
            v = v.base
        elif v.op == "bitcast":
            v = v.args[0]
        else:
            break
    return None


def callgraph(P):
    if hasattr(P, "_cg"):
        return P._cg
    cg = {}
    for f in P.funcs.values():
        s = set()
        if f.skipped:
            s |= set(f.calls)
        elif not f.decl:
            for i in f.insts():
                c = callee(i)
                if c and not c.startswith("llvm.dbg"):
                    s.add(c)
                for a in i.args:
                    if isinstance(a, Const) and a.k == "fn":
                        s.add(a.n)
        cg[f.name] = s
    P._cg = cg
    return cg


def reach(P, name):
    cg = callgraph(P)
    seen = set()
    st = [name]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        st += cg.get(n, ())
    return seen


def lib_funcs(P):
    return [f for f in P.defined if is_lib(f)]


def const_string(P, v):
    """bytes of a constant string argument, or None"""
    if isinstance(v, Const) and v.k == "gv" and v.o == 0:
        g = P.globals.get(v.n)
        if g and g.get("const") and g.get("init", {}).get("k") == "str":
            b = bytes(g["init"]["b"])
            return b.split(b"\0")[0]
    return None


import re as _re
_SPEC = _re.compile(rb"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L|q)?([a-zA-Z%])")


def format_max(P, i, B, fmtarg=2):
    """largest number of characters a constant format can produce, or None"""
    fmt = const_string(P, i.args[fmtarg]) if len(i.args) > fmtarg else None
    if fmt is None:
        return None
    n, pos, k = 0, 0, fmtarg + 1
    for m in _SPEC.finditer(fmt):
        n += m.start() - pos
        pos = m.end()
        c = m.group(5)
        if c == b"%":
            n += 1
            continue
        if m.group(2) == b"*" or m.group(3) == b"*" or k >= len(i.args):
            return None
        w = int(m.group(2) or 0)
        p = int(m.group(3)) if m.group(3) else None
        a = i.args[k]
        k += 1
        if c in b"duxXo" or c == b"i":
            lo, hi = B.ivv("s" if c in b"di" else "u", a)
            d = max(len(str(lo)), len(str(hi)))
            if c in b"oxX":
                d = 22
            d = max(d, w, (p or 0) + 1)
        elif c == b"c":
            d = max(1, w)
        elif c == b"s":
            s = const_string(P, a)
            if s is not None:
                d = len(s)
            elif p is not None:
                d = p
            else:
                return None
            d = max(d, w)
        elif c in b"eEgG" and p is not None:
            d = max(w, p + 9)
        elif c in b"gG":
            d = max(w, 15)
        else:
            return None
        n += d
    return n + len(fmt) - pos
