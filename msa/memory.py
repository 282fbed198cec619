"""Canonical values: every SSA value and every memory read of one function is mapped to a
node; two reads with the same node are guaranteed (under the stated aliasing rules) to
return the same value.  Memory is versioned per location (root object, offset, size) in
the style of SSA construction: a store defines, a possibly aliasing store or a call with
a matching effect starts a fresh version, joins create memory phis."""
import re
from .ir import Const, Inst, Arg, fname
from . import model


def width(t):
    return int(t[1:]) if t.startswith("i") and t[1:].isdigit() else 64


# external routines that write through pointer parameters (index list); others do not
EXT_WRITES = {
    "snprintf": [0], "sprintf": [0], "vsnprintf": [0], "strcpy": [0], "strncpy": [0], "strcat": [0], "strncat": [0],
    "memcpy": [0], "memmove": [0], "memset": [0], "fread": [0, 3], "fgets": [0], "read": [1],
    "strtol": [1], "strtoul": [1], "strtoull": [1], "strtoll": [1], "strtod": [1], "gmtime_r": [1], "localtime_r": [1],
    "__isoc99_sscanf": list(range(2, 20)), "sscanf": list(range(2, 20)), "select": [1, 2, 3],
    "curl_multi_fdset": [1, 2, 3, 4], "curl_multi_perform": [1], "curl_multi_timeout": [1], "curl_easy_getinfo": [2],
    "nanosleep": [1], "time": [0],
}


class Effects:
    """Transitive write effects of every function: struct fields, raw bytes, globals."""

    def __init__(self, P):
        self.P = P
        self.wp = {}
        self.m = {}
        self.sizes = {}
        for n, s in P.structs.items():
            self.sizes.setdefault(s["size"], []).append(n)
        cg = {}
        for f in P.defined:
            own, calls = set(), set()
            for i in f.insts():
                if i.op == "store":
                    e = self.store_effect(i.args[1], i.d["sz"])
                    if e == {"raw"} and i.d.get("fld"):
                        e = {P.field_name(*i.d["fld"])}
                    own |= e
                elif i.op == "call":
                    c = model.callee(i) or ""
                    if c.startswith(("llvm.mem", "memset", "memcpy", "memmove")):
                        if c.startswith("llvm.memc") or "set" in c or "mem" in c:
                            own |= self.bulk_effect(i)
                    elif c in EXT_WRITES:
                        for n in EXT_WRITES[c]:
                            if n < len(i.args):
                                own |= self.store_effect(i.args[n], None)
                    else:
                        g = P.funcs.get(c)
                        if g and not g.decl:
                            calls.add(c)
                            for n, a in enumerate(i.args):
                                fl = model.fields(P, a) if isinstance(a, Inst) else None
                                if fl:
                                    own.add(fl)
                        elif c == "indirect":
                            own.add("?")
            cg[f.name] = (own, calls)
        ch = True
        self.m = {n: set(o) for n, (o, c) in cg.items()}
        while ch:
            ch = False
            for n, (o, cs) in cg.items():
                s = self.m[n]
                k = len(s)
                for c in cs:
                    s |= self.m.get(c, set())
                if len(s) != k:
                    ch = True

    def store_effect(self, p, sz):
        r, off, vars = model.addr(p)
        if isinstance(r, tuple):
            return {("g", r[1])}
        if isinstance(r, Inst) and r.op == "alloca":
            return set()
        fl = model.fields(self.P, p) if isinstance(p, Inst) else None
        if fl:
            return {fl}
        return {"raw"}

    def bulk_effect(self, i):
        d = i.args[0]
        r, off, vars = model.addr(d)
        if isinstance(r, tuple):
            return {("g", r[1])}
        if isinstance(r, Inst) and r.op == "alloca":
            return set()
        fl = model.fields(self.P, d) if isinstance(d, Inst) else None
        if fl:
            return {fl}
        n = i.args[2]
        out = {"raw"}
        if isinstance(n, Const) and n.v in self.sizes and n.v > 16:
            for s in self.sizes[n.v]:
                for k in range(len(self.P.structs[s]["fields"])):
                    out.add(self.P.field_name(s, k))
        return out

    def writes_param(self, f, n):
        k = (f.name, n)
        if k in self.wp:
            return self.wp[k]
        self.wp[k] = False
        if n >= len(f.args):
            self.wp[k] = True
            return True
        work, vis, res = [f.args[n]], set(), False
        while work and not res:
            v = work.pop()
            if id(v) in vis:
                continue
            vis.add(id(v))
            for u in v.uses:
                if u.op in ("getelementptr", "bitcast", "phi", "select"):
                    work.append(u)
                elif u.op == "store":
                    if u.args[1] is v:
                        res = True
                    elif u.args[0] is v:
                        r = model.addr(u.args[1])[0]
                        if not (isinstance(r, Inst) and r.op == "alloca"):
                            pass   # pointer saved: does not write through it here
                elif u.op == "call":
                    c = model.callee(u) or ""
                    for m, a in enumerate(u.args):
                        if a is v and self.call_writes(u, m):
                            res = True
        self.wp[k] = res
        return res

    def call_writes(self, i, n):
        """may the call write through its n-th argument?"""
        c = model.callee(i) or ""
        if c.startswith("llvm."):
            return c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) and n == 0
        if c in EXT_WRITES:
            return n in EXT_WRITES[c]
        g = self.P.funcs.get(c)
        if g and not g.decl:
            if g.vararg and n >= len(g.args):
                return False
            return self.writes_param(g, n)
        if c == "indirect":
            return True
        return False

    def kills_field(self, i, field):
        c = model.callee(i) or ""
        g = self.P.funcs.get(c)
        if g and not g.decl:
            s = self.m.get(c, ())
            return field in s
        return False

    def kills_raw(self, i):
        c = model.callee(i) or ""
        g = self.P.funcs.get(c)
        return bool(g and not g.decl and "raw" in self.m.get(c, ()))


_eff = {}


def effects(P):
    if P.path not in _eff:
        _eff[P.path] = Effects(P)
    return _eff[P.path]


class Mem:
    def __init__(self, f):
        self.f = f
        self.P = f.P
        self.E = effects(f.P)
        self._canon = {}
        self._gvn = False
        self._end = {}
        self._start = {}
        self.memphi = {}       # node -> [(pred block, node)]
        self.subst = {}
        self.keyinfo = {}      # key -> (root node, off, size, field)
        self._esc = {}
        self._wr = {}
        for b in f.rblocks:
            w = []
            for n, i in enumerate(b.insts):
                if i.op == "store":
                    w.append((n, i))
                elif i.op == "call":
                    c = model.callee(i) or ""
                    if c.startswith("llvm.") and not c.startswith(("llvm.mem",)):
                        continue
                    w.append((n, i))
            self._wr[b.id] = w
        self.pos = {}
        for b in f.rblocks:
            for n, i in enumerate(b.insts):
                self.pos[i.id] = n

    # -- pointers -----------------------------------------------------
    def find(self, node):
        while node in self.subst:
            node = self.subst[node]
        return node

    def canon(self, v):
        """canonical node of a value"""
        if isinstance(v, Const):
            if v.k == "int":
                return ("c", v.v, v.w)
            if v.k == "gv":
                return ("g", v.n, v.o)
            if v.k == "null":
                return ("c", 0, 64)
            if v.k == "fn":
                return ("fn", v.n)
            return ("k", v.k, id(v) if v.k not in ("undef", "zero") else 0)
        if isinstance(v, Arg):
            return ("v", v.id)
        c = self._canon.get(v.id)
        if c is None:
            if v.op in ("bitcast", "freeze"):
                c = self.canon(v.args[0])
            elif v.op == "load":
                c = self.load(v)
            elif v.op == "getelementptr" and v.off == 0 and not v.vars:
                c = self.canon(v.base)
            elif v.op in self.PURE or v.op == "phi":
                if not self._gvn:
                    self._gvn = True
                    self.number()
                    return self.canon(v)
                c = ("v", v.id)
            else:
                c = ("v", v.id)
            self._canon[v.id] = c
        return self.find(c)

    PURE = {"trunc", "zext", "sext", "and", "or", "xor", "shl", "lshr", "ashr", "add", "sub", "mul", "udiv", "sdiv",
            "urem", "srem", "select", "icmp", "ptrtoint"}

    def number(self):
        """equal computations on equal values get one node"""
        dom = self.f.dom()
        lps = {}
        for h, body in dom.loops().items():
            for b in body:
                lps.setdefault(b, set()).add(h)
        table = {}
        none = set()
        heads = set(dom.loops())
        for b in dom.rpo:
            for i in b.insts:
                if i.id in self._canon:
                    continue
                if i.op in self.PURE:
                    k = (i.op, i.ty, i.d.get("pred")) + tuple(self.find(self.canon(a)) for a in i.args)
                    if i.op == "icmp":
                        r = self.truth(("v", i.id), True)
                        if r[0] != ("v", i.id):
                            if r[1] and self.vty(r[0]) == "i1":
                                self._canon[i.id] = r[0]
                                continue
                            k = ("truth", r)
                elif i.op == "phi" and b.id not in heads and len(b.upreds) == 2 and i.ty != "ptr":
                    k = self.gate(i, dom)
                elif i.op == "load" and self.ptr(i.args[0])[2]:
                    # variable address: equal address in an equal state of the region
                    r, off, vs, fl = self.ptr(i.args[0])
                    if i.d.get("vol") or r[0] in ("k", "fn", "c"):
                        continue
                    fl = fl or self.fld(i)
                    k = ("load", i.ty, r, off, tuple((self.find(self.canon(v)), sc) for v, sc in vs), fl)
                    if not (r[0] == "g" and self.P.globals.get(r[1], {}).get("const")):
                        k += (self.at(b, self.pos[i.id], (r, None, i.d["sz"], fl)),)
                else:
                    if i.op == "load":
                        self.canon(i)
                    continue
                c = ("v", i.id)
                if k is not None:
                    for r in table.get(k, ()):
                        # a pure expression over the same operands needs no dominance, its name is only a label
                        if lps.get(r.b.id, none) <= lps.get(b.id, none) and (i.op in self.PURE or dom.dominates(r.b, b)):
                            c = ("v", r.id)
                            break
                    else:
                        table.setdefault(k, []).append(i)
                self._canon[i.id] = c

    def vty(self, n):
        return getattr(self.f.byid.get(n[1]), "ty", None) if n[0] == "v" else None

    def truth(self, n, pos):
        """(node, polarity): the tested value behind conversions of a truth value"""
        for _ in range(12):
            if n[0] != "v":
                break
            i = self.f.byid[n[1]]
            if not isinstance(i, Inst):
                break
            if i.op == "icmp" and i.pred in ("eq", "ne") and self.canon(i.args[1]) [:2] == ("c", 0):
                m, p = self.find(self.canon(i.args[0])), pos == (i.pred == "ne")
                j = self.f.byid[m[1]] if m[0] == "v" else None
                if not isinstance(j, Inst):
                    break
                m2 = self.bool_source(j)
                if m2 is None:
                    break
                n, pos = m2[0], p == m2[1]
                continue
            break
        return n, pos

    def bool_source(self, j, depth=0):
        """(i1 node, polarity) when the value is non-zero exactly if that node is true/false"""
        if depth > 6 or not isinstance(j, Inst):
            return None
        if j.op in ("zext", "sext"):
            m = self.find(self.canon(j.args[0]))
            if j.d.get("fty") == "i1":
                return m, True
            k = self.f.byid[m[1]] if m[0] == "v" else None
            return self.bool_source(k, depth + 1)
        if j.op == "trunc":
            m = self.find(self.canon(j.args[0]))
            k = self.f.byid[m[1]] if m[0] == "v" else None
            r = self.bool_source(k, depth + 1)
            if r and isinstance(k, Inst) and k.op in ("select", "zext") and self.small(k):
                return r
            return None
        if j.op == "select":
            a, b = self.canon(j.args[1]), self.canon(j.args[2])
            if a[0] == "c" and b[0] == "c" and (a[1] == 0) != (b[1] == 0):
                return self.find(self.canon(j.args[0])), a[1] != 0
        return None

    def small(self, k):
        if k.op == "zext":
            return True
        return all(0 <= self.canon(a)[1] < 128 for a in k.args[1:])

    def gate(self, i, dom):
        b = i.b
        d = dom.idom[b.id]
        t = d.term
        if t.op != "br" or len(d.succs) != 2 or d.succs[0] is d.succs[1]:
            return None
        val = {}
        for p, v in i.inc:
            if p is d:
                side = d.succs[0] is b
            elif len(p.upreds) == 1 and p.upreds[0] is d:
                side = d.succs[0] is p
            else:
                return None
            val[side] = self.find(self.canon(v))
        if len(val) != 2:
            return None
        return ("gate", i.ty, self.find(self.canon(t.args[0])), val[True], val[False])

    def ptr(self, v):
        """(root node, const offset, [(value, scale)], innermost field)"""
        off, vars, field = 0, [], None
        while isinstance(v, Inst):
            if v.op == "getelementptr":
                off += v.off
                vars = vars + list(v.vars)
                if field is None and v.fields:
                    field = self.P.field_name(*v.fields[-1])
                v = v.base
            elif v.op in ("bitcast", "freeze"):
                v = v.args[0]
            else:
                break
        n = self.canon(v)
        if n[0] == "g":
            return ("g", n[1]), off + n[2], vars, field
        if n[0] == "v":
            # a load may canonicalise to a GEP stored earlier
            w = self.f.byid[n[1]]
            if w is not v and isinstance(w, Inst) and w.op == "getelementptr":
                r, o2, v2, f2 = self.ptr(w)
                return r, o2 + off, v2 + vars, field or f2
        return n, off, vars, field

    # -- escape ---------------------------------------------------------
    def escaped(self, root):
        """address of a local object stored in memory (not just passed to a call)"""
        if root in self._esc:
            return self._esc[root]
        self._esc[root] = False
        res = False
        if root[0] == "v":
            work, vis = [self.f.byid[root[1]]], set()
            while work and not res:
                v = work.pop()
                if id(v) in vis:
                    continue
                vis.add(id(v))
                for u in v.uses:
                    if u.op in ("getelementptr", "bitcast", "phi", "select"):
                        work.append(u)
                    elif u.op == "store" and u.args[0] is v:
                        r = model.addr(u.args[1])[0]
                        res = True
                    elif u.op in ("ret", "ptrtoint"):
                        pass
                    elif u.op == "call":
                        c = model.callee(u) or ""
                        if c == "indirect" or c.startswith("curl_"):
                            res = True
        self._esc[root] = res
        return res

    def is_alloca(self, root):
        return root[0] == "v" and isinstance(self.f.byid[root[1]], Inst) and self.f.byid[root[1]].op == "alloca"

    def is_heap(self, root):
        if root[0] != "v":
            return False
        i = self.f.byid[root[1]]
        return isinstance(i, Inst) and i.op == "call" and (model.callee(i) or "") in (
            "mem:malloc", "mem:realloc", "malloc", "calloc", "realloc", "libmseed_memory_prealloc", "msr3_init", "msr3_duplicate", "strdup")

    def is_arg(self, root):
        return root[0] == "v" and isinstance(self.f.byid[root[1]], Arg)

    def distinct(self, r1, r2):
        """two different roots that cannot designate overlapping memory"""
        if r1 == r2:
            return False
        a1, a2 = self.is_alloca(r1), self.is_alloca(r2)
        if a1 and a2:
            return True
        if r1[0] == "g" and r2[0] == "g":
            return True
        if (a1 and not self.escaped(r1)) or (a2 and not self.escaped(r2)):
            return True
        if (a1 and r2[0] == "g") or (a2 and r1[0] == "g"):
            return True
        h1, h2 = self.is_heap(r1), self.is_heap(r2)
        if h1 and h2:
            return True
        if (h1 and (self.is_arg(r2) or a2 or r2[0] == "g")) or (h2 and (self.is_arg(r1) or a1 or r1[0] == "g")):
            return True
        if self.is_arg(r1) and self.is_arg(r2):
            return True     # interface assumption: distinct pointer parameters do not overlap
        return False

    # -- kill test ------------------------------------------------------
    def effect(self, i, key):
        """None: no effect on key; ('def', node): must-define; ('kill',): may write"""
        root, off, size, field = key
        if i.op == "store":
            r, o, vs, fl = self.ptr(i.args[1])
            fl = fl or self.fld(i)
            sz = i.d["sz"]
            if r == root:
                if not vs and off is not None:
                    if o == off and sz == size:
                        v = i.args[0]
                        return ("def", self.canon(v))
                    if o + sz <= off or off + size <= o:
                        return None
                    return ("kill",)
                if fl and field and fl != field:
                    return None
                if field and not fl and self.struct_root(root):
                    return None
                return ("kill",)
            if self.distinct(r, root):
                return None
            if fl or field:
                return ("kill",) if fl == field else None
            return ("kill",)
        # call
        c = model.callee(i) or ""
        if c.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove", "memset", "memcpy", "memmove")):
            r, o, vs, fl = self.ptr(i.args[0])
            n = i.args[2]
            ln = n.v if isinstance(n, Const) and n.k == "int" else None
            if r == root:
                if not vs and ln is not None and off is not None:
                    if o + ln <= off or off + size <= o:
                        return None
                    if "set" in c and o <= off and off + size <= o + ln and isinstance(i.args[1], Const) and i.args[1].v == 0:
                        return ("def", ("c", 0, size * 8))
                    if "set" not in c and o <= off and off + size <= o + ln:
                        rs, os, vss, fs = self.ptr(i.args[1])
                        if not vss:
                            k2 = (rs, os + off - o, size, field)
                            return ("copy", k2)
                    return ("kill",)
                if off is not None and not vs and off + size <= o:
                    return None
                if fl and field and fl != field:
                    return None
                return ("kill",)
            if self.distinct(r, root):
                return None
            if fl and field:
                return ("kill",) if fl == field else None
            if field and ln is not None and ln in self.E.sizes and ln > 16:
                s = field.split(".")[0]
                return ("kill",) if any(re.sub(r"^(struct|union)\.", "", x) == s for x in self.E.sizes[ln]) else None
            if field or fl:
                return None       # raw bytes versus a struct member: documented buffers never overlap structures
            return ("kill",)
        if c in ("strncpy", "snprintf") and size == 1 and off is not None:
            # zero padding of a short literal / the terminator cannot lie beyond the length
            r, o, vs, fl = self.ptr(i.args[0])
            n = i.args[2] if c == "strncpy" else i.args[1]
            if r == root and not vs and isinstance(n, Const) and n.k == "int":
                if off < o or off >= o + n.v:
                    return None
                t = model.const_string(self.P, i.args[1]) if c == "strncpy" else None
                if t is not None and off >= o + len(t):
                    return ("def", ("c", 0, 8))
        for n, a in enumerate(i.args):
            if isinstance(a, (Inst, Arg)) and a.ty == "ptr" or (isinstance(a, Const) and a.k == "gv"):
                r, o, vs, fl = self.ptr(a)
                if r == root and self.E.call_writes(i, n):
                    if field and fl is None and o == 0 and not vs and self.P.funcs.get(c) and not self.P.funcs[c].decl:
                        # whole structure passed to a function: use its field effects
                        if self.E.kills_field(i, field):
                            return ("kill",)
                        continue
                    if fl and field and fl != field:
                        continue
                    if fl and field and not vs and off is not None and o != off and self.fieldsize(fl) is not None:
                        continue
                    return ("kill",)
        if self.is_alloca(root):
            if self.escaped(root) and c in ("indirect",):
                return ("kill",)
            if not self.escaped(root):
                return None
        if root[0] == "g":
            s = self.E.m.get(c, ())
            return ("kill",) if ("g", root[1]) in s else None
        if field:
            return ("kill",) if self.E.kills_field(i, field) else None
        return None

    def fieldsize(self, fl):
        s, m = fl.split(".", 1)
        for n, o, z in self.P.distructs.get(s, []):
            if n == m:
                return z
        return None

    def struct_root(self, root):
        return True

    # -- versioned reads --------------------------------------------------
    def fld(self, i):
        return self.P.field_name(*i.d["fld"]) if i.d.get("fld") else None

    def load(self, ld):
        r, off, vs, fl = self.ptr(ld.args[0])
        fl = fl or self.fld(ld)
        if vs or ld.d.get("vol"):
            return ("v", ld.id)
        if r[0] == "g" and self.P.globals.get(r[1], {}).get("const"):
            return ("v", ld.id)
        if r[0] in ("k", "fn"):
            return ("v", ld.id)
        key = (r, off, ld.d["sz"], fl)
        self.keyinfo[key] = True
        n = self.at(ld.b, self.pos[ld.id], key)
        # a value of another kind (float stored, integer read) is opaque
        if n[0] == "v":
            w = self.f.byid[n[1]]
            if getattr(w, "ty", None) != ld.ty and not (isinstance(w, Inst) and w.op == "call"):
                if w.ty.startswith("i") and ld.ty.startswith("i") and w.ty == ld.ty:
                    return n
                return ("v", ld.id)
        return n

    def at(self, b, idx, key):
        for n, i in reversed(self._wr[b.id]):
            if n >= idx:
                continue
            e = self.effect(i, key)
            if e is None:
                continue
            if e[0] == "def":
                return e[1]
            if e[0] == "copy":
                return self.at(b, n, e[1])
            return ("m", key, ("k", i.id))
        return self.start(b, key)

    def end(self, b, key):
        k = (b.id, key)
        r = self._end.get(k)
        if r is None:
            r = self.at(b, 10 ** 9, key)
            self._end[k] = r
        return self.find(r)

    def start(self, b, key):
        k = (b.id, key)
        r = self._start.get(k)
        if r is not None:
            return self.find(r)
        if not b.upreds:
            r = ("m", key, ("entry",))
            if self.is_alloca(key[0]):
                r = ("m", key, ("undef",))
            self._start[k] = r
            return r
        if len(b.upreds) == 1:
            # iterate over straight chains to limit recursion
            chain = [b]
            x = b
            while len(x.upreds) == 1:
                x = x.upreds[0]
                done = False
                hit = None
                for n, i in reversed(self._wr[x.id]):
                    e = self.effect(i, key)
                    if e is not None:
                        hit = self.at(x, 10 ** 9, key)
                        done = True
                        break
                if done:
                    break
                kk = (x.id, key)
                if kk in self._start:
                    hit = self.find(self._start[kk])
                    break
                chain.append(x)
                if not x.upreds or len(x.upreds) > 1:
                    hit = self.start(x, key)
                    break
            for y in chain:
                self._start.setdefault((y.id, key), hit)
            return self.find(hit)
        ph = ("m", key, ("phi", b.id))
        self._start[k] = ph
        ops = [(p, self.end(p, key)) for p in b.upreds]
        uniq = {self.find(n) for _, n in ops} - {ph}
        if len(uniq) == 1:
            u = uniq.pop()
            self.subst[ph] = u
            self._start[k] = u
            return u
        self.memphi[ph] = ops
        return ph

    # -- strings in local arrays ---------------------------------------------
    def terminated(self, b, idx, root, size, depth=12):
        """the local array of that size certainly contains a NUL at this point"""
        if depth <= 0:
            return False
        vers = [self.find(self.at(b, idx, (root, k, 1, None))) for k in (size - 1, 0)]
        if any(v[0] == "c" and v[1] == 0 for v in vers):
            return True
        for v in vers:
            if v[0] == "m" and v[2][0] == "phi" and v in self.memphi:
                j = self.f.blocks[v[2][1]]
                # nothing was written to the array since the join: it must be terminated on every way in
                if self.unwritten(j, b, idx, root) and j.id not in self.f.dom().loops():
                    if all(self.terminated(p, 10 ** 9, root, size, depth - 1) for p in j.upreds):
                        return True
        return False

    def unwritten(self, j, b, idx, root):
        """no instruction between the start of j and the position writes to the object"""
        key = (root, None, 1, None)
        seen, todo = set(), [(b, idx)]
        while todo:
            x, n = todo.pop()
            for k, i in self._wr[x.id]:
                if k < n and self.effect(i, key) is not None:
                    return False
            if x is j:
                continue
            for p in x.upreds:
                if p.id not in seen:
                    seen.add(p.id)
                    todo.append((p, 10 ** 9))
        return True
