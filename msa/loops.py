"""Progress of loops (T01): what a loop's exits depend on, and what happens to it on every way round."""
from . import model, lin as LN, bounds
from .ir import Const, Inst, Arg
from .bounds import Ctx
from .resources import norm

# library functions whose result depends on their arguments and what these point to only
PURE = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "strchr", "strrchr", "strstr", "strspn", "strcspn", "abs",
        "isdigit", "isspace", "isalnum", "isalpha", "isprint", "toupper", "tolower", "__ctype_b_loc", "__errno_location", "fabs", "floor",
        "ms_samplesize", "ms_bigendianhost", "strpbrk", "memchr", "isupper", "islower", "__ctype_toupper_loc", "__ctype_tolower_loc"}
# calls that take something from a source that ends
CONSUME = {"fgets", "fread", "getc", "fgetc", "getline", "getdelim", "read", "recv", "fscanf", "curl_multi_perform", "curl_multi_info_read",
           "readdir", "getopt", "getopt_long", "strtok", "strtok_r", "strsep", "select", "yyjson_mut_arr_iter_next", "yyjson_mut_obj_iter_next",
           "yyjson_arr_iter_next", "yyjson_obj_iter_next"}
_CONS = {}


def consuming(P):
    """functions that call one of these, directly or through others"""
    if id(P) not in _CONS:
        out = {c for c in CONSUME if "_iter_" not in c}
        cg = model.callgraph(P)
        grow = True
        while grow:
            grow = False
            for f in P.defined:
                if norm(f.name) not in out and not f.file.startswith("yyjson") and any(norm(c) in out for c in cg.get(f.name, ())):
                    out.add(norm(f.name))
                    grow = True
        _CONS[id(P)] = out
    return _CONS[id(P)]


MAXPATHS = 400
FUEL = 400000


class Loop:
    def __init__(self, B, hid):
        self.B, self.f = B, B.f
        self.H = B.f.blocks[hid]
        self.body = B.loops[hid]
        self.latches = [p for p in self.H.upreds if p.id in self.body]
        self.inner = {h for h in B.loops if h != hid and h in self.body}
        self.exits = []
        for bid in self.body:
            b = self.f.blocks[bid]
            for s in b.succs:
                if s.id not in self.body:
                    self.exits.append((b, s))
        self.slice()

    # -- what the exits depend on -------------------------------------------
    def slice(self):
        B, f, body = self.B, self.f, self.body
        self.dep = set()        # header phi nodes
        self.fresh = {}         # instruction -> why
        seen = set()
        gates = set()
        work = []

        def value(v):
            if isinstance(v, Inst) and v.id not in seen:
                seen.add(v.id)
                work.append(v)

        def node(n):
            if n in seen:
                return
            seen.add(n)
            if n[0] == "v":
                i = f.byid[n[1]]
                if isinstance(i, Inst):
                    value(i)
            elif n[0] == "m":
                root(n[1][0])
                v = n[2]
                if v[0] == "phi":
                    j = f.blocks[v[1]]
                    if j.id not in body:
                        return
                    if j is self.H:
                        self.dep.add(n)
                    else:
                        gate(j)
                    for q, o in B.mem.memphi.get(n, ()):
                        if q.id in body:
                            node(B.mem.find(o))
                elif v[0] == "k":
                    i = f.byid[v[1]]
                    if i.b.id in body and i.op == "call":
                        call(i)

        def call(i):
            c = norm(model.callee(i) or "")
            if c in CONSUME or c in consuming(f.P):
                self.fresh[i] = c

        def root(r):
            if r[0] in ("v", "m"):
                node(r)

        def gate(j):
            if j.id in gates:
                return
            gates.add(j.id)
            for q in j.upreds:
                if q.id in body:
                    cond(q)
            d = f.dom().idom.get(j.id) if hasattr(f.dom(), "idom") and isinstance(f.dom().idom, dict) else None
            d = getattr(d, "id", d)
            if d is not None and d in body:
                cond(f.blocks[d])

        def cond(b):
            t = b.insts[-1]
            for a in t.args:
                if isinstance(a, Inst):
                    value(a)

        for b, s in self.exits:
            cond(b)
        while work:
            i = work.pop()
            if i.b.id not in body:
                continue
            if i.op == "phi":
                n = B.node(i)
                if i.b is self.H:
                    self.dep.add(("v", i.id))
                else:
                    gate(i.b)
                for q, v in i.inc:
                    if q.id in body:
                        value(v)
                continue
            if i.op == "load":
                n = B.node(i)
                if n != ("v", i.id):
                    node(n)
                    continue
                r, off, vs, fl = B.mem.ptr(i.args[0])
                value(i.args[0])
                root(r)
                if not (r[0] == "g" and self.f.P.globals.get(r[1], {}).get("const")) and r[0] not in ("k", "fn"):
                    node(B.mem.at(i.b, B.mem.pos[i.id], (r, None, i.d["sz"], fl or B.mem.fld(i))))
                continue
            if i.op == "call":
                c = norm(model.callee(i) or "")
                if c.startswith("llvm.") and not c.startswith("llvm.mem"):
                    pass
                elif c in PURE:
                    for a in i.args:
                        if not isinstance(a, Const) and a.ty == "ptr":
                            r, off, vs, fl = B.mem.ptr(a)
                            root(r)
                            if r[0] in ("v", "m", "g"):
                                node(B.mem.at(i.b, B.mem.pos[i.id], (r, None, 1, fl)))
                else:
                    call(i)
            for a in i.args:
                value(a)

    # -- ways round ----------------------------------------------------------
    def ways(self):
        """[(latch, edges chosen at joins, {phi node: node flowing back})]"""
        B = self.B
        out = []
        for q in self.latches:
            start = {}
            for n in self.dep:
                m, _ = B.incoming(n, q)
                start[n] = m
            st = [(q, [(q, self.H)], start)]
            while st:
                if len(out) + len(st) > MAXPATHS:
                    return None
                q0, edges, vals = st.pop()
                done = {b.id for _, b in edges}
                j = None
                for m in vals.values():
                    b = self.joinof(m)
                    if b is not None and b.id not in done:
                        # the join furthest down first
                        if j is None or self.f.dom().dominates(j, b):
                            j = b
                if j is None:
                    out.append((q0, edges, vals))
                    continue
                for p in j.upreds:
                    if p.id not in self.body:
                        continue
                    v2 = {}
                    for n, m in vals.items():
                        if self.joinof(m) is j:
                            m, _ = B.incoming(m, p)
                        v2[n] = m
                    st.append((q0, edges + [(p, j)], v2))
        return out

    def joinof(self, m):
        if m is None:
            return None
        b = None
        if m[0] == "v":
            i = self.f.byid[m[1]]
            if isinstance(i, Inst) and i.op == "phi":
                b = i.b
        elif m[0] == "m" and m[2][0] == "phi":
            b = self.f.blocks[m[2][1]]
            if m not in self.B.mem.memphi:
                return None
        if b is None or b is self.H or b.id not in self.body or b.id in self.inner:
            return None
        return b

    def avoids(self, edges, blocked):
        """there is a way round through the chosen edges that executes none of the blocked blocks"""
        # edges are listed from the latch upwards
        pts = [(p, b) for p, b in reversed(edges)]
        cur = {self.H.id} if self.H.id not in blocked else set()
        if not cur:
            return False
        joins = {b.id for _, b in edges}
        for p, b in pts:
            seen = set(cur)
            st = list(cur)
            while st:
                x = st.pop()
                for s in self.f.blocks[x].succs:
                    if s.id in self.body and s.id not in seen and s is not self.H and s.id not in blocked and s.id not in joins:
                        seen.add(s.id)
                        st.append(s.id)
            if p.id not in seen:
                return False
            if b is self.H:
                return True
            if b.id in blocked:
                return False
            cur = {b.id}
        return True

    def feasible(self, edges):
        B = self.B
        ctx = Ctx(B.ctx_at(edges[-1][0]))
        for p, b in reversed(edges):
            B.merge(ctx, Ctx(B.ctx_at(p))) if hasattr(B, "merge") else None
            B.edge(p, b, ctx)
        return ctx

    # -- one phi on one way ----------------------------------------------------
    def change(self, n, m, edges, direction=None):
        """'same', '+', '-', 'zero?' (added amount not shown to differ from 0), 'list', 'other'"""
        B = self.B
        if m is None:
            return "other"
        m = B.mem.find(m) if m[0] == "m" else m
        if m == n:
            return "same"
        if n[0] == "m" and n[1][1] is None:
            return "other"
        if self.reaches(m, n):
            return "list"
        ptr = B.is_ptr(n)
        if not ptr and self.endszero(n):
            if m[:2] == ("c", 0):
                return "ends"
            r = self.chained(n, m, edges)
            if r:
                return r
        r = self.added(n, m, edges)
        if r in ("+", "-", "same", "zero?"):
            return r
        for view in (("o",) if ptr else ("u", "s")):
            for p, b in (edges[0], edges[-1]):
                ctx = Ctx(B.ctx_at(p))
                B.edge(p, b, ctx)
                if view == "o":
                    if m[0] != "v":
                        r, e = B.nptrlin(m, ctx)
                    else:
                        r, e = B.ptrlin(self.f.byid[m[1]], ctx)
                    base = LN.atom(("o", n))
                else:
                    e = B.lin(view, m, ctx)
                    base = LN.atom((view, n))
                if e is None:
                    continue
                d = LN.add(e, base, -1)
                if base and not any(a in dict(e[1] if isinstance(e, tuple) and len(e) > 1 else ()) for a in ()):
                    pass
                if not self.mentions(e, n):
                    continue
                if LN.isconst(d):
                    c = LN.cval(d)
                    return "+" if c > 0 else "-" if c < 0 else "same"
                try:
                    if B.prove(LN.add(d, LN.const(-1)), p, ctx=Ctx(ctx)):
                        return "+"
                    if B.prove(LN.add(LN.scale(d, -1), LN.const(-1)), p, ctx=Ctx(ctx)):
                        return "-"
                except bounds.OutOfFuel:
                    return "other"
                if self.positive(d):
                    return "+"
                if self.freshval(d):
                    return "other"
                return "zero?"
        if not ptr and self.fromdata(m):
            return "data"
        return "other"

    def fromdata(self, m):
        """computed from bytes read from memory, with constants, and nothing else"""
        seen, st, found = set(), [m], False
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "c":
                continue
            if x[0] == "m":
                if x[2][0] == "k" and self.f.byid[x[2][1]].op == "call" and (model.callee(self.f.byid[x[2][1]]) or "").startswith("llvm.memcpy"):
                    found = True
                    continue
                if x[2][0] == "phi" and x in self.B.mem.memphi and x[2][1] in self.body and x[2][1] != self.H.id:
                    st += [self.B.mem.find(o) for q, o in self.B.mem.memphi[x]]
                    continue
                return False
            if x[0] != "v" or not isinstance(self.f.byid[x[1]], Inst):
                return False
            i = self.f.byid[x[1]]
            if i.b.id not in self.body:
                return False
            if i.op == "load":
                if self.B.mem.ptr(i.args[0])[2]:
                    found = True
                    continue
                return False
            if i.op == "phi":
                if i.b is self.H:
                    return False
                st += [self.B.node(v) for q, v in i.inc]
                continue
            if i.op in ("sext", "zext", "trunc", "and", "or", "shl", "lshr", "ashr", "add", "select"):
                st += [self.B.node(a) for a in i.args]
                continue
            return False
        return found

    def endszero(self, n):
        """the loop is left at its head when the value is 0"""
        B = self.B
        b = self.H
        for _ in range(4):
            t = b.insts[-1]
            if len(b.succs) != 2:
                break
            nxt = None
            c = t.args[0] if t.args else None
            if isinstance(c, Inst) and c.op == "icmp" and isinstance(c.args[1], Const) and c.args[1].k == "int":
                x = B.node(c.args[0])
                while x != n and x[0] == "v" and isinstance(self.f.byid[x[1]], Inst) and self.f.byid[x[1]].op in ("sext", "zext"):
                    x = B.node(self.f.byid[x[1]].args[0])
                if x == n:
                    k = c.args[1].v
                    w = c.args[1].w
                    sk = k - (1 << w) if k >= 1 << (w - 1) else k
                    z = {"eq": k == 0, "ne": k != 0, "ugt": False, "sgt": 0 > sk, "uge": k == 0, "sge": 0 >= sk,
                         "ult": k > 0, "slt": 0 < sk, "ule": True, "sle": 0 <= sk}.get(c.pred)
                    if z is not None:
                        s = b.succs[0 if z else 1]
                        if s.id not in self.body:
                            return True
            ins = [s for s in b.succs if s.id in self.body]
            if len(ins) != 1:
                break
            b = ins[0]
        return False

    def chained(self, n, m, edges):
        """replaced by something greater, unless it is 0"""
        B = self.B
        for p, b in (edges[-1], edges[0]):
            ctx = Ctx(B.ctx_at(p))
            B.edge(p, b, ctx)
            try:
                for view in ("u", "s"):
                    e, o = B.lin(view, m, ctx), B.lin(view, n, ctx)
                    if e is None or o is None:
                        continue
                    c2 = Ctx(ctx)
                    c2.add(LN.add(e, LN.const(-1)))
                    if B.prove(LN.add(LN.add(e, o, -1), LN.const(-1)), p, ctx=c2):
                        return "+"
            except bounds.OutOfFuel:
                B.fuel = FUEL
        return None

    def added(self, n, m, edges):
        """the new value is the old one with amounts added whose signs are known (the sum is taken not to wrap)"""
        B = self.B
        parts = []

        def walk(x, sgn, depth):
            if x == n:
                return 1
            if depth > 6 or x[0] != "v":
                return 0
            i = self.f.byid[x[1]]
            if not isinstance(i, Inst):
                return 0
            if i.op in ("add", "sub"):
                a, b = B.node(i.args[0]), B.node(i.args[1])
                mark = len(parts)
                if walk(a, sgn, depth + 1):
                    parts.append((b, i.args[1], 1 if i.op == "add" else -1))
                    return 1
                del parts[mark:]
                if i.op == "add" and walk(b, sgn, depth + 1):
                    parts.append((a, i.args[0], 1))
                    return 1
                del parts[mark:]
            if i.op == "call" and norm(model.callee(i) or "") in ("strchr", "strrchr", "strstr", "strpbrk", "memchr"):
                return walk(B.node(i.args[0]), sgn, depth + 1)
            if i.op in ("sext", "zext", "trunc", "freeze", "bitcast"):
                return walk(B.node(i.args[0]), sgn, depth + 1)
            if i.op == "getelementptr":
                mark = len(parts)
                if walk(B.node(i.base), sgn, depth + 1):
                    if i.off:
                        parts.append((None, i.off, 1))
                    for v, sc in i.vars:
                        parts.append((B.node(v), v, 1 if sc > 0 else -1))
                    return 1
                del parts[mark:]
            return 0
        if not walk(m, 1, 0):
            return None
        if not parts:
            return "same"       # the first match from a match on is that match
        out = set()
        for x, v, sgn in parts:
            if x is None:
                out.add("+" if v > 0 else "-")
                continue
            if x[0] == "c":
                c = x[1]
                if x[2] and c >= 1 << (x[2] - 1):
                    c -= 1 << x[2]
                if c:
                    out.add("+" if c * sgn > 0 else "-")
                continue
            out.add(self.sign(x, sgn, edges))
        if None in out and "+" not in out and "-" not in out and all(x is not None and self.maybezero(x, edges) for x, v, sgn in parts):
            return "zero?"
        return out.pop() if len(out) == 1 else None

    def maybezero(self, x, edges, depth=0):
        """result of a step, 0 or more: nothing excludes 0"""
        B = self.B
        i = self.f.byid[x[1]] if x[0] == "v" else None
        while isinstance(i, Inst) and i.op in ("sext", "zext", "trunc", "freeze"):
            i = i.args[0]
        if not isinstance(i, Inst) or i.b.id not in self.body:
            return False
        if i.op == "mul" and depth < 3:
            return any(self.maybezero(B.node(a), edges, depth + 1) for a in i.args)
        st, seen = [i], set()
        while st:
            y = st.pop()
            if y.id in seen:
                continue
            seen.add(y.id)
            if y.op in ("phi", "select", "sext", "trunc", "zext"):
                for a in (y.args if y.op != "select" else y.args[1:]):
                    if isinstance(a, Inst):
                        if a.b.id not in self.body or a.b is self.H and a.op == "phi":
                            return False
                        st.append(a)
            elif y.op != "call":
                return False
        n = B.node(i)
        for p, b in (edges[0], edges[-1]):
            ctx = Ctx(B.ctx_at(p))
            B.edge(p, b, ctx)
            try:
                e = B.lin("s", n, ctx)
                if e is not None and B.prove(e, p, ctx=Ctx(ctx)):
                    return True
            except bounds.OutOfFuel:
                B.fuel = FUEL
        return False

    def sign(self, x, sgn, edges):
        B = self.B
        if self.reclen(x):
            return "+" if sgn > 0 else "-"
        for p, b in (edges[0], edges[-1]):
            ctx = Ctx(B.ctx_at(p))
            B.edge(p, b, ctx)
            for view in ("s", "u"):
                try:
                    e = B.lin(view, x, ctx)
                    if e is None:
                        continue
                    if B.prove(LN.add(e, LN.const(-1)), p, ctx=Ctx(ctx)):
                        return "+" if sgn > 0 else "-"
                    if view == "s" and B.prove(LN.add(LN.scale(e, -1), LN.const(-1)), p, ctx=Ctx(ctx)):
                        return "-" if sgn > 0 else "+"
                except bounds.OutOfFuel:
                    B.fuel = FUEL
        return None

    def mentions(self, e, n):
        return any(a[1] == n or (len(a) > 1 and a[1] == n) for a in LN.atoms(e))

    def positive(self, d):
        """the length of a parsed record"""
        ats = LN.atoms(d)
        return len(ats) >= 1 and all(self.reclen(a[1]) for a in ats)

    def reclen(self, n):
        if n[0] == "m":
            return n[1][3] == "MS3Record.reclen"
        if n[0] == "v":
            i = self.f.byid[n[1]]
            while isinstance(i, Inst) and i.op in ("sext", "zext", "trunc"):
                i = i.args[0]
            if isinstance(i, Inst) and i.op == "load":
                m = self.B.node(i)
                return model.fields(self.f.P, i.args[0]) == "MS3Record.reclen" or m[0] == "m" and m[1][3] == "MS3Record.reclen"
        return False

    def freshval(self, d):
        return False

    def reaches(self, m, n, depth=0):
        """m was read from an object that n designates, directly or through others"""
        if depth > 8 or m is None:
            return False
        B = self.B
        if m[0] == "m":
            r = m[1][0]
            return r == n or self.reaches(r, n, depth + 1)
        if m[0] == "v":
            i = self.f.byid[m[1]]
            if isinstance(i, Inst) and i.op == "load":
                r = B.mem.ptr(i.args[0])[0]
                return r == n or r == m and False or (r != m and self.reaches(r, n, depth + 1))
        return False

    # -- verdict -----------------------------------------------------------------
    def simple(self):
        """one value the exits depend on moves in one direction on every way round"""
        B = self.B
        for n in sorted(self.dep, key=repr):
            if n[0] == "m" and n[1][1] is None:
                continue
            for view in (("o",) if B.is_ptr(n) else ("u", "s")):
                for sgn in (1, -1):
                    ok = True
                    for q in self.latches:
                        ctx = Ctx(B.ctx_at(q))
                        B.edge(q, self.H, ctx)
                        e = B.lin_in(view, n, q, ctx)
                        if e is None:
                            ok = False
                            break
                        g = LN.add(LN.scale(LN.add(e, LN.atom((view, n)), -1), sgn), LN.const(-1))
                        try:
                            B.fuel = FUEL
                            if not B.prove(g, q, ctx=ctx):
                                ok = False
                                break
                        except bounds.OutOfFuel:
                            B.fuel = FUEL
                            ok = False
                            break
                    if ok:
                        return n
        return None

    def where(self):
        for b in [self.H] + sorted((self.f.blocks[x] for x in self.body), key=lambda b: b.id):
            for i in b.insts:
                if i.line and i.op != "phi" and i.loc:
                    return i
        return None

    def verdict(self):
        """(kind, detail)"""
        if not self.exits:
            return "endless", "the loop has no exit"
        for n in sorted(self.dep, key=repr):
            if all(self.reaches(B_in, n) for B_in in [self.B.incoming(n, q)[0] for q in self.latches]):
                return "measure", ["list"]
        blocked = {i.b.id for i in self.fresh}
        if blocked and not any(self.avoids([(q, self.H)], blocked) for q in self.latches):
            return "consumer", sorted(set(self.fresh.values()))
        n = self.simple()
        if n is not None:
            return "counter", n
        ways = self.ways()
        if ways is None:
            return "undecided", "too many ways round"
        table = []
        whole = {}
        for q in self.latches:
            for n in self.dep:
                try:
                    self.B.fuel = FUEL
                    k = self.change(n, self.B.incoming(n, q)[0], [(q, self.H)])
                except bounds.OutOfFuel:
                    k = "other"
                if k in ("+", "-", "list", "ends"):
                    whole[(q, n)] = k
        for q, edges, vals in ways:
            if blocked and not self.avoids(edges, blocked):
                table.append((edges, "consumes", {}))
                continue
            row = {}
            for n, m in vals.items():
                self.B.fuel = FUEL
                try:
                    row[n] = whole.get((q, n)) or self.change(n, m, edges)
                except bounds.OutOfFuel:
                    row[n] = "other"
            if "ends" in row.values():
                continue
            table.append((edges, None, row))
        left = [t for t in table if t[1] is None]
        if not table:
            return "measure", ["ends"]
        if not left:
            return "consumer", sorted(set(self.fresh.values()))
        used = []
        phis = set(self.dep)
        while left:
            best = None
            for n in sorted(phis, key=repr):
                ks = [t[2][n] for t in left]
                for strict in ("+", "-", "list"):
                    if all(k == strict or k == "same" for k in ks) and strict in ks:
                        best = n, strict
                        break
                if best:
                    break
            if not best:
                break
            used.append(best[1])
            left = [t for t in left if t[2][best[0]] == "same"]
        if not left:
            return "measure", used
        for t in left:
            ks = set(t[2].values())
            if ks <= {"same", "zero?", "data"}:
                return "stuck", t
        if all(set(t[2].values()) <= {"same", "zero?", "+", "-", "list"} for t in left) and \
                not any("other" in t[2].values() for t in table if t[1] is None):
            return "nomeasure", left[0]
        return "undecided", "%d ways round not decided: %s" % (len(left), sorted({k for t in left for k in t[2].values()}))
