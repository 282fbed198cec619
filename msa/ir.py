"""Object model over the JSON program description (SSA form) + CFG utilities."""
import json, os, re
from collections import defaultdict
from . import build


class Const:
    __slots__ = ("k", "v", "w", "n", "o", "raw")

    def __init__(self, d):
        self.k = d["k"]
        self.raw = d
        self.v = d.get("v")
        self.w = d.get("w")
        self.n = d.get("n")
        self.o = d.get("o", 0)

    def key(self):
        return ("c", self.k, self.v, self.n, self.o, self.w)

    def __eq__(self, o):
        return isinstance(o, Const) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    @property
    def u(self):
        return int(self.raw["u"]) if "u" in self.raw else self.v

    def __repr__(self):
        if self.k == "int":
            return str(self.v)
        if self.k in ("gv", "fn"):
            return "@%s%s" % (self.n, "+%d" % self.o if self.o else "")
        return self.k


class Arg:
    __slots__ = ("f", "id", "name", "ty", "i", "uses", "dname", "b")
    op = "arg"

    def __init__(self, f, d):
        self.f, self.id, self.name, self.ty, self.i = f, d["id"], d["name"], d["ty"], d["i"]
        self.uses = []
        self.b = None

    def __repr__(self):
        return "%" + self.name


class Inst:
    op = None

    def __init__(self, f, b, d):
        self.f, self.b = f, b
        self.id = d["id"]
        self.op = d["op"]
        self.ty = d.get("ty", "void")
        self.name = d.get("name", "")
        self.d = d
        self.loc = d.get("loc")
        self.callee = d.get("callee")
        self.uses = []
        self.args = []

    @property
    def line(self):
        return self.loc[0][1] if self.loc else 0

    @property
    def file(self):
        return self.loc[0][0] if self.loc else self.f.file

    @property
    def srcfn(self):
        return self.loc[0][2] if self.loc else self.f.name

    def where(self):
        if not self.loc:
            return "%s (%s)" % (self.f.file, self.f.name)
        s = "%s:%d (%s)" % (self.loc[0][0], self.loc[0][1], self.loc[0][2])
        for l in self.loc[1:]:
            s += " <- %s:%d (%s)" % (l[0], l[1], l[2])
        return s

    def __repr__(self):
        return "%%%s" % (self.name or self.id)


class Block:
    def __init__(self, f, d):
        self.f = f
        self.id = d["id"]
        self.name = d["name"]
        self.insts = []
        self.phis = []
        self.preds = []
        self.succs = []

    @property
    def term(self):
        return self.insts[-1]

    def __repr__(self):
        return "%s:%s" % (self.f.name, self.name or self.id)


class Func:
    def __init__(self, P, d):
        self.P = P
        self.name = d["name"]
        self.decl = d["decl"]
        self.skipped = d.get("skipped", False)
        self.calls = d.get("calls", [])
        self.internal = d["internal"]
        self.vararg = d["vararg"]
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.rty = d["rty"]
        self.dity = d.get("dity", [])
        self.args = [Arg(self, a) for a in d["args"]]
        self.blocks = []
        self.byid = {a.id: a for a in self.args}
        self.argbyname = {a.name: a for a in self.args}
        if not self.decl:
            raw = d["blocks"]
            for bd in raw:
                b = Block(self, bd)
                self.blocks.append(b)
            for b, bd in zip(self.blocks, raw):
                for i in bd["insts"]:
                    ins = Inst(self, b, i)
                    self.byid[ins.id] = ins
                    b.insts.append(ins)
            for b in self.blocks:
                for i in b.insts:
                    self._resolve(i)
                b.phis = [i for i in b.insts if i.op == "phi"]
            for b in self.blocks:
                t = b.term
                for s in t.succs_ids:
                    sb = self.blocks[s]
                    b.succs.append(sb)
                    sb.preds.append(b)
            for b in self.blocks:
                # unique preds
                seen = []
                for p in b.preds:
                    if p not in seen:
                        seen.append(p)
                b.upreds = seen
            self._prune_unreachable()
        self._dom = None

    def _prune_unreachable(self):
        seen = set()
        st = [self.blocks[0]]
        while st:
            b = st.pop()
            if b.id in seen:
                continue
            seen.add(b.id)
            st += b.succs
        self.reach = seen
        for b in self.blocks:
            b.preds = [p for p in b.preds if p.id in seen]
            b.upreds = [p for p in b.upreds if p.id in seen]
        self.rblocks = [b for b in self.blocks if b.id in seen]
        for b in self.rblocks:
            for i in b.insts:
                for a in i.args:
                    if isinstance(a, (Inst, Arg)):
                        a.uses.append(i)

    def val(self, r):
        if isinstance(r, int):
            return self.byid[r]
        return Const(r)

    def _resolve(self, i):
        d = i.d
        i.succs_ids = []
        if i.op == "phi":
            i.inc = [(self.blocks[b], self.val(r)) for b, r in d["inc"]]
            i.args = [v for _, v in i.inc]
        else:
            i.args = [self.val(r) for r in d.get("a", [])]
            if i.op == "br":
                i.succs_ids = d["succ"]
            elif i.op == "switch":
                i.cases = [(v, self.blocks[b]) for v, b in d["cases"]]
                i.dflt = self.blocks[d["dflt"]]
                i.succs_ids = [d["dflt"]] + [b for _, b in d["cases"]]
            elif i.op == "getelementptr":
                i.off = d["off"]
                i.vars = [(self.val(r), s) for r, s in d.get("vars", [])]
                i.fields = d.get("fields", [])
                i.base = i.args[0]
            elif i.op == "icmp" or i.op == "fcmp":
                i.pred = d["pred"]
            if i.op == "call" and "fp" in d:
                i.fp = self.val(d["fp"])
            elif i.op == "call":
                i.fp = None

    def insts(self):
        for b in self.rblocks:
            for i in b.insts:
                yield i

    def calls_to(self, *names):
        return [i for i in self.insts() if i.op == "call" and i.callee in names]

    # ---- dominators (simple iterative) ----
    def dom(self):
        if self._dom is None:
            self._dom = Dom(self)
        return self._dom

    def __repr__(self):
        return "fn " + self.name


class Dom:
    def __init__(self, f):
        order = []
        seen = set()
        st = [(f.blocks[0], iter(f.blocks[0].succs))]
        seen.add(f.blocks[0].id)
        while st:
            b, it = st[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id)
                    st.append((s, iter(s.succs)))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = order
        self.num = {b.id: n for n, b in enumerate(order)}
        idom = {order[0].id: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in b.preds:
                    if p.id in idom:
                        new = p if new is None else self._inter(idom, new, p)
                if idom.get(b.id) is not new:
                    idom[b.id] = new
                    ch = True
        self.idom = idom
        self.entry = order[0]
        self._loops = None

    def _inter(self, idom, a, b):
        while a is not b:
            while self.num[a.id] > self.num[b.id]:
                a = idom[a.id]
            while self.num[b.id] > self.num[a.id]:
                b = idom[b.id]
        return a

    def dominates(self, a, b):
        """block a dominates block b"""
        while True:
            if a is b:
                return True
            if b is self.entry:
                return False
            b = self.idom[b.id]

    def loops(self):
        """header block id -> set of block ids (natural loops, merged by header)"""
        if self._loops is None:
            L = {}
            for b in self.rpo:
                for s in b.succs:
                    if self.dominates(s, b):
                        body = L.setdefault(s.id, {s.id})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x.id in body:
                                continue
                            body.add(x.id)
                            st += x.preds
            self._loops = L
        return self._loops


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.path = path
        self.structs = d["structs"]
        self.distructs = d["distructs"]
        self.ditypes = d["ditypes"]
        self.inlined = d["inlined"]
        self.globals = {g["name"]: g for g in d["globals"]}
        self.funcs = {}
        for fd in d["functions"]:
            self.funcs[fd["name"]] = Func(self, fd)
        self.defined = [f for f in self.funcs.values() if not f.decl]
        self._field = {}

    def fn(self, name):
        f = self.funcs.get(name)
        if f is None or f.decl:
            raise build.AnalysisError("anchor function %s not found in the current tree" % name)
        return f

    def roots(self):
        """functions analysed on their own: all but the static helpers of which no call is left"""
        if not hasattr(self, "_roots"):
            used = set()
            for f in self.defined:
                if f.skipped:
                    used |= set(f.calls)
                    continue
                for i in f.insts():
                    if i.op == "call" and i.callee:
                        used.add(i.callee)
                    for a in (i.args if i.op != "call" else i.args + [i.fp]):
                        if isinstance(a, Const) and a.k == "fn":
                            used.add(a.n)
            for g in self.globals.values():
                s = json.dumps(g.get("init", {}))
                for f in self.defined:
                    if f.internal and '"%s"' % f.name in s:
                        used.add(f.name)
            hdr = open(os.path.join(build.REPO, "libmseed", "libmseed.h")).read()
            public = set(re.findall(r"\b(\w+)\s*\(", hdr)) | {"main"}
            # a helper of another file or one nobody calls is analysed on its own as well
            called = set()
            for f in load(inlined=False).defined:
                for i in f.insts():
                    if i.op == "call" and i.callee:
                        called.add(i.callee)
            self._roots = [f for f in self.defined if f.name in used or not f.internal and (f.name in public or f.name not in called)]
        return self._roots

    def field_name(self, sname, idx):
        """('struct.MS3Record', 3) -> 'MS3Record.swapflag'"""
        k = (sname, idx)
        if k in self._field:
            return self._field[k]
        base = re.sub(r"^(struct|union)\.", "", sname)
        base = re.sub(r"\.\d+$", "", base)
        st = self.structs.get(sname)
        r = "%s.#%d" % (base, idx)
        if st:
            off = st["fields"][idx][0]
            for n, o, s in self.distructs.get(base, []):
                if o == off:
                    r = "%s.%s" % (base, n)
                    break
        self._field[k] = r
        return r

    def gstring(self, v):
        """Literal C string a constant operand points at, or None."""
        if isinstance(v, Const) and v.k == "gv":
            g = self.globals.get(v.n)
            if g and g["const"] and "init" in g:
                i = g["init"]
                if i["k"] == "str":
                    b = bytes(i["b"])[v.o:]
                    return b.split(b"\0")[0].decode("latin1")
                if i["k"] == "zero":
                    return ""
        return None


_cache = {}


def load(inlined=False, **kw):
    p = build.program(inlined, **kw)
    if p not in _cache:
        _cache[p] = Program(p)
    return _cache[p]


def fname(n):
    """strip LLVM's numeric suffix of duplicated static functions"""
    return re.sub(r"\.\d+$", "", n) if n else n
