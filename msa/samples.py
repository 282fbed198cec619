"""Sample buffers and what describes them (T04): for every record or trace segment whose buffer is replaced, the size, the count
and the type of the samples are followed to the end of the path."""
from . import model, paths, failflow, resources
from .ir import Const, Inst
from .paths import mentions, subst
from .resources import norm

ROLE = {}
for st in ("MS3Record", "MS3TraceSeg"):
    ROLE.update({st + ".datasamples": "P", st + ".datasize": "Z", st + ".numsamples": "N", st + ".sampletype": "T"})
BULK = {"memcpy": 0, "memmove": 0}
WRITES = {"ms_decode_data": 4}


def strip(x):
    while x is not None and x[0] == "e" and x[1] in ("zext", "sext", "trunc"):
        x = x[2]
    return x


class Item:
    __slots__ = ("P", "Z", "N", "T", "ev")

    def __init__(self, o=None):
        self.P = self.Z = self.N = self.T = None
        self.ev = frozenset()
        if o is not None:
            self.P, self.Z, self.N, self.T, self.ev = o.P, o.Z, o.N, o.T, o.ev

    def tup(self):
        return (self.P, self.Z, self.N, self.T, self.ev)

    def __eq__(self, o):
        return self.tup() == o.tup()

    def __hash__(self):
        return hash(self.tup())


class Samples(resources.Res):
    def __init__(self, X, report):
        super().__init__(X)
        self.report = report
        self.web, self.cells_ = self.webs(X.f)
        self.retweb = failflow.web(X.f)

    def role(self, i, p):
        fl = model.fields(self.X.P, p) if isinstance(p, Inst) else None
        return ROLE.get(fl)

    def webs(self, f):
        """values that end up in a buffer or size member, and local variables they pass through"""
        out, cells = set(), set()
        todo = [i.args[0] for i in f.insts() if i.op == "store" and self.role(i, i.args[1]) in ("P", "Z")]
        todo += [a for i in f.insts() if i.op == "call" for a in i.args[1:2] if norm(model.callee(i) or "") in ("mem:realloc", "libmseed_memory_prealloc")]
        seen = set()
        while todo:
            v = todo.pop()
            if not isinstance(v, Inst) or v.id in seen:
                continue
            seen.add(v.id)
            if v.op in ("phi", "select"):
                out.add(v.id)
                todo += v.args if v.op == "phi" else v.args[1:]
            elif v.op in ("zext", "sext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr"):
                todo += v.args
            elif v.op == "load" and isinstance(v.args[0], Inst) and v.args[0].op == "alloca":
                cells.add(v.args[0].id)
        for i in f.insts():
            if i.op == "call" and norm(model.callee(i) or "") == "libmseed_memory_prealloc":
                a = i.args[2]
                if isinstance(a, Inst) and a.op == "alloca":
                    cells.add(a.id)
        return sorted(out), sorted(cells)

    # prop: (items {object: Item}, rel frozenset of (pointer, size), ent frozenset of (object, role, symbol))
    def init(self, s):
        return ((), frozenset(), frozenset())

    def key(self, s):
        k = [s.prop, failflow.webkey(self.X, s, self.retweb)]
        k += [s.env.get(w) for w in self.web]
        for c in self.cells_:
            k.append(tuple(sorted(repr(v) for m, v in s.mem.items() if m[0] == ("v", c))))
        return tuple(k)

    def keepcell(self, v):
        return False

    def items(self, s):
        return {o: Item.__new__(Item) if False else self.mk(t) for o, t in s.prop[0]}

    def mk(self, t):
        it = Item()
        it.P, it.Z, it.N, it.T, it.ev = t
        return it

    def put(self, s, items, rel=None, ent=None):
        s.prop = (tuple(sorted(((o, it.tup()) for o, it in items.items()), key=repr)),
                  s.prop[1] if rel is None else rel, s.prop[2] if ent is None else ent)

    def rebind(self, s, t, u):
        items = self.items(s)
        out = {}
        for o, it in items.items():
            if mentions(o, t):
                self.judge(s, o, it, None)
                continue
            n = Item()
            n.P, n.Z, n.N, n.T = [x if x is None else subst(x, t, u) for x in (it.P, it.Z, it.N, it.T)]
            n.ev = it.ev
            out[o] = n
        rel = frozenset((subst(a, t, u), subst(b, t, u)) for a, b in s.prop[1] if not mentions(a, t))
        ent = frozenset((o, r, subst(v, t, u)) for o, r, v in s.prop[2] if not mentions(o, t))
        self.put(s, out, rel, ent)

    # ------------------------------------------------------------------ events
    def loaded(self, s, i, root, off):
        r = self.role(i, i.args[0])
        if r and self.X.objkind(root) != "alloca":
            it = self.items(s).get(root)
            if it is None or getattr(it, r) is None:
                self.put(s, self.items(s), None, s.prop[2] | {(root, r, self.X.sym(s, i))})

    def store(self, s, i, root, off, val):
        r = self.role(i, i.args[1])
        X = self.X
        if self.islocal(root):
            return
        items = self.items(s)
        if r:
            it = items.setdefault(root, Item())
            setattr(it, r, val)
            if r == "N":
                it.ev |= {"N"}
            elif r == "T":
                it.ev |= {"T"}
            self.put(s, items)
            return
        # an element of a buffer is rewritten
        p = X.base(root)[0]
        for o, r2, v in s.prop[2]:
            if r2 == "P" and v == p and p[0] != "c":
                it = items.setdefault(o, Item())
                it.ev |= {"elem"}
        rel = s.prop[1]
        if any(a == p for a, b in rel):
            rel |= {(p, ("elem",))}
        self.put(s, items, rel)

    def buffer(self, s, p):
        """objects whose present buffer p points into"""
        r = self.X.base(p)[0]
        out = set()
        items = self.items(s)
        for o, r2, v in s.prop[2]:
            if r2 == "P" and v == r and (items.get(o) is None or items[o].P in (None, v)):
                out.add(o)
        for o, it in items.items():
            if it.P == r:
                out.add(o)
        return out

    def call(self, s, i, c):
        X = self.X
        n = norm(c)
        if n in ("mem:malloc", "malloc", "mem:realloc", "realloc"):
            sz = X.sym(s, i.args[1 if "realloc" in n else 0])
            X.default_call(s, i, c)
            r = X.sym(s, i)
            self.put(s, self.items(s), s.prop[1] | {(r, strip(sz))})
            return [s]
        if n == "libmseed_memory_prealloc":
            X.default_call(s, i, c)
            r = X.sym(s, i)
            sz = ("e", "presize", r)
            root, off = X.base(X.sym(s, i.args[2]))
            if off is not None:
                self.setcell(s, (root, off, 8), sz)
            self.put(s, self.items(s), s.prop[1] | {(r, sz)})
            return [s]
        if n in resources.REL_PTR and not isinstance(i.args[resources.REL_PTR[n]], Const):
            o = X.base(X.sym(s, i.args[resources.REL_PTR[n]]))[0]
            self.forget(s, o)
            return None
        if n in resources.REL_CELL:
            v = self.getcell(s, self.cell(s, i, resources.REL_CELL[n]))
            if v is not None:
                self.forget(s, X.base(v)[0])
            return None
        if c.startswith("llvm.memset") or c.startswith("memset"):
            r, off = X.base(X.sym(s, i.args[0]))
            if off == 0 and isinstance(i.args[1], Const) and i.args[1].v == 0 and isinstance(i.args[2], Const) and self.whole(i.args[2].v) and not self.islocal(r):
                items = self.items(s)
                it = Item()
                it.P = it.Z = it.N = it.T = ("c", 0)
                it.ev = frozenset({"N", "T"})
                items[r] = it
                self.put(s, items)
            return None
        if c.startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")):
            p = X.sym(s, i.args[0])
            r, off = X.base(p)
            items = self.items(s)
            if off == 0 and isinstance(i.args[2], Const) and self.whole(i.args[2].v):
                if not self.islocal(r):
                    it = Item()
                    it.P = it.Z = it.N = ("?",)
                    items[r] = it
                    self.put(s, items)
                return None
            for o in self.buffer(s, p):
                self.bulk(s, items.setdefault(o, Item()))
            self.put(s, items)
            return None
        if n in WRITES:
            items = self.items(s)
            for o in self.buffer(s, X.sym(s, i.args[WRITES[n]])):
                it = items.setdefault(o, Item())
                self.bulk(s, it)
                it.ev |= {"T" if any(self.role(i, a) == "T" for a in i.args) else "decoded"}
            self.put(s, items)
            return None
        return None

    def bulk(self, s, it):
        it.ev |= {"bulk"}
        if self.zero(s, it.N):
            it.ev -= {"N"}

    def whole(self, n):
        return any(n == self.X.P.structs[k]["size"] for k in self.X.P.structs if k.endswith(("MS3Record", "MS3TraceSeg")))

    def forget(self, s, o):
        items = self.items(s)
        items.pop(o, None)
        self.put(s, items, None, frozenset(e for e in s.prop[2] if e[0] != o))

    # ------------------------------------------------------------------ judgement
    def zero(self, s, x):
        if x is None:
            return False
        f = self.X.fact(s, x)
        return f[0] == 0 == f[1]

    def entry(self, s, o, r):
        return {v for a, b, v in s.prop[2] if a == o and b == r}

    def judge(self, s, o, it, i):
        if it.P is not None and it.P != ("?",):
            if self.zero(s, it.P):
                if not self.zero(s, it.Z) and not (it.Z is None and any(self.zero(s, v) for v in self.entry(s, o, "P") | self.entry(s, o, "Z"))):
                    self.report(s, i, o, "the buffer is gone but the recorded size of the buffer is not cleared")
                if it.N is None:
                    if not any(self.zero(s, v) for v in self.entry(s, o, "N")) and "null0" not in it.ev and \
                            not any(self.zero(s, v) for v in self.entry(s, o, "P")):
                        self.report(s, i, o, "the buffer is gone but the sample count is not updated")
                elif it.N[0] == "c" and it.N[1] or it.N == ("?",):
                    self.report(s, i, o, "the buffer is gone but the sample count is not cleared")
            else:
                ok = it.Z is not None and (it.P, strip(it.Z)) in s.prop[1]
                if not ok:
                    for a, r, v in s.prop[2]:
                        # the buffer and the size an object had before
                        if r == "P" and v == it.P and (it.Z is None and a == o or (a, "Z", it.Z) in s.prop[2]):
                            ok = True
                if not ok:
                    self.report(s, i, o, "the buffer is replaced but the recorded size is not that of the new buffer")
        elif it.Z is not None and it.Z != ("?",) and it.P is None:
            if it.Z not in self.entry(s, o, "Z"):
                self.report(s, i, o, "the recorded size changes but the buffer does not")
        if "bulk" in it.ev and "N" not in it.ev and not self.zero(s, it.P):
            self.report(s, i, o, "samples are stored in the buffer but the sample count is not updated")
        if "decoded" in it.ev and "T" not in it.ev and not self.zero(s, it.P) and not (it.N is not None and self.X.fact(s, it.N)[1] <= 0):
            self.report(s, i, o, "samples are decoded into the buffer but the sample type is not updated")
        if ("elem" in it.ev or (it.P, ("elem",)) in s.prop[1]) and "T" not in it.ev:
            self.report(s, i, o, "samples are converted in place but the sample type is not updated")

    def ret(self, s, i, val):
        for o, it in self.items(s).items():
            self.judge(s, o, it, i)
