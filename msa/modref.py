"""Which memory a function writes through its parameters: flow-insensitive derivation of pointers, summaries to a fixed point over the call graph."""
from . import model
from .ir import Arg, Const, Inst

# external functions: arguments written through
EXT = {"memcpy": (0,), "memmove": (0,), "memset": (0,), "strncpy": (0,), "strcpy": (0,), "strcat": (0,), "strncat": (0,), "snprintf": (0,), "vsnprintf": (0,), "sprintf": (0,),
       "fread": (0,), "fgets": (0,), "getline": (0, 1), "regcomp": (0,), "regexec": (3,), "regerror": (2,), "regfree": (0,), "strtol": (1,), "strtoul": (1,), "strtoll": (1,),
       "strtoull": (1,), "strtod": (1,), "qsort": (0,), "sscanf": "rest2", "fscanf": "rest2", "stat": (1,), "fstat": (1,), "lstat": (1,), "strerror_r": (1,), "read": (1,),
       "mem:free": (0,), "free": (0,), "time": (0,), "gmtime_r": (1,), "localtime_r": (1,), "frexp": (1,), "modf": (1,), "strtok_r": (0, 2), "strtok": (0,), "gettimeofday": (0, 1),
       "asprintf": (0,), "vasprintf": (0,), "__isoc99_sscanf": "rest2", "select": (1, 2, 3, 4), "curl_multi_fdset": (1, 2, 3, 4), "curl_easy_getinfo": (2,),
       "curl_multi_perform": (1,), "curl_multi_info_read": (1,), "curl_multi_timeout": (1,), "yyjson_mut_doc_ptr_set": (0, 3), "yyjson_mut_doc_ptr_replace": (0,),
       "yyjson_mut_obj_add": (0,), "yyjson_mut_arr_append": (0,), "yyjson_arr_iter_init": (1,), "yyjson_ptr_get_bool": (2,), "yyjson_ptr_get_num": (2,),
       "yyjson_ptr_get_str": (2,), "yyjson_ptr_get_uint": (2,), "yyjson_ptr_get_sint": (2,), "yyjson_ptr_get_real": (2,), "yyjson_doc_free": (0,), "yyjson_mut_doc_free": (0,)}
INSITU = 1
# external functions that return (a pointer derived from) an argument
RET = {"strchr": 0, "strrchr": 0, "strstr": 0, "strpbrk": 0, "memchr": 0, "memcpy": 0, "memmove": 0, "memset": 0, "strncpy": 0, "strcpy": 0, "strcat": 0, "strncat": 0}


class Derived:
    """pointers of one function that lead into the objects its parameters designate: value -> {(parameter, loads on the way (0, 1: one or more))}"""

    def __init__(self, M, f):
        self.M, self.f, self.P = M, f, M.P
        self.tab = {}
        self.mem = {}           # alloca -> what pointers kept in it lead to
        for a in f.args:
            if a.ty == "ptr":
                self.tab[("a", a.i)] = {(a.i, 0)}
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                for i in b.insts:
                    ch |= self.step(i)

    def key(self, v):
        return ("a", v.i) if isinstance(v, Arg) else v.id

    def get(self, v):
        if isinstance(v, Const):
            return frozenset()
        return self.tab.get(self.key(v), frozenset())

    def add(self, v, s):
        k = self.key(v)
        o = self.tab.get(k)
        if not s:
            return False
        if o is None:
            self.tab[k] = set(s)
            return True
        n = len(o)
        o |= s
        return len(o) != n

    def local(self, v, seen=()):
        """allocas a pointer may lead into"""
        if isinstance(v, Inst) and v.id not in seen:
            if v.op == "alloca":
                return {v.id}
            if v.op in ("getelementptr", "bitcast", "freeze"):
                return self.local(v.args[0], seen + (v.id,))
            if v.op == "phi":
                return set().union(*[self.local(a, seen + (v.id,)) for a, _ in [(x[1], 0) for x in v.inc]])
            if v.op == "select":
                return self.local(v.args[1], seen + (v.id,)) | self.local(v.args[2], seen + (v.id,))
        return set()

    def keep(self, al, s):
        if not s:
            return False
        o = self.mem.setdefault(al, set())
        n = len(o)
        o |= s
        return len(o) != n

    def step(self, i):
        op = i.op
        if op in ("getelementptr", "bitcast", "freeze", "inttoptr", "ptrtoint"):
            return self.add(i, self.get(i.base if op == "getelementptr" else i.args[0]))
        if op == "phi":
            return self.add(i, set().union(*[self.get(v) for _, v in i.inc]) if i.ty == "ptr" else set())
        if op == "select":
            return self.add(i, set(self.get(i.args[1])) | set(self.get(i.args[2]))) if i.ty == "ptr" else False
        if op == "load" and i.ty == "ptr":
            s = {(n, 1) for n, d in self.get(i.args[0])}
            for al in self.local(i.args[0]):
                s |= self.mem.get(al, set())
            g = i.args[0]
            if isinstance(g, Inst) and g.op == "getelementptr" and g.fields:
                m = self.P.field_name(*g.fields[-1])
                if m in self.M.members:
                    s.add((m, 0))
            return self.add(i, s)
        if op == "store":
            s = self.get(i.args[0])
            ch = False
            for al in self.local(i.args[1]):
                ch |= self.keep(al, s)
            return ch
        if op == "call":
            c = model.callee(i)
            ch = False
            if c and (c.startswith(("llvm.memcpy", "llvm.memmove")) or c in ("memcpy", "memmove")):
                s = {(n, 1) for n, d in self.get(i.args[1])}
                for al in self.local(i.args[1]):
                    s |= self.mem.get(al, set())
                for al in self.local(i.args[0]):
                    ch |= self.keep(al, s)
            if i.ty == "ptr":
                for k in self.M.returned(i):
                    if k < len(i.args):
                        ch |= self.add(i, self.get(i.args[k]))
                for k in self.M.returned(i, 1):
                    if k < len(i.args):
                        ch |= self.add(i, {(n, 1) for n, d in self.get(i.args[k])})
            return ch
        return False


class ModRef:
    def __init__(self, P, exempt=()):
        self.P = P
        self.exempt = set(exempt)       # (function, instruction id): writes that are undone
        # members declared as pointers to constant objects
        self.members = {"%s.%s" % (t, n) for t, ts in P.ditypes.items() if not t.startswith("yyjson")
                        for (n, o, z), ty in zip(P.distructs[t], ts) if ty.startswith("const ") and ty.count("*") == 1}
        self.fs = [f for f in P.defined if not f.skipped]
        self.name = {f.name: f for f in self.fs}
        self.w = {f.name: {} for f in self.fs}          # (parameter, depth) -> [(inst, text)]
        self.r = {f.name: set() for f in self.fs}       # parameters the result is derived from: (parameter, depth)
        self.der = {}
        ch, self.unknown = True, set()
        while ch:
            ch = False
            for f in self.fs:
                D = self.der[f.name] = Derived(self, f)
                ch |= self.update(f, D)

    def returned(self, i, depth=0):
        c = model.callee(i)
        if c in self.r:
            return [n for n, d in self.r[c] if d == depth]
        return [RET[c]] if depth == 0 and c in RET else []

    def targets(self, i):
        c = model.callee(i)
        return c

    def written_args(self, i):
        """{argument: {depth}} a call writes through"""
        c = model.callee(i)
        if c is None:
            return {}
        if c in self.w:
            r = {}
            for (n, d) in self.w[c]:
                if not isinstance(n, str):
                    r.setdefault(n, set()).add(d)
            return r
        if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            return {0: {0}}
        if c.startswith("llvm."):
            return {}
        base = c.rsplit(".", 1)[0] if c.rsplit(".", 1)[-1].isdigit() else c
        s = EXT.get(base, ())
        if base.startswith("yyjson_mut_set_"):
            s = (0,)
        if base in ("yyjson_read_opts", "yyjson_read") and not (len(i.args) > 2 and isinstance(i.args[2], Const) and i.args[2].k == "int" and not i.args[2].v & INSITU):
            s = (0,)                # parsing in place
        if s == "rest2":
            s = range(2, len(i.args))
        return {n: {0} for n in s}

    def update(self, f, D):
        w = self.w[f.name]
        n0 = len(w)
        for b in f.blocks:
            for i in b.insts:
                if (f.name, i.id) in self.exempt:
                    continue
                if i.op == "store":
                    for k in D.get(i.args[1]):
                        w.setdefault(k, {})[i.id] = i
                elif i.op == "call":
                    for n, ds in self.written_args(i).items():
                        if n < len(i.args):
                            for p, d in D.get(i.args[n]):
                                if isinstance(p, str) and (model.callee(i) or "") in ("mem:free", "free"):
                                    continue            # releasing what the member designates is a matter of ownership
                                for e in ds:
                                    w.setdefault((p, max(d, e)), {})[i.id] = i
        r = self.r[f.name]
        r0 = len(r)
        for b in f.blocks:
            t = b.term
            if t.op == "ret" and t.args and not isinstance(t.args[0], Const):
                r |= set(D.get(t.args[0]))
        return len(w) != n0 or len(r) != r0

    def writes(self, name):
        """argument numbers a function may write through (any depth), None if it is not analysed"""
        return {n for n, d in self.w[name]} if name in self.w else None
