"""Null-pointer rules on the path executor: which parameters a function dereferences when they are null
(summary, used for E04 and for calls), and what happens to the null result of a call that failed (R03, E02)."""
from . import model, memory, paths, leak, resources
from .ir import Const, Inst, Arg
from .paths import State
from .resources import T, norm, Res, ACQ_RET, ACQ_CELL, REALLOC, INIT

# external routines: pointer arguments that are dereferenced
EXT = {"strcmp": (0, 1), "strncpy": (0, 1), "fclose": (0,), "strlen": (0,), "strncasecmp": (0, 1), "fopen": (0, 1),
       "strncmp": (0, 1), "strchr": (0,), "strcpy": (0, 1), "strtod": (0,), "memcmp": (0, 1), "strtoull": (0,),
       "feof": (0,), "strtol": (0,), "strdup": (0,), "fread": (0, 3), "fgets": (0, 2), "strspn": (0, 1), "strrchr": (0,),
       "ferror": (0,), "fwrite": (0, 3), "strstr": (0, 1), "localtime_r": (0, 1), "fseeko": (0,), "ftello": (0,),
       "fprintf": (0, 1), "snprintf": (2,), "vsnprintf": (2,), "__isoc99_sscanf": (0, 1), "getenv": (0,), "nanosleep": (0,),
       "fputs": (0, 1), "fputc": (1,), "putc": (1,), "fflush": (), "sscanf": (0, 1), "memchr": (0,), "strcat": (0, 1),
       "strncat": (0, 1), "strtok": (1,), "strcasecmp": (0, 1), "sprintf": (0, 1), "gmtime_r": (0, 1), "fileno": (0,),
       "rewind": (0,), "ungetc": (1,), "fgetc": (0,), "getc": (0,), "strpbrk": (0, 1), "strcspn": (0, 1), "printf": (0,),
       "vfprintf": (0, 1), "strtoul": (0,), "strtoll": (0,), "atoi": (0,), "atof": (0,), "strnlen": (0,),
       "curl_easy_setopt": (), "curl_multi_add_handle": (0, 1)}
FORMAT = {"fprintf": 1, "snprintf": 2, "printf": 0, "sprintf": 1}


class Hit(Exception):
    pass


class Req(paths.Client):
    """parameter n is null: is it dereferenced, and what is returned?"""
    def __init__(self, X, n, N):
        super().__init__(X)
        self.n, self.N = n, N
        self.rets = []

    def init(self, s):
        s.facts[("a", self.n)] = (0, 0, frozenset())
        return None

    def isparam(self, p):
        r, off = self.X.base(p)
        return r == ("a", self.n)

    def access(self, s, i, p, mode):
        if self.isparam(p):
            raise Hit(i)

    def call(self, s, i, c):
        if not i.callee and i.fp is not None and self.isparam(self.X.sym(s, i.fp)):
            raise Hit(i)        # a missing routine is called
        for k in self.N.derefs(i, c):
            if k < len(i.args) and self.isparam(self.X.sym(s, i.args[k])):
                raise Hit(i)
        return None

    def ret(self, s, i, val):
        self.rets.append((i, self.X.fact(s, val) if val is not None else None))


class Nullness:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.rets = {}

    def requires(self, name, n):
        """the instruction that dereferences parameter n of the function when it is null, or None"""
        k = (name, n)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        f = self.P.funcs.get(name)
        if f is None or f.decl or f.skipped or n >= len(f.args):
            return None
        X = paths.Explorer(f)
        cl = Req(X, n, self)
        try:
            X.run(cl)
            r = None
        except Hit as h:
            r = h.args[0]
        self.memo[k] = r
        self.rets[k] = cl.rets
        return r

    def derefs(self, i, c):
        """argument numbers this call dereferences when null"""
        g = self.P.funcs.get(c)
        if g is not None and not g.decl and not g.skipped:
            return [k for k, a in enumerate(g.args) if a.ty == "ptr" and self.requires(c, k)]
        out = list(EXT.get(c, ()))
        if c.startswith(("llvm.memcpy", "llvm.memmove")):
            return []       # seen as accesses
        return out


class NullFlow(Res):
    """the call `site` failed: its result (or the handle it should set) is null.  No path dereferences it."""
    def __init__(self, X, site, role, N, report):
        super().__init__(X)
        self.site, self.role, self.N, self.report = site, role, N, report

    def key(self, s):
        if s.prop is None:
            return None
        e, m = self.places(s)
        return (s.prop, frozenset(e), frozenset(map(repr, m)))

    def keepcell(self, v):
        return v == T

    def start(self, s, i, c):
        n = State(s)
        n.facts[T] = (0, 0, frozenset())
        n.prop = "F"
        X = self.X
        if self.role is None:
            X.default_call(n, i, c)
            n.env[i.id] = T
            return n
        cl = self.cell(n, i, self.role)
        if cl is None:
            return None
        b = self.getcell(n, cl)
        if b is not None and self.nonnull(n, b):
            return None
        X.default_call(n, i, c)
        if i.ty != "void" and not X.nonzero(n, X.sym(n, i)):
            return None
        self.setcell(n, cl, T)
        return n

    def call(self, s, i, c):
        X = self.X
        if s.prop is not None:
            for k in self.N.derefs(i, c):
                if k < len(i.args) and self.null(s, X.sym(s, i.args[k])):
                    self.report(s, i)
            if c in FORMAT:
                self.formats(s, i, c)
        if i is self.site and s.prop is None:
            n = self.start(s, i, c)
            X.default_call(s, i, c)
            return [s] + ([n] if n else [])
        return None

    def formats(self, s, i, c):
        for k in range(FORMAT[c] + 1, len(i.args)):
            if not isinstance(i.args[k], Const) and i.args[k].ty == "ptr" and self.X.sym(s, i.args[k]) == T:
                self.report(s, i)

    def access(self, s, i, p, mode):
        if s.prop is not None and self.null(s, p):
            self.report(s, i)

    def null(self, s, p):
        """the failed result, or what is null because of it"""
        r, off = self.X.base(p)
        return r == T or r[0] != "g" and self.isnull(s, r)
