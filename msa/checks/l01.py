"""L01: effect analysis over every library function: which process-wide objects are
written, by code reachable from which public routine, and which system routines with
shared static storage are called."""
from .. import ir, model, report, build
from ..ir import Const, Inst, fname

# Process-wide objects that the documentation declares, and the public routines through
# which they may be written.  (Reading them anywhere is fine.)
RD = {"ms3_readmsr"}
URL = {"ms3_url_useragent", "ms3_url_userpassword", "ms3_url_addheader", "ms3_url_freeheaders", "libmseed_url_support"}
ALLOWED = {
    "gMS3FileParam": ("state of the documented non-reentrant reader", RD),
    "leapsecondlist": ("leap second list, set at start-up", {"ms_readleapseconds", "ms_readleapsecondfile"}),
    "libmseed_memory": ("application's allocation functions", set()),
    "libmseed_prealloc_block_size": ("allocation block size setting", set()),
    "gMSLogParam": ("logging defaults, one per thread", None),
    "libmseed_url_debug": ("environment setting read at first network use (idempotent)", None),
    "libmseed_ssl_noverify": ("environment setting read at first network use (idempotent)", None),
    "gCURLeasy": ("URL connection settings", URL),
    "gCURLheaders": ("URL connection settings", URL),
}
MUST_TLS = {"gMSLogParam"}
SHARED = {"localtime", "gmtime", "ctime", "asctime", "strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48",
          "mrand48", "srand48", "readdir", "gethostbyname", "gethostbyaddr", "getpwnam", "getpwuid", "getgrnam",
          "getgrgid", "tmpnam", "ttyname", "getlogin", "ecvt", "fcvt", "setlocale", "putenv", "setenv", "unsetenv",
          "clearenv", "strsignal", "inet_ntoa", "basename", "dirname", "l64a", "hsearch", "hcreate", "getservbyname",
          "tzset", "chdir", "umask", "signal", "sigaction", "mblen", "mbtowc", "wctomb", "localeconv", "nl_langinfo"}
READONLY_EXT = {"strcmp", "strncmp", "strlen", "memcmp", "strchr", "strrchr", "strstr", "fprintf", "printf", "strcasecmp",
                "strncasecmp", "strspn", "strtol", "strtod", "strtoull", "strdup", "fopen", "getenv"}


def written_globals(P, f):
    """[(global, inst)] written by f directly: a store through the object's address, or
    its address handed to a routine that may write through it"""
    out = []
    derived = {}     # value id -> global

    def root(v):
        r, _, _ = model.addr(v)
        if isinstance(r, tuple):
            return r[1]
        if isinstance(r, Inst) and r.op in ("phi", "select"):
            seen = set()
            st = [r]
            while st:
                x = st.pop()
                if id(x) in seen:
                    continue
                seen.add(id(x))
                for a in (x.args if x.op == "phi" else x.args[1:]):
                    q, _, _ = model.addr(a)
                    if isinstance(q, tuple):
                        return q[1]
                    if isinstance(q, Inst) and q.op in ("phi", "select"):
                        st.append(q)
        return None
    for i in f.insts():
        if i.op == "store":
            g = root(i.args[1])
            if g:
                out.append((g, i, "stored to"))
            if i.args[0] is not None:
                g = root(i.args[0]) if not (isinstance(i.args[0], Const) and i.args[0].k != "gv") else root(i.args[0])
                if g and not P.globals[g]["const"]:
                    out.append((g, i, "address stored"))
        elif i.op == "call":
            for n, a in enumerate(i.args):
                g = root(a)
                if not g:
                    continue
                c = i.callee or ""
                if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove"):
                    if n == 0:
                        out.append((g, i, "copied to"))
                    continue
                if c.startswith("llvm.memset"):
                    out.append((g, i, "set"))
                    continue
                h = P.funcs.get(c)
                if h and not h.decl:
                    if writes_param(P, h, n):
                        out.append((g, i, "passed to %s() which writes it" % c))
                elif c in READONLY_EXT:
                    pass
                else:
                    out.append((g, i, "passed to %s()" % (c or "an unknown routine")))
        elif i.op == "ret" and i.args:
            g = root(i.args[0])
            if g and not P.globals[g]["const"] and P.globals[g].get("internal"):
                out.append((g, i, "returned"))
    return out


_wp = {}


def writes_param(P, f, n, seen=None):
    """does f store through its n-th pointer parameter (directly or in callees)?"""
    k = (P.path, f.name, n)
    if k in _wp:
        return _wp[k]
    _wp[k] = False
    if n >= len(f.args):
        return True
    work = [f.args[n]]
    vis = set()
    res = False
    while work and not res:
        v = work.pop()
        if id(v) in vis:
            continue
        vis.add(id(v))
        for u in v.uses:
            if u.op in ("getelementptr", "bitcast", "phi", "select"):
                work.append(u)
            elif u.op == "store":
                if u.args[1] is v or u.args[0] is v:
                    # stored into a local variable slot only: follow loads
                    if u.args[0] is v and isinstance(model.addr(u.args[1])[0], Inst) and model.addr(u.args[1])[0].op == "alloca":
                        continue
                    res = True
            elif u.op == "call":
                c = u.callee or ""
                for m, a in enumerate(u.args):
                    if a is v:
                        if c.startswith(("llvm.memcpy", "llvm.memmove")):
                            res = res or m == 0
                        elif c.startswith("llvm.dbg"):
                            pass
                        elif c in READONLY_EXT:
                            pass
                        else:
                            h = P.funcs.get(c)
                            if h and not h.decl:
                                res = res or writes_param(P, h, m)
                            else:
                                res = True
    _wp[k] = res
    return res


def guarded_by_identity(f, g, i):
    """the write happens only where some pointer given by the caller was found equal to
    the object's address, i.e. the caller itself designated the object"""
    D = f.dom()
    for b in f.rblocks:
        t = b.term
        if t.op != "br" or len(b.succs) != 2 or b.succs[0] is b.succs[1]:
            continue
        c = t.args[0]
        if not (isinstance(c, Inst) and c.op == "icmp" and c.pred in ("eq", "ne")):
            continue
        if not any(isinstance(a, Const) and a.k == "gv" and a.n == g for a in c.args):
            continue
        s = b.succs[0] if c.pred == "eq" else b.succs[1]
        if len(s.preds) == 1 and D.dominates(s, i.b):
            return True
    return False


def check():
    R = report.Report("L01")
    P = ir.load()
    R.rule("every write to an object with static storage duration is to a documented setting and reachable only from the routines documented to change it; "
           "the logging defaults are per thread; no routine with shared static storage is called")
    lib = model.lib_funcs(P)
    pub = [n for n in build.public_functions() if n in P.funcs and not P.funcs[n].decl]
    reach = {n: model.reach(P, n) for n in pub}
    seenw = {}
    for f in lib:
        R.count("functions")
        for g, i, how in written_globals(P, f):
            go = P.globals[g]
            if go["const"] or go.get("file") == "msi.c" or go["decl"]:
                continue
            if how.startswith("address") and go.get("file") == "genutils.c" and g == "embedded_leapsecondlist":
                continue
            nm = fname(g)
            R.count("writes to process-wide objects")
            seenw.setdefault(nm, set()).add(f.name)
            if go["tls"]:
                continue
            if nm not in ALLOWED:
                R.violation("%s:%s" % (fname(f.name), nm), "%s: process-wide object '%s' is %s; it is not one of the documented settings" % (i.where(), nm, how))
                continue
            roots = ALLOWED[nm][1]
            if roots is None or guarded_by_identity(f, g, i):
                continue
            for n in pub:
                if f.name in reach[n] and n not in roots:
                    # the reader state is selected by address: only the non-reentrant wrapper passes it
                    R.violation("%s:%s:%s" % (fname(f.name), nm, n), "%s: '%s' (%s) is %s on behalf of public routine %s()" % (i.where(), nm, ALLOWED[nm][0], how, n))
    for g in MUST_TLS:
        if g not in P.globals:
            raise build.AnalysisError("anchor %s not found" % g)
        R.count("per-thread objects")
        if not P.globals[g]["tls"]:
            R.violation("tls:%s" % g, "%s is shared by all threads, documented as per thread" % g)
    for f in lib:
        for i in f.insts():
            if i.op == "call" and i.callee:
                R.count("calls")
                if i.callee in SHARED:
                    R.violation("%s:%s" % (fname(f.name), i.callee), "%s: calls %s(), which uses storage or state shared by all threads" % (i.where(), i.callee))
    for n, s in sorted(seenw.items()):
        R.sample("%s written in %s" % (n, ", ".join(sorted(s))))
    R.need("functions", 90)
    R.need("writes to process-wide objects", 8)
    return R.finish()
