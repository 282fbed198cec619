"""What a failed step leads to: conventions of success and failure values, and the client of the path
executor that assumes one call failed and follows what the function does with it (E01, E02, R03)."""
from . import model, memory, paths, resources
from .ir import Const, Inst, Arg, fname
from .paths import State, has
from .resources import T, norm, ACQ_RET, ACQ_CELL, REALLOC, INIT

NST = -2145916800000000000
INF = 1 << 63
E0 = frozenset()
NEGV, NULLV, NSTV, POSV = (-INF, -1, E0), (0, 0, E0), (NST, NST, E0), (1, INF, E0)
NONE = set("""ms_sampletime ms_bigendianhost libmseed_url_support lmp_ftell64 lmp_nanosleep ms_samplesize ms_crc32c lisnumber
ms_isinteger ms_globmatch my_globmatch ms_rlog ms_rlog_l rlog_int ms3_matchselect msr3_matchselect mstl3_findID msr3_nsperiod
recv_callback header_callback ms_errorstr ms_encodingstr parse_pathname_range getoptval msio_feof ms_ratapprox lm_lcg_r
lm_random_height ms2_recordsid ms2_blktdesc ms2_blktlen ms_time2nstime_int utf8length_int ms_strncpclean ms_strncpcleantail
ms_strncpopen msr3_host_latency msr3_sampratehz ms_nomsamprate ms_rsqrt64 ms_rlog_emit ms_rlog_free _priv_malloc _priv_realloc
ms_nstime2timestrz""".split())
NSTF = {"ms_time2nstime", "ms_timestr2nstime", "ms_mdtimestr2nstime", "ms_seedtimestr2nstime", "msr3_endtime", "ms_btime2nstime"}
# count of problems found
POSF = {"ms_parse_raw2", "ms_parse_raw3"}
# external and embedded-parser steps: failure value
ZERO_EXT = set("""fopen fdopen curl_easy_init curl_multi_init curl_easy_duphandle curl_slist_append mem:malloc mem:realloc malloc calloc
realloc strdup yyjson_read_opts yyjson_doc_mut_copy yyjson_mut_doc_new yyjson_mut_doc_imut_copy yyjson_mut_doc_mut_copy
yyjson_mut_val_mut_copy yyjson_mut_doc_ptr_set yyjson_mut_doc_ptr_replace yyjson_mut_arr_append yyjson_mut_arr yyjson_mut_obj
yyjson_mut_merge_patch yyjson_write_opts yyjson_mut_write_opts yyjson_mut_obj_add yyjson_mut_strcpy yyjson_mut_real
yyjson_mut_sint yyjson_mut_uint yyjson_mut_bool yyjson_mut_strncpy fwrite localtime_r""".split())
NEG_EXT = {"fseeko": (-1, -1, E0), "fclose": (-1, -1, E0), "fflush": (-1, -1, E0), "fputs": (-1, -1, E0), "select": (-1, -1, E0)}
CURL = {"curl_easy_setopt", "curl_multi_add_handle", "curl_multi_timeout", "curl_multi_fdset", "curl_multi_perform", "curl_easy_getinfo",
        "curl_multi_remove_handle"}


# routines of the embedded parser documented to fail for a missing argument
NULLPROP = {"yyjson_mut_arr_append": (0, 1), "yyjson_mut_obj_add": (0, 1, 2), "yyjson_mut_merge_patch": (0, 1, 2), "yyjson_mut_doc_ptr_get": (0,)}
STACKVAL = {"yyjson_mut_obj_add", "yyjson_mut_arr_append"}


def rootval(v):
    return model.addr(v)[0]


def islog(i, c):
    """a message of warning or error level"""
    n = {"ms_rlog": 1, "ms_rlog_l": 2, "rlog_int": 2}.get(c)
    return n is not None and isinstance(i.args[n], Const) and i.args[n].v >= 1


def failures(P, i):
    """list of (label, fact on the result) under which the call has failed; [] when it cannot fail"""
    c = model.callee(i) or ""
    n = norm(c)
    if n in STACKVAL and all(isinstance(x, Inst) and x.op == "alloca" for x in map(rootval, i.args[1:])):
        # adding an automatic value to an automatic object or array needs no memory
        return []
    if n in ZERO_EXT or n.startswith("yyjson_mut_obj_add_"):
        return [("fails", NULLV)]
    if n in NEG_EXT:
        return [("fails", NEG_EXT[n])]
    if n in CURL:
        return [("fails", POSV)]
    g = P.funcs.get(c)
    if g is None or g.decl or g.file.startswith("yyjson") or n in NONE:
        return []
    if n in NSTF:
        return [("fails", NSTV)]
    if n in POSF:
        return [("fails", POSV)]
    if n == "msr3_parse":
        return [("finds no record", (-2, -2, E0)), ("fails", (-INF, -3, E0)), ("fails", (-1, -1, E0)), ("wants more data", POSV)]
    if g.rty == "ptr":
        return [("fails", NULLV)]
    if g.rty in ("i32", "i64"):
        return [("fails", NEGV)]
    return []


def success(f, v):
    """the fact on the returned value is a success of function f (None: it has no failure value)"""
    n = norm(f.name)
    if n in NONE or f.rty == "void" or v is None:
        return None
    if n in NSTF:
        return not has(v, NST)
    if n in POSF:
        return v[0] == 0 == v[1]
    if n == "main":
        return v[0] == 0 == v[1]
    if n == "msr3_parse" or n.startswith("ms3_readmsr") or n == "mseh_get_ptr_r":
        return v[0] == 0 == v[1]
    if f.rty == "ptr":
        return not has(v, 0)
    if f.rty in ("i32", "i64"):
        # negative values are failures
        return v[0] >= 0
    return None


CALLS = True


def fails(f, v):
    """the fact on the returned value is a failure of function f"""
    n = norm(f.name)
    if n in NSTF:
        return v[0] == v[1] == NST
    if n in POSF:
        return not has(v, 0)
    if f.rty == "ptr":
        return v[0] == v[1] == 0
    if n == "msr3_parse" or n.startswith("ms3_readmsr") or n == "mseh_get_ptr_r" or n == "main":
        return not has(v, 0)
    return v[1] < 0


class Fail(resources.Res):
    """the call `site` fails with a value in `fact`; reported when a return yields a definite success"""

    def __init__(self, X, site, fact, report, given=()):
        super().__init__(X)
        self.site, self.ff, self.report = site, fact, report
        self.web = web(X.f)
        self.given = dict(given)

    def init(self, s):
        s.facts.update(self.given)
        return None

    def key(self, s):
        if s.prop is None:
            return None
        return (s.prop, webkey(self.X, s, self.web))

    def keepfact(self, x):
        return x == T or x in self.given

    def call(self, s, i, c):
        X = self.X
        if i is self.site and s.prop is None:
            n = State(s)
            X.default_call(n, i, c)
            n.env[i.id] = T
            n.facts[T] = self.ff
            n.prop = "F"
            X.default_call(s, i, c)
            n0 = norm(c)
            if n0 in ACQ_CELL:
                for r, (kind, mode) in ACQ_CELL[n0].items():
                    if mode == "clear":
                        self.setcell(n, self.cell(n, i, r), ("c", 0))
            return [s, n]
        if norm(c) in NULLPROP and any(X.fact(s, X.sym(s, i.args[k]))[:2] == (0, 0) for k in NULLPROP[norm(c)]):
            X.default_call(s, i, c)
            s.env[i.id] = ("c", 0)
            return [s]
        if s.prop == "F" and islog(i, c):
            s.prop = "L"
        return None

    def ret(self, s, i, val):
        if s.prop is None:
            return
        if val is None:
            if s.prop == "F":
                self.report(s, i, False)
            return
        if any(success(self.X.f, self.X.fact(t, x)) or self.computed(t, x) for t, x in self.arms(s, val)):
            self.report(s, i, s.prop == "L")

    def arms(self, s, x):
        """the values a choice between two can have"""
        if x[0] == "e" and x[1] in ("zext", "sext") and x[3] > 1:
            return [(t, y) for t, y in self.arms(s, x[2])]
        if not (x[0] == "e" and x[1] == "select"):
            return [(s, x)]
        out = []
        for t, y in ((True, x[3]), (False, x[4])):
            n = State(s)
            if self.X.refine(n, x[2], t):
                out += self.arms(n, y)
        return out

    def computed(self, s, x):
        """a result worked out (by this function or by a later call) that is not known to be a failure"""
        X = self.X
        f = X.fact(s, x)
        if success(X.f, f) is None or T in (x,) or paths.mentions(x, T):
            return False
        if fails(X.f, f):
            return False
        if x[0] == "e" and x[1] not in ("select",):
            return True
        if x[0] == "v" and isinstance(X.f.byid.get(x[1]), Inst):
            o = X.f.byid[x[1]].op
            return o in paths.PURE or o == "call" and CALLS
        return False


def webkey(X, s, web):
    """what is known of the values that travel to the return"""
    k = []
    for w in web:
        if w in s.env:
            f = X.fact(s, s.env[w])
            k.append((w, "n" if f[1] < 0 else "z" if f[0] == 0 == f[1] else "p" if f[0] > 0 else "nn" if f[0] >= 0 else "nz" if not has(f, 0) else "?"))
    return tuple(k)


def web(f):
    """the values that only travel to the return value"""
    out = set()
    todo = [i.args[0] for i in f.insts() if i.op == "ret" and i.args]
    while todo:
        v = todo.pop()
        if not isinstance(v, Inst) or v.id in out:
            continue
        if v.op in ("phi", "select", "zext", "sext", "trunc"):
            out.add(v.id)
            todo += v.args if v.op == "phi" else v.args[1:] if v.op == "select" else v.args
    return sorted(out)
