"""Network transfers: conditions under which options are set, and what failed transfers lead to."""
from itertools import product
from . import bits, ir, model, orders
from . import format as F

VERIFY = {64: (1, "CURLOPT_SSL_VERIFYPEER"), 81: (2, "CURLOPT_SSL_VERIFYHOST"), 248: (1, "CURLOPT_PROXY_SSL_VERIFYPEER"), 249: (2, "CURLOPT_PROXY_SSL_VERIFYHOST")}
ENV = "LIBMSEED_SSL_NOVERIFY"
CALLERS = {10005: "CURLOPT_USERPWD", 10173: "CURLOPT_USERNAME", 10174: "CURLOPT_PASSWORD", 10220: "CURLOPT_XOAUTH2_BEARER"}
NEVER = {10022: "CURLOPT_COOKIE", 10031: "CURLOPT_COOKIEFILE", 51: "CURLOPT_NETRC", 10118: "CURLOPT_NETRC_FILE", 105: "CURLOPT_UNRESTRICTED_AUTH", 10016: "CURLOPT_REFERER",
         10006: "CURLOPT_PROXYUSERPWD"}
HEADERS, FAILONERROR, RESPONSE, AGENT = 10023, 45, 0x200002, 10018
MESSAGE = "the message of a transfer that has ended"
ERRORS = (1, 3, 5, 6, 7, 9, 18, 22, 23, 26, 28, 35, 47, 52, 55, 56, 60, 61, 78, 91, 92)


def le(v, n):
    return [v >> 8 * k & 255 for k in range(n)]


def returns(f):
    """[(block, following block or None, value returned)], like orders.returns()"""
    out = []

    def walk(b, nxt, v, seen):
        if getattr(v, "op", None) == "phi" and v.b is b and b.id not in seen and not any(x.op in ("store", "call") for x in b.insts):
            for pb, x in v.inc:
                walk(pb, b, x, seen | {b.id})
        else:
            out.append((b, nxt, v))
    for b in f.blocks:
        for i in b.insts:
            if i.op == "ret" and i.args:
                walk(b, None, i.args[0], frozenset())
    return out


class Transfers:
    def __init__(self, R):
        self.R = R
        P0 = ir.load()
        files = {f.file for f in P0.defined if any(self.curl(i) for i in f.insts())}
        keep = {f.name for f in P0.defined if not f.internal and f.file in files}
        self.P = P = ir.load(inlined=True, keep_extra=tuple(sorted(keep)))
        self.fs = [f for f in P.defined if not f.skipped]
        # routines that move data
        self.moves = {"curl_multi_perform", "curl_easy_perform"}
        ch = True
        while ch:
            ch = False
            for f in self.fs:
                if f.name not in self.moves and any(i.op == "call" and model.callee(i) in self.moves for i in f.insts()):
                    self.moves.add(f.name)
                    ch = True
        self.ints = {g for g, d in P.globals.items() if not d.get("const") and (d.get("init") or {}).get("k") in ("int", "zero") and d.get("size") in (1, 2, 4, 8) and d.get("ty") != "ptr"}
        self.used = {f.name: self.globs(f) for f in self.fs}
        self.cache = {}

    @staticmethod
    def curl(i):
        return i.op == "call" and (model.callee(i) or "").startswith("curl_")

    def globs(self, f):
        """variables read and written: {global: written}"""
        r = {}
        for i in f.insts():
            if i.op in ("load", "store"):
                p = i.args[1] if i.op == "store" else i.args[0]
                n = getattr(p, "n", None) if getattr(p, "k", None) == "gv" else None
                if n is not None:
                    r[n] = r.get(n, False) or i.op == "store"
        return r

    def opt(self, i):
        """the option a call sets, None: not such a call, -1: not a constant"""
        if i.op != "call" or model.callee(i) != "curl_easy_setopt":
            return None
        v = bits.cval(bits.const(i.args[1].u if i.args[1].u >= 0 else i.args[1].v, 32)) if getattr(i.args[1], "k", None) == "int" else None
        return -1 if v is None else v

    def run(self, f, state=None, env=None, calls=None, outs=None, more=None):
        """state {global: value}; env: the result of asking for ENV: None - not set"""
        content = dict(more or {})
        for g, v in (state or {}).items():
            for k, b in enumerate(le(v, self.P.globals[g].get("size") or 8)):
                content[(("g", g), k)] = b

        def hook(X, i, c, a):
            if c in ("getenv", "secure_getenv"):
                if self.P.gstring(i.args[0]) == ENV and env is None:
                    return bits.const(0, 64)
                return X.fresh(("v", i.id), 64)
            if c in ("strncasecmp", "strncmp", "strcasecmp", "strcmp", "memcmp") and any((self.P.gstring(x) or "").startswith("file") for x in i.args[:2]):
                return bits.const(1, 32)
            return calls(X, i, c, a) if calls else None
        C = F.Case(self.P, False, "le", None, rec=("a", 98), version=3, content=content, calls=hook, outs=outs)
        C.nonnull = False
        return C.run(f)

    # ------------------------------------------------------------------ verification
    def states(self):
        """values every integer variable can have although verification was never asked to be left out"""
        P = self.P
        rel = set()
        todo = [f for f in self.fs if any(self.opt(i) in VERIFY for i in f.insts())]
        for f in todo:
            rel |= set(self.used[f.name]) & self.ints
        vals = {g: {(P.globals[g]["init"].get("v") or 0) & (1 << 8 * P.globals[g]["size"]) - 1} for g in rel}
        writers = [f for f in self.fs if any(w and g in rel for g, w in self.used[f.name].items())]
        done = set()
        for _ in range(12):
            ch = False
            for f in writers:
                gs = sorted(g for g in self.used[f.name] if g in rel)
                for combo in product(*[sorted(vals[g], key=str) for g in gs]):
                    if (f.name, combo) in done or len(done) > 400:
                        continue
                    done.add((f.name, combo))
                    B = self.run(f, {g: v for g, v in zip(gs, combo) if v is not None})
                    for i in f.insts():
                        g = getattr(i.args[1], "n", None) if i.op == "store" else None
                        if g not in rel or not B.executed(i.b):
                            continue
                        m = (1 << 8 * P.globals[g]["size"]) - 1
                        for x in B.alts(B.get(i.args[0])):
                            c = bits.cval(x) if x is not None else None
                            c = None if c is None else c & m
                            if c not in vals[g]:
                                vals[g].add(c)
                                ch = True
            if not ch:
                break
        return vals

    def verification(self):
        R = self.R
        vals = self.states()
        for f in self.fs:
            sites = [i for i in f.insts() if self.opt(i) in VERIFY]
            if not sites:
                continue
            gs = sorted(g for g in self.used[f.name] if g in vals)
            bad = {}
            for combo in product(*[sorted(vals[g], key=str) for g in gs]):
                st = {g: v for g, v in zip(gs, combo) if v is not None}
                B = self.run(f, st)
                R.count("verification_states")
                for i in sites:
                    if not B.executed(i.b):
                        continue
                    want, name = VERIFY[self.opt(i)]
                    for v in B.alts(B.get(i.args[2])):
                        c = bits.cval(v) if v is not None else None
                        if c is None or c & 0xffffffff < want:
                            bad.setdefault(i.id, (i, name, st))
            for i, name, st in bad.values():
                R.violation("%s:%s" % (f.name, name), "%s: %s is lowered although %s is not set%s" % (
                    i.where(), name, ENV, " (" + ", ".join("%s = %d" % (g, v - (1 << 64) if v >> 63 else v) for g, v in st.items()) + " on entry)" if st else ""))
            R.count("verification_options", len(sites))

    # ------------------------------------------------------------------ credentials and headers
    def additions(self):
        R, P = self.R, self.P
        self.lists = set()
        for f in self.fs:
            sites = [(i, self.opt(i)) for i in f.insts() if self.opt(i) is not None]
            if not sites:
                continue
            B = self.run(f)
            for i, o in sites:
                R.count("options")
                if o == -1:
                    R.undecided("%s: the option set is not a constant" % i.where())
                v = B.get(i.args[2])
                if o in CALLERS:
                    if any(x is None or x[0] != "p" or x[1][0] != "a" or x[2] != 0 for x in B.alts(v)):
                        R.violation("%s:%s" % (f.name, CALLERS[o]), "%s: %s is set to something else than the caller's text" % (i.where(), CALLERS[o]))
                if o in NEVER and any(x is None or bits.cval(x) != 0 for x in B.alts(v)):
                    R.violation("%s:%s" % (f.name, NEVER[o]), "%s: %s adds credentials or headers that the caller did not set" % (i.where(), NEVER[o]))
                if o == HEADERS:
                    # lists: a variable
                    for x in B.alts(v):
                        if x is not None and x[0] == "p" and x[1][0] == "*" and x[1][1][0] == "g":
                            self.lists.add(x[1][1][1])
                        elif x is None or bits.cval(x) != 0:
                            R.violation("%s:HTTPHEADER" % f.name, "%s: headers other than the list the caller has built are sent" % i.where())
        for f in self.fs:
            apps = [i for i in f.insts() if i.op == "call" and model.callee(i) == "curl_slist_append"]
            if not apps:
                continue
            B = self.run(f)
            for i in apps:
                R.count("header_additions")
                for x in B.alts(B.get(i.args[1])):
                    if x is None or x[0] != "p" or x[1][0] != "a" or x[2] != 0:
                        R.violation("%s:header" % f.name, "%s: a header is added that is not the caller's text" % i.where())
        adders = {f.name for f in self.fs if any(i.op == "call" and model.callee(i) == "curl_slist_append" for i in f.insts())}
        for f in self.fs:
            if f.name == "main" or f.file == "msi.c":
                continue
            for i in f.insts():
                if i.op == "call" and model.callee(i) in adders:
                    B = self.run(f)
                    x = B.get(i.args[0])
                    if x is not None and x[0] == "p" and x[1][0] == "a" and x[2] == 0:
                        continue
                    R.count("header_additions")
                    if not self.agent(f, i.args[0]):
                        R.violation("%s:header" % f.name, "%s: a header other than the caller's user agent is added" % i.where())

    def agent(self, f, v):
        """a local text that is formatted as User-Agent header"""
        def base(x):
            while getattr(x, "op", None) in ("getelementptr", "bitcast"):
                x = x.args[0]
            return getattr(x, "id", None)
        t = [self.P.gstring(i.args[2]) for i in f.insts() if i.op == "call" and model.callee(i) == "snprintf" and base(i.args[0]) == base(v)]
        return bool(t) and all((s or "").startswith("User-Agent:") for s in t)

    # ------------------------------------------------------------------ failures
    def success(self, B, v):
        return any(x is None or orders.signed(x) is None or orders.signed(x) >= 0 for x in B.alts(B.get(v)))

    def reached(self, f, B, start, again=None):
        """success returns after the call; again: the interpretation that holds from the second execution of the call on"""
        seen, todo = set(), [(start.b, B)]
        while todo:
            b, X = todo.pop()
            if (b.id, X is B) in seen:
                continue
            seen.add((b.id, X is B))
            for t in b.succs:
                if (b.id, t.id) in X.edges:
                    todo.append((t, again if again is not None and t is start.b else X))
        return [(b, v) for b, t, v in returns(f) for X in (B, again)
                if X is not None and (b.id, X is B) in seen and X.executed(b) and (t is None or (b.id, t.id) in X.edges) and self.success(X, v)]

    def facts(self, f, B, gen):
        """must-dataflow: facts generated on every executed path from the entry to the end of each block"""
        allf = frozenset(x for s in gen.values() for x in s)
        out = {b.id: allf for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for n, b in enumerate(f.blocks):
                ps = [p for p in b.preds if (p.id, b.id) in B.edges]
                cur = frozenset() if n == 0 else frozenset.intersection(*[out[p.id] for p in ps]) if ps else allf
                for i in b.insts:
                    cur |= frozenset(gen.get(i.id, ()))
                if cur != out[b.id]:
                    out[b.id] = cur
                    ch = True
        return out

    def at(self, out, f, B, i, gen):
        """facts before an instruction"""
        b = i.b
        ps = [p for p in b.preds if (p.id, b.id) in B.edges]
        cur = frozenset.intersection(*[out[p.id] for p in ps]) if ps else frozenset()
        for x in b.insts:
            if x.id == i.id:
                break
            cur |= frozenset(gen.get(x.id, ()))
        return cur

    def opening(self):
        R, P = self.R, self.P
        openers = [f for f in self.fs if any(self.opt(i) == 10002 for i in f.insts())]
        for f in openers:
            R.count("opening_routines")
            infos = [i for i in f.insts() if i.op == "call" and model.callee(i) == "curl_easy_getinfo" and getattr(i.args[1], "u", None) == RESPONSE]
            moves = [i for i in f.insts() if i.op == "call" and model.callee(i) in self.moves]
            dups = [i for i in f.insts() if i.op == "call" and model.callee(i) == "curl_easy_duphandle"]
            inits = [i for i in f.insts() if i.op == "call" and model.callee(i) == "curl_easy_init"]
            B = self.run(f)
            starts = [i for i in dups + inits + [x for x in f.insts() if self.opt(x) == 10002]]
            ok = {(b.id, id(v)) for s in starts for b, v in self.reached(f, B, s)}
            if not moves or not infos:
                R.violation("%s:check" % f.name, "%s: opening a network source succeeds without %s" % (f.name, "a transfer" if not moves else "looking at the response code"))
                continue
            gen = {}
            for i in f.insts():
                o = self.opt(i)
                if o == FAILONERROR and (bits.cval(B.get(i.args[2])) or 0) != 0:
                    gen[i.id] = ("fail",)
                elif o is not None and o in (HEADERS,):
                    gen[i.id] = ("headers",)
                elif i.op == "call" and model.callee(i) in self.moves:
                    gen[i.id] = ("moved",)
            out = self.facts(f, B, gen)
            for i in moves:
                if B.executed(i.b) and "fail" not in self.at(out, f, B, i, gen):
                    R.violation("%s:failonerror" % f.name, "%s: the transfer may start without CURLOPT_FAILONERROR: an HTTP error page would be read as data" % i.where())
            for i in infos:
                if B.executed(i.b) and "moved" not in self.at(out, f, B, i, gen):
                    R.violation("%s:early" % f.name, "%s: the response code is read before anything was received" % i.where())
            # every success passes the response code
            gen2 = {i.id: ("code",) for i in infos}
            for i in moves:
                gen2.setdefault(i.id, ())
            seen = self.after(f, B, moves, {i.id for i in infos})
            for b, v in seen:
                R.violation("%s:unchecked" % f.name, "%s: opening a network source can succeed without looking at the response code" % b.term.where())
            # response codes
            for code in list(range(400, 600)) + [200, 206, 0]:
                content = dict(enumerate(le(code, 8)))

                def outs(root, off):
                    return content.get(off) if root[1] == "curl_easy_getinfo" else None
                Bc = self.run(f, outs=outs, calls=lambda X, i, c, a: bits.const(0, 32) if c == "curl_easy_getinfo" else None)
                good = [s for i in infos for s in self.reached(f, Bc, i)]
                R.count("response_codes")
                if code >= 400 and good:
                    R.violation("%s:code" % f.name, "%s: opening a network source can succeed although the response code is %d" % (infos[0].where(), code))
                    break
                if code < 400 and not good:
                    R.violation("%s:refused" % f.name, "%s: opening a network source never succeeds when the response code is %d" % (infos[0].where(), code))
            # a failed first read
            Bf = self.run(f, calls=lambda X, i, c, a: bits.const(-1 & (1 << bits.width(i.ty)) - 1, bits.width(i.ty)) if c in self.moves else None)
            for i in moves:
                for b, v in self.reached(f, Bf, i):
                    R.violation("%s:transfer" % f.name, "%s: opening succeeds although the transfer failed" % i.where())
                    break
            # what the caller has set is used
            for g in sorted(self.lists):
                Bl = self.run(f, {g: 0x1000})
                genh = {i.id: ("headers",) for i in f.insts() if self.opt(i) == HEADERS}
                out = self.facts(f, Bl, genh)
                for i in moves:
                    if Bl.executed(i.b) and "headers" not in self.at(out, f, Bl, i, genh):
                        R.violation("%s:unsent" % f.name, "%s: the transfer may start without the headers set by the caller" % i.where())
            for d in dups:
                x = B.get(d.args[0])
                if x is not None and x[0] == "p" and x[1][0] == "*" and x[1][1][0] == "g":
                    Bd = self.run(f, {x[1][1][1]: 0x1000})
                    for i in inits:
                        if Bd.executed(i.b):
                            R.violation("%s:handle" % f.name, "%s: the connection options set by the caller are not used" % i.where())
            if not dups:
                R.violation("%s:handle" % f.name, "%s: the connection options set by the caller are not used" % f.name)

    def after(self, f, B, starts, stop):
        """success returns reached from one of the calls without passing an instruction in stop"""
        seen, todo = set(), []
        for i in starts:
            rest = i.b.insts[[x.id for x in i.b.insts].index(i.id) + 1:]
            if not any(x.id in stop for x in rest):
                todo.append((i.b, True))
        out = []
        rets = returns(f)
        while todo:
            b, first = todo.pop()
            if (b.id, first) in seen:
                continue
            seen.add((b.id, first))
            if not first and any(x.id in stop for x in b.insts):
                continue
            if not B.executed(b):
                continue
            for rb, t, v in rets:
                if rb is b and (t is None or (b.id, t.id) in B.edges) and self.success(B, v):
                    out.append((b, v))
            todo += [(t, False) for t in b.succs if (b.id, t.id) in B.edges]
        return out

    def reading(self):
        R = self.R
        for f in self.fs:
            perf = [i for i in f.insts() if i.op == "call" and model.callee(i) in ("curl_multi_perform", "curl_easy_perform")]
            if not perf:
                continue
            R.count("reading_routines")
            infos = [i for i in f.insts() if i.op == "call" and model.callee(i) == "curl_multi_info_read"]
            B = self.run(f, calls=lambda X, i, c, a: X.fresh(("v", i.id), 64) if c == "curl_multi_info_read" else None)
            stop = {i.id for i in infos}
            for b, v in self.after(f, B, [i for i in perf if model.callee(i) == "curl_multi_perform"], stop):
                R.violation("%s:status" % f.name, "%s: a read can succeed without looking at how the transfer ended" % perf[0].where())
                break
            Bn = self.run(f, calls=lambda X, i, c, a: bits.const(0, 64) if c == "curl_multi_info_read" else None)
            for err in ERRORS + (0,):
                content = dict(enumerate(le(1, 4)))
                content.update({16 + k: x for k, x in enumerate(le(err, 4))})

                Be = self.run(f, more={(("g", MESSAGE), k): x for k, x in content.items()},
                              calls=lambda X, i, c, a: ("p", ("g", MESSAGE), 0) if c == "curl_multi_info_read" else None)
                R.count("transfer_results")
                good = [s for i in infos for s in self.reached(f, Be, i, Bn)]
                if err and good:
                    R.violation("%s:ended" % f.name, "%s: a read succeeds although the transfer ended with an error (%d)" % (infos[0].where(), err))
                    break
