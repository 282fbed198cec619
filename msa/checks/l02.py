"""L02: effect and format-string rules over every library function."""
import re
from .. import ir, model, report, build
from ..ir import Const, Inst, Arg, fname

EXITS = {"exit", "_exit", "_Exit", "abort", "quick_exit", "__assert_fail", "__assert_rtn", "raise", "kill", "longjmp",
         "pthread_exit", "err", "errx", "verr", "verrx", "execv", "execve", "execvp", "execl", "system", "fork", "popen"}
DIRECT = {"printf", "vprintf", "puts", "putchar", "perror", "warn", "warnx", "psignal", "syslog", "write", "error"}
STREAMOUT = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3, "dprintf": 0, "setbuf": 0, "setvbuf": 0, "fclose": 0, "freopen": 2}
FMT = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2,
       "syslog": 1, "dprintf": 1, "asprintf": 1, "vasprintf": 1, "sscanf": 1, "__isoc99_sscanf": 1, "fscanf": 1,
       "__isoc99_fscanf": 1, "strftime": 2, "ms_rlog": 2, "ms_rlog_l": 3}
BACKEND = "logging.c"
CONVS = re.compile(r"%[-+ #0']*(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|j|z|t|L|q)?([diouxXeEfFgGaAcspn%])")


def format_values(P, v, depth=0, seen=None):
    """all values a format operand may take: literal strings, parameters, or None (unknown)"""
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return set()
    seen.add(id(v))
    s = P.gstring(v)
    if s is not None:
        return {("lit", s)}
    v2 = model.strip(v)
    if isinstance(v2, Inst) and v2.op in ("phi", "select"):
        out = set()
        for a in (v2.args if v2.op == "phi" else v2.args[1:]):
            out |= format_values(P, a, depth, seen)
        return out
    if isinstance(v2, Arg):
        return {("arg", v2)}
    if isinstance(v2, Inst) and v2.op == "getelementptr":
        s = P.gstring(v2.base)
        if s is not None:
            return {("lit", s)}      # offset into a literal, e.g. to skip a leading newline
    return {("unknown", v2)}


def stdio_global(P, v):
    v = model.strip(v)
    if isinstance(v, Inst) and v.op == "load":
        r, o, _ = model.addr(v.args[0])
        if isinstance(r, tuple) and r[1] in ("stdout", "stderr"):
            return r[1]
    if isinstance(v, Inst) and v.op in ("phi", "select"):
        for a in (v.args if v.op == "phi" else v.args[1:]):
            if isinstance(a, Inst) and a.op in ("phi", "select"):
                continue
            s = stdio_global(P, a)
            if s:
                return s
    return None


def check():
    R = report.Report("L02")
    P = ir.load()
    lib = model.lib_funcs(P)
    R.rule("no library routine reaches a process-terminating or process-starting routine; output to stdout/stderr only from the logging back end; "
           "every format operand is a literal string (or a format parameter whose callers all pass literals) and its directives agree with the arguments")
    # functions that forward a format parameter
    fmtparam = dict()
    for n, k in FMT.items():
        fmtparam[n] = k
    changed = True
    while changed:
        changed = False
        for f in P.defined:
            for i in f.insts():
                if i.op == "call" and i.callee in fmtparam and len(i.args) > fmtparam[i.callee]:
                    for kind, a in format_values(P, i.args[fmtparam[i.callee]]):
                        if kind == "arg" and f.name not in fmtparam and len(a.f.args) > a.i and (f.vararg or f.args[-1].ty == "ptr"):
                            fmtparam[f.name] = a.i
                            changed = True
    for f in P.defined:
        islib = model.is_lib(f)
        if islib:
            R.count("library functions")
        for i in f.insts():
            if i.op != "call":
                continue
            c = model.callee(i)
            if islib:
                R.count("library calls")
                if c in EXITS:
                    R.violation("%s:%s" % (fname(f.name), c), "%s: library routine calls %s()" % (i.where(), c))
                if f.file != BACKEND:
                    if c in DIRECT:
                        R.violation("%s:%s" % (fname(f.name), c), "%s: library routine writes diagnostics directly with %s()" % (i.where(), c))
                    if c in STREAMOUT and len(i.args) > STREAMOUT[c]:
                        g = stdio_global(P, i.args[STREAMOUT[c]])
                        if g and only_stdio(P, i.args[STREAMOUT[c]]):
                            R.violation("%s:%s:%s" % (fname(f.name), c, g), "%s: library routine uses %s() on %s instead of the log" % (i.where(), c, g))
            if c in fmtparam and len(i.args) > fmtparam[c]:
                k = fmtparam[c]
                R.count("format operands")
                for kind, v in format_values(P, i.args[k]):
                    if kind == "lit":
                        check_args(P, R, f, i, c, v, k)
                    elif kind == "arg":
                        if fmtparam.get(f.name) != v.i:
                            R.violation("%s:%s:fmt" % (fname(f.name), c), "%s: format of %s() comes from parameter '%s'" % (i.where(), c, v.name))
                    else:
                        R.violation("%s:%s:fmt" % (fname(f.name), c), "%s: format of %s() is not a literal string" % (i.where(), c))
    R.need("library functions", 90)
    R.need("format operands", 300)
    return R.finish()


def only_stdio(P, v):
    """the stream is a standard stream on every path (a stream chosen by name, such as the
    documented '-' output file, is data output and not a diagnostic)"""
    v = model.strip(v)
    return isinstance(v, Inst) and v.op == "load"


def check_args(P, R, f, i, c, s, k):
    """arity and class of the variadic arguments agree with the literal's directives"""
    g = P.funcs.get(c)
    if c.startswith("v") or "scanf" in c or c == "strftime" or not (g and g.vararg):
        return
    pos = k + 1
    R.count("formats matched with arguments")
    for m in CONVS.finditer(s):
        if m.group(4) == "%":
            continue
        for star in (m.group(1), m.group(2)):
            if star == "*":
                if pos >= len(i.args) or kind(i.args[pos]) != "int":
                    R.violation("%s:%s:args:%s" % (fname(f.name), c, s[:30]), "%s: '*' in format %r has no integer argument" % (i.where(), s))
                    return
                pos += 1
        if pos >= len(i.args):
            R.violation("%s:%s:args:%s" % (fname(f.name), c, s[:30]), "%s: format %r needs more arguments than are passed" % (i.where(), s))
            return
        want = {"s": "ptr", "p": "ptr", "n": "ptr"}.get(m.group(4)) or ("fp" if m.group(4) in "eEfFgGaA" else "int")
        if m.group(4) == "n":
            R.violation("%s:%s:%%n" % (fname(f.name), c), "%s: format uses %%n" % i.where())
        got = kind(i.args[pos])
        if got != want and got != "?":
            R.violation("%s:%s:args:%s" % (fname(f.name), c, s[:30]), "%s: directive %s of format %r gets a %s argument" % (i.where(), m.group(0), s, got))
        if want == "int" and got == "int":
            w = width(i.args[pos])
            need = 64 if m.group(3) in ("l", "ll", "j", "z", "t", "q") else 32
            if w and w != need:
                R.violation("%s:%s:args:%s" % (fname(f.name), c, s[:30]), "%s: directive %s of format %r gets a %d-bit argument" % (i.where(), m.group(0), s, w))
        pos += 1


def width(v):
    if isinstance(v, Const):
        return v.w
    t = v.ty
    return int(t[1:]) if t.startswith("i") and t[1:].isdigit() else None


def kind(v):
    if isinstance(v, Const):
        return {"int": "int", "null": "ptr", "gv": "ptr", "fn": "ptr", "fp": "fp"}.get(v.k, "?")
    t = v.ty
    if t == "ptr":
        return "ptr"
    if t in ("double", "float", "x86_fp80"):
        return "fp"
    return "int" if t.startswith("i") else "?"
