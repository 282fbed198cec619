"""Build the LLVM front end (irdump) and produce the JSON program description
of /repo's *current* working tree.  Nothing from /repo is executed: sources are
compiled to LLVM bitcode only, and the build's own source list is obtained with
`make -n` (dry run)."""
import hashlib, json, os, re, subprocess, sys, shlex
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MSA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin"
CFLAGS = ["-w", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-DLIBMSEED_URL",
          "-Dyyjson_inline=", "-fno-discard-value-names", "-emit-llvm"]


class AnalysisError(Exception):
    """The analysis itself could not be carried out (never a verdict)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stderr[-4000:]))
    return r.stdout


def irdump_tool():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    key = sha(open(src, "rb").read())
    out = os.path.join(BUILD, "irdump-" + key)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        cxx = run([LLVM + "/llvm-config", "--cxxflags"]).split()
        ld = run([LLVM + "/llvm-config", "--ldflags"]).split()
        tmp = out + ".tmp%d" % os.getpid()
        run([LLVM + "/clang++", "-O1", "-w"] + cxx + [src, "-o", tmp] + ld + ["-lLLVM-18"])
        os.rename(tmp, out)
    return out


def native(name):
    """build one of our own helper libraries (tools/<name>)"""
    src = os.path.join(VERIF, "tools", name)
    out = os.path.join(BUILD, "%s-%s.so" % (name.split(".")[0], sha(open(src, "rb").read())))
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".tmp%d" % os.getpid()
        run([LLVM + "/clang++", "-O2", "-shared", "-fPIC", "-w", src, "-o", tmp])
        os.rename(tmp, out)
    return out


def source_list():
    """Every C file the project's build compiles into libmseed.a and msi."""
    srcs = []
    for d in ("libmseed", "src"):
        p = os.path.join(REPO, d)
        env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MAKEFILES", "MAKELEVEL")}
        r = subprocess.run(["make", "-n", "-B", "-C", p] + (["static"] if d == "libmseed" else []),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        found = []
        for line in r.stdout.splitlines():
            for m in re.findall(r"(?<![\w/.])([\w./-]+\.c)\b", line):
                f = os.path.normpath(os.path.join(p, m))
                if os.path.exists(f) and f not in found:
                    found.append(f)
        if not found:
            found = sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".c"))
        srcs += [f for f in found if f not in srcs]
    return sorted(srcs)


def tree_key():
    parts = []
    for d in ("libmseed", "src"):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith((".c", ".h")) or f.startswith("Makefile"):
                parts.append(f)
                parts.append(open(os.path.join(p, f), "rb").read())
    return parts


def public_functions():
    """Functions declared in the public header (the API boundary): taken from the
    preprocessed header, so that macros and comments cannot confuse the list."""
    hdr = os.path.join(REPO, "libmseed", "libmseed.h")
    txt = run([LLVM + "/clang", "-E", "-P", "-DLIBMSEED_URL", "-I", os.path.dirname(hdr), hdr])
    names = re.findall(r"\bextern\b[^;{}=]*?\b(\w+)\s*\([^;{}]*\)\s*(?:__attribute__\s*\(\(.*?\)\)\s*)*;", txt, re.S)
    return sorted({n for n in names if re.match(r"(ms_|ms3_|msr3?_|mstl3_|mseh_|lm_|libmseed)", n)})


def program(inlined=False, keep_extra=(), post=None, drop=()):
    """Return the path of the JSON program description of the current tree."""
    tool = irdump_tool()
    if inlined:
        # interfaces between source files with documented buffer lengths stay calls;
        # the payload bounds are decided together with their use
        keep_extra = set(keep_extra) | {"msr_encode_" + t for t in ("text", "int16", "int32", "float32", "float64", "steim1", "steim2")}
        drop = set(drop) | {"msr3_data_bounds"}
    keep = sorted((set(public_functions()) | {"main"} | set(keep_extra)) - set(drop))
    if len(keep) < 60:
        raise AnalysisError("public API list unexpectedly short (%d)" % len(keep))
    key = sha(open(tool, "rb").read(), *tree_key(), inlined, *keep, post, *CFLAGS)
    out = os.path.join(BUILD, "ir-%s.json" % key)
    if os.path.exists(out):
        return out
    bcdir = os.path.join(BUILD, "bc-" + sha(*tree_key(), *CFLAGS))
    os.makedirs(bcdir, exist_ok=True)
    srcs = source_list()
    if len(srcs) < 17:
        raise AnalysisError("only %d source files found" % len(srcs))

    def comp(s):
        o = os.path.join(bcdir, os.path.basename(s)[:-2] + ".bc")
        if not os.path.exists(o):
            run([LLVM + "/clang"] + CFLAGS + ["-I", os.path.join(REPO, "libmseed"), "-c", s, "-o", o + ".tmp"])
            os.rename(o + ".tmp", o)
        return o
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(comp, srcs))
    kf = out + ".keep"
    open(kf, "w").write("\n".join(keep) + "\n")
    cmd = [tool] + bcs + ["--keep", kf, "-o", out + ".tmp"]
    if inlined:
        cmd.append("--inline-internal")
    if post:
        cmd += ["--post-passes", post]
    run(cmd)
    os.rename(out + ".tmp", out)
    prune()
    return out


def prune(limit=24):
    """Keep the build cache small."""
    fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("ir-") and f.endswith(".json")]
    fs.sort(key=os.path.getmtime)
    for f in fs[:-limit]:
        for g in (f, f + ".keep"):
            if os.path.exists(g):
                os.unlink(g)
    ds = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith("bc-")]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-8]:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


if __name__ == "__main__":
    print(irdump_tool())
    print(native("linsolve.cpp"))
    print(program(False))
    print(program(True))
