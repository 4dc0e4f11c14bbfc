"""Translate /repo's current working tree into analysable IR.

cmake (in a scratch directory outside /repo) gives the list of translation
units and flags the real build uses; clang turns each into bitcode, llvm-link
merges them, tools/irx dumps the result as JSON.  Nothing of /repo is executed.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
LLVM = "/usr/lib/llvm-18/bin"
CLANG = LLVM + "/clang"
CLANGXX = LLVM + "/clang++"
ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C.UTF-8")


class AnalysisError(Exception):
    """The analysis could not be carried out (not a verdict)."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)
    if p.returncode != 0:
        raise AnalysisError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))
    return p.stdout.decode("utf-8", "replace")


def irx():
    """Path of the translator, built on demand from tools/irx.cpp."""
    os.makedirs(OUT, exist_ok=True)
    src = os.path.join(VERIF, "tools", "irx.cpp")
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    exe = os.path.join(OUT, "irx-" + tag)
    if not os.path.exists(exe):
        cxx = run([LLVM + "/llvm-config", "--cxxflags"]).split()
        ld = run([LLVM + "/llvm-config", "--ldflags"]).split()
        tmp = exe + ".%d" % os.getpid()
        run([CLANGXX, "-O1"] + cxx + [src, "-o", tmp] + ld + ["-lLLVM-18"])
        os.replace(tmp, exe)
    return exe


def tree_key():
    h = hashlib.sha256()
    for base in ("src", "include", "WBMatrix", "udf", "test/CMakeLists.txt", "CMakeLists.txt"):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    for f in ("engine/build.py", "tools/irx.cpp"):
        h.update(open(os.path.join(VERIF, f), "rb").read())
    return h.hexdigest()[:16]


_workdir = None


def workdir():
    """Per-tree cache of bitcode (safe: keyed by the content of every source)."""
    global _workdir
    if _workdir is None:
        base = os.path.join(OUT, "trees")
        os.makedirs(base, exist_ok=True)
        _workdir = os.path.join(base, tree_key())
        # keep only a handful of trees
        olds = sorted((os.path.join(base, d) for d in os.listdir(base)), key=lambda p: os.path.getmtime(p))
        for d in olds[:-12]:
            if d != _workdir:
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(_workdir, exist_ok=True)
        os.utime(_workdir)
    return _workdir


def units():
    """[(source, [flags])] of the library as the real build compiles it."""
    wd = workdir()
    cc = os.path.join(wd, "units.json")
    if not os.path.exists(cc):
        t = tempfile.mkdtemp(prefix="cm.", dir=wd)
        try:
            run(["cmake", "-S", REPO, "-B", t, "-G", "Ninja", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
                 "-DCMAKE_C_FLAGS=-fcommon", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"])
            db = json.load(open(os.path.join(t, "compile_commands.json")))
            res = {}
            for e in db:
                src = os.path.realpath(os.path.join(e["directory"], e["file"]))
                if not src.startswith(os.path.realpath(REPO) + "/") or "/test/" in src:
                    continue
                words = e["command"].split()
                fl = [w for w in words[1:] if w.startswith(("-I", "-D", "-std", "-isystem"))]
                fl = [w.replace("\\", "") for w in fl if "wbcrypto_EXPORTS" not in w]
                res.setdefault(src, fl)
            if len(res) < 20:
                raise AnalysisError("only %d translation units found in the build" % len(res))
            json.dump(sorted(res.items()), open(cc + ".t", "w"))
            os.replace(cc + ".t", cc)
        finally:
            shutil.rmtree(t, ignore_errors=True)
    return [(s, f) for s, f in json.load(open(cc))]


BIG = "se_wbsm4_local.c"


def bitcode(src, flags, omp=True, extra=()):
    wd = workdir()
    tag = hashlib.sha256((src + repr(flags) + repr(omp) + repr(extra)).encode()).hexdigest()[:10]
    bc = os.path.join(wd, os.path.basename(src) + "." + tag + ".bc")
    if not os.path.exists(bc):
        cpp = src.endswith(".cpp")
        std = [] if cpp or any(f.startswith("-std") for f in flags) else ["-std=c99"]
        cmd = [CLANGXX if cpp else CLANG, "-c", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fcommon",
               "-fno-discard-value-names", "-w"] + std + list(flags) + list(extra)
        if not cpp:
            cmd += (["-fopenmp"] if omp else []) + ["-I" + os.path.join(VERIF, "tools", "stubinc")]
        tmp = bc + ".%d.t" % os.getpid()
        run(cmd + [src, "-o", tmp])
        os.replace(tmp, bc)
    return bc


def link(big=False, omp=True, udf=False, only=None, extra=()):
    """One bitcode module holding the library (and the UDF plugin)."""
    us = [(s, f) for s, f in units() if big or os.path.basename(s) != BIG]
    if only:
        us = [(s, f) for s, f in us if any(s.endswith(o) for o in only)]
    if udf:
        us.append((os.path.join(REPO, "udf/mysql8.cpp"), ["-I" + REPO + "/include", "-I" + REPO + "/WBMatrix/include", "-I/usr/include/mysql"]))
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda sf: bitcode(sf[0], sf[1], omp, tuple(extra)), us))
    tag = hashlib.sha256(("".join(bcs) + repr(extra)).encode()).hexdigest()[:10]
    out = os.path.join(workdir(), "linked." + tag + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d.t" % os.getpid()
        run([LLVM + "/llvm-link"] + bcs + ["-o", tmp])
        os.replace(tmp, out)
    return out, [s for s, _ in us]


def dump(bc, pipeline="", keep=(), only=(), inline_all=False, mllvm=(), ll=None):
    args = [irx(), bc]
    spec = repr((bc, pipeline, sorted(keep), sorted(only), inline_all, tuple(mllvm)))
    out = os.path.join(workdir(), "ir." + hashlib.sha256(spec.encode()).hexdigest()[:12] + ".json")
    if not os.path.exists(out) or ll:
        tmp = out + ".%d.t" % os.getpid()
        args.append(tmp)
        if pipeline:
            args.append("--pipeline=" + pipeline)
        if keep:
            args.append("--keep=" + ",".join(keep))
        if only:
            args.append("--only=" + ",".join(only))
        if inline_all:
            args.append("--inline-all")
        if ll:
            args.append("--ll=" + ll)
        for m in mllvm:
            args.append("-mllvm=" + m)
        run(args)
        os.replace(tmp, out)
    return json.load(open(out))
