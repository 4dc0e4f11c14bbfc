"""Shared plumbing of the checks: scenarios for the abstract interpreter,
obligation book-keeping, known findings, evidence and verdict."""
import json, os, resource, signal, sys, time, traceback
import multiprocessing as mp

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import AnalysisError, VERIF
from absint import Interp, P, Fn, NULL, W, mk, Imprecise, ZERO, ONE, Region
from specs import Spec

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ scenarios
class Scenario:
    """One abstract run: fixed entry points and lengths, all data symbolic."""

    def __init__(self, module, name):
        self.name = name
        self.module = module
        self.I = Interp(module)
        self.U = self.I.U
        self.S = Spec(self.U)
        self.obs = []           # (label, ok, detail)
        self.notes = {}

    # inputs
    def buf(self, name, size, rw=False):
        """caller's memory with symbolic contents; the library may only read it unless rw"""
        r = self.I.region(name, "input", size)
        r.ro = not rw
        return P(r, 0)

    def freeze(self, p):
        """from now on the library may only read this object"""
        p.r.ro = True

    def scratch(self, name, size):
        """caller-provided output memory, contents unspecified"""
        return P(self.I.region(name, "scratch", size), 0)

    def n(self, v, w=64):
        return W(w, v & ((1 << w) - 1), None)

    def cstr(self, s):
        r = self.I.region("str:" + s, "input", len(s.encode()) + 1)

        for k, c in enumerate(s.encode() + b"\0"):
            self.I.wmem(r)[k] = W(8, c, None)
        return P(r, 0)

    def data(self, p, n):
        return self.I.read(p, n)

    def putbytes(self, p, bs):
        for k, b in enumerate(bs):
            self.I.wmem(p.r)[p.o + k] = b

    def call(self, fn, *args):
        if fn not in self.I.funcs:
            raise AnalysisError("entry point %s is gone" % fn)
        I = self.I
        before = {r for r in I.mem if r.kind in ("heap", "stream")}
        v = I.run(fn, list(args))
        new = [r for r in I.mem if r.kind in ("heap", "stream") and r not in before and r not in I.freed]
        if new:
            self.leaks(fn, new, list(args) + [v])
        return v

    def leaks(self, fn, new, roots):
        """blocks and streams acquired by the call, not released, and not reachable
        from its arguments, its result, older live memory or globals"""
        I = self.I
        seen = set()
        work = []

        def push(v):
            if isinstance(v, P):
                if v.r is not None and v.r not in seen:
                    seen.add(v.r)
                    work.append(v.r)
            elif isinstance(v, tuple):
                for x in v:
                    if isinstance(x, (P, tuple)):
                        push(x)
        for v in roots:
            push(v)
        nw = set(new)
        for r in I.mem:
            if r not in nw and r not in I.freed and r.kind != "local":
                push(P(r, 0))
        while work:
            r = work.pop()
            for c in I.mem.get(r, {}).values():
                if isinstance(c, tuple):
                    push(c)
        for r in new:
            if r not in seen:
                I.alarm("leak", "%s acquired at %s is neither released nor handed to the caller when %s returns" % (r.name, r.site, fn))

    # uninterpreted block function
    def E(self, tag="E"):
        U = self.U

        def enc(bs):
            w = U.watom((tag, tuple(U.nmw(b).bits for b in bs)), 128)
            return [mk(w.bits[8 * k:8 * k + 8]) for k in range(16)]
        return enc

    def block_fn(self, name, enc, ret=1, key=None, on_call=None, fail=None):
        def model(I, a, ins):
            if fail is not None and fail(ins):
                return W(32, 0, None)
            inp = [I.load(P(a[0].r, a[0].o + k, a[0].idx), 1) for k in range(16)]
            if getattr(self, "ints", None) is not None:
                inp = [self.ints.canon(x) for x in inp]
            if key is not None and not (isinstance(a[2], P) and a[2] == key):
                self.ob("block function receives the caller's key", False, "key argument is %r at %s" % (a[2], I.site(ins)))
            if on_call:
                on_call(a, inp)
            for k, b in enumerate(enc(inp)):
                I.store(P(a[1].r, a[1].o + k, a[1].idx), b, 1)
            return W(32, ret, None)
        self.I.models[name] = model
        return Fn(name)

    # obligations
    def ob(self, label, ok, detail=""):
        self.obs.append((label, bool(ok), detail if not ok else ""))

    def expect_ret(self, label, v, want):
        self.ob(label, isinstance(v, W) and v.c == want, "returned %s, expected %d" % (self.show(v), want))

    def show(self, v):
        if isinstance(v, W):
            if v.c is not None:
                return hex(v.c)
            return "[" + ", ".join(self.U.show(b, 2) for b in v.bits[:3]) + ", ...]"
        return repr(v)

    def expect_bytes(self, label, p, ref):
        got = self.I.read(p, len(ref))
        bad = [k for k in range(len(ref)) if got[k] is None or got[k] != ref[k]]
        if not bad:
            self.ob(label, True)
        else:
            k = bad[0]
            self.ob(label, False, "byte %d of %d (and %d more) differs from the definition, last written at %s: computed %s, defined %s" % (
                k, len(ref), len(bad) - 1, self.writer(p.r, p.o + k), "nothing (never written)" if got[k] is None else self.show(got[k]), self.show(ref[k])))

    def writer(self, r, o):
        i = r.wr.get(o)
        return self.I.site(i) if i else "no site"

    def result(self):
        return {"name": self.name, "obs": self.obs, "alarms": self.I.alarms, "steps": self.I.steps,
                "fns": dict(self.I.fnseen), "atoms": len(self.U.vars), "notes": self.notes}


def load(pipeline="function(sroa)", **kw):
    bc, srcs = build.link(**kw)
    return build.dump(bc, pipeline), srcs


_MOD = {}


def module(kind="default"):
    """parsed module, shared by forked workers"""
    if kind not in _MOD:
        if kind == "default":
            _MOD[kind] = load()[0]
        elif kind == "noomp":
            _MOD[kind] = load(omp=False)[0]
        elif kind == "udf":
            _MOD[kind] = load(udf=True)[0]
        elif kind == "big":
            _MOD[kind] = load(big=True)[0]
        elif kind in ("dse", "bigdse"):
            # after dead store elimination: stores nobody can observe are gone
            _MOD[kind] = load("inferattrs,function(sroa,dse)", big=kind == "bigdse")[0]
        else:
            raise KeyError(kind)
        from absint import Func
        m = _MOD[kind]
        m["_funcs"] = {d["name"]: Func(d) for d in m["functions"]}
        m.pop("functions")
    return _MOD[kind]


LIMIT_CPU = 300


class Budget(Exception):
    pass


def _tired(sig, frame):
    raise Budget()


def _init(mem):
    if mem:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))


def _one(job):
    name, fn, args, kind = job
    t = time.time()
    sc = Scenario(module(kind), name)
    try:
        signal.signal(signal.SIGVTALRM, _tired)
        signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT_CPU)
        try:
            fn(sc, *args)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        r = sc.result()
    except (MemoryError, Budget) as e:
        sc.I.mem = {}
        r = sc.result()
        r["obs"].append(("the analysis can follow the code", False, "not decided: the values grow beyond the %s set aside for one scenario" % ("memory" if isinstance(e, MemoryError) else "time")))
    except Imprecise as e:
        r = sc.result()
        r["obs"].append(("the analysis can follow the code", False, "not decided: %s; alarms so far: %s" % (e, sc.I.alarms[:3])))
    except AnalysisError as e:
        r = sc.result()
        r["error"] = str(e)
    except Exception as e:
        r = sc.result()
        r["error"] = traceback.format_exc()
    r["t"] = time.time() - t
    return r


def run_scenarios(jobs, procs=8, mem=3700 << 20, per=4):
    """jobs: [(name, fn, args, modulekind)] -> results"""
    for k in {j[3] for j in jobs}:
        module(k)
    if procs == 1 or len(jobs) == 1:
        return [_one(j) for j in jobs]
    ctx = mp.get_context("fork")
    global _JOBS
    _JOBS = jobs
    with ctx.Pool(min(procs, len(jobs)), _init, (mem,), maxtasksperchild=per) as pool:
        return pool.map(_onei, range(len(jobs)), chunksize=1)


def _onei(i):
    return _one(_JOBS[i])


# ------------------------------------------------------------------ verdicts
def known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


class Report:
    def __init__(self, pid, level, rule, assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.n = 0
        self.ok = 0
        self.viol = []          # (key, text)
        self.cov = {}
        self.samples = []
        self.errors = []

    def ob(self, key, ok, text="", sample=None):
        """one obligation; key identifies the construct"""
        self.n += 1
        if ok:
            self.ok += 1
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)
        else:
            self.viol.append((key, text))

    def count(self, name, v=1):
        self.cov[name] = self.cov.get(name, 0) + v

    def error(self, text):
        self.errors.append(text)

    def need(self, what, got, least):
        if got < least:
            self.error("vacuous: %s: %d found, at least %d expected" % (what, got, least))

    def absorb(self, results, alarms=False, obs=True, kinds=None):
        """fold scenario results in"""
        fns = set()
        for r in results:
            if "error" in r:
                self.error("scenario %s: %s" % (r["name"], r["error"]))
            fns |= set(r["fns"])
            self.count("abstract_steps", r["steps"])
            self.count("scenarios", 1)
            if not obs:
                for label, ok, d in r["obs"]:
                    if label == "the analysis can follow the code":
                        self.ob("%s: %s" % (r["name"], label), ok, d)
            if obs:
                for label, ok, d in r["obs"]:
                    self.ob("%s: %s" % (r["name"], label), ok, d, sample="%s: %s" % (r["name"], label))
            if alarms:
                al = [a for a in r["alarms"] if kinds is None or a["kind"] in kinds]
                self.ob("%s: no memory alarm" % r["name"], not al, "; ".join("%(kind)s at %(site)s: %(detail)s" % a for a in al[:5]))
        self.fnset = getattr(self, "fnset", set()) | fns
        self.cov["functions_analysed"] = len(self.fnset)

    def finish(self):
        wall = time.time() - self.t0
        kf = [f for f in known().get("findings", []) if f["property"] == self.pid]
        fresh = []
        hit = set()
        for key, text in self.viol:
            for f in kf:
                if f["key"] in key + " " + text:
                    hit.add(f["key"])
                    break
            else:
                fresh.append((key, text))
        cov = {"obligations": self.n, "discharged": self.ok, "rule": self.rule, "samples": self.samples,
               "checker_cmd": "python3 /verif/checks/run.py %s" % self.pid,
               "trusted_base": ["clang 18 front end", "tools/irx.cpp (IR dump)", "engine/*.py (analyses)"],
               "explanation": self.rule}
        cov.update(self.cov)
        if getattr(self, "fnset", None):
            cov["functions"] = sorted(self.fnset)[:60]
        ev = {"property": self.pid, "tier": "thorough" if self.tier == "thorough" else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": self.level, "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 3),
              "violations": len(fresh)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1)
        for f in kf:
            if f["key"] in hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        print("%s: %d obligations, %d discharged, %s, %.1f s" % (self.pid, self.n, self.ok, ", ".join("%s=%s" % kv for kv in self.cov.items()), wall))
        if fresh:
            rp = os.path.join(d, self.pid + ".violation.txt")
            with open(rp, "w") as fh:
                fh.write("property %s, rule: %s\n\n" % (self.pid, self.rule))
                for k, t in fresh:
                    fh.write("- %s\n    %s\n" % (k, t))
            for k, t in fresh[:20]:
                print("  %s\n      %s" % (k, t))
            for e in self.errors[:5]:
                print("  (also) analysis error: %s" % e)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if self.errors:
            for e in self.errors[:10]:
                print("ANALYSIS-ERROR property=%s %s" % (self.pid, e if e is self.errors[0] else e.strip().split("\n")[-1]))
            return 2
        if self.n == 0:
            print("ANALYSIS-ERROR property=%s nothing was analysed" % self.pid)
            return 2
        return 0
