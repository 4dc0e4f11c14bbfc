"""Effect analysis over the whole module: which global objects, and which functions with
state of their own (rand, time, ...), can a function touch, directly or through anything it
calls.  Flow-insensitive, field-insensitive, summaries with parameters, fixpoint over the
call graph; an indirect call may reach every function whose address is taken and that has
as many parameters."""

HIDDEN = set("""rand srand random srandom initstate setstate drand48 lrand48 mrand48 srand48 erand48 nrand48
rand_r RAND_bytes RAND_pseudo_bytes RAND_priv_bytes getrandom getentropy arc4random arc4random_buf
time clock gettimeofday clock_gettime times ftime getpid getppid gettid getuid
getenv setenv putenv unsetenv secure_getenv
strtok strerror localtime gmtime ctime asctime tmpnam tempnam mktemp
setlocale localeconv setvbuf chdir umask signal sigaction
hcreate hsearch hdestroy l64a ecvt fcvt getopt
BN_rand BN_pseudo_rand BN_rand_range BN_priv_rand""".split())


class Effects:
    def __init__(self, mod):
        self.funcs = mod["_funcs"]
        self.glob = {g["name"]: g for g in mod["globals"]}
        self.taken = set()
        for g in mod["globals"]:
            for r in g.get("rel") or []:
                if r["v"].get("k") == "f":
                    self.taken.add(r["v"]["n"])
        for f in self.funcs.values():
            for b in f.blocks:
                for x in b:
                    for o in self.operands(x):
                        self.fref(o)
        self.arity = {}
        for n in self.taken:
            if n in self.funcs:
                self.arity.setdefault(len(self.funcs[n].args), []).append(n)
        # summaries: key -> why (site, via).  keys: ("w", root), ("r", root), ("e", root), ("x", external)
        self.sum = {n: {} for n in self.funcs}
        self.ret = {n: set() for n in self.funcs}
        self.sites = 0
        self.solve()

    @staticmethod
    def operands(x):
        r = list(x.get("ops") or [])
        if "base" in x:
            r.append(x["base"])
        for i in x.get("in") or []:
            r += [v for v in i if isinstance(v, dict)]
        for i in x.get("idx") or []:
            r += [v for v in i if isinstance(v, dict)]
        return r

    def fref(self, o):
        if o.get("k") == "f":
            self.taken.add(o["n"])
        elif o.get("k") == "cast":
            self.fref(o["a"])

    def mutable(self, n):
        g = self.glob.get(n)
        return g is not None and not g["const"] and not g["tls"] and not n.startswith(".gomp_critical")

    def solve(self):
        work = True
        n = 0
        while work:
            work = False
            n += 1
            for name, f in self.funcs.items():
                if self.step(name, f):
                    work = True
        self.rounds = n

    def step(self, name, f):
        S = self.sum[name]
        before = len(S), len(self.ret[name])
        val = getattr(f, "_roots", None)
        if val is None:
            val = f._roots = {}

        def roots(o):
            k = o.get("k")
            if k == "g":
                return frozenset([("g", o["n"])])
            if k == "a":
                return frozenset([("a", o["n"])])
            if k == "i":
                return val.get(o["n"], frozenset())
            if k == "cast":
                return roots(o["a"])
            if k == "f":
                return frozenset([("f", o["n"])])
            if k == "vec":
                return frozenset().union(*[roots(e) for e in o["e"]]) if o["e"] else frozenset()
            return frozenset()

        def add(kind, r, x, via=None):
            if r[0] == "g" and not self.mutable(r[1]):
                return
            if r[0] == "f":
                return
            S.setdefault((kind, r), (x.get("file", f.d.get("file")), x.get("line"), name, via))

        def apply(callee, args, x):
            for key, why in list(self.sum[callee].items()):
                if key[0] == "x":
                    S.setdefault(key, (x.get("file", f.d.get("file")), x.get("line"), name, callee))
                    continue
                kind, r = key
                if r[0] == "a":
                    if r[1] < len(args):
                        for q in args[r[1]]:
                            add(kind, q, x, callee)
                else:
                    add(kind, r, x, callee)
            out = frozenset()
            for r in self.ret[callee]:
                out |= (args[r[1]] if r[1] < len(args) else frozenset()) if r[0] == "a" else frozenset([r])
            return out
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                for x in b:
                    op = x["op"]
                    res = None
                    if op == "store":
                        for r in roots(x["ops"][1]):
                            add("w", r, x)
                        for r in roots(x["ops"][0]):
                            if r[0] == "g" and self.mutable(r[1]):
                                add("e", r, x)
                    elif op in ("atomicrmw", "cmpxchg"):
                        for r in roots(x["ops"][0]):
                            add("w", r, x)
                    elif op == "load":
                        for r in roots(x["ops"][0]):
                            add("r", r, x)
                    elif op == "ret":
                        for o in x.get("ops") or []:
                            self.ret[name] |= {r for r in roots(o) if r[0] != "f"}
                    elif op in ("call", "invoke"):
                        args = [roots(o) for o in x["ops"]]
                        c = x.get("callee")
                        if c is None:
                            res = frozenset()
                            for q in self.arity.get(len(args), ()):
                                res |= apply(q, args, x)
                        elif c in self.funcs:
                            res = apply(c, args, x)
                        elif c.startswith("llvm."):
                            if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                                for r in args[0]:
                                    add("w", r, x)
                                if not c.startswith("llvm.memset"):
                                    for r in args[1]:
                                        add("r", r, x)
                            else:
                                res = frozenset().union(*args) if args else frozenset()
                        elif c == "__kmpc_fork_call":
                            for r in args[2]:
                                if r[0] == "f" and r[1] in self.funcs:
                                    apply(r[1], [frozenset(), frozenset()] + args[3:], x)
                        else:
                            if c in HIDDEN:
                                S.setdefault(("x", c), (x.get("file", f.d.get("file")), x.get("line"), name, None))
                            for a in args:
                                for r in a:
                                    if r[0] == "f":
                                        if r[1] in self.funcs:
                                            apply(r[1], [frozenset()] * len(self.funcs[r[1]].args), x)
                                    else:
                                        add("w", r, x)
                            res = frozenset().union(*args) if args else frozenset()
                    elif op == "getelementptr":
                        res = roots(x["base"])
                    elif "id" in x and op not in ("alloca", "icmp", "fcmp"):
                        res = frozenset()
                        for o in self.operands(x):
                            res |= roots(o)
                    if res is not None and "id" in x and not res <= val.get(x["id"], frozenset()):
                        val[x["id"]] = val.get(x["id"], frozenset()) | res
                        ch = True
        return (len(S), len(self.ret[name])) != before

    # ---- results
    def written(self):
        """mutable globals some function stores to"""
        r = {}
        for n, S in self.sum.items():
            for k, why in S.items():
                if k[0] in ("w", "e") and k[1][0] == "g":
                    r.setdefault(k[1][1], why)
        return r

    def chain(self, name, key):
        out = []
        seen = set()
        while name is not None and name not in seen:
            seen.add(name)
            why = self.sum[name].get(key)
            if why is None:
                # the callee touches a parameter that is bound to the object here
                break
            out.append("%s (%s:%s)" % (name, (why[0] or "?").replace("/repo/", ""), why[1]))
            name = why[3]
        return " -> ".join(out) + (" -> %s" % name if name is not None and name not in seen else "")
