"""Abstract interpreter for LLVM IR (JSON from tools/irx) over the polynomial
domain of poly.py.

Inputs are never given values: every input bit is a variable.  Control that is
constant once the declared lengths are fixed is unfolded (trace partitioning on
constants); data-dependent branches are evaluated on both sides and joined at
the immediate post-dominator with a gating select.  Memory is a set of disjoint
regions of byte cells; an access outside a region's declared extent, a read of
a cell that was never written, or a use after free is recorded as an alarm.
"""
import struct, math
from poly import Universe, W, mk, ZERO, ONE


class Imprecise(Exception):
    """The domain cannot represent this (obligation stays undischarged)."""


class Region:
    __slots__ = ("name", "kind", "size", "const", "freed", "ro", "strlen", "site", "ptrname", "rel", "base_bytes", "wr", "born")

    def __init__(self, name, kind, size=None, const=None, ro=False):
        self.name, self.kind, self.size, self.const, self.ro = name, kind, size, const, ro
        self.strlen = None
        self.site = None
        self.ptrname = None
        self.rel = None
        self.base_bytes = None
        self.born = 0
        self.wr = {}            # offset -> instruction that wrote it last

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


class Cells(dict):
    """bytes of a region (offset -> value); recs: tables defined for all indices at once (engine/lam.py)"""
    __slots__ = ("recs",)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.recs = None

    def copy(self):
        c = Cells(self)
        if self.recs is not None:
            c.recs = self.recs.copy()
        return c

    def anyin(self, lo, hi):
        if hi - lo < len(self):
            return any(k in self for k in range(lo, hi))
        return any(isinstance(k, int) and lo <= k < hi for k in self)

    def drop(self, lo, hi):
        if len(self) > 4 * (hi - lo):
            for o in range(lo, hi):
                self.pop(o, None)
        else:
            for o in [o for o in self if isinstance(o, int) and lo <= o < hi]:
                del self[o]


class P:
    """pointer = region + constant offset + symbolic terms"""
    __slots__ = ("r", "o", "idx")

    def __init__(self, r, o=0, idx=()):
        self.r, self.o, self.idx = r, o, idx

    def __eq__(self, x):
        return isinstance(x, P) and self.r is x.r and self.o == x.o and self.idx == x.idx

    def __hash__(self):
        return hash((id(self.r), self.o, self.idx))

    def __repr__(self):
        return "P(%s+%d%s)" % (self.r.name if self.r else "null", self.o, "+sym" if self.idx else "")


class PX:
    """exclusive or of several addresses (the swap idiom)"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


NULL = P(None, 0)


class Fn:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Fn) and o.n == self.n

    def __hash__(self):
        return hash(("fn", self.n))

    def __repr__(self):
        return "Fn(%s)" % self.n


class Func:
    def __init__(self, d):
        self.d = d
        self.name = d["name"]
        self.blocks = d["blocks"]
        self.args = d["args"]
        self._ipdom = None
        self._soft = {}
        for b in self.blocks:
            b[:] = [i for i in b if not (i["op"] == "call" and i.get("callee", "").startswith("llvm.dbg"))]

    def succs(self, b):
        t = self.blocks[b][-1]
        if t["op"] == "br":
            return t["succ"]
        if t["op"] == "switch":
            return [t["default"]] + [c[1] for c in t["cases"]]
        return []

    @property
    def ipdom(self):
        if self._ipdom is None:
            n = len(self.blocks)
            EXIT = n
            succ = [self.succs(b) or [EXIT] for b in range(n)] + [[]]
            # blocks ending in unreachable do not constrain
            for b in range(n):
                if self.blocks[b][-1]["op"] == "unreachable":
                    succ[b] = []
            pd = [None] * (n + 1)
            full = (1 << (n + 1)) - 1
            pdom = [full] * (n + 1)
            pdom[EXIT] = 1 << EXIT
            order = list(range(n - 1, -1, -1))
            ch = True
            while ch:
                ch = False
                for b in order:
                    s = full
                    for x in succ[b]:
                        s &= pdom[x]
                    s |= 1 << b
                    if s != pdom[b]:
                        pdom[b] = s
                        ch = True
            for b in range(n):
                c = pdom[b] & ~(1 << b)
                # immediate: the one whose pdom set equals c
                best = None
                for x in range(n + 1):
                    if c >> x & 1 and (pdom[x] if x != EXIT else 1 << EXIT) == c:
                        best = x
                        break
                pd[b] = best
            self._ipdom = pd
        return self._ipdom

    def soft(self, blk):
        """where the ways from blk meet again when none of them leaves the innermost loop around it; None if that is no help"""
        if blk in self._soft:
            return self._soft[blk]
        r = None
        L, h = self.loop(blk)
        if L is not None:
            ss = [t for t in dict.fromkeys(self.succs(blk)) if t in L]
            if len(ss) > 1:
                # post-dominators within one trip round the loop: an edge to the header ends it
                ex = {b: [t for t in self.succs(b) if t in L] for b in L}
                pd = {b: set(L) for b in L}
                pd[h] = {h}
                ch = True
                while ch:
                    ch = False
                    for b in L:
                        if b == h or not ex[b]:
                            continue
                        s = set.intersection(*[pd[t] for t in ex[b]]) | {b}
                        if s != pd[b]:
                            pd[b] = s
                            ch = True
                c = set.intersection(*[pd[t] for t in ss])
                for x in c:
                    if x != blk and all(y in pd[x] or x == h for y in c) and (x != h or len(c) == 1):
                        r = x
        self._soft[blk] = r
        return r

    def loop(self, blk):
        """blocks and header of the innermost natural loop around blk"""
        if not hasattr(self, "_loops"):
            n = len(self.blocks)
            pred = [[] for _ in range(n)]
            for b in range(n):
                for t in self.succs(b):
                    pred[t].append(b)
            dom = [set(range(n)) for _ in range(n)]
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in range(1, n):
                    s = (set.intersection(*[dom[q] for q in pred[b]]) if pred[b] else set()) | {b}
                    if s != dom[b]:
                        dom[b] = s
                        ch = True
            loops = {}
            for b in range(n):
                for h in self.succs(b):
                    if h in dom[b]:
                        L = loops.setdefault(h, {h})
                        st = [b]
                        while st:
                            q = st.pop()
                            if q not in L:
                                L.add(q)
                                st += pred[q]
            self._loops = sorted(loops.items(), key=lambda kv: len(kv[1]))
        for h, L in self._loops:
            if blk in L:
                return L, h
        return None, None


def parse_w(ty):
    if ty and ty[0] == "i" and ty[1:].isdigit():
        return int(ty[1:])
    return None


class Interp:
    lam = False
    pend = None
    pick = None         # (value, modulus, signed) -> concrete remainder of a random number, or None

    def __init__(self, module, U=None, fuel=4_000_000):
        self.U = U or Universe()
        self.funcs = {d["name"]: Func(d) for d in module["functions"]} if "functions" in module else module["_funcs"]
        self.globals = {g["name"]: g for g in module["globals"]}
        self.gregion = {}
        self.mem = {}           # region -> Cells
        self.owned = set()      # regions whose Cells no other abstract state shares
        self.freed = {}         # region -> site
        self.alarms = []
        self.alarmset = set()
        self.models = dict(DEFAULT_MODELS)
        self.fuel = fuel
        self.steps = 0
        self.counter = 0
        self.assume = {}
        self.nosoft = set()
        self.cursite = None
        self.callstack = []
        self.calls = []         # log of modelled calls
        self.fnseen = {}
        self.log = None         # access observer

    # ------------------------------------------------------------ alarms
    def site(self, ins=None):
        ins = ins or self.cursite or {}
        f = ins.get("file", "?")
        return "%s:%s (%s)" % (f.replace("/repo/", ""), ins.get("line", "?"), ins.get("sfn") or (self.callstack[-1] if self.callstack else "?"))

    def alarm(self, kind, detail):
        k = (kind, self.site(), detail)
        if k not in self.alarmset:
            self.alarmset.add(k)
            self.alarms.append({"kind": kind, "site": self.site(), "detail": detail})

    # ------------------------------------------------------------ regions
    def region(self, name, kind="input", size=None, **kw):
        r = Region(name, kind, size, **kw)
        self.mem[r] = Cells()
        self.owned.add(r)
        return r

    def wmem(self, r):
        """the cells of a region, for writing (copied first when another state shares them)"""
        m = self.mem[r]
        if r not in self.owned:
            m = self.mem[r] = m.copy()
            self.owned.add(r)
        return m

    def heap(self, size):
        self.counter += 1
        r = self.region("heap#%d" % self.counter, "heap", size)
        r.site = self.site()
        return r

    def grip(self, name):
        r = self.gregion.get(name)
        if r is None:
            g = self.globals.get(name)
            if g is None:
                raise Imprecise("unknown global %s" % name)
            r = Region("@" + (g.get("dname") or name), "global", g["size"] if not g["decl"] else None)
            r.const = g["const"]
            r.base_bytes = bytes.fromhex(g["bytes"]) if "bytes" in g else (b"\0" * g["size"] if g.get("zero") else None)
            r.rel = {x["at"]: x["v"] for x in g.get("rel", [])} or None
            self.mem[r] = Cells()
            self.owned.add(r)
            self.gregion[name] = r
        elif r not in self.mem:
            self.mem[r] = Cells()
            self.owned.add(r)
        return r

    def cell(self, r, o, m=None):
        """byte value at constant offset"""
        m = self.mem[r] if m is None else m
        v = m.get(o)
        if v is not None:
            return v
        if r.kind == "global":
            if r.base_bytes is not None and 0 <= o < len(r.base_bytes):
                return W(8, r.base_bytes[o], None)
            return self.U.watom(("glob", r.name, o), 8)
        if r.kind in ("input",):
            return self.U.watom(("in", r.name, o), 8)
        return None     # uninitialised

    def chk(self, r, o, n, write):
        if self.log is not None and r is not None:
            self.log(r, o, n, write)
        if r is None:
            self.alarm("null-deref", "%s of %d bytes through a null pointer" % ("write" if write else "read", n))
            raise Imprecise("null dereference at %s" % self.site())
        if r in self.freed:
            self.alarm("use-after-free", "%s %s after it was freed" % ("write to" if write else "read of", r.name))
        if r.size is not None and (o < 0 or o + n > r.size):
            self.alarm("out-of-bounds", "%s of %d byte(s) at offset %d of %s (extent %s)" % ("write" if write else "read", n, o, r.name, r.size))
            return False
        if write and r.kind != "local":
            st = self.cursite
            wr = r.wr
            if n <= 4096:
                for k in range(o, o + n):
                    wr[k] = st
        if write and n and r.ro:
            self.alarm("input-write", "write of %d byte(s) to %s at offset %d, which the caller passed for reading" % (n, r.name, o))
        elif write and (r.kind == "global" and r.const):
            self.alarm("readonly-write", "write to read-only %s at offset %d" % (r.name, o))
        return True

    # ------------------------------------------------------------ load/store
    def fold(self, p):
        """fold constant index terms into the offset"""
        if not p.idx:
            return p
        o = p.o
        rest = {}
        for w, st in p.idx:
            pw = None
            if w.c is not None:
                o += w.s * st if w.w > 1 else w.c * st
            else:
                rest[w] = rest.get(w, 0) + st
        return P(p.r, o, tuple((w, s) for w, s in rest.items() if s))

    def load(self, p, n, isptr=False, w=None):
        p = self.fold(p)
        if not isinstance(p, P):
            raise Imprecise("load through non-pointer at %s" % self.site())
        if p.idx:
            return self.loadsym(p, n, isptr)
        r, o = p.r, p.o
        if not self.chk(r, o, n, False):
            if isptr:
                raise Imprecise("pointer read out of bounds at %s" % self.site())
            return self.U.watom(("oob", r.name, o, n), 8 * n)
        m = self.mem[r]
        first = m.get(o)
        if isinstance(first, tuple) or isptr:
            if isinstance(first, tuple) and first[2] == 0 and n == 8:
                return first[1]
            if isptr and first is None and n == 8:
                if r.kind == "input":
                    nm = r.ptrname(o) if r.ptrname else "*(%s+%d)" % (r.name, o)
                    nr = self.region(nm, "input")
                    q = P(nr, 0)
                    m = self.wmem(r)
                    for k in range(8):
                        m[o + k] = ("p", q, k)
                    return q
                if r.kind == "global":
                    if r.rel and o in r.rel:
                        return self.const(r.rel[o])
                    if r.base_bytes is not None and not any(r.base_bytes[o:o + 8]):
                        return NULL
                    nr = self.region("*(%s+%d)" % (r.name, o), "input")
                    q = P(nr, 0)
                    m = self.wmem(r)
                    for k in range(8):
                        m[o + k] = ("p", q, k)
                    return q
                self.alarm("uninitialised-read", "pointer read from uninitialised %s+%d" % (r.name, o))
                raise Imprecise("uninitialised pointer at %s" % self.site())
            if isptr and all(isinstance(self.cell(r, o + k), W) for k in range(8)):
                v = self.U.concat([self.cell(r, o + k) for k in range(8)])
                if v.c == 0:
                    return NULL
                raise Imprecise("pointer assembled from integers at %s" % self.site())
            if isinstance(first, tuple):
                # partial pointer bytes as integer: opaque
                if n == 8:
                    return first[1]
                raise Imprecise("partial pointer load at %s" % self.site())
        parts = []
        for k in range(n):
            c = m.get(o + k)
            if c is None:
                c = self.cell(r, o + k, m)
                if c is None:
                    self.alarm("uninitialised-read", "byte %d of %s is read before it is written" % (o + k, r.name))
                    c = self.U.watom(("uninit", r.name, o + k), 8)
            if isinstance(c, tuple):
                raise Imprecise("mixed pointer/int load at %s" % self.site())
            parts.append(c)
        return parts[0] if n == 1 else self.U.concat(parts)

    def symidx(self, p):
        """-> (const offset, [(poly, weight)]) decomposition of a symbolic offset"""
        o = p.o
        terms = []
        for w, st in p.idx:
            bits = w.bits
            # sign bit live => could be negative: treat as unsigned weight of two's complement
            top = w.w - 1
            for i, b in enumerate(bits):
                if not b:
                    continue
                wt = st << i
                if i == top and w.w > 8 and w.w < 65 and b != ZERO:
                    wt = -(st << i)
                if b == ONE:
                    o += wt
                else:
                    terms.append((b, wt))
        # merge identical polys
        d = {}
        for b, wt in terms:
            d[b] = d.get(b, 0) + wt
        terms = [(b, wt) for b, wt in d.items() if wt]
        return o, terms

    def loadsym(self, p, n, isptr=False):
        r = p.r
        if r is None:
            self.chk(r, 0, n, False)
        if r in self.freed:
            self.chk(r, 0, n, False)
        o, terms = self.symidx(p)
        terms.sort(key=lambda t: t[1])
        dep = getattr(self.U, "dep", None)
        g = dep([b for b, _ in terms]) if dep is not None and not isptr else None
        if g is not None:
            offs = [o] * (self.U.groups[g][1] + 1)
            for b, wt in terms:
                t = self.U.tt(b, g)
                for x in range(len(offs)):
                    if t >> x & 1:
                        offs[x] += wt
            if r.size is None or (min(offs) >= 0 and max(offs) + n <= r.size):
                ents = [self.load(P(r, a), n) for a in offs]
                if all(e.c is not None for e in ents):
                    return self.U.fromtable(g, [e.c for e in ents], 8 * n)
        lo = o + sum(wt for _, wt in terms if wt < 0)
        hi = o + sum(wt for _, wt in terms if wt > 0)
        if r.size is not None and (lo < 0 or hi + n > r.size):
            self.alarm("out-of-bounds", "read of %d byte(s) of %s at an offset that can reach [%d,%d] (extent %s)" % (n, r.name, lo, hi + n, r.size))
        k = len(terms)
        if self.log is not None:
            self.log(r, lo, hi + n - lo, False)
        m = self.mem[r]
        plain = r.kind == "input" and not any((lo <= x < hi + n) for x in m) if len(m) < 100000 else False
        if isptr:
            if plain and n == 8:
                key = ("psel", r.name, o, tuple(terms))
                nr = self.region(repr(key)[:200], "input")
                nr.name = ("psel", r.name, o, tuple(terms))
                return P(nr, 0)
            raise Imprecise("pointer load at symbolic index at %s" % self.site())
        if plain:
            return self.U.watom(("sel", r.name, o, tuple(terms), n), 8 * n)
        if k > 10:
            raise Imprecise("table look-up with %d symbolic index bits in %s at %s" % (k, r.name, self.site()))
        ents = []
        for v in range(1 << k):
            a = o
            for j in range(k):
                if v >> j & 1:
                    a += terms[j][1]
            if r.size is not None and (a < 0 or a + n > r.size):
                ents.append(self.U.watom(("oob", r.name, a, n), 8 * n))
            else:
                ents.append(self.load(P(r, a), n))
        return self.U.lut([t[0] for t in terms], ents, 8 * n)

    def store(self, p, v, n):
        p = self.fold(p)
        if not isinstance(p, P):
            raise Imprecise("store through non-pointer at %s" % self.site())
        if p.idx:
            return self.storesym(p, v, n)
        r, o = p.r, p.o
        if not self.chk(r, o, n, True):
            return
        m = self.wmem(r)
        if isinstance(v, (P, Fn)):
            for k in range(8):
                m[o + k] = ("p", v, k)
            return
        if isinstance(v, float):
            v = W(64, struct.unpack("<Q", struct.pack("<d", v))[0], None)
        if v.c is not None:
            c = v.c
            for k in range(n):
                m[o + k] = W(8, (c >> (8 * k)) & 255, None)
        else:
            b = v.bits
            if len(b) < 8 * n:
                b = b + (ZERO,) * (8 * n - len(b))
            if n == 1:
                m[o] = mk(b)
            else:
                for k in range(n):
                    m[o + k] = mk(b[8 * k:8 * k + 8])

    def storesym(self, p, v, n):
        r = p.r
        o, terms = self.symidx(p)
        k = len(terms)
        lo = o + sum(wt for _, wt in terms if wt < 0)
        hi = o + sum(wt for _, wt in terms if wt > 0)
        self.chk(r, lo, 0, True)
        if self.log is not None:
            self.log(r, lo, hi + n - lo, True)
        if r.size is not None and (lo < 0 or hi + n > r.size):
            self.alarm("out-of-bounds", "write of %d byte(s) of %s at an offset that can reach [%d,%d] (extent %s)" % (n, r.name, lo, hi + n, r.size))
        if k > 8 or not isinstance(v, W):
            raise Imprecise("store at symbolic index (%d bits) in %s at %s" % (k, r.name, self.site()))
        U = self.U
        for x in range(1 << k):
            a = o
            c = ONE
            for j in range(k):
                if x >> j & 1:
                    a += terms[j][1]
                    c = U.mul(c, terms[j][0])
                else:
                    c = U.mul(c, ONE ^ terms[j][0])
            if r.size is not None and (a < 0 or a + n > r.size):
                continue
            for b in range(n):
                old = self.cell(r, a + b)
                if old is None:
                    old = U.watom(("uninit", r.name, a + b), 8)
                if isinstance(old, tuple):
                    raise Imprecise("symbolic store over a pointer at %s" % self.site())
                self.wmem(r)[a + b] = U.select(c, mk(v.bits[8 * b:8 * b + 8]) if v.w >= 8 * (b + 1) else U.zext(v, 8), old)

    def copy(self, d, s, n):
        d, s = self.fold(d), self.fold(s)
        if d.idx or s.idx:
            raise Imprecise("memcpy at symbolic offset at %s" % self.site())
        if n == 0:
            return
        ok = self.chk(s.r, s.o, n, False)
        ok2 = self.chk(d.r, d.o, n, True)
        if not (ok and ok2):
            n = min(n, (s.r.size - s.o) if s.r.size is not None else n, (d.r.size - d.o) if d.r.size is not None else n)
            if n <= 0:
                return
        ms = self.mem[s.r]
        tmp = []
        for k in range(n):
            c = ms.get(s.o + k)
            if c is None:
                c = self.cell(s.r, s.o + k, ms)
                if c is None:
                    self.copied_uninit(s.r, s.o + k)
            tmp.append(c)
        md = self.wmem(d.r)
        for k in range(n):
            if tmp[k] is None:
                md.pop(d.o + k, None)
                if d.r.kind in ("input", "global"):
                    md[d.o + k] = self.U.watom(("uninit", s.r.name, s.o + k), 8)
            else:
                md[d.o + k] = tmp[k]

    def copied_uninit(self, r, o):
        pass

    def fill(self, d, byte, n):
        d = self.fold(d)
        if n == 0:
            return
        if d.idx:
            raise Imprecise("memset at symbolic offset at %s" % self.site())
        if not self.chk(d.r, d.o, n, True):
            n = min(n, d.r.size - d.o)
        md = self.wmem(d.r)
        for k in range(n):
            md[d.o + k] = byte

    # ------------------------------------------------------------ values
    def const(self, v):
        k = v["k"]
        if k == "c":
            return W(v["w"], int(v["v"]), None)
        if k == "null":
            return NULL
        if k == "g":
            return P(self.grip(v["n"]), v["o"])
        if k == "f":
            return Fn(v["n"])
        if k == "undef":
            if v.get("w"):
                self.counter += 1
                return self.U.watom(("undef", self.counter), v["w"])
            return NULL
        if k == "fp":
            if v["ty"] == "double":
                return struct.unpack("<d", struct.pack("<Q", int(v["v"])))[0]
            return struct.unpack("<f", struct.pack("<I", int(v["v"])))[0]
        if k == "cast":
            return self.const(v["a"])
        if k == "zero":
            return ("agg", {})
        raise Imprecise("constant kind %s" % k)

    def val(self, env, args, v):
        k = v["k"]
        if k == "i":
            return env[v["n"]]
        if k == "a":
            return args[v["n"]]
        if k == "c":
            c = v.get("_w")
            if c is None:
                c = v["_w"] = W(v["w"], int(v["v"]), None)
            return c
        return self.const(v)

    # ------------------------------------------------------------ calls
    def call(self, name, args, ins=None):
        m = self.models.get(name)
        if m is not None:
            return m(self, args, ins)
        f = self.funcs.get(name)
        if f is None:
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                self.models["memcpy"](self, args, ins)
                return None
            if name.startswith("llvm.memset"):
                self.models["memset"](self, args, ins)
                return None
            if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.stackrestore", "llvm.experimental.noalias")):
                return None
            if name.startswith("llvm.stacksave"):
                return NULL
            if name.startswith("llvm.fshl") or name.startswith("llvm.fshr"):
                a, b, c = args
                if c.c is None:
                    raise Imprecise("symbolic rotate")
                n = c.c % a.w
                cat = b.bits + a.bits
                if "fshl" in name:
                    return mk(cat[a.w - n:2 * a.w - n] if n else a.bits)
                return mk(cat[n:n + a.w])
            if name.startswith("llvm.bswap"):
                b = args[0].bits
                return mk(sum((b[i:i + 8] for i in range(len(b) - 8, -1, -8)), ()))
            if name.startswith(("llvm.ceil", "llvm.floor")) and isinstance(args[0], float):
                return float(math.ceil(args[0]) if "ceil" in name else math.floor(args[0]))
            raise Imprecise("call of unmodelled function %s at %s" % (name, self.site(ins)))
        return self.run(f, args, ins)

    def run(self, f, args, ins=None):
        if isinstance(f, str):
            if f not in self.funcs:
                raise KeyError(f)
            f = self.funcs[f]
        if len(self.callstack) > 200:
            raise Imprecise("recursion in %s" % f.name)
        self.fnseen[f.name] = self.fnseen.get(f.name, 0) + 1
        # byval arguments: private copies
        args = list(args)
        for i, a in enumerate(f.args):
            if "byval" in a and i < len(args):
                self.counter += 1
                r = self.region("byval%d#%d" % (i, self.counter), "local", a["byval"])
                src = args[i]
                self.copy(P(r, 0), src, a["byval"])
                args[i] = P(r, 0)
        self.callstack.append(f.name)
        saved = self.cursite
        try:
            out = self.exec(f, 0, -1, {}, args, None)
        finally:
            self.callstack.pop()
            self.cursite = saved
        if out[0] == "dead":
            raise Imprecise("no return from %s" % f.name)
        return out[1]

    def exec(self, f, blk, prev, env, args, stop, start=0):
        U = self.U
        stops = stop if isinstance(stop, frozenset) else frozenset((stop,))
        while True:
            b = f.blocks[blk]
            i = start
            start = 0
            if self.lam and i == 0 and prev is not None and blk not in stops:
                t = self.tryloop(f, blk, prev, env, args)
                if t is not None:
                    prev, blk = t
                    continue
            # phis evaluate in parallel
            if i == 0 and b[0]["op"] == "phi":
                if blk in stops:
                    return ("stop", prev, env, None, blk)
                vals = []
                while b[i]["op"] == "phi":
                    x = b[i]
                    for v, pb in x["in"]:
                        if pb == prev:
                            vals.append((x["id"], self.val(env, args, v)))
                            break
                    else:
                        raise Imprecise("phi without predecessor")
                    i += 1
                for k, v in vals:
                    env[k] = v
            elif i == 0 and blk in stops:
                return ("stop", prev, env, None, blk)
            n = len(b)
            while i < n:
                x = b[i]
                self.steps += 1
                op = x["op"]
                if "line" in x:
                    self.cursite = x
                if op == "br":
                    break
                if op == "ret":
                    self.fuelcheck()
                    ops = x["ops"]
                    return ("ret", self.val(env, args, ops[0]) if ops else None, env)
                if op == "switch" or op == "unreachable":
                    break
                h = getattr(self, "i_" + op, None)
                if h is None:
                    raise Imprecise("instruction %s at %s" % (op, self.site(x)))
                r = h(x, env, args)
                if "id" in x:
                    env[x["id"]] = r
                i += 1
            self.fuelcheck()
            x = b[n - 1]
            if x["op"] == "unreachable":
                return ("dead", None, env)
            if x["op"] == "br":
                if "cond" not in x:
                    prev, blk = blk, x["succ"][0]
                    continue
                c = self.val(env, args, x["cond"])
                cb = self.simp(c.bits[0])
                if cb == ONE:
                    prev, blk = blk, x["succ"][0]
                    continue
                if not cb:
                    prev, blk = blk, x["succ"][1]
                    continue
                arms = [(cb, x["succ"][0]), (ONE ^ cb, x["succ"][1])]
            else:
                c = self.val(env, args, x["cond"])
                if c.c is not None:
                    tgt = x["default"]
                    for v, t in x["cases"]:
                        if int(v["v"]) == c.c:
                            tgt = t
                    prev, blk = blk, tgt
                    continue
                arms = []
                rest = ONE
                for v, t in x["cases"]:
                    e = U.eq(c, W(c.w, int(v["v"]), None))
                    arms.append((e, t))
                    rest = rest ^ e
                arms.append((rest, x["default"]))
                arms = [(e, t) for e, t in arms if e]
            # data-dependent branch: evaluate arms to the place where they meet, join
            s = f.ipdom[blk]
            EXIT = len(f.blocks)
            hard = None if s is None or s == EXIT else s
            soft = f.soft(blk)
            if soft is not None and (soft == hard or (f.name, blk) in self.nosoft):
                soft = None
            base_mem = self.mem
            base_freed = self.freed
            base_assume = dict(self.assume)
            while True:
                target = hard if soft is None else soft
                res = []
                for e, t in arms:
                    self.mem = dict(base_mem)
                    self.owned = set()
                    self.freed = dict(base_freed)
                    self.assume = dict(base_assume)
                    self.assume[e] = ONE
                    self.assume[ONE ^ e] = ZERO
                    pend = self.pend
                    if pend is not None:
                        self.pend = list(pend)
                    o = self.exec(f, t, blk, dict(env), args, frozenset((soft, hard)))
                    if soft is not None and not (o[0] == "dead" or o[0] == "stop" and o[4] == soft):
                        # one of the ways does leave the loop
                        self.nosoft.add((f.name, blk))
                        self.pend = pend
                        res = None
                        break
                    if pend is not None:
                        if self.pend != pend:
                            raise Imprecise("table written on one side of a data-dependent branch at %s" % self.site())
                        self.pend = pend
                    res.append((e, o, self.mem, self.freed, self.owned))
                if res is not None:
                    break
                soft = None
            self.assume = base_assume
            res = [r for r in res if r[1][0] != "dead"]
            if not res:
                self.mem, self.freed = base_mem, base_freed
                self.owned = set()
                return ("dead", None, env)
            # join memory
            m = res[-1][2]
            self.owned = res[-1][4]
            for e, o, mm, fr, _ in reversed(res[:-1]):
                m = self.joinmem(e, mm, m)
            self.mem = m
            fr = {}
            for r in res:
                fr.update(r[3])
            self.freed = fr
            rets = [r for r in res if r[1][0] == "ret"]
            if rets:
                if len(rets) != len(res):
                    raise Imprecise("return inside a data-dependent branch in %s" % f.name)
                v = res[-1][1][1]
                for e, o, _, _, _ in reversed(res[:-1]):
                    v = self.joinval(e, o[1], v)
                return ("ret", v, env)
            # phis of the join block
            if target is None:
                raise Imprecise("no join point in %s" % f.name)
            tb = f.blocks[target]
            k = 0
            newv = []
            while tb[k]["op"] == "phi":
                y = tb[k]
                vs = []
                for e, o, _, _, _ in res:
                    pv = o[3].get(y["id"]) if o[3] is not None else None
                    if pv is None:
                        for v, pb in y["in"]:
                            if pb == o[1]:
                                pv = self.val(o[2], args, v)
                                break
                        else:
                            raise Imprecise("phi without predecessor")
                    vs.append((e, pv))
                v = vs[-1][1]
                for e, a in reversed(vs[:-1]):
                    v = self.joinval(e, a, v)
                newv.append((y["id"], v))
                k += 1
            if target in stops:
                return ("stop", None, env, dict(newv), target)
            for kk, v in newv:
                env[kk] = v
            prev, blk, start = None, target, k

    def simp(self, p):
        if not p or p == ONE:
            return p
        v = self.assume.get(p)
        if v is not None:
            return v
        return p

    def fuelcheck(self):
        if self.steps > self.fuel:
            raise Imprecise("analysis budget exceeded in %s" % (self.callstack[-1] if self.callstack else "?"))

    def joinval(self, e, a, b):
        if a is b:
            return a
        if isinstance(a, W) and isinstance(b, W):
            return self.U.select(e, a, b)
        if a == b:
            return a
        if a is None or b is None:
            return None
        if isinstance(a, (P, Fn)) or isinstance(b, (P, Fn)):
            if isinstance(a, P) and isinstance(b, P) and a.r is b.r and a.r is not None:
                # same region: offset select
                d = self.U.select(e, W(64, (a.o - b.o) & (2**64 - 1), None), W(64, 0, None))
                if not a.idx and not b.idx:
                    return self.fold(P(a.r, b.o, ((d, 1),)))
            return ("joinptr", e, a, b)
        raise Imprecise("join of incompatible values")

    def joinmem(self, e, ma, mb):
        U = self.U
        out = mb
        for r, ca in ma.items():
            cb = out.get(r)
            if cb is None:
                out[r] = ca
                self.owned.discard(r)
                continue
            if ca is cb:
                continue
            if ca.recs != cb.recs:
                raise Imprecise("tables written on one side of a data-dependent branch")
            if r not in self.owned:
                cb = out[r] = cb.copy()
                self.owned.add(r)
            keys = set(ca) | set(cb)
            for o in keys:
                a, b = ca.get(o), cb.get(o)
                if a is b:
                    continue
                if a is None:
                    a = self.cell(r, o, ca)
                if b is None:
                    b = self.cell(r, o, cb)
                if a is None or b is None:
                    x = U.watom(("uninit", r.name, o), 8)
                    a = a if a is not None else x
                    b = b if b is not None else x
                if isinstance(a, tuple) or isinstance(b, tuple):
                    if a == b:
                        cb[o] = a
                        continue
                    if isinstance(a, tuple) and isinstance(b, tuple) and a[2] == b[2]:
                        cb[o] = ("p", self.joinval(e, a[1], b[1]), a[2])
                        continue
                    cb[o] = ("p", ("joinptr", e, a, b), 0)
                    continue
                cb[o] = U.select(e, a, b)
        return out

    # ------------------------------------------------------------ instructions
    def bin(self, x, env, args):
        a = self.val(env, args, x["ops"][0])
        b = self.val(env, args, x["ops"][1])
        return a, b

    def intp(self, v, x):
        if isinstance(v, W):
            return v
        raise Imprecise("%s on a pointer at %s" % (x["op"], self.site(x)))

    def i_add(self, x, env, args):
        a, b = self.bin(x, env, args)
        if isinstance(a, P) and isinstance(b, W):
            return self.ptradd(a, b, 1)
        if isinstance(b, P) and isinstance(a, W):
            return self.ptradd(b, a, 1)
        return self.U.add(self.intp(a, x), self.intp(b, x))

    def i_sub(self, x, env, args):
        a, b = self.bin(x, env, args)
        if isinstance(a, P) and isinstance(b, P) and a.r is b.r and not a.idx and not b.idx:
            return W(64, (a.o - b.o) & (2**64 - 1), None)
        return self.U.sub(self.intp(a, x), self.intp(b, x))

    def i_mul(self, x, env, args):
        a, b = self.bin(x, env, args)
        return self.U.mulw(self.intp(a, x), self.intp(b, x))

    def i_xor(self, x, env, args):
        a, b = self.bin(x, env, args)
        if isinstance(a, (P, PX)) and isinstance(b, (P, PX)):
            s = (a.s if isinstance(a, PX) else frozenset((a,))) ^ (b.s if isinstance(b, PX) else frozenset((b,)))
            return W(64, 0, None) if not s else next(iter(s)) if len(s) == 1 else PX(s)
        return self.U.xor(self.intp(a, x), self.intp(b, x))

    def i_and(self, x, env, args):
        a, b = self.bin(x, env, args)
        return self.U.and_(self.intp(a, x), self.intp(b, x))

    def i_or(self, x, env, args):
        a, b = self.bin(x, env, args)
        return self.U.or_(self.intp(a, x), self.intp(b, x))

    def shift(self, x, env, args, f, kind):
        a, b = self.bin(x, env, args)
        if b.c is None:
            # symbolic amount with few live bits: mux
            live = [i for i, p in enumerate(b.bits) if p and p != ONE]
            if len(live) > 7:
                raise Imprecise("shift by a symbolic amount at %s" % self.site(x))
            lo, hi = self.U.urange(b)
            r = a
            for i, p in enumerate(b.bits):
                if not p:
                    continue
                sh = f(r, min(1 << i, a.w)) if kind != "ashr" else f(r, 1 << i)
                r = self.U.select(p, sh, r)
            return r
        if b.c >= a.w:
            self.alarm("shift-overflow", "shift of a %d-bit value by %d" % (a.w, b.c))
        return f(a, b.c)

    def i_shl(self, x, env, args):
        return self.shift(x, env, args, self.U.shl, "shl")

    def i_lshr(self, x, env, args):
        return self.shift(x, env, args, self.U.lshr, "lshr")

    def i_ashr(self, x, env, args):
        return self.shift(x, env, args, self.U.ashr, "ashr")

    def divmod_(self, x, env, args, signed, rem):
        a, b = self.bin(x, env, args)
        U = self.U
        if b.c == 0:
            self.alarm("division-by-zero", "division by zero")
            raise Imprecise("division by zero at %s" % self.site(x))
        if a.c is not None and b.c is not None:
            if not signed:
                return W(a.w, a.c % b.c if rem else a.c // b.c, None)
            p, q = a.s, b.s
            d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            return W(a.w, ((p - d * q) if rem else d) & ((1 << a.w) - 1), None)
        nonneg = not signed or (not a.bits[-1] and not b.bits[-1])
        if nonneg and b.c is not None and b.c & (b.c - 1) == 0:
            k = b.c.bit_length() - 1
            if rem:
                return mk(a.bits[:k] + (ZERO,) * (a.w - k))
            return U.lshr(a, k)
        lo, hi = U.urange(a)
        if nonneg and b.c is not None and hi < b.c:
            return a if rem else W(a.w, 0, None)
        # few live bits: tabulate
        live = [i for i, p in enumerate(a.bits) if p and p != ONE]
        if nonneg and b.c is not None and len(live) <= 8:
            ents = []
            base = lo
            for v in range(1 << len(live)):
                t = base
                for j, i in enumerate(live):
                    if v >> j & 1:
                        t |= 1 << i
                ents.append(W(a.w, t % b.c if rem else t // b.c, None))
            return U.lut([a.bits[i] for i in live], ents, a.w)
        if rem and b.c is not None and self.pick is not None:
            v = self.pick(a, b.c, not nonneg)
            if v is not None:
                return W(a.w, v & ((1 << a.w) - 1), None)
        r = U.watom((("srem" if rem else "sdiv") if not nonneg else ("urem" if rem else "udiv"), a.bits, b.bits), a.w)
        if nonneg and b.c is not None:
            mx = (b.c - 1) if rem else hi // b.c
            k = mx.bit_length()
            r = mk(r.bits[:k] + (ZERO,) * (a.w - k))
        return r

    def i_udiv(self, x, env, args):
        return self.divmod_(x, env, args, False, False)

    def i_sdiv(self, x, env, args):
        return self.divmod_(x, env, args, True, False)

    def i_urem(self, x, env, args):
        return self.divmod_(x, env, args, False, True)

    def i_srem(self, x, env, args):
        return self.divmod_(x, env, args, True, True)

    def i_trunc(self, x, env, args):
        a = self.val(env, args, x["ops"][0])
        return self.U.trunc(self.intp(a, x), parse_w(x["ty"]))

    def i_zext(self, x, env, args):
        a = self.val(env, args, x["ops"][0])
        return self.U.zext(self.intp(a, x), parse_w(x["ty"]))

    def i_sext(self, x, env, args):
        a = self.val(env, args, x["ops"][0])
        return self.U.sext(self.intp(a, x), parse_w(x["ty"]))

    def i_freeze(self, x, env, args):
        return self.val(env, args, x["ops"][0])

    def i_bitcast(self, x, env, args):
        return self.val(env, args, x["ops"][0])

    def i_ptrtoint(self, x, env, args):
        return self.val(env, args, x["ops"][0])

    def i_inttoptr(self, x, env, args):
        v = self.val(env, args, x["ops"][0])
        if isinstance(v, W):
            if v.c == 0:
                return NULL
            raise Imprecise("integer to pointer at %s" % self.site(x))
        return v

    def i_select(self, x, env, args):
        c, a, b = (self.val(env, args, o) for o in x["ops"])
        cb = self.simp(c.bits[0])
        if cb == ONE:
            return a
        if not cb:
            return b
        return self.joinval(cb, a, b)

    def i_icmp(self, x, env, args):
        a, b = self.bin(x, env, args)
        p = x["pred"]
        U = self.U
        if isinstance(a, W) and isinstance(b, W):
            if p == "eq":
                r = U.eq(a, b)
            elif p == "ne":
                r = ONE ^ U.eq(a, b)
            else:
                sg = p[0] == "s"
                q = p[1:]
                if q == "lt":
                    r = U.ult(a, b, sg)
                elif q == "gt":
                    r = U.ult(b, a, sg)
                elif q == "le":
                    r = ONE ^ U.ult(b, a, sg)
                else:
                    r = ONE ^ U.ult(a, b, sg)
            return mk((r,))
        return mk((self.pcmp(p, a, b),))

    def pcmp(self, p, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Imprecise("comparison of a joined pointer at %s" % self.site())
        if isinstance(a, W) or isinstance(b, W):
            w = a if isinstance(a, W) else b
            q = b if isinstance(a, W) else a
            if w.c == 0 and p in ("eq", "ne"):
                e = isinstance(q, P) and q.r is None
                return ONE if e == (p == "eq") else ZERO
            raise Imprecise("pointer compared with integer at %s" % self.site())
        if p in ("eq", "ne"):
            if isinstance(a, P) and isinstance(b, P) and a.r is b.r and a.r is not None and (a.idx or b.idx):
                oa = self.fold(a)
                ob = self.fold(b)
                if oa != ob:
                    raise Imprecise("symbolic pointer comparison at %s" % self.site())
            e = a == b
            return ONE if e == (p == "eq") else ZERO
        if isinstance(a, P) and isinstance(b, P) and a.r is b.r and not a.idx and not b.idx:
            r = {"ult": a.o < b.o, "ugt": a.o > b.o, "ule": a.o <= b.o, "uge": a.o >= b.o}.get(p)
            if r is not None:
                return ONE if r else ZERO
        raise Imprecise("pointer comparison at %s" % self.site())

    def ptradd(self, p, w, st):
        if isinstance(p, W):
            if p.c == 0:
                p = NULL
        if not isinstance(p, P):
            raise Imprecise("arithmetic on %r at %s" % (type(p).__name__, self.site()))
        if w.c is not None:
            return P(p.r, p.o + w.s * st, p.idx)
        return self.fold(P(p.r, p.o, p.idx + ((w, st),)))

    def i_getelementptr(self, x, env, args):
        p = self.val(env, args, x["base"])
        if x.get("opaque"):
            raise Imprecise("vector gep")
        if isinstance(p, tuple):
            raise Imprecise("arithmetic on joined pointer at %s" % self.site(x))
        if isinstance(p, Fn):
            return p
        o = x["off"]
        q = P(p.r, p.o + o, p.idx)
        for v, st in x["idx"]:
            q = self.ptradd(q, self.intp(self.val(env, args, v), x), st)
        return q

    def i_alloca(self, x, env, args):
        n = x.get("asz")
        if n is None:
            c = self.val(env, args, x["ops"][0])
            if c.c is None:
                raise Imprecise("variable-length array of symbolic length at %s" % self.site(x))
            n = c.c * x["esz"]
        self.counter += 1
        r = self.region("local#%d(%s)" % (self.counter, self.callstack[-1] if self.callstack else ""), "local", n)
        r.site = self.site(x)
        return P(r, 0)

    def i_load(self, x, env, args):
        p = self.val(env, args, x["ops"][0])
        if isinstance(p, tuple):
            raise Imprecise("load through joined pointer at %s" % self.site(x))
        ty = x["ty"]
        if ty == "ptr":
            return self.load(p, 8, True)
        if ty == "double":
            v = self.load(p, 8)
            if v.c is None:
                raise Imprecise("symbolic double")
            return struct.unpack("<d", struct.pack("<Q", v.c))[0]
        w = parse_w(ty)
        if w is None:
            return self.loadagg(p, x)
        v = self.load(p, x["sz"])
        if isinstance(v, W) and v.w != w:
            v = self.U.trunc(v, w)
        return v

    def loadagg(self, p, x):
        raise Imprecise("aggregate load %s at %s" % (x["ty"], self.site(x)))

    def i_store(self, x, env, args):
        v = self.val(env, args, x["ops"][0])
        p = self.val(env, args, x["ops"][1])
        if isinstance(p, tuple):
            raise Imprecise("store through joined pointer at %s" % self.site(x))
        if isinstance(v, tuple):
            if v[0] == "joinptr":
                self.store(p, P(None, 0), 8)
                m = self.wmem(self.fold(p).r)
                o = self.fold(p).o
                for k in range(8):
                    m[o + k] = ("p", v, k)
                return None
            raise Imprecise("aggregate store at %s" % self.site(x))
        self.store(p, v, x["ssz"])

    def i_call(self, x, env, args):
        av = []
        for o in x["ops"]:
            av.append(self.val(env, args, o) if o["k"] != "md" else None)
        if "callee" in x:
            name = x["callee"]
        else:
            cv = x["cv"]
            fv = self.val(env, args, cv)
            if isinstance(fv, Fn):
                name = fv.n
            elif isinstance(fv, P):
                h = self.models.get("*indirect")
                if h is None:
                    raise Imprecise("indirect call through %r at %s" % (fv, self.site(x)))
                return h(self, [fv] + av, x)
            else:
                raise Imprecise("indirect call at %s" % self.site(x))
        if "byval" in str(x["ops"]) and False:
            pass
        return self.call(name, av, x)

    i_invoke = i_call

    def i_extractvalue(self, x, env, args):
        a = self.val(env, args, x["ops"][0])
        if isinstance(a, tuple) and a[0] == "agg":
            return a[1][tuple(x["idxs"])]
        raise Imprecise("extractvalue")

    def i_insertvalue(self, x, env, args):
        a = self.val(env, args, x["ops"][0])
        v = self.val(env, args, x["ops"][1])
        d = dict(a[1]) if isinstance(a, tuple) and a[0] == "agg" else {}
        d[tuple(x["idxs"])] = v
        return ("agg", d)

    def i_fence(self, x, env, args):
        return None

    def i_atomicrmw(self, x, env, args):
        p = self.val(env, args, x["ops"][0])
        v = self.val(env, args, x["ops"][1])
        lg, self.log = self.log, None
        old = self.load(p, x["ssz"])
        U = self.U
        f = {"add": U.add, "sub": U.sub, "and": U.and_, "or": U.or_, "xor": U.xor, "xchg": lambda a, b: b}.get(x["rmw"])
        if f is None:
            raise Imprecise("atomic %s at %s" % (x["rmw"], self.site(x)))
        self.store(p, f(old, v), x["ssz"])
        self.log = lg
        return old

    # floating point: constants only
    def fl(self, x, env, args):
        a, b = self.bin(x, env, args)
        if isinstance(a, float) and isinstance(b, float):
            return a, b
        raise Imprecise("symbolic floating point at %s" % self.site(x))

    def i_fadd(self, x, env, args):
        a, b = self.fl(x, env, args)
        return a + b

    def i_fsub(self, x, env, args):
        a, b = self.fl(x, env, args)
        return a - b

    def i_fmul(self, x, env, args):
        a, b = self.fl(x, env, args)
        return a * b

    def i_fdiv(self, x, env, args):
        a, b = self.fl(x, env, args)
        return a / b

    def i_fneg(self, x, env, args):
        return -self.val(env, args, x["ops"][0])

    def i_fcmp(self, x, env, args):
        a, b = self.fl(x, env, args)
        p = x["pred"]
        r = {"oeq": a == b, "une": a != b, "olt": a < b, "ogt": a > b, "ole": a <= b, "oge": a >= b, "ueq": a == b, "one": a != b, "ult": a < b, "ugt": a > b, "ule": a <= b, "uge": a >= b}[p]
        return W(1, int(r), None)

    def i_sitofp(self, x, env, args):
        a = self.val(env, args, x["ops"][0])
        if a.c is None:
            raise Imprecise("symbolic int to fp at %s" % self.site(x))
        return float(a.s)

    def i_uitofp(self, x, env, args):
        a = self.val(env, args, x["ops"][0])
        if a.c is None:
            raise Imprecise("symbolic int to fp at %s" % self.site(x))
        return float(a.c)

    def i_fptosi(self, x, env, args):
        a = self.val(env, args, x["ops"][0])
        if not isinstance(a, float):
            raise Imprecise("fp")
        w = parse_w(x["ty"])
        return W(w, int(a) & ((1 << w) - 1), None)

    i_fptoui = i_fptosi

    def i_fpext(self, x, env, args):
        return self.val(env, args, x["ops"][0])

    i_fptrunc = i_fpext

    # ------------------------------------------------------------ helpers for specs
    def read(self, p, n):
        """bytes as list of W8 (None -> uninitialised)"""
        return [self.cell(p.r, p.o + k) for k in range(n)]

    def word_be(self, p, n=4):
        return self.U.concat(list(reversed([self.cell(p.r, p.o + k) for k in range(n)])))

    def word_le(self, p, n=4):
        return self.U.concat([self.cell(p.r, p.o + k) for k in range(n)])


# ---------------------------------------------------------------- library models
def m_malloc(I, a, ins):
    if a[0].c is None:
        raise Imprecise("malloc of symbolic size at %s" % I.site(ins))
    return P(I.heap(a[0].c), 0)


def m_calloc(I, a, ins):
    n = a[0].c * a[1].c
    r = I.heap(n)
    m = I.wmem(r)
    z = W(8, 0, None)
    for k in range(n):
        m[k] = z
    return P(r, 0)


def m_free(I, a, ins):
    p = a[0]
    if isinstance(p, tuple):
        return None
    if p.r is None:
        return None
    if p.r.kind != "heap" or p.o != 0 or p.idx:
        I.alarm("bad-free", "free of %r, which is not the start of a heap block" % (p,))
    elif p.r in I.freed:
        I.alarm("double-free", "second free of %s" % p.r.name)
    else:
        I.freed[p.r] = I.site(ins)
    return None


def m_realloc(I, a, ins):
    p, n = a
    if n.c is None:
        raise Imprecise("realloc of symbolic size at %s" % I.site(ins))
    r = I.heap(n.c)
    if isinstance(p, P) and p.r is not None:
        if p.r.kind != "heap" or p.o != 0:
            I.alarm("bad-realloc", "realloc of %r, which is not the start of a heap block" % (p,))
        else:
            old = I.mem[p.r]
            for k in range(min(n.c, p.r.size)):
                if k in old:
                    I.wmem(r)[k] = old[k]
            I.freed[p.r] = I.site(ins)
    return P(r, 0)


def m_nop(I, a, ins):
    return W(32, 0, None)


def m_memcpy(I, a, ins):
    if a[2].c is None:
        raise Imprecise("memcpy of symbolic length at %s" % I.site(ins))
    I.copy(a[0], a[1], a[2].c)
    return a[0]


def m_memset(I, a, ins):
    if a[2].c is None:
        raise Imprecise("memset of symbolic length at %s" % I.site(ins))
    I.fill(a[0], I.U.trunc(a[1], 8), a[2].c)
    return a[0]


def m_memcmp(I, a, ins):
    n = a[2].c
    if n is None:
        raise Imprecise("memcmp of symbolic length at %s" % I.site(ins))
    x = I.U.concat([I.load(P(a[0].r, a[0].o + k), 1) for k in range(n)])
    y = I.U.concat([I.load(P(a[1].r, a[1].o + k), 1) for k in range(n)])
    if x == y:
        return W(32, 0, None)
    if x.c is not None and y.c is not None:
        return W(32, 1, None)
    e = I.U.eq(x, y)
    return mk((ONE ^ e,) + (ZERO,) * 31)


def m_strlen(I, a, ins):
    p = I.fold(a[0])
    if p.idx:
        raise Imprecise("strlen at symbolic offset")
    if p.r.strlen is not None:
        return W(64, p.r.strlen - p.o, None)
    for k in range(0, 100000):
        c = I.load(P(p.r, p.o + k), 1)
        if c.c == 0:
            return W(64, k, None)
        if c.c is None:
            # symbolic byte: only if declared non-zero
            if not I.nonzero(c):
                raise Imprecise("strlen over symbolic bytes at %s" % I.site(ins))
    raise Imprecise("strlen: unterminated")


def _nonzero(I, c):
    if c.c is not None:
        return c.c != 0
    return any(b == ONE for b in c.bits) or getattr(I, "nz", None) and I.nz(c)


Interp.nonzero = lambda self, c: _nonzero(self, c)


def m_strcmp(I, a, ins):
    p, q = I.fold(a[0]), I.fold(a[1])
    for k in range(10000):
        x = I.load(P(p.r, p.o + k), 1)
        y = I.load(P(q.r, q.o + k), 1)
        if x.c is None or y.c is None:
            if (x.c == 0 and I.nonzero(y)) or (y.c == 0 and I.nonzero(x)):
                return W(32, 1, None)
            raise Imprecise("strcmp on symbolic bytes at %s" % I.site(ins))
        if x.c != y.c:
            return W(32, 1 if x.c > y.c else 0xffffffff, None)
        if x.c == 0:
            return W(32, 0, None)
    raise Imprecise("strcmp")


def m_fp(fn):
    def h(I, a, ins):
        if not all(isinstance(x, float) for x in a):
            raise Imprecise("symbolic floating point call at %s" % I.site(ins))
        return float(fn(*a))
    return h


def m_cleanse(I, a, ins):
    return m_memset(I, [a[0], W(32, 0, None), a[1]], ins)


def cstring(I, p, ins, limit=None):
    """bytes of a C string without its terminator"""
    p = I.fold(p)
    if not isinstance(p, P) or p.idx:
        raise Imprecise("string at symbolic offset at %s" % I.site(ins))
    res = []
    while limit is None or len(res) < limit:
        c = I.load(P(p.r, p.o + len(res)), 1)
        if c.c == 0:
            break
        if c.c is None and not I.nonzero(c):
            raise Imprecise("string over symbolic bytes at %s" % I.site(ins))
        res.append(c)
        if len(res) > 100000:
            raise Imprecise("unterminated string at %s" % I.site(ins))
    return res


def m_strcpy(I, a, ins):
    bs = cstring(I, a[1], ins) + [W(8, 0, None)]
    for k, b in enumerate(bs):
        I.store(P(a[0].r, a[0].o + k, a[0].idx), b, 1)
    return a[0]


def m_strcat(I, a, ins):
    n = len(cstring(I, a[0], ins))
    m_strcpy(I, [P(a[0].r, a[0].o + n, a[0].idx), a[1]], ins)
    return a[0]


def m_strncpy(I, a, ins):
    n = a[2].c
    if n is None:
        raise Imprecise("strncpy of symbolic length at %s" % I.site(ins))
    bs = cstring(I, a[1], ins, n)
    bs += [W(8, 0, None)] * (n - len(bs))
    for k, b in enumerate(bs):
        I.store(P(a[0].r, a[0].o + k, a[0].idx), b, 1)
    return a[0]


DEFAULT_MODELS = {
    "OPENSSL_cleanse": m_cleanse, "explicit_bzero": m_cleanse, "bzero": m_cleanse, "CRYPTO_memcmp": m_memcmp, "bcmp": m_memcmp,
    "strcpy": m_strcpy, "strcat": m_strcat, "strncpy": m_strncpy,
    "malloc": m_malloc, "calloc": m_calloc, "free": m_free, "realloc": m_realloc, "printf": m_nop, "puts": m_nop,
    "putchar": m_nop, "fflush": m_nop, "memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset, "memcmp": m_memcmp,
    "strlen": m_strlen, "strcmp": m_strcmp, "ceil": m_fp(math.ceil), "floor": m_fp(math.floor),
    "log": m_fp(math.log), "log2": m_fp(math.log2), "pow": m_fp(math.pow), "omp_set_num_threads": m_nop,
}
