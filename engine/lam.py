"""Tables defined for all indices at once.

A counted loop that fills a table (x = 0..N-1: T[x] = f(x)) is analysed once,
with the loop index symbolic.  Its stores become a record "the bytes of region
r at o + s*x are what the loop body stores", and a later look-up at a symbolic
index re-evaluates the body with x := index in the memory the loop started
from.  The loop must store only to places that are a function of the index,
each iteration to its own, and read none that another iteration writes;
otherwise it is unfolded as usual.
"""
import bisect
from absint import Interp, P, W, mk, Imprecise, Cells, ZERO, ONE, NULL

SIZES = {16: 4, 256: 8}
PURE = {"icmp", "sext", "zext", "trunc", "add", "sub", "and", "or", "xor"}


class LamAbort(Imprecise):
    pass


class Paged:
    """Cells of a large region: copies share their pages until one of them writes"""
    __slots__ = ("pages", "own", "recs")

    def __init__(self):
        self.pages = {}
        self.own = set()
        self.recs = None

    def copy(self):
        c = Paged()
        c.pages = dict(self.pages)
        self.own = set()
        if self.recs is not None:
            c.recs = self.recs.copy()
        return c

    def get(self, o, d=None):
        pg = self.pages.get(o >> 8)
        return d if pg is None else pg.get(o, d)

    def __getitem__(self, o):
        return self.pages[o >> 8][o]

    def __contains__(self, o):
        pg = self.pages.get(o >> 8)
        return pg is not None and o in pg

    def page(self, k):
        pg = self.pages.get(k)
        if pg is None:
            pg = self.pages[k] = {}
            self.own.add(k)
        elif k not in self.own:
            pg = self.pages[k] = dict(pg)
            self.own.add(k)
        return pg

    def __setitem__(self, o, v):
        k = o >> 8
        (self.pages[k] if k in self.own else self.page(k))[o] = v

    def __delitem__(self, o):
        del self.page(o >> 8)[o]

    def pop(self, o, d=None):
        if o in self:
            return self.page(o >> 8).pop(o)
        return d

    def __iter__(self):
        for pg in self.pages.values():
            yield from pg

    def items(self):
        for pg in self.pages.values():
            yield from pg.items()

    def values(self):
        for pg in self.pages.values():
            yield from pg.values()

    def keys(self):
        return iter(self)

    def __len__(self):
        return sum(map(len, self.pages.values()))

    def update(self, d):
        for k, v in d.items():
            self[k] = v

    def anyin(self, lo, hi):
        for k in range(lo >> 8, (hi - 1 >> 8) + 1):
            pg = self.pages.get(k)
            if pg and any(lo <= o < hi for o in pg):
                return True
        return False

    def drop(self, lo, hi):
        for k in range(lo >> 8, (hi - 1 >> 8) + 1):
            pg = self.pages.get(k)
            if pg and any(lo <= o < hi for o in pg):
                if lo <= k << 8 and (k + 1) << 8 <= hi:
                    del self.pages[k]
                    self.own.discard(k)
                else:
                    pg = self.page(k)
                    for o in [o for o in pg if lo <= o < hi]:
                        del pg[o]


class RecMap:
    """records of a region, by start offset"""
    __slots__ = ("os", "rs")

    def __init__(self, os=None, rs=None):
        self.os, self.rs = os or [], rs or []

    def __iter__(self):
        return iter(self.rs)

    def copy(self):
        return RecMap(list(self.os), list(self.rs))

    def __eq__(self, o):
        return o is not None and self.os == o.os and all(a is b for a, b in zip(self.rs, o.rs))

    def find(self, lo, hi):
        """record containing [lo, hi), or None; raises when it is only partly inside"""
        i = bisect.bisect_right(self.os, lo) - 1
        if i >= 0:
            r = self.rs[i]
            if hi <= r.hi:
                return r
            if lo < r.hi:
                raise Imprecise("access across tables")
        if i + 1 < len(self.os) and self.os[i + 1] < hi:
            raise Imprecise("access across tables")
        return None

    def insert(self, rec):
        i = bisect.bisect_left(self.os, rec.o)
        while i < len(self.os) and self.os[i] < rec.hi:
            if self.rs[i].hi > rec.hi:
                raise LamAbort("partial overlap of tables")
            del self.os[i], self.rs[i]
        if i > 0 and self.rs[i - 1].hi > rec.o:
            raise LamAbort("partial overlap of tables")
        self.os.insert(i, rec.o)
        self.rs.insert(i, rec)


class Rec:
    """entries at o + s*x (+ base terms), x in 0..N-1; piece: bytes of one entry;
    n, dims: its footprint, n contiguous bytes repeated with the strides of dims (empty: one block);
    src, shift: a copy of (a part of) another table"""
    __slots__ = ("r", "o", "base", "s", "N", "hi", "clo", "perm", "piece", "n", "dims", "big", "src", "shift")

    def __init__(self, r, o, base, s, N, clo=None, perm=None, piece=None, dims0=(), n0=None):
        self.r, self.o, self.base, self.s, self.N, self.clo, self.perm = r, o, base, s, N, clo, perm
        self.piece = s if piece is None else piece
        self.n, self.dims = tile(self.piece if n0 is None else n0, dims0 + ((s, N),))
        self.big = any(t > s for t, _ in dims0)
        self.hi = o + span(self.n, self.dims)
        self.src = None

    def moved(self, r, o, lo, hi):
        """the bytes [lo, hi) of this table, copied to offset o of r"""
        c = Rec.__new__(Rec)
        c.r, c.o, c.base, c.s, c.N, c.clo, c.perm = r, o, frozenset(), self.s, self.N, None, None
        c.piece, c.n, c.dims, c.big, c.hi = self.piece, hi - lo, (), False, o + hi - lo
        c.src, c.shift = (self, o - lo) if self.src is None else (self.src, o - lo + self.shift)
        return c


def span(n, dims):
    return n + sum(t * (c - 1) for t, c in dims)


def tile(n, dims):
    """n bytes repeated with the given (stride, count)s -> the same with whole blocks joined"""
    out = []
    for t, c in sorted(dims):
        if not out and t == n:
            n *= c
        elif t >= span(n, out):
            out.append((t, c))
        else:
            raise LamAbort("overlapping entries")
    return n, tuple(out)


class Closure:
    """loop body and the state it started from"""
    __slots__ = ("f", "h", "body", "env", "args", "ind", "mem", "pend", "freed", "cache", "k", "stack")


class Frame:
    """one symbolic run of a loop body"""
    __slots__ = ("born", "base", "replay", "written", "early")

    def __init__(self, born, base, replay):
        self.born, self.base, self.replay = born, base, replay
        self.written = set()        # bytes of older regions stored at a fixed place
        self.early = set()          # such bytes read before the iteration wrote them

    def wrote(self, r, o, n):
        if r.born <= self.born:
            self.written.update((r, k) for k in range(o, o + n))

    def read(self, r, o, n):
        if r.born <= self.born and r.kind != "global":
            for k in range(o, o + n):
                if (r, k) not in self.written:
                    self.early.add((r, k))


class Pend:
    """store at a symbolic address that is not yet part of a record"""
    __slots__ = ("r", "o", "terms", "n", "v", "lo", "hi")


def natural_loops(f):
    n = len(f.blocks)
    preds = [[] for _ in range(n)]
    for b in range(n):
        for s in f.succs(b):
            preds[s].append(b)
    full = (1 << n) - 1
    dom = [full] * n
    dom[0] = 1
    ch = True
    while ch:
        ch = False
        for b in range(1, n):
            d = full
            for p in preds[b]:
                d &= dom[p]
            d |= 1 << b
            if d != dom[b]:
                dom[b] = d
                ch = True
    loops = {}
    for b in range(n):
        for s in f.succs(b):
            if dom[b] >> s & 1:         # back edge b -> s
                body = {s}
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(preds[x])
                l = loops.setdefault(s, {"blocks": set(), "latches": []})
                l["blocks"] |= body
                l["latches"].append(b)
    out = {}
    for h, l in loops.items():
        if len(l["latches"]) != 1:
            continue
        exits = [(b, s) for b in l["blocks"] for s in f.succs(b) if s not in l["blocks"]]
        if any(f.blocks[b][-1]["op"] in ("ret", "unreachable") for b in l["blocks"]):
            continue
        t = f.blocks[h][-1]
        if len(exits) != 1 or exits[0][0] != h or t["op"] != "br" or "cond" not in t:
            continue
        defs = {}
        for b in l["blocks"]:
            for x in f.blocks[b]:
                if "id" in x:
                    defs[x["id"]] = x
        latch = l["latches"][0]
        ind = []
        ok = True
        for x in f.blocks[h]:
            if x["op"] != "phi":
                break
            inc = [v for v, pb in x["in"] if pb == latch]
            step = None
            if len(inc) == 1 and inc[0]["k"] == "i":
                d = defs.get(inc[0]["n"])
                if d is not None:
                    if d["op"] == "add" or d["op"] == "sub":
                        a, b2 = d["ops"]
                        if d["op"] == "add" and a["k"] == "c":
                            a, b2 = b2, a
                        if a["k"] == "i" and a["n"] == x["id"] and b2["k"] == "c":
                            s = int(b2["v"])
                            if s >> (b2["w"] - 1):
                                s -= 1 << b2["w"]
                            step = ("int", s if d["op"] == "add" else -s, b2["w"])
                    elif d["op"] == "getelementptr" and d["base"]["k"] == "i" and d["base"]["n"] == x["id"]:
                        o = d["off"]
                        good = True
                        for v, st in d["idx"]:
                            if v["k"] != "c":
                                good = False
                            else:
                                c = int(v["v"])
                                if c >> (v["w"] - 1):
                                    c -= 1 << v["w"]
                                o += c * st
                        if good:
                            step = ("ptr", o, 64)
            if step is None:
                ok = False
                break
            ind.append((x["id"], step))
        if not ok or not ind:
            continue
        body = [s for s in t["succ"] if s in l["blocks"]]
        if len(body) != 1:
            continue
        # header: phis, then pure instructions only
        rest = [x for x in f.blocks[h] if x["op"] != "phi"][:-1]
        if any(x["op"] not in PURE for x in rest):
            continue
        out[h] = dict(blocks=l["blocks"], latch=latch, ind=ind, rest=rest, body=body[0], exit=exits[0][1])
    return out


class LInterp(Interp):
    lam = False

    def __init__(self, *a, **kw):
        self.pend = []
        self.born = 0
        self.frames = []        # (first region number of the attempt, start of its pending stores, replay)
        self.loopcache = {}
        self.misses = {}
        self.reads = None
        self.tables = 0
        self.lookups = 0
        self.alias = {}         # row of an array of rows -> (the whole array, offset)
        Interp.__init__(self, *a, **kw)

    def region(self, name, kind="input", size=None, **kw):
        r = Interp.region(self, name, kind, size, **kw)
        self.born += 1
        r.born = self.born
        if size is not None and size > 1024:
            self.mem[r] = Paged()
        return r

    def families(self):
        """arrays of pointers to equal, separately allocated, still empty rows: lay the rows out as one array,
        so that a row can be chosen by a symbolic index (rows are disjoint, so nothing else changes)"""
        for r, m in list(self.mem.items()):
            if r.size is None or r.size < 128 or r.size % 8 or r.kind != "heap" or r in self.freed:
                continue
            n = r.size // 8
            rows = []
            for x in range(n):
                c = m.get(8 * x)
                if not (isinstance(c, tuple) and c[2] == 0 and isinstance(c[1], P) and c[1].r is not None and c[1].o == 0 and not c[1].idx):
                    break
                q = c[1].r
                if q.kind != "heap" or q.size is None or q in self.freed or q in self.alias or len(self.mem[q]) or (rows and q.size != rows[0].size):
                    break
                rows.append(q)
            if len(rows) != n or len(set(rows)) != n:
                continue
            v = self.region("rows of " + r.name, "rows", n * rows[0].size)
            for x, q in enumerate(rows):
                self.alias[q] = (v, x * q.size)
                self.mem.pop(q)

    def whole(self, p, n, write):
        """a row's address as an address of the array it belongs to"""
        if isinstance(p, P) and p.r in self.alias:
            if not p.idx:
                self.chk(p.r, p.o, n, write)
            v, o = self.alias[p.r]
            return P(v, p.o + o, p.idx)
        return p

    def loops(self, f):
        l = self.loopcache.get(f.name)
        if l is None:
            l = self.loopcache[f.name] = natural_loops(f)
        return l

    # ------------------------------------------------------------ loops
    def tryloop(self, f, h, prev, env, args):
        L = self.loops(f).get(h)
        if L is None or prev in L["blocks"]:
            return None
        key = (f.name, h)
        if self.misses.get(key, 0) >= 6:
            return None
        init = {}
        for x in f.blocks[h]:
            if x["op"] != "phi":
                break
            for v, pb in x["in"]:
                if pb == prev:
                    init[x["id"]] = self.val(env, args, v)
        ind = [(i, init[i], st) for i, st in L["ind"]]
        for i, v, st in ind:
            if st[0] == "int" and (not isinstance(v, W) or v.c is None):
                return None
            if st[0] == "ptr" and not isinstance(v, P):
                return None
        N = self.trip(f, h, L, env, args, ind)
        if N not in SIZES:
            return None
        k = SIZES[N]
        orig = ind
        lastx = N - 1
        if all(st[1] < 0 for _, _, st in ind):
            # counts down: the same iterations, numbered from the other end
            ind = [(i, self.indval(v, st, W(64, N - 1, None)), (st[0], -st[1], st[2])) for i, v, st in ind]
            lastx = 0
        st = (self.mem, self.owned, self.pend, self.freed, len(self.alarms), set(self.alarmset), self.reads, self.cursite, dict(env))
        clo = Closure()
        clo.f, clo.h, clo.body, clo.args, clo.ind, clo.k = f, h, L, args, ind, k
        clo.env = dict(env)
        clo.mem = dict(self.mem)
        clo.pend = list(self.pend)
        clo.freed = dict(self.freed)
        clo.cache = {}
        clo.stack = list(self.callstack)
        self.counter += 1
        X = self.U.watom(("X", self.counter), k)
        self.owned = set()
        self.mem = dict(self.mem)
        self.pend = list(self.pend)
        self.reads = []
        base = len(self.pend)
        fr = Frame(self.born, base, False)
        self.frames.append(fr)
        try:
            try:
                self.body(clo, X, env)
                if fr.written & fr.early:
                    raise LamAbort("memory carries a value from one iteration to the next")
                changed = [r for r, m in st[0].items() if self.mem.get(r) is not m]
                wr = {r for r, _ in fr.written}
                if not wr.issuperset(changed):
                    raise LamAbort("memory")
                recs = self.finish(self.pend[base:], X, N, clo)
                reads = self.reads
                # no iteration reads what another one writes
                for r, lo, hi, a in reads:
                    if r in wr and a[1]:
                        raise LamAbort("table read from a place the loop writes")
                    for q in self.pend[base:]:
                        if q.r is r and lo < q.hi and q.lo < hi and a != (q.o, q.terms):
                            raise LamAbort("loop-carried")
            except Imprecise as ex:
                self.frames.pop()
                self.mem, self.owned, self.pend, self.freed = st[:4]
                del self.alarms[st[4]:]
                self.alarmset = st[5]
                self.reads = st[6]
                self.cursite = st[7]
                env.clear()
                env.update(st[8])
                self.misses[key] = self.misses.get(key, 0) + 1
                self.lastmiss = (f.name, h, str(ex))
                if getattr(self, "trace", None) is not None:
                    self.trace.append(self.lastmiss)
                return None
        except BaseException:
            raise
        self.frames.pop()
        self.misses[key] = 0
        self.mem, self.owned, self.pend = st[0], set(), list(st[2])
        self.reads = st[6]
        if self.reads is not None:
            self.reads.extend(x for x in reads)
        env.clear()
        env.update(st[8])
        for i, v, s in orig:
            env[i] = self.indval(v, s, W(64, N, None))
        for x in L["rest"]:
            env[x["id"]] = getattr(self, "i_" + x["op"])(x, env, args)
        if self.frames:
            self.frames[-1].early |= {(r, k) for r, k in fr.early if r.born <= self.frames[-1].born and (r, k) not in self.frames[-1].written}
        if wr:
            # fixed places hold what the last iteration left there
            last = self.replay(clo, W(k, lastx, None))[0]
            for r in changed:
                mm = self.wmem(r)
                for _, o in [x for x in fr.written if x[0] is r]:
                    v = last[r].get(o)
                    if v is None:
                        raise Imprecise("scratch memory of a table loop")
                    mm[o] = v
                if self.frames:
                    for rr, o in fr.written:
                        if rr is r:
                            self.frames[-1].wrote(r, o, 1)
        for q in recs:
            if not q.base and not q.dims:
                m = self.wmem(q.r)
                rm = m.recs
                rm = m.recs = RecMap() if rm is None else rm
                rm.insert(q)
                m.drop(q.o, q.hi)
                self.tables += 1
            else:
                self.addpend(q.r, q.o, q.base, q.hi - q.o, q)
        return h, L["exit"]

    def indval(self, v, s, X):
        U = self.U
        if s[0] == "int":
            w = s[2]
            xw = U.zext(X, w) if X.w < w else U.trunc(X, w)
            st = s[1]
            if X.c is not None:
                return W(w, (v.c + st * X.c) & ((1 << w) - 1), None)
            if st == 1:
                return U.add(v, xw)
            if st == -1:
                return U.sub(v, xw)
            return U.add(v, U.mulw(xw, W(w, st & ((1 << w) - 1), None)))
        xw = U.zext(X, 64) if X.w < 64 else X
        return self.fold(self.ptradd(v, xw, s[1]))

    def trip(self, f, h, L, env, args, ind):
        t = f.blocks[h][-1]
        for n in range(258):
            e = dict(env)
            for i, v, s in ind:
                e[i] = self.indval(v, s, W(64, n, None))
            try:
                for x in L["rest"]:
                    e[x["id"]] = getattr(self, "i_" + x["op"])(x, e, args)
                c = self.val(e, args, t["cond"])
            except (Imprecise, KeyError):
                return None
            if c.c is None:
                return None
            if t["succ"][0 if c.c else 1] != L["body"]:
                return n
        return None

    def body(self, clo, X, env=None):
        f = clo.f
        e = dict(clo.env)
        for i, v, s in clo.ind:
            e[i] = self.indval(v, s, X)
        for x in clo.body["rest"]:
            e[x["id"]] = getattr(self, "i_" + x["op"])(x, e, clo.args)
        o = self.exec(f, clo.body["body"], clo.h, e, clo.args, clo.h)
        if o[0] != "stop":
            raise LamAbort("loop left early")

    def finish(self, pend, X, N, clo):
        """pending stores of the symbolic body -> records"""
        k = clo.k
        out = []
        xs = X.bits
        xv = {v for b in xs for m in b for v in self.U.mono[m]}
        plain = {}
        for q in pend:
            t = dict(q.terms)
            s = t.get(xs[0])
            if s is None or s <= 0:
                raise LamAbort("store not indexed by the loop variable")
            for j in range(k):
                if t.pop(xs[j], None) != s << j:
                    raise LamAbort("store not a multiple of the loop variable")
            if any(set(self.U.monovars(p)) & xv for p in t):
                raise LamAbort("store at a nonlinear place")
            if isinstance(q.v, Rec):
                out.append(Rec(q.r, q.o, frozenset(t.items()), s, N, clo, None, span(q.v.n, q.v.dims), q.v.dims, q.v.n))
            else:
                plain.setdefault((q.r, frozenset(t.items()), s), []).append(q)
        for (r, t, s), qs in plain.items():
            qs.sort(key=lambda q: q.o)
            i = 0
            while i < len(qs):
                # neighbouring stores that make up one entry
                j, end = i + 1, qs[i].o + qs[i].n
                while end - qs[i].o < s and j < len(qs) and qs[j].o == end:
                    end += qs[j].n
                    j += 1
                out.append(Rec(r, qs[i].o, t, s, N, clo, None, end - qs[i].o))
                i = j
        if not out:
            raise LamAbort("no table")
        for i, a in enumerate(out):
            for b in out[:i]:
                if a.r is b.r and a.o < b.hi and b.o < a.hi:
                    raise LamAbort("overlapping tables")
        if len(self.frames) < 2 and any(q.dims for q in out):
            raise LamAbort("gaps")
        return out

    # ------------------------------------------------------------ memory
    def addr(self, p):
        o, terms = self.symidx(p)
        return o, frozenset(terms)

    def addpend(self, r, o, terms, n, v):
        q = Pend()
        q.r, q.o, q.terms, q.n, q.v = r, o, terms, n, v
        q.lo = o + sum(w for _, w in terms if w < 0)
        q.hi = o + sum(w for _, w in terms if w > 0) + n
        if not self.frames:
            raise Imprecise("symbolic store outside a table loop at %s" % self.site())
        start = self.frames[-1].base
        for i in range(len(self.pend) - 1, -1, -1):
            x = self.pend[i]
            if x.r is r and x.lo < q.hi and q.lo < x.hi:
                if x.o == o and x.terms == terms and x.n == n and i >= start:
                    self.pend[i] = q
                    return
                raise LamAbort("overlapping stores at %s" % self.site())
        self.pend.append(q)

    def storesym(self, p, v, n):
        r = p.r
        if self.frames and r is not None and r.born <= self.frames[-1].born:
            o, terms = self.addr(p)
            if not isinstance(v, W):
                raise LamAbort("pointer table")
            lo = o + sum(w for _, w in terms if w < 0)
            hi = o + sum(w for _, w in terms if w > 0)
            self.chk(r, lo, 0, True)
            if r.size is not None and (lo < 0 or hi + n > r.size):
                self.alarm("out-of-bounds", "write of %d byte(s) of %s at an offset that can reach [%d,%d] (extent %s)" % (n, r.name, lo, hi + n, r.size))
            if v.w < 8 * n:
                v = self.U.zext(v, 8 * n)
            self.addpend(r, o, terms, n, v)
            return
        return Interp.storesym(self, p, v, n)

    def store(self, p, v, n):
        if self.alias:
            p = self.whole(self.fold(p), n, True)
        if self.frames:
            p = self.fold(p)
            fr = self.frames[-1]
            if not p.idx and p.r is not None and not fr.replay:
                fr.wrote(p.r, p.o, n)
            if self.pend and not p.idx:
                for q in self.pend:
                    if q.r is p.r and p.o < q.hi and q.lo < p.o + n:
                        raise LamAbort("store over a pending store")
        return Interp.store(self, p, v, n)

    def copy(self, d, s, n):
        if self.alias:
            d, s = self.whole(self.fold(d), n, True), self.whole(self.fold(s), n, False)
        for p in (d, s):
            for q in self.pend:
                if isinstance(p, P) and q.r is p.r:
                    raise LamAbort("memcpy near a pending store")
        if self.reads is not None and isinstance(s, P) and s.r is not None:
            q = self.fold(s)
            self.reads.append((q.r, q.o, q.o + n, (q.o, frozenset())))
            self.frames[-1].read(q.r, q.o, n)
        if self.frames and not self.frames[-1].replay:
            q = self.fold(d)
            if q.r is not None:
                self.frames[-1].wrote(q.r, q.o, n)
        d, s = self.fold(d), self.fold(s)
        src = self.mem.get(s.r) if s.r is not None and not s.idx and not d.idx and d.r is not None else None
        recs = [] if src is None or src.recs is None or n < 16 else [x for x in src.recs if x.o < s.o + n and s.o < x.hi]
        if not recs:
            return Interp.copy(self, d, s, n)
        # tables move as tables, the bytes between them as bytes
        at = s.o
        new = []
        for x in recs:
            lo, hi = max(x.o, s.o), min(x.hi, s.o + n)
            if src.anyin(lo, hi):
                raise Imprecise("copy of a partly overwritten table")
            if at < lo:
                Interp.copy(self, P(d.r, d.o + at - s.o), P(s.r, at), lo - at)
            self.chk(s.r, lo, hi - lo, False)
            if self.chk(d.r, d.o + lo - s.o, hi - lo, True):
                new.append(x.moved(d.r, d.o + lo - s.o, lo, hi))
            at = hi
        if at < s.o + n:
            Interp.copy(self, P(d.r, d.o + at - s.o), P(s.r, at), s.o + n - at)
        md = self.wmem(d.r)
        if md.recs is None:
            md.recs = RecMap()
        for x in new:
            md.recs.insert(x)
            md.drop(x.o, x.hi)

    def fill(self, d, byte, n):
        if self.alias:
            d = self.whole(self.fold(d), n, True)
        for q in self.pend:
            if isinstance(d, P) and q.r is d.r:
                raise LamAbort("memset near a pending store")
        if self.frames and not self.frames[-1].replay:
            q = self.fold(d)
            if q.r is not None:
                self.frames[-1].wrote(q.r, q.o, n)
        return Interp.fill(self, d, byte, n)

    def inpend(self, r, o, terms, n, since=0):
        """value of a load from the pending stores (None: not there)"""
        lo = o + sum(w for _, w in terms if w < 0)
        hi = o + sum(w for _, w in terms if w > 0) + n
        for i in range(len(self.pend) - 1, since - 1, -1):
            q = self.pend[i]
            if q.r is not r or not (lo < q.hi and q.lo < hi):
                continue
            if isinstance(q.v, Rec):
                v = self.reclook(q.v, o, terms, n)
                if v is None:
                    raise LamAbort("look-up near a pending table")
                return v
            if q.terms == terms and q.o <= o and o + n <= q.o + q.n:
                k = o - q.o
                return mk(q.v.bits[8 * k:8 * k + 8 * n])
            raise LamAbort("load near a pending store at %s" % self.site())
        return None

    def load(self, p, n, isptr=False, w=None):
        if self.alias:
            p = self.whole(self.fold(p), n, False)
        if self.pend and not isptr:
            p = self.fold(p)
            if not p.idx and p.r is not None:
                v = self.inpend(p.r, p.o, frozenset(), n)
                if v is not None:
                    return v
        if self.reads is not None:
            q = self.fold(p)
            if not q.idx and q.r is not None and q.r.kind != "global" and q.r.born <= self.frames[-1].born:
                self.reads.append((q.r, q.o, q.o + n, (q.o, frozenset())))
                self.frames[-1].read(q.r, q.o, n)
        return Interp.load(self, p, n, isptr, w)

    def rowsym(self, p):
        """a pointer chosen by a symbolic index from an array of rows"""
        r = p.r
        o, terms = self.addr(p)
        lo = o + sum(w for _, w in terms if w < 0)
        hi = o + sum(w for _, w in terms if w > 0)
        if o % 8 or any(w % 8 for _, w in terms) or lo < 0 or hi + 8 > r.size or r in self.freed:
            return None
        m = self.mem[r]
        at = []
        for x in range(lo, hi + 1, 8):
            c = m.get(x)
            a = self.alias.get(c[1].r) if isinstance(c, tuple) and c[2] == 0 and isinstance(c[1], P) and not c[1].o and c[1].r not in self.freed else None
            if a is None or (at and (a[0] is not at[0][0] or a[1] != at[-1][1] + c[1].r.size)):
                return None
            at.append(a)
            size = c[1].r.size
        return P(at[0][0], at[0][1] + (o - lo) // 8 * size, tuple((mk((q,)), w // 8 * size) for q, w in terms))

    def loadsym(self, p, n, isptr=False):
        r = p.r
        if isptr and self.alias and r is not None:
            q = self.rowsym(p)
            if q is not None:
                return q
        if r is not None and not isptr:
            o, terms = self.addr(p)
            if self.pend:
                v = self.inpend(r, o, terms, n)
                if v is not None:
                    return v
            lo = o + sum(w for _, w in terms if w < 0)
            hi = o + sum(w for _, w in terms if w > 0) + n
            if self.reads is not None and r.kind != "global":
                self.reads.append((r, lo, hi, (o, terms)))
            m = self.mem[r]
            if m.recs is not None and r not in self.freed:
                if r.size is not None and (lo < 0 or hi > r.size):
                    self.alarm("out-of-bounds", "read of %d byte(s) of %s at an offset that can reach [%d,%d] (extent %s)" % (n, r.name, lo, hi, r.size))
                rec = m.recs.find(lo, hi)
                if rec is not None:
                    if m.anyin(lo, hi):
                        raise Imprecise("table partly overwritten at %s" % self.site())
                    v = self.reclook(rec, o, terms, n)
                    if v is None:
                        raise Imprecise("table look-up that does not follow the table's layout at %s" % self.site())
                    return v
        return Interp.loadsym(self, p, n, isptr)

    def cell(self, r, o, m=None):
        m = self.mem[r] if m is None else m
        v = m.get(o)
        if v is not None:
            return v
        if m.recs is not None and isinstance(o, int):
            rec = m.recs.find(o, o + 1)
            if rec is not None:
                return self.reclook(rec, o, frozenset(), 1)
        return Interp.cell(self, r, o, m)

    # ------------------------------------------------------------ look-up
    def reclook(self, rec, o, terms, n):
        """value of n bytes at o+terms, inside the record; None if the address has no such form"""
        if rec.src is not None:
            return self.reclook(rec.src, o - rec.shift, terms, n)
        self.lookups += 1
        d = dict(terms)
        for p, w in rec.base:
            x = d.get(p, 0) - w
            if x:
                d[p] = x
            else:
                d.pop(p, None)
        c, sub = divmod(o - rec.o, rec.s)
        k = SIZES[rec.N]
        if rec.big:
            c %= rec.N
        bits = [ONE if c >> j & 1 else ZERO for j in range(k)]
        if c < 0 or c >= rec.N:
            return None
        low = {}
        for p, w in d.items():
            if w < 0:
                return None
            h, l = divmod(w, rec.s)
            if rec.big:
                h %= rec.N
            if l:
                low[p] = l
            j = 0
            while h:
                if h & 1:
                    if j >= k or bits[j]:
                        return None
                    bits[j] = p
                h >>= 1
                j += 1
        X = mk(tuple(bits))
        if rec.perm is not None:
            if low or sub or n != 1:
                return None
            return rec.perm(self, X)
        if not rec.big and sub + sum(low.values()) + n > rec.piece:
            return None
        mem, pend = self.replay(rec.clo, X)
        # the address is the one given, in the replayed state
        st = (self.mem, self.owned, self.pend, self.frames, self.reads)
        self.mem, self.owned, self.pend, self.frames, self.reads = dict(mem), set(), pend, [Frame(self.born, 0, True)], None
        try:
            p = P(rec.r, o, tuple((mk((q,)), w) for q, w in terms))
            if terms:
                v = self.inpend(rec.r, o, frozenset(terms), n, len(rec.clo.pend))
                if v is None:
                    q = self.fold(p)
                    v = self.loadsym(q, n) if q.idx else self.load(q, n)
            else:
                v = self.load(p, n)
        finally:
            self.mem, self.owned, self.pend, self.frames, self.reads = st
        return v

    def replay(self, clo, X):
        key = X.c if X.c is not None else X.bits
        h = clo.cache.get(key)
        if h is not None:
            return h
        st = (self.mem, self.owned, self.pend, self.freed, self.frames, self.reads, self.cursite, self.callstack, self.lam)
        self.lam = True
        lg, self.log = self.log, None
        na = len(self.alarms)
        sa = set(self.alarmset)
        self.mem, self.owned, self.pend, self.freed = dict(clo.mem), set(), list(clo.pend), dict(clo.freed)
        self.frames = [Frame(self.born, len(clo.pend), True)]
        self.reads = None
        self.callstack = list(clo.stack)
        try:
            self.body(clo, X)
            h = (self.mem, self.pend)
        finally:
            self.mem, self.owned, self.pend, self.freed, self.frames, self.reads, self.cursite, self.callstack, self.lam = st
            self.log = lg
            del self.alarms[na:]
            self.alarmset = sa
        if X.c is None or len(clo.cache) < 300:
            clo.cache[key] = h
        return h
