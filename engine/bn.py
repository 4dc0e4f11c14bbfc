"""Big numbers as linear forms over the integers, and digits as small finite domains.

A BIGNUM holds c0 + sum ci*ai with atoms ai: digits of the input, bits of other
words, e mod M and e div q.  Digits are eliminated in favour of quotients
(e div q) mod r = (e div q) - r*(e div qr), so that a number that is written out
in digits and read back in telescopes to itself, and (e mod M) is expanded
inside another reduction modulo M, so that adding and subtracting the same
number cancels.  Words that depend on one digit only are functions on a domain
of at most 128 values and are computed by tabulation.
"""
from absint import P, W, mk, Imprecise, ZERO, ONE, NULL, m_memcpy, m_memset
from poly import Universe

SMALL = 128


class SmallU(Universe):
    """words that depend on one small finite domain are tabulated"""

    def start(self):
        self.gof = {}           # variable -> group
        self.groups = []        # (variables, highest value, linear form)
        self.ttmemo = {}

    def group(self, bits, hi, t):
        g = len(self.groups)
        vs = []
        for b in bits:
            (m,) = b
            (v,) = self.mono[m]
            vs.append(v)
            self.gof[v] = g
        self.groups.append((vs, hi, t))
        return g

    def dep(self, polys):
        """the one small group these polynomials depend on, or None"""
        g = None
        for p in polys:
            for m in p:
                for v in self.mono[m]:
                    h = self.gof.get(v)
                    if h is None or (g is not None and h != g):
                        return None
                    g = h
        return g if g is not None and self.groups[g][1] < SMALL else None

    def tt(self, p, g):
        """truth table over the values of the group, as an integer"""
        k = (p, g)
        r = self.ttmemo.get(k)
        if r is None:
            vs, hi, _ = self.groups[g]
            r = 0
            for x in range(hi + 1):
                on = {v for i, v in enumerate(vs) if x >> i & 1}
                if sum(1 for m in p if self.mono[m] <= on) & 1:
                    r |= 1 << x
            self.ttmemo[k] = r
        return r

    def table(self, a, g):
        hi = self.groups[g][1]
        if a.c is not None:
            return [a.c] * (hi + 1)
        ts = [self.tt(p, g) for p in a.bits]
        return [sum(1 << i for i, t in enumerate(ts) if t >> x & 1) for x in range(hi + 1)]

    def fromtable(self, g, vals, w):
        vs, hi, _ = self.groups[g]
        n = 1 << len(vs)
        out = []
        for b in range(w):
            f = [vals[x] >> b & 1 if x <= hi else 0 for x in range(n)]
            if not any(f):
                out.append(ZERO)
                continue
            if all(f[:hi + 1]):
                out.append(ONE)
                continue
            for j in range(len(vs)):
                for x in range(n):
                    if x >> j & 1:
                        f[x] ^= f[x ^ (1 << j)]
            acc = set()
            for x in range(n):
                if f[x]:
                    fs = frozenset(v for i, v in enumerate(vs) if x >> i & 1)
                    i = self.monoid.get(fs)
                    if i is None:
                        i = len(self.mono)
                        self.mono.append(fs)
                        self.monoid[fs] = i
                    acc ^= {i}
            out.append(frozenset(acc))
        return mk(tuple(out))

    def both(self, a, b):
        if a.c is not None and b.c is not None:
            return None
        return self.dep(a.bits + b.bits)

    def lift(self, a, b, f, w):
        g = self.both(a, b)
        if g is None:
            return None
        M = (1 << w) - 1
        return self.fromtable(g, [f(x, y) & M for x, y in zip(self.table(a, g), self.table(b, g))], w)

    def forms(self, a, b, f):
        """the operation on the numbers the words stand for, where it cannot wrap round"""
        x, y = self.ints.exact(a), self.ints.exact(b)
        if x is None or y is None or not (x.t or y.t) or (x.t and y.t and f == self.ints.mul):
            return None
        t = f(x, y)
        lo, hi = self.ints.range(t)
        return self.ints.word(t, a.w) if 0 <= lo and not hi >> a.w else None

    def less(self, a, b, signed):
        x, y = self.ints.exact(a), self.ints.exact(b)
        if x is None or y is None or not (x.t or y.t) or signed and any(self.ints.range(t)[1] >> (a.w - 1) for t in (x, y)):
            return None
        lo, hi = self.ints.range(self.ints.sub(x, y))
        return ONE if hi < 0 else ZERO if lo >= 0 else None

    def add(self, a, b):
        r = self.lift(a, b, lambda x, y: x + y, a.w) or self.forms(a, b, self.ints.add)
        return Universe.add(self, a, b) if r is None else r

    def sub(self, a, b):
        r = self.lift(a, b, lambda x, y: x - y, a.w) or self.forms(a, b, self.ints.sub)
        return Universe.sub(self, a, b) if r is None else r

    def mulw(self, a, b):
        r = self.lift(a, b, lambda x, y: x * y, a.w) or self.forms(a, b, self.ints.mul)
        return Universe.mulw(self, a, b) if r is None else r

    def eq(self, a, b):
        if self.less(a, b, False) == ONE or self.less(b, a, False) == ONE:
            return ZERO
        r = self.lift(a, b, lambda x, y: int(x == y), 1)
        return Universe.eq(self, a, b) if r is None else r.bits[0]

    def select(self, c, a, b):
        if c and c != ONE and a != b and self.dep((c,)) is not None:
            g = self.dep((c,) + (a.bits or ()) + (b.bits or ()))
            if g is not None:
                t = self.tt(c, g)
                return self.fromtable(g, [x if t >> i & 1 else y for i, (x, y) in enumerate(zip(self.table(a, g), self.table(b, g)))], a.w)
        return Universe.select(self, c, a, b)

    def ult(self, a, b, signed=False):
        def lt(x, y):
            if signed:
                h = 1 << (a.w - 1)
                x, y = x ^ h, y ^ h
            return int(x < y)
        q = self.less(a, b, signed)
        if q is not None:
            return q
        r = self.lift(a, b, lt, 1)
        return Universe.ult(self, a, b, signed) if r is None else r.bits[0]

    def lut(self, idxbits, entries, w):
        g = self.dep(idxbits)
        if g is not None and all(e.c is not None for e in entries):
            return self.fromtable(g, [entries[x].c for x in self.table(mk(tuple(idxbits)), g)], w)
        return Universe.lut(self, idxbits, entries, w)


class Lin:
    """c + sum coef*atom, canonical"""
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c, self.t = c, t
        self.h = hash((c, t))

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "+".join(["%d*n%d" % (x, a) for a, x in sorted(self.t)[:6]] + [str(self.c)])


class Ints:
    """the integer domain of one scenario"""

    def __init__(self, sc):
        self.sc, self.I, self.U = sc, sc.I, sc.U
        self.U.__class__ = SmallU
        self.U.start()
        self.U.ints = self
        self.atoms = []         # id -> (key, lo, hi)
        self.ids = {}
        self.chains = {}
        self.rng = {}           # known ranges of forms
        self.words = {}         # form -> word
        self.lj = {}            # variable of a left-justified byte -> (number, position)
        sc.ints = self
        sc.I.ints = self
        install(sc.I)

    # ---- forms
    def const(self, c):
        return Lin(c, frozenset())

    def atom(self, key, lo, hi):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.atoms)
            self.atoms.append((key, lo, hi))
        return Lin(0, frozenset(((i, 1),)))

    def comb(self, parts, c=0):
        d = {}
        for k, e in parts:
            c += k * e.c
            for a, x in e.t:
                d[a] = d.get(a, 0) + k * x
        return Lin(c, frozenset((a, x) for a, x in d.items() if x))

    def add(self, a, b):
        return self.comb(((1, a), (1, b)))

    def sub(self, a, b):
        return self.comb(((1, a), (-1, b)))

    def mul(self, a, b):
        if not a.t:
            a, b = b, a
        if b.t:
            raise Imprecise("product of two unknown numbers at %s" % self.I.site())
        return self.comb(((b.c, a),))

    def range(self, e):
        lo = hi = e.c
        for a, x in e.t:
            _, l, h = self.atoms[a]
            if x > 0:
                lo += x * l
                hi += x * h
            else:
                lo += x * h
                hi += x * l
        k = self.rng.get(e)
        if k:
            lo, hi = max(lo, k[0]), min(hi, k[1])
        k = self.chains.get(e)
        if k is None:
            k = self.chains[e] = self.chainrange(e)
        return max(lo, k[0]), min(hi, k[1])

    def basis(self, e):
        """e - e.c as a list of (coefficient, form, least, most), the quotients of one number rewritten as its digits and the last quotient"""
        per = {}
        for a, x in e.t:
            k = self.atoms[a][0]
            b, q = (k[1], k[2]) if k[0] == "quo" else (Lin(0, frozenset(((a, 1),))), 1)
            per.setdefault(b, []).append((q, a, x))
        out = []
        for b, l in per.items():
            l.sort(key=lambda t: t[0])
            carry = 0
            for i, (q, a, x) in enumerate(l):
                x += carry
                carry = 0
                one = Lin(0, frozenset(((a, 1),)))
                if i + 1 < len(l) and l[i + 1][0] % q == 0:
                    # this quotient = digit + m * next quotient
                    m = l[i + 1][0] // q
                    carry = x * m
                    if x:
                        out.append((x, Lin(0, frozenset(((a, 1), (l[i + 1][1], -m)))), 0, m - 1))
                elif x:
                    out.append((x, one, self.atoms[a][1], self.atoms[a][2]))
        return out

    def chainrange(self, e):
        lo = hi = e.c
        for x, _, l0, h0 in self.basis(e):
            lo += x * (l0 if x > 0 else h0)
            hi += x * (h0 if x > 0 else l0)
        return lo, hi

    def quo(self, e, q):
        """floor(e / q), e >= 0"""
        if q == 1:
            return e
        if not e.t:
            return self.const(e.c // q)
        lo, hi = self.range(e)
        if lo < 0:
            raise Imprecise("division of a number that may be negative at %s" % self.I.site())
        if hi < q:
            return self.const(0)
        top = Lin(e.c // q, frozenset((a, x // q) for a, x in e.t if x // q))
        rest = self.sub(e, self.comb(((q, top),)))
        rl, rh = self.range(rest)
        if top.t and 0 <= rl and rh < q:
            return top
        B = self.basis(e)
        if any(len(f.t) > 1 for _, f, _, _ in B):
            top = self.comb([(x // q, f) for x, f, _, _ in B], e.c // q)
            rl = e.c % q + sum(x % q * l for x, _, l, _ in B)
            rh = e.c % q + sum(x % q * h for x, _, _, h in B)
            if top.t and 0 <= rl and rh < q:
                return top
        if len(e.t) == 1 and not e.c:
            ((a, x),) = e.t
            k = self.atoms[a][0]
            if x == 1 and k[0] == "quo":
                return self.quo(k[1], k[2] * q)
        return self.atom(("quo", e, q), lo // q, hi // q)

    def divmod(self, e, q):
        d = self.quo(e, q)
        r = self.comb(((1, e), (-q, d)))
        if r.t:
            self.rng[r] = (0, min(q - 1, self.range(e)[1]))
        return d, r

    def mod(self, e, M):
        """e mod M in 0..M-1"""
        while True:
            parts = []
            changed = False
            for a, x in e.t:
                k = self.atoms[a][0]
                if k[0] == "mod" and k[2] % M == 0:
                    parts.append((x, k[1]))
                    changed = True
                else:
                    parts.append((x, Lin(0, frozenset(((a, 1),)))))
            if not changed:
                break
            e = self.comb(parts, e.c)
        f = Lin(e.c % M, frozenset((a, x % M) for a, x in e.t if x % M))
        lo, hi = self.range(f)
        if 0 <= lo and hi < M:
            return f
        for g in (e, f):
            B = self.basis(g)
            if any(len(q.t) > 1 for _, q, _, _ in B):
                B = [(x % M, q, l, h) for x, q, l, h in B]
                if 0 <= g.c % M + sum(x * l for x, _, l, _ in B) and g.c % M + sum(x * h for x, _, _, h in B) < M:
                    return self.comb([(x, q) for x, q, _, _ in B], g.c % M)
        e = f
        return self.atom(("mod", e, M), 0, M - 1)

    # ---- words
    def word(self, t, w, hi=None):
        """a number in 0..hi as a word"""
        lo, h = self.range(t)
        hi = h if hi is None else min(h, hi)
        if not t.t:
            return W(w, t.c & ((1 << w) - 1), None)
        if lo < 0 or hi >> w:
            raise Imprecise("a number that does not fit %d bits is read as a word at %s" % (w, self.I.site()))
        k = hi.bit_length()
        b = self.words.get(t)
        if b is None:
            b = self.U.watom(("bn", t), k).bits
            self.words[t] = b
            self.U.group(b, hi, t)
        return mk(b + (ZERO,) * (w - len(b)))

    def digit(self, name, r):
        """a fresh digit 0..r-1"""
        return self.atom(("digit", name), 0, r - 1)

    def val(self, w):
        """the number a word denotes"""
        U = self.U
        if w.c is not None:
            return self.const(w.c)
        t = self.small(w)
        if t is not None:
            return t
        parts, c = [], 0
        bits = w.bits
        i = 0
        while i < len(bits):
            b = bits[i]
            if not b:
                i += 1
                continue
            if b == ONE:
                c += 1 << i
                i += 1
                continue
            if len(b) == 1:
                (m,) = b
                if len(U.mono[m]) == 1:
                    (v,) = U.mono[m]
                    g = U.gof.get(v)
                    if g is not None:
                        vs, hi, t = U.groups[g]
                        n = len(vs)
                        if vs[0] == v and i + n <= len(bits) and bits[i:i + n] == self.words[t]:
                            parts.append((1 << i, t))
                            i += n
                            continue
            parts.append((1 << i, self.atom(("bit", U.nm(b)), 0, 1)))
            i += 1
        return self.comb(parts, c)

    def exact(self, w):
        """the number a word stands for as a whole, or None"""
        if w.c is not None:
            return self.const(w.c)
        U = self.U
        b = w.bits[0]
        if len(b) != 1:
            return self.small(w)
        (m,) = b
        if len(U.mono[m]) != 1:
            return self.small(w)
        (v,) = U.mono[m]
        g = U.gof.get(v)
        if g is None:
            return None
        t = U.groups[g][2]
        k = self.words[t]
        if w.bits[:len(k)] == k and not any(w.bits[len(k):]):
            return t
        return self.small(w)

    def small(self, w):
        """the number of a word that is a linear function of one digit"""
        U = self.U
        g = U.dep(w.bits)
        if g is None:
            return None
        vs, hi, t = U.groups[g]
        f = U.table(w, g)
        s = f[1] - f[0] if hi else 0
        if all(y == f[0] + s * x for x, y in enumerate(f)):
            return self.comb(((s, t),), f[0])
        return None

    def byte(self, N, k):
        """byte k (0: least significant) of N >= 0"""
        q = self.quo(N, 256 ** k)
        d, r = self.divmod(q, 256)
        return self.word(r, 8, 255)

    def nbytes(self, N):
        """(least, most) bytes of the minimal representation"""
        lo, hi = self.range(N)
        return (lo.bit_length() + 7) // 8, (hi.bit_length() + 7) // 8

    def length(self, N):
        """bytes of the minimal representation"""
        a, b = self.nbytes(N)
        if a == b:
            return W(32, a, None)
        t = self.atom(("len", N), a, b)
        return self.word(t, 32)

    # ---- cases over the length of a number
    def lenvars(self, N):
        self.length(N)
        return self.U.groups[self.U.dep(self.words[self.atom(("len", N), 0, 0)])][0]

    def thelen(self, ws):
        """the number whose length these words depend on"""
        g = self.U.dep([p for w in ws if w.c is None for p in w.bits])
        if g is None:
            return None
        ((a, x),) = self.U.groups[g][2].t if len(self.U.groups[g][2].t) == 1 else ((None, None),)
        k = self.atoms[a][0] if a is not None else ("",)
        return k[1] if k[0] == "len" else None

    def at(self, w, N, v):
        """the word when N has v bytes"""
        if w.c is not None:
            return w
        env = {x: v >> i & 1 for i, x in enumerate(self.lenvars(N))}
        return mk(tuple(self.U.subst_const(p, env) for p in w.bits))

    def offset(self, p, N, v):
        o = p.o
        for w, st in p.idx:
            x = self.at(w, N, v)
            if x.c is None:
                raise Imprecise("address at %s" % self.I.site())
            o += x.s * st
        return o

    def cases(self, d, s, n, byte, ins):
        """copy (or fill) whose place or length depends on the length of a number"""
        I = self.I
        d = I.fold(d)
        ptrs = [d] + ([I.fold(s)] if s is not None else [])
        N = self.thelen([n] + [w for p in ptrs for w, _ in p.idx])
        if N is None:
            raise Imprecise("copy of symbolic length at %s" % I.site(ins))
        a, b = self.nbytes(N)
        nb = [self.byte(N, k) for k in range(b)]
        eff = {}
        for v in range(a, b + 1):
            ln = self.at(n, N, v)
            if ln.c is None:
                raise Imprecise("copy of symbolic length at %s" % I.site(ins))
            if ln.c > 1 << 20:
                I.alarm("oob", "copy of %d bytes when the number has %d" % (ln.c, v))
                raise Imprecise("copy of %d bytes at %s" % (ln.c, I.site(ins)))
            do = self.offset(d, N, v)
            so = self.offset(ptrs[1], N, v) if s is not None else 0
            if ln.c:
                I.chk(d.r, do, ln.c, True)
                if s is not None:
                    I.chk(ptrs[1].r, so, ln.c, False)
            for k in range(ln.c):
                if s is None:
                    x = byte
                else:
                    x = I.load(P(ptrs[1].r, so + k), 1)
                    q = self.isleft(x)
                    if q is not None and q[0] == N:
                        x = nb[v - 1 - q[1]] if q[1] < v else x
                    else:
                        x = self.at(x, N, v)
                eff.setdefault(do + k, {})[v] = x
        for o, m in eff.items():
            vals = {}
            old = None
            for v in range(a, b + 1):
                if v in m:
                    vals[v] = m[v]
                else:
                    if old is None:
                        old = I.load(P(d.r, o), 1)
                    vals[v] = self.at(old, N, v)
            self.merge(P(d.r, o), N, vals, nb)

    def merge(self, p, N, vals, nb):
        first = next(iter(vals.values()))
        if all(x == first for x in vals.values()):
            self.I.store(p, first, 1)
            return
        for idx, x in enumerate(nb):
            if all(y == x or (y.c == 0 and idx >= v) for v, y in vals.items()):
                self.I.store(p, x, 1)
                return
        # one value per length
        L = self.length(N)
        acc = None
        for v, y in vals.items():
            acc = y if acc is None else self.U.select(self.U.eq(L, W(32, v, None)), y, acc)
        self.I.store(p, acc, 1)

    def canon(self, w):
        """a byte written with cases over the length of a number, as the byte it is whatever the length"""
        if w.c is not None:
            return w
        U = self.U
        N = None
        for p in w.bits:
            for m in p:
                for v in U.mono[m]:
                    q = self.lj.get(v)
                    if q is not None:
                        N = q[0]
                    elif v in U.gof:
                        t = U.groups[U.gof[v]][2]
                        if len(t.t) == 1:
                            ((a, _),) = t.t
                            if self.atoms[a][0][0] == "len":
                                N = self.atoms[a][0][1]
                    if N is not None:
                        break
                if N is not None:
                    break
            if N is not None:
                break
        if N is None:
            return w
        a, b = self.nbytes(N)
        nb = [self.byte(N, k) for k in range(b)]
        lv = [self.var(x) for x in self.words[self.atom(("len", N), 0, 0)]] if a != b else []
        res = {}
        for v in range(a, b + 1):
            env = {x: (ONE if v >> i & 1 else ZERO) for i, x in enumerate(lv)}
            for k in range(v):
                L = self.left(N, k)
                src = nb[v - 1 - k]
                for i in range(8):
                    env[self.var(L.bits[i])] = src.bits[i] if src.c is None else (ONE if src.c >> i & 1 else ZERO)
            res[v] = tuple(self.sub1(p, env) for p in w.bits)
        for v in range(a, b):
            env = {self.var(x): ZERO for k in range(v, b) if nb[k].c is None for x in nb[k].bits if x}
            if tuple(self.sub1(p, env) for p in res[b]) != res[v]:
                return w
        return mk(res[b])

    def var(self, p):
        (m,) = p
        (v,) = self.U.mono[m]
        return v

    def sub1(self, p, env):
        U = self.U
        out = ZERO
        keep = set()
        for m in p:
            vs = U.mono[m]
            if not any(v in env for v in vs):
                keep ^= {m}
                continue
            t = ONE
            rest = []
            for v in vs:
                if v in env:
                    t = U.mul(t, env[v])
                    if not t:
                        break
                else:
                    rest.append(v)
            if t:
                for v in rest:
                    t = U.mul(t, frozenset((U.monoid[frozenset((v,))],)))
                out = out ^ t
        return out ^ frozenset(keep)

    def isleft(self, x):
        if x.c is None and len(x.bits[0]) == 1:
            (m,) = x.bits[0]
            if len(self.U.mono[m]) == 1:
                (v,) = self.U.mono[m]
                q = self.lj.get(v)
                if q is not None and x == self.left(*q):
                    return q
        return None

    def left(self, N, k):
        """byte k from the front of the minimal representation"""
        w = self.U.watom(("lj", N, k), 8)
        (m,) = w.bits[0]
        (v,) = self.U.mono[m]
        self.lj[v] = (N, k)
        return w

    # ---- conditions on digits, under the assumptions of the path
    def decide(self, p):
        U = self.U
        g = U.dep((p,))
        if g is None:
            return p
        hi = U.groups[g][1]
        live = (1 << (hi + 1)) - (1 << max(0, self.range(U.groups[g][2])[0]))
        for e, x in self.I.assume.items():
            if x == ONE and U.dep((e,)) == g:
                live &= U.tt(e, g)
        t = U.tt(p, g)
        if not t & live:
            return ZERO
        if t & live == live:
            return ONE
        return p


def value(I, p, ins):
    if not isinstance(p, P) or p.r is None or p.r.kind not in ("heap", "bnpool") or "val" not in I.mem[p.r]:
        raise Imprecise("big number operand at %s" % I.site(ins))
    if p.r in I.freed:
        I.alarm("use-after-free", "big number released at %s" % I.freed[p.r])
    return I.mem[p.r]["val"]


def put(I, p, e, ins=None):
    if not isinstance(p, P) or p.r is None:
        raise Imprecise("big number result at %s" % I.site(ins))
    if p.r in I.freed:
        I.alarm("use-after-free", "big number released at %s" % I.freed[p.r])
    I.wmem(p.r)["val"] = e


ONE32 = W(32, 1, None)


def install(I):
    Z = I.ints
    M = I.models

    def new(kind):
        def h(I, a, ins):
            r = I.heap(32)
            r.kind = kind
            put(I, P(r, 0), Z.const(0))
            return P(r, 0)
        return h

    def free(I, a, ins):
        p = a[0]
        if isinstance(p, P) and p.r is not None:
            if p.r in I.freed:
                I.alarm("double-free", "released at %s already" % I.freed[p.r])
            I.freed[p.r] = I.site(ins)
        return None

    def nop(I, a, ins):
        return None

    def op(f):
        def h(I, a, ins):
            put(I, a[0], f(*[value(I, x, ins) for x in a[1:3]]), ins)
            return ONE32
        return h

    def cv(e, ins):
        if e.t:
            raise Imprecise("unknown modulus, divisor or exponent at %s" % I.site(ins))
        return e.c

    def modop(f):
        def h(I, a, ins):
            put(I, a[0], Z.mod(f(value(I, a[1], ins), value(I, a[2], ins)), cv(value(I, a[3], ins), ins)), ins)
            return ONE32
        return h

    def div(I, a, ins):
        d, r = Z.divmod(value(I, a[2], ins), cv(value(I, a[3], ins), ins))
        if isinstance(a[0], P) and a[0].r is not None:
            put(I, a[0], d, ins)
        if isinstance(a[1], P) and a[1].r is not None:
            put(I, a[1], r, ins)
        return ONE32

    def nnmod(I, a, ins):
        put(I, a[0], Z.mod(value(I, a[1], ins), cv(value(I, a[2], ins), ins)), ins)
        return ONE32

    def exp(I, a, ins):
        put(I, a[0], Z.const(cv(value(I, a[1], ins), ins) ** cv(value(I, a[2], ins), ins)), ins)
        return ONE32

    def setword(I, a, ins):
        put(I, a[0], Z.val(a[1]), ins)
        return ONE32

    def wordop(f):
        def h(I, a, ins):
            put(I, a[0], f(value(I, a[0], ins), Z.val(a[1])), ins)
            return ONE32
        return h

    def divword(I, a, ins):
        d, r = Z.divmod(value(I, a[0], ins), cv(Z.val(a[1]), ins))
        put(I, a[0], d, ins)
        return Z.word(r, 64)

    def modword(I, a, ins):
        return Z.word(Z.divmod(value(I, a[0], ins), cv(Z.val(a[1]), ins))[1], 64)

    def getword(I, a, ins):
        return Z.word(value(I, a[0], ins), 64)

    def copy(I, a, ins):
        put(I, a[0], value(I, a[1], ins), ins)
        return a[0]

    def dup(I, a, ins):
        p = M["BN_new"](I, [], ins)
        put(I, p, value(I, a[0], ins), ins)
        return p

    def bin2bn(I, a, ins):
        n = a[1].c
        if n is None:
            raise Imprecise("number of symbolic length at %s" % I.site(ins))
        p = a[0]
        e = Z.comb([(256 ** (n - 1 - k), Z.val(I.load(P(p.r, p.o + k, p.idx), 1))) for k in range(n)])
        r = a[2]
        if not (isinstance(r, P) and r.r is not None):
            r = M["BN_new"](I, [], ins)
        put(I, r, e, ins)
        return r

    def bn2bin(I, a, ins):
        N = value(I, a[0], ins)
        lo, hi = Z.nbytes(N)
        p = I.fold(a[1])
        if lo == hi:
            for k in range(hi):
                I.store(P(p.r, p.o + k, p.idx), Z.byte(N, hi - 1 - k), 1)
            return W(32, hi, None)
        if p.idx:
            # straight to a place that depends on the length
            tmp = P(I.region("bn2bin", "local", hi), 0)
            for k in range(hi):
                I.store(P(tmp.r, k), Z.left(N, k), 1)
            Z.cases(p, tmp, Z.length(N), None, ins)
            return Z.length(N)
        I.chk(p.r, p.o, hi, True)
        for k in range(hi):
            if k < lo:
                I.store(P(p.r, p.o + k), Z.left(N, k), 1)
            else:
                # written only when the number is long enough; readable all the same for whoever copies the right part
                I.store(P(p.r, p.o + k), Z.left(N, k), 1)
        return Z.length(N)

    def bn2binpad(I, a, ins):
        N = value(I, a[0], ins)
        n = a[2].c
        if n is None or Z.nbytes(N)[1] > n:
            raise Imprecise("padded number at %s" % I.site(ins))
        for k in range(n):
            I.store(P(a[1].r, a[1].o + k, a[1].idx), Z.byte(N, n - 1 - k), 1)
        return W(32, n, None)

    def memcpy(I, a, ins):
        if a[2].c is None or any(isinstance(p, P) and I.fold(p).idx for p in a[:2]) and Z.thelen([w for p in a[:2] for w, _ in I.fold(p).idx]) is not None:
            Z.cases(a[0], a[1], a[2], None, ins)
            return a[0]
        return m_memcpy(I, a, ins)

    def memset(I, a, ins):
        if a[2].c is None or I.fold(a[0]).idx and Z.thelen([w for w, _ in I.fold(a[0]).idx]) is not None:
            Z.cases(a[0], None, a[2], I.U.trunc(a[1], 8), ins)
            return a[0]
        return m_memset(I, a, ins)

    def simp(p):
        if not p or p == ONE:
            return p
        v = I.assume.get(p)
        return v if v is not None else Z.decide(p)
    I.simp = simp

    olddiv = I.divmod_

    def divmod_(x, env, args, signed, rem):
        a, b = I.bin(x, env, args)
        if b.c and a.c is None and not (signed and b.c >> (b.w - 1)):
            t = Z.exact(a)
            if t is not None and not (signed and Z.range(t)[1] >> (a.w - 1)):
                return Z.word(Z.divmod(t, b.c)[rem], a.w)
        return olddiv(x, env, args, signed, rem)
    I.divmod_ = divmod_

    def nz(c):
        g = I.U.dep(c.bits)
        return g is not None and all(I.U.table(c, g))
    I.nz = nz

    M.update({
        "BN_new": new("heap"), "BN_secure_new": new("heap"), "BN_free": free, "BN_clear_free": free,
        "BN_CTX_new": new("heap"), "BN_CTX_secure_new": new("heap"), "BN_CTX_free": free, "BN_CTX_start": nop, "BN_CTX_end": nop, "BN_CTX_get": new("bnpool"),
        "BN_add": op(Z.add), "BN_uadd": op(Z.add), "BN_sub": op(Z.sub), "BN_usub": op(Z.sub), "BN_mul": op(Z.mul), "BN_exp": exp, "BN_div": div, "BN_nnmod": nnmod,
        "BN_mod_add": modop(Z.add), "BN_mod_sub": modop(Z.sub), "BN_mod_mul": modop(Z.mul), "BN_set_word": setword, "BN_zero_ex": lambda I, a, ins: put(I, a[0], Z.const(0), ins),
        "BN_add_word": wordop(Z.add), "BN_sub_word": wordop(Z.sub), "BN_mul_word": wordop(Z.mul), "BN_div_word": divword, "BN_mod_word": modword, "BN_get_word": getword,
        "BN_copy": copy, "BN_dup": dup, "BN_bin2bn": bin2bn, "BN_bn2bin": bn2bin, "BN_bn2binpad": bn2binpad,
        "memcpy": memcpy, "memmove": memcpy, "memset": memset,
        "CRYPTO_malloc": lambda I, a, ins: M["malloc"](I, a[:1], ins), "CRYPTO_zalloc": lambda I, a, ins: M["calloc"](I, [a[0], W(64, 1, None)], ins),
        "CRYPTO_free": lambda I, a, ins: M["free"](I, a[:1], ins), "CRYPTO_clear_free": lambda I, a, ins: M["free"](I, a[:1], ins),
        "OPENSSL_init_crypto": lambda I, a, ins: ONE32,
    })
