"""GF(2) polynomial domain.

A bit is a polynomial in algebraic normal form over hash-consed variables:
frozenset of monomial ids, a monomial being an interned set of variables.
ANF is canonical, so two expressions over the same variables denote the same
Boolean function iff the objects are equal.  Operations whose ANF would blow up
(modular addition, big table look-ups, ...) introduce a new variable named by
the *canonical* operands (value numbering), with AC-flattening for addition and
a linear-algebra normal form for table look-ups.
"""

ZERO = frozenset()
ONE = frozenset((0,))

BIG = 64                # operands of a product with more monomials are named first


class Universe:
    BIG = BIG

    def __init__(self):
        self.vars = []              # id -> (description)
        self.varid = {}
        self.mono = [frozenset()]   # id -> set of var ids
        self.monoid = {frozenset(): 0}
        self.mulmemo = {}
        self.namevars = set()
        self.luts = {}              # index key -> echelon basis
        self.spans = {}
        self.stats = {"values": 0, "atoms": 0}

    # ---- variables
    def var(self, key):
        i = self.varid.get(key)
        if i is None:
            i = len(self.vars)
            self.vars.append(key)
            self.varid[key] = i
            m = len(self.mono)
            fs = frozenset((i,))
            self.mono.append(fs)
            self.monoid[fs] = m
            self.stats["atoms"] += 1
        return frozenset((self.monoid[frozenset((i,))],))

    def mmul(self, a, b):
        if a == 0:
            return b
        if b == 0 or a == b:
            return a
        k = (a, b) if a < b else (b, a)
        r = self.mulmemo.get(k)
        if r is None:
            fs = self.mono[a] | self.mono[b]
            r = self.monoid.get(fs)
            if r is None:
                r = len(self.mono)
                self.mono.append(fs)
                self.monoid[fs] = r
            self.mulmemo[k] = r
        return r

    def mul(self, p, q):
        if not p or not q:
            return ZERO
        if p == ONE:
            return q
        if q == ONE or p == q:
            return p
        if len(p) > BIG:
            p = self.name(p)
        if len(q) > BIG:
            q = self.name(q)
        if len(p) > len(q):
            p, q = q, p
        acc = set()
        mm = self.mmul
        for m in p:
            if m == 0:
                acc ^= q
            else:
                acc ^= self._mulmono(m, q)
        return frozenset(acc)

    def _mulmono(self, m, q):
        mm = self.mmul
        r = set()
        for n in q:
            t = mm(m, n)
            if t in r:
                r.discard(t)
            else:
                r.add(t)
        return r

    def name(self, p):
        """canonical name of a large polynomial (constant term kept outside)"""
        c = ZERO
        if 0 in p:
            p = p ^ ONE
            c = ONE
        r = self.var(("nm", p))
        (m,) = r
        self.namevars |= self.mono[m]
        return r ^ c

    def nm(self, p):
        return self.name(p) if len(p) > BIG else p

    def closed(self, p):
        """only names (and constants) occur in p"""
        nv = self.namevars
        return all(nv.issuperset(self.mono[m]) for m in p)

    def named(self, p):
        return bool(p) and p != ONE and self.closed(p)

    def cl(self, p):
        return p if self.closed(p) else self.name(p)

    def nmw(self, a):
        """operand of a non-linear word operation: as soon as one bit is a proper
        polynomial over other things than names, every such bit is named"""
        if a.c is not None:
            return a
        if all(len(x) <= 1 or (len(x) == 2 and 0 in x) or self.closed(x) for x in a.bits):
            return a
        return mk(tuple(self.cl(x) for x in a.bits))

    def ite(self, c, a, b):
        if c == ONE:
            return a
        if not c:
            return b
        if a == b:
            return a
        d = a ^ b
        if len(d) > BIG or (len(d) > 2 and self.named(a) != self.named(b)):
            if len(a) > BIG or len(b) > BIG or len(d) <= BIG:
                a, b = self.cl(a), self.cl(b)
                d = a ^ b
        return self.mul(c, d) ^ b

    def monovars(self, p):
        s = set()
        for m in p:
            s |= self.mono[m]
        return s

    def subst_const(self, p, env):
        """Evaluate ANF with some variables fixed (env: var id -> 0/1)."""
        acc = set()
        for m in p:
            vs = self.mono[m]
            keep = []
            dead = False
            for v in vs:
                e = env.get(v)
                if e is None:
                    keep.append(v)
                elif e == 0:
                    dead = True
                    break
            if dead:
                continue
            fs = frozenset(keep)
            i = self.monoid.get(fs)
            if i is None:
                i = len(self.mono)
                self.mono.append(fs)
                self.monoid[fs] = i
            acc ^= {i}
        return frozenset(acc)

    # ---- words
    def wconst(self, v, w):
        return W(w, v & ((1 << w) - 1), None)

    def winput(self, name, w, base=0):
        return W(w, None, tuple(self.var(("in", name, base + i)) for i in range(w)))

    def mkw(self, bits):
        return mk(bits)

    def watom(self, key, w):
        return W(w, None, tuple(self.var((key, i)) for i in range(w)))

    def xor(self, a, b):
        if a.c is not None and b.c is not None:
            return W(a.w, a.c ^ b.c, None)
        if a.c == 0:
            return b
        if b.c == 0:
            return a
        return mk(tuple(x ^ y for x, y in zip(a.bits, b.bits)))

    def and_(self, a, b):
        if a.c is not None and b.c is not None:
            return W(a.w, a.c & b.c, None)
        return mk(tuple(self.mul(x, y) for x, y in zip(a.bits, b.bits)))

    def or_(self, a, b):
        if a.c is not None and b.c is not None:
            return W(a.w, a.c | b.c, None)
        return mk(tuple(x ^ y ^ self.mul(x, y) for x, y in zip(a.bits, b.bits)))

    def not_(self, a):
        return self.xor(a, W(a.w, (1 << a.w) - 1, None))

    def shl(self, a, n):
        if n >= a.w:
            return W(a.w, 0, None)
        if a.c is not None:
            return W(a.w, (a.c << n) & ((1 << a.w) - 1), None)
        return mk((ZERO,) * n + a.bits[:a.w - n])

    def lshr(self, a, n):
        if n >= a.w:
            return W(a.w, 0, None)
        if a.c is not None:
            return W(a.w, a.c >> n, None)
        return mk(a.bits[n:] + (ZERO,) * n)

    def ashr(self, a, n):
        n = min(n, a.w - 1)
        b = a.bits
        return mk(b[n:] + (b[-1],) * n)

    def rotl(self, a, n):
        n %= a.w
        b = a.bits
        return mk(b[a.w - n:] + b[:a.w - n])

    def trunc(self, a, w):
        if a.c is not None:
            return W(w, a.c & ((1 << w) - 1), None)
        return mk(a.bits[:w])

    def zext(self, a, w):
        if a.c is not None:
            return W(w, a.c, None)
        return W(w, None, a.bits + (ZERO,) * (w - a.w))

    def sext(self, a, w):
        return mk(a.bits + (a.bits[-1],) * (w - a.w))

    def concat(self, parts):
        """parts: LSB first words"""
        if all(p.c is not None for p in parts):
            v = 0
            s = 0
            for p in parts:
                v |= p.c << s
                s += p.w
            return W(s, v, None)
        b = ()
        for p in parts:
            b += p.bits
        return mk(b)

    def select(self, c, a, b):
        if c == ONE:
            return a
        if not c:
            return b
        if a == b:
            return a
        return mk(tuple(self.ite(c, x, y) for x, y in zip(a.bits, b.bits)))

    # ---- arithmetic
    def add(self, a, b):
        w = a.w
        M = (1 << w) - 1
        if a.c is not None and b.c is not None:
            return W(w, (a.c + b.c) & M, None)
        if a.c == 0:
            return b
        if b.c == 0:
            return a
        # disjoint bits: no carries
        if all((not x) or (not y) for x, y in zip(a.bits, b.bits)):
            return mk(tuple(x ^ y for x, y in zip(a.bits, b.bits)))
        r = self._ripple(a, b)
        if r is not None:
            return r
        return self._addnode(a, b, w)

    def _ripple(self, a, b):
        """exact ANF of a small-constant addition (counters, indices)"""
        if a.c is None and b.c is None:
            # allow tiny-width symbolic addition only
            ns = sum(1 for x in a.bits if x and x != ONE), sum(1 for x in b.bits if x and x != ONE)
            if min(ns) == 0 or max(ns) > 8 or any(len(x) > 4 for x in a.bits + b.bits):
                return None
        else:
            k = a.c if a.c is not None else b.c
            s = b if a.c is not None else a
            M = (1 << a.w) - 1
            if not (k <= 64 or (M + 1 - k) <= 64):
                nz = sum(1 for x in s.bits if x and x != ONE)
                if nz > 8:
                    return None
        carry = ZERO
        out = []
        for x, y in zip(self.nmw(a).bits, self.nmw(b).bits):
            if len(carry) > 600:
                return None
            out.append(x ^ y ^ carry)
            carry = self.mul(x, y) ^ self.mul(x ^ y, carry)
        return mk(tuple(out))

    def _addparts(self, a):
        """word -> (multiset of words as dict, const) if it is exactly an add atom"""
        if a.c is not None:
            return {}, a.c
        b0 = a.bits[0]
        if len(b0) == 1:
            (m,) = b0
            vs = self.mono[m]
            if len(vs) == 1:
                (v,) = vs
                key = self.vars[v]
                if key[0] and isinstance(key[0], tuple) and key[0][0] == "add" and key[1] == 0 and key[0][3] == a.w:
                    k0 = key[0]
                    if a.bits == tuple(self.var((k0, i)) for i in range(a.w)):
                        return dict(k0[1]), k0[2]
        return {a.bits: 1}, 0

    def _addnode(self, a, b, w):
        M = (1 << w) - 1
        pa, ca = self._addparts(a)
        pb, cb = self._addparts(b)
        for k, n in pb.items():
            pa[k] = (pa.get(k, 0) + n) & M
            if pa[k] == 0:
                del pa[k]
        c = (ca + cb) & M
        return self._addmake(pa, c, w)

    def _addmake(self, parts, c, w):
        if not parts:
            return W(w, c, None)
        if c == 0 and len(parts) == 1:
            (k, n), = parts.items()
            if n == 1:
                return mk(k)
        return self.watom(("add", frozenset(parts.items()), c, w), w)

    def neg(self, a):
        w = a.w
        M = (1 << w) - 1
        if a.c is not None:
            return W(w, (-a.c) & M, None)
        p, c = self._addparts(a)
        return self._addmake({k: (-n) & M for k, n in p.items()}, (-c) & M, w)

    def sub(self, a, b):
        w = a.w
        M = (1 << w) - 1
        if b.c is not None:
            return self.add(a, W(w, (-b.c) & M, None))
        if a == b:
            return W(w, 0, None)
        if a.c is not None:
            # constant minus a word with few live bits all covered: k - x == k ^ x when x is a submask
            if all((not y) or (a.c >> i) & 1 for i, y in enumerate(b.bits)):
                return mk(tuple((ONE if (a.c >> i) & 1 else ZERO) ^ y for i, y in enumerate(b.bits)))
        r = self._ripple(a, self.not_(b)) if False else None
        return self._addnode(a, self.neg(b), w)

    def mulw(self, a, b):
        w = a.w
        if a.c is not None and b.c is not None:
            return W(w, (a.c * b.c) & ((1 << w) - 1), None)
        if b.c is not None:
            a, b = b, a
        if a.c is not None:
            k = a.c
            if k == 0:
                return W(w, 0, None)
            if k & (k - 1) == 0:
                return self.shl(b, k.bit_length() - 1)
            # one-bit operand: select between 0 and k
            nzb = [i for i, x in enumerate(b.bits) if x]
            if len(nzb) == 1:
                t = self.shl(W(w, k, None), nzb[0])
                return self.select(b.bits[nzb[0]], t, W(w, 0, None))
            # shift-add when no carries can occur
            p, c = self._addparts(b)
            M = (1 << w) - 1
            return self._addmake({kk: (n * k) & M for kk, n in p.items() if (n * k) & M}, (c * k) & M, w)
        return self.watom(("mul", frozenset([(a.bits, 1), (b.bits, 1)]) if a != b else (a.bits, "sq"), w), w)

    # ---- predicates: return a bit poly
    def eq(self, a, b):
        if a.c is not None and b.c is not None:
            return ONE if a.c == b.c else ZERO
        d = [x ^ y for x, y in zip(a.bits, b.bits)]
        d = [x for x in d if x]
        if not d:
            return ONE
        if any(x == ONE for x in d):
            return ZERO
        if len(d) == 1:
            return ONE ^ d[0]
        uniq = list(dict.fromkeys(self.nm(x) for x in d))
        r = ONE
        size = 1
        for x in sorted(uniq, key=len):
            size *= len(x) + 1
        if size <= 4096:
            for x in sorted(uniq, key=len):
                r = self.mul(r, ONE ^ x)
            return r
        # try incremental product: often collapses (e.g. b+1 == 0)
        r = ONE
        ok = True
        for x in uniq:
            if len(r) * (len(x) + 1) > 20000:
                ok = False
                break
            r = self.mul(r, ONE ^ x)
        if ok:
            return r
        return self.var(("eq0", frozenset(uniq)))

    def ult(self, a, b, signed=False):
        if a.c is not None and b.c is not None:
            x, y = a.c, b.c
            if signed:
                x, y = a.s, b.s
            return ONE if x < y else ZERO
        if a == b:
            return ZERO
        la, ha = self.urange(a)
        lb, hb = self.urange(b)
        half = 1 << (a.w - 1)
        if signed and (ha >= half or hb >= half):
            pass
        else:
            if ha < lb:
                return ONE
            if la >= hb:
                return ZERO
            if b.c is not None and b.c & (b.c - 1) == 0:
                # a < 2^k  <=>  high bits all zero
                k = b.c.bit_length() - 1
                return self.eq(self.lshr(a, k), W(a.w, 0, None))
            # exact comparator when few live bits
            live = sum(1 for x in a.bits + b.bits if x and x != ONE)
            if live <= 8 and all(len(x) <= 2 for x in a.bits + b.bits):
                r = ZERO
                for x, y in zip(a.bits, b.bits):
                    # r = (!x & y) | (x==y & r)
                    r = self.mul(ONE ^ x, y) ^ self.mul(ONE ^ x ^ y, r)
                return r
        return self.var(("slt" if signed else "ult", a.bits, b.bits))

    def urange(self, a):
        if a.c is not None:
            return a.c, a.c
        lo = hi = 0
        for i, x in enumerate(a.bits):
            if x == ONE:
                lo |= 1 << i
                hi |= 1 << i
            elif x:
                hi |= 1 << i
        return lo, hi

    def spanned(self, key):
        """index bits -> (reduced basis of their affine span, old index of each new one or None)

        f(x) and g(A.x + a) with g = f after the change of variables get the same key."""
        r = self.spans.get(key)
        if r is None:
            r = self.spans[key] = self._spanned(key)
        return r

    def _spanned(self, key):
        k = len(key)
        rows = []                   # (pivot, poly, first old bit)
        const = 0
        for j, p in enumerate(key):
            if 0 in p:
                const |= 1 << j
                p = p ^ ONE
            for pv, q, i in rows:
                if pv in p:
                    p = p ^ q
            if p:
                pv = min(p)
                rows = [(a, q ^ p if pv in q else q, i) for a, q, i in rows]
                rows.append((pv, p, j))
        rows.sort()
        basis = tuple(q for _, q, _ in rows)
        if basis == key:
            return key, None
        # bit j = sum of the rows whose pivot it contains
        masks = [sum(1 << i for i, (pv, _, _) in enumerate(rows) if pv in p) for p in key]
        sel = []
        for y in range(1 << len(rows)):
            x = const
            for j in range(k):
                if bin(masks[j] & y).count("1") & 1:
                    x ^= 1 << j
            sel.append(x)
        return basis, sel

    # ---- table look-up with symbolic index; entries: list of words (length 2^k)
    def lut(self, idxbits, entries, w):
        """idxbits: k non-constant polys (LSB first); entries: 2^k words"""
        if all(e.c is not None for e in entries):
            key, sel = self.spanned(tuple(idxbits))
            if sel is not None:
                entries = [entries[i] for i in sel]
            if not key:
                return W(w, entries[0].c, None)
            basis = self.luts.get(key)
            if basis is None:
                basis = LutBasis(self, key)
                self.luts[key] = basis
            out = []
            for bit in range(w):
                tt = 0
                for i, e in enumerate(entries):
                    if (e.c >> bit) & 1:
                        tt |= 1 << i
                out.append(basis.reduce(tt))
            return mk(tuple(out))
        # symbolic entries: Moebius transform over the index
        k = len(idxbits)
        idxbits = [self.name(b) if len(b) > BIG else b for b in idxbits]
        out = []
        for bit in range(w):
            vals = [e.bits[bit] for e in entries]
            for j in range(k):
                step = 1 << j
                for i in range(1 << k):
                    if i & step:
                        vals[i] = vals[i] ^ vals[i ^ step]
            acc = ZERO
            tot = 0
            for i, v in enumerate(vals):
                if not v:
                    continue
                t = v
                for j in range(k):
                    if i >> j & 1:
                        t = self.mul(t, idxbits[j])
                        tot += len(t)
                acc = acc ^ t
                if tot > 400000:
                    acc = None
                    break
            if acc is None:
                acc = self.var(("symlut", tuple(idxbits), tuple(e.bits[bit] for e in entries)))
            out.append(acc)
        return mk(tuple(out))

    def show(self, p, n=6):
        if not p:
            return "0"
        ms = []
        for m in list(p)[:n]:
            ms.append("*".join(str(self.vars[v])[:60] for v in self.mono[m]) or "1")
        return " ^ ".join(ms) + (" ^ ... (%d terms)" % len(p) if len(p) > n else "")


class LutBasis:
    """Boolean functions of one index tuple, modulo affine functions of it."""

    def __init__(self, U, key):
        self.U, self.key = U, key
        n = len(key)
        self.rows = {}      # pivot -> (truthtable, poly)
        full = (1 << (1 << n)) - 1
        self._insert(full, ONE)
        for j in range(n):
            tt = 0
            for i in range(1 << n):
                if i >> j & 1:
                    tt |= 1 << i
            self._insert(tt, key[j])

    def _red(self, tt, poly):
        while tt:
            p = tt.bit_length() - 1
            r = self.rows.get(p)
            if r is None:
                return tt, poly
            tt ^= r[0]
            poly = poly ^ r[1]
        return 0, poly

    def _insert(self, tt, poly):
        t, p = self._red(tt, poly)
        if t:
            self.rows[t.bit_length() - 1] = (t, p)

    def reduce(self, tt):
        t, p = self._red(tt, ZERO)
        if t:
            # independent of everything so far: the function itself becomes a basis element
            v = self.U.var(("lut", self.key, tt))
            self.rows[t.bit_length() - 1] = (t, v ^ p)
            return v
        return p


class W:
    __slots__ = ("w", "c", "b")

    def __init__(self, w, c, b):
        self.w, self.c, self.b = w, c, b

    @property
    def bits(self):
        if self.b is None:
            c = self.c
            self.b = tuple(ONE if (c >> i) & 1 else ZERO for i in range(self.w))
        return self.b

    @property
    def s(self):
        return self.c - (1 << self.w) if self.c >> (self.w - 1) else self.c

    def __eq__(self, o):
        if not isinstance(o, W) or self.w != o.w:
            return False
        if self.c is not None or o.c is not None:
            return self.c == o.c
        return self.b == o.b

    def __hash__(self):
        return hash((self.w, self.c if self.c is not None else self.b))

    def __repr__(self):
        return "W%d(%s)" % (self.w, hex(self.c) if self.c is not None else "sym")


def mk(bits):
    c = 0
    for i, x in enumerate(bits):
        if x == ONE:
            c |= 1 << i
        elif x:
            return W(len(bits), None, tuple(bits))
    return W(len(bits), c, tuple(bits))
