"""Linear-operator algebra over GF(2) for the white-box tables.

A random invertible matrix is an uninterpreted operator that cancels with its
inverse.  A matrix-vector product is kept as  word . X  where X is a vector of
8 polynomials and word a product of operators:

  ("m", id, inv, n)   random n x n matrix (inv=1: its inverse)
  ("C", n, rows)      matrix of constants
  ("E", b)            8 -> 32: places a byte at byte b of a 32-bit word
  ("P", b)            32 -> 8: takes byte b

Bit r of word.X is the variable T(word, X, r), entry (r, c) of a product of
matrices is M(word, r, c).  Identities used: A.A^-1 = 1, P_b.E_c = [b=c],
E_0.P_0 + E_1.P_1 + E_2.P_2 + E_3.P_3 = 1 (E_3.P_3 is rewritten), products of
constant matrices, and linearity.  They are sound for every choice of the
random matrices; anything that does not fit stays an opaque polynomial.
"""
from poly import W, mk, ZERO, ONE

Z8 = (ZERO,) * 8


def outdim(op):
    return op[3] if op[0] == "m" else op[1] if op[0] == "C" else 32 if op[0] == "E" else 8


def indim(op):
    return op[3] if op[0] == "m" else op[1] if op[0] == "C" else 8 if op[0] == "E" else 32


def vxor(a, b):
    return tuple(x ^ y for x, y in zip(a, b))


def cmul(n, a, b):
    """rows of a.b (row r: bit mask over columns)"""
    out = []
    for row in a:
        v = 0
        while row:
            c = (row & -row).bit_length() - 1
            v ^= b[c]
            row &= row - 1
        out.append(v)
    return tuple(out)


def ident(n):
    return tuple(1 << r for r in range(n))


class Lin:
    def __init__(self, U):
        self.U = U
        self.n = 0
        self.gid = {}           # (word, X) -> monomial of row 0
        self.xs = {}
        self.groups = []
        self.tinfo = {}         # monomial -> (group, row)
        self.wid = {}
        self.words = []
        self.minfo = {}         # monomial -> (word, row, col)
        self.nmemo = {}
        self.ememo = {}
        self.dmemo = {}
        self.pairs = 0

    def newpair(self, n):
        self.pairs += 1
        return ("m", self.pairs, 0, n), ("m", self.pairs, 1, n)

    # ---- words
    def norm(self, w):
        """word -> tuple of normal words whose sum it is"""
        r = self.nmemo.get(w)
        if r is None:
            r = self.nmemo[w] = self._norm(w)
        return r

    def _norm(self, w):
        for i, a in enumerate(w):
            if a[0] == "C" and a[2] == ident(a[1]):
                return self.norm(w[:i] + w[i + 1:])
            if i + 1 == len(w):
                break
            b = w[i + 1]
            if a[0] == "m" and b[0] == "m" and a[1] == b[1] and a[2] != b[2]:
                return self.norm(w[:i] + w[i + 2:])
            if a[0] == "P" and b[0] == "E":
                return self.norm(w[:i] + w[i + 2:]) if a[1] == b[1] else ()
            if a[0] == "C" and b[0] == "C":
                return self.norm(w[:i] + (("C", a[1], cmul(a[1], a[2], b[2])),) + w[i + 2:])
            if a[0] == "E" and b[0] == "P" and a[1] == 3 and b[1] == 3:
                acc = {}
                parts = [w[:i] + w[i + 2:]] + [w[:i] + (("E", k), ("P", k)) + w[i + 2:] for k in range(3)]
                for p in parts:
                    for x in self.norm(p):
                        if x in acc:
                            del acc[x]
                        else:
                            acc[x] = 1
                return tuple(acc)
        return (w,)

    # ---- vectors
    def cvec(self, op, v):
        out = []
        for row in op[2]:
            p = ZERO
            for c in range(op[1]):
                if row >> c & 1:
                    p = p ^ v[c]
            out.append(p)
        return tuple(out)

    def evalv(self, w, X, n):
        acc = (ZERO,) * n
        for x in self.norm(w):
            acc = vxor(acc, self.eval1(x, X))
        return acc

    def eval1(self, w, X):
        if not any(X):
            return (ZERO,) * (outdim(w[0]) if w else 8)
        if not w:
            return X
        f, l = w[0], w[-1]
        if f[0] == "m" and not (l[0] == "C" and l[1] == 8) and not (l[0] == "E" and w[-2][0] == "C"):
            return self.opaque(w, X)
        if f[0] == "E":
            v = self.eval1(w[1:], X)
            return Z8 * f[1] + v + Z8 * (3 - f[1])
        if f[0] == "P":
            return self.eval1(w[1:], X)[8 * f[1]:8 * f[1] + 8]
        k = (w, X)
        r = self.ememo.get(k)
        if r is None:
            r = self.ememo[k] = self._eval1(w, X)
        return r

    def _eval1(self, w, X):
        n = outdim(w[0])
        last = w[-1]
        if last[0] == "C" and last[1] == 8:
            return self.evalv(w[:-1], self.cvec(last, X), n) if len(w) > 1 else self.cvec(last, X)
        if last[0] == "E" and len(w) > 1 and w[-2][0] == "C":
            b = last[1]
            Y = self.cvec(w[-2], Z8 * b + X + Z8 * (3 - b))
            if len(w) == 2:
                return Y
            acc = (ZERO,) * n
            for k in range(4):
                y = Y[8 * k:8 * k + 8]
                if any(y):
                    acc = vxor(acc, self.evalv(w[:-2] + (("E", k),), y, n))
            return acc
        f = w[0]
        if f[0] == "C":
            return self.cvec(f, self.eval1(w[1:], X))
        raise AssertionError(w)

    def opaque(self, w, X):
        """the variables of an irreducible product"""
        X = self.xs.setdefault(X, X)
        n = outdim(w[0])
        g = self.gid.get((w, X))
        if g is None:
            g = len(self.groups)
            self.groups.append((w, X))
            ms = []
            for r in range(n):
                (m,) = self.U.var(("T", g, r))
                self.tinfo[m] = (g, r)
                ms.append(m)
            assert ms == list(range(ms[0], ms[0] + n))
            self.gid[(w, X)] = g = ms[0]
        return tuple(frozenset((g + r,)) for r in range(n))

    def decode(self, v):
        """bits -> [(word, X)] summing to it"""
        n = len(v)
        groups = {}
        raw = []
        ti = self.tinfo
        for p, poly in enumerate(v):
            keep = []
            for m in poly:
                t = ti.get(m)
                if t is None:
                    keep.append(m)
                else:
                    groups.setdefault(t[0], {}).setdefault(p, []).append((t[1], m))
            raw.append(keep)
        terms = []
        for g, pos in groups.items():
            w, X = self.groups[g]
            mo = outdim(w[0])
            if mo == n and all(len(pos.get(p, ())) == 1 and pos[p][0][0] == p for p in range(n)):
                terms.append((w, X))
                continue
            for pb in range(n // 8):
                ps = range(8 * pb, 8 * pb + 8)
                # several rows of the same group may meet in one bit: peel one row block at a time
                rbs = {}
                for p in ps:
                    for r, m in pos.get(p, ()):
                        rbs.setdefault(r // 8, {})[p] = (r, m)
                for rb, d in rbs.items():
                    if len(d) == 8 and all(d[p][0] == 8 * rb + p - 8 * pb for p in ps) and sum(len(pos[p]) for p in ps) == 8 * len(rbs):
                        terms.append(((("E", pb),) * (n == 32) + (("P", rb),) * (mo == 32) + w, X))
                    else:
                        for p, (r, m) in d.items():
                            raw[p].append(m)
        for b in range(n // 8):
            x = tuple(frozenset(raw[8 * b + k]) for k in range(8))
            if any(x):
                terms.append(((("E", b),) * (n == 32), x))
        return terms

    # ---- matrices
    def opdims(self, w, n):
        return outdim(w[0]), indim(w[-1])

    def decodeM(self, rows):
        """rows[r][c] (polynomials, LSB first) -> (words, rest)"""
        r = self.dmemo.get(rows)
        if r is None:
            r = self.dmemo[rows] = self._decodeM(rows)
        return r

    def _decodeM(self, rows):
        n = len(rows)
        groups = {}
        rest = {}
        cm = [0] * n
        mi = self.minfo
        for r in range(n):
            for c in range(n):
                for m in rows[r][c]:
                    if m == 0:
                        cm[r] ^= 1 << c
                        continue
                    t = mi.get(m)
                    if t is None:
                        rest[(r, c)] = rest.get((r, c), ZERO) ^ frozenset((m,))
                    else:
                        groups.setdefault((t[0], r - t[1], c - t[2]), {})[(t[1], t[2])] = m
        words = []
        if any(cm):
            words.append((("C", n, tuple(cm)),))
        for (wi, dr, dc), d in groups.items():
            w = self.words[wi]
            mo, mi_ = self.opdims(w, n)
            if len(d) == mo * mi_ and (mo < n or dr == 0) and (mi_ < n or dc == 0):
                l = () if mo == n else (("E", dr // 8),)
                rr = () if mi_ == n else (("P", dc // 8),)
                if dr % 8 == 0 and dc % 8 == 0:
                    words.append(l + w + rr)
                    continue
            blocks = {}
            for (r, c), m in d.items():
                blocks.setdefault((r // 8, c // 8), {})[(r, c)] = m
            for (rb, cb), e in blocks.items():
                if len(e) == 64 and dr % 8 == 0 and dc % 8 == 0:
                    l = (("E", rb + dr // 8),) * (n == 32) + (("P", rb),) * (mo == 32)
                    rr = (("E", cb),) * (mi_ == 32) + (("P", cb + dc // 8),) * (n == 32)
                    words.append(l + w + rr)
                else:
                    for (r, c), m in e.items():
                        k = (r + dr, c + dc)
                        rest[k] = rest.get(k, ZERO) ^ frozenset((m,))
        return words, rest

    def mateval(self, words, n):
        acc = [[ZERO] * n for _ in range(n)]
        for w in words:
            for x in self.norm(w):
                m = self.mat1(x, n)
                for r in range(n):
                    for c in range(n):
                        if m[r][c]:
                            acc[r][c] = acc[r][c] ^ m[r][c]
        return acc

    def mat1(self, w, n):
        if not w:
            return [[ONE if r == c else ZERO for c in range(n)] for r in range(n)]
        f, l = w[0], w[-1]
        if f[0] == "E":
            m = self.mat1(w[1:], 8)
            k = len(m[0])
            return [[ZERO] * k for _ in range(8 * f[1])] + list(m) + [[ZERO] * k for _ in range(8 * (3 - f[1]))]
        if f[0] == "P":
            return self.mat1(w[1:], 32)[8 * f[1]:8 * f[1] + 8]
        if l[0] == "P":
            m = self.mat1(w[:-1], 8)
            return [[ZERO] * (8 * l[1]) + list(r) + [ZERO] * (8 * (3 - l[1])) for r in m]
        if l[0] == "E":
            m = self.mat1(w[:-1], 32)
            return [list(r[8 * l[1]:8 * l[1] + 8]) for r in m]
        if len(w) == 1 and f[0] == "C":
            return [[ONE if f[2][r] >> c & 1 else ZERO for c in range(f[1])] for r in range(f[1])]
        wi = self.wid.get(w)
        if wi is None:
            wi = self.wid[w] = len(self.words)
            self.words.append(w)
        out = []
        for r in range(outdim(f)):
            row = []
            for c in range(indim(l)):
                p = self.U.var(("M", wi, r, c))
                (m,) = p
                self.minfo[m] = (wi, r, c)
                row.append(p)
            out.append(row)
        return out

    def fresh(self, n):
        a, b = self.newpair(n)
        return self.mateval([(a,)], n), self.mateval([(b,)], n)

    # ---- operations
    def apply(self, rows, v):
        n = len(rows)
        words, rest = self.decodeM(rows)
        acc = (ZERO,) * n
        if words:
            par = {}
            for tw, X in self.decode(v):
                for w in words:
                    for x in self.norm(w + tw):
                        if x in par:
                            par[x] = vxor(par[x], X)
                        else:
                            par[x] = X
            sets = [set() for _ in range(n)]
            for x, X in par.items():
                for s, p in zip(sets, self.eval1(x, X)):
                    if p:
                        s ^= p
            acc = tuple(map(frozenset, sets))
        if rest:
            acc = list(acc)
            for (r, c), p in rest.items():
                acc[r] = acc[r] ^ self.U.mul(p, v[c])
            acc = tuple(acc)
        return acc

    def matmul(self, a, b):
        n = len(a)
        wa, ra = self.decodeM(a)
        wb, rb = self.decodeM(b)
        if ra or rb:
            out = [[ZERO] * n for _ in range(n)]
            for r in range(n):
                for c in range(n):
                    p = ZERO
                    for k in range(n):
                        if a[r][k] and b[k][c]:
                            p = p ^ self.U.mul(a[r][k], b[k][c])
                    out[r][c] = p
            return out
        return self.mateval([x + y for x in wa for y in wb], n)
