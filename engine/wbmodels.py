"""Models for the white-box table generators: random matrices, permutations and
numbers are uninterpreted; the matrix products are the operator algebra of
linalg.py (each is checked against the real code separately, checks/sc_wb.py)."""
from absint import P, W, mk, Imprecise, ZERO, ONE
from lam import LInterp, RecMap, Rec, LamAbort
from linalg import Lin


def fresh_only(I, what):
    if any(not fr.replay for fr in I.frames):
        raise LamAbort("%s in a table loop" % what)


def rdrows(I, p, n):
    """matrix at p: rows[r][c], LSB first"""
    b = n // 8
    rows = [None] * n
    if isinstance(p, W):            # a small matrix passed in a register
        for i in range(n):
            rows[n - 1 - i] = p.bits[i * n:i * n + n]
        return tuple(rows)
    for i in range(n):
        w = I.load(P(p.r, p.o + i * b, p.idx), b)
        rows[n - 1 - i] = w.bits
    return tuple(rows)


def wrrows(I, p, rows):
    n = len(rows)
    b = n // 8
    for i in range(n):
        I.store(P(p.r, p.o + i * b, p.idx), mk(tuple(rows[n - 1 - i])), b)


def perm(U, reg, pid, inv, k):
    """k-bit permutation pid (or its inverse) as a table"""
    def look(I, X):
        if X.w < k:
            X = U.zext(X, k)
        bits = X.bits
        h = reg.get((pid, 1 - inv, bits))
        if h is not None:
            out = h
        else:
            out = U.watom(("perm", pid, inv, bits), k).bits
            reg[(pid, inv, out)] = bits
        return mk(out + (ZERO,) * (8 - k))
    return look


def install(sc, fuel=15_000_000):
    """switch the scenario to the table domain (before any region is made)"""
    U = sc.U
    I = sc.I = LInterp(sc.module, U, fuel)
    L = sc.lin = Lin(U)
    reg = sc.perms = {}
    sc.nperm = 0
    sc.nrand = 0

    def genmat(n):
        def m(I, a, ins):
            fresh_only(I, "random matrix")
            x, y = L.fresh(n)
            wrrows(I, a[0], x)
            wrrows(I, a[1], y)
            return None
        return m

    def num(n):
        def m(I, a, ins):
            return mk(L.apply(rdrows(I, a[0], n), a[1].bits))
        return m

    def vec(n):
        def m(I, a, ins):
            v = a[1]
            if isinstance(v, W):
                v = U.trunc(v, n) if v.w > n else v
            else:
                v = I.load(v, n // 8)
            I.store(a[2], mk(L.apply(rdrows(I, a[0], n), v.bits)), n // 8)
            return None
        return m

    def mat(n):
        def m(I, a, ins):
            wrrows(I, a[2], L.matmul(rdrows(I, a[0], n), rdrows(I, a[1], n)))
            return None
        return m

    def genperm(k):
        def m(I, a, ins):
            fresh_only(I, "random permutation")
            sc.nperm += 1
            for inv in (0, 1):
                p = I.fold(a[inv])
                I.chk(p.r, p.o, 1 << k, True)
                c = I.wmem(p.r)
                if c.recs is None:
                    c.recs = RecMap()
                c.recs.insert(Rec(p.r, p.o, frozenset(), 1, 1 << k, perm=perm(U, reg, sc.nperm, inv, k)))
                for o in range(p.o, p.o + (1 << k)):
                    c.pop(o, None)
            return None
        return m

    def rnd(I, a, ins):
        fresh_only(I, "random number")
        sc.nrand += 1
        return U.watom(("rand", sc.nrand), 32)

    M = I.models
    for n in (8, 32):
        M["genMatpairM%d" % n] = genmat(n)
        M["MatMulNumM%d" % n] = num(n)
        M["MatMulVecM%d" % n] = vec(n)
        M["MatMulMatM%d" % n] = mat(n)
    M["genPermutation4"] = genperm(4)
    M["genPermutation8"] = genperm(8)
    M["InitRandom"] = lambda I, a, ins: None
    M["SetRandSeed"] = lambda I, a, ins: None
    M["cus_random"] = rnd
    M["time"] = lambda I, a, ins: U.watom(("time",), 64)
    return L
