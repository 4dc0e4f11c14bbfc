"""White-box ciphers against the ciphers they hide."""
from vlib import *
import wbmodels
from sc_sm4 import padded


def gen(sc, fn, *a):
    """table generation with loops over table indices summarised"""
    sc.I.families()
    sc.I.lam = True
    try:
        return sc.call(fn, *a)
    finally:
        sc.I.lam = False


def wbaes(sc, keylen, inplace=False, regen=False):
    wbmodels.install(sc)
    ctx = sc.call("WBCRYPTO_wbaes_context_init")
    if regen:
        gen(sc, "WBCRYPTO_wbaes_gen_table", ctx, sc.buf("key0", 16), sc.n(16))
    key = sc.buf("key", keylen)
    sc.expect_ret("table generation succeeds", gen(sc, "WBCRYPTO_wbaes_gen_table", ctx, key, sc.n(keylen)), 1)
    pt = sc.buf("pt", 16, rw=inplace)
    ref = sc.data(pt, 16)
    out = pt if inplace else sc.scratch("out", 16)
    sc.expect_ret("encrypt succeeds", sc.call("WBCRYPTO_wbaes_encrypt", pt, out, ctx), 1)
    sc.expect_bytes("encryption is AES-128 under the 16-byte key", out, sc.S.aes_crypt(sc.S.aes_keys(padded(sc, key, keylen)), ref))


def arrange(sc, dummy):
    """rand() values with which the library's shuffle puts the dummy groups at the given places"""
    n = 32 + len(dummy)
    cur = [0] * 32 + [1] * len(dummy)
    v = [0] * (n + 1)
    for L in range(n, 0, -1):
        want = 1 if L - 1 in dummy else 0
        r = 0 if L == n else next((i for i in range(L) if cur[i] == want), 0)
        v[L] = r
        cur[L - 1], cur[r] = cur[r], cur[L - 1]
    st = {"i": 0}

    def rand(I, a, ins):
        i = st["i"]
        st["i"] = (i + 1) % n
        return W(32, v[i], None)
    sc.I.models["rand"] = rand
    sc.I.models["srand"] = lambda I, a, ins: None


def wbsm4(sc, keylen, enc, dummy=(), inplace=False, regen=False):
    wbmodels.install(sc)
    arrange(sc, set(dummy))
    ctx = sc.call("WBCRYPTO_wbsm4_context_init", sc.n(enc, 32), sc.n(len(dummy), 32))
    if regen:
        gen(sc, "WBCRYPTO_wbsm4_gen_table", ctx, sc.buf("key0", 16), sc.n(16))
    key = sc.buf("key", keylen)
    sc.expect_ret("table generation succeeds", gen(sc, "WBCRYPTO_wbsm4_gen_table", ctx, key, sc.n(keylen)), 1)
    pt = sc.buf("pt", 16, rw=inplace)
    ref = sc.data(pt, 16)
    out = pt if inplace else sc.scratch("out", 16)
    sc.expect_ret("the block function succeeds", sc.call("WBCRYPTO_wbsm4_%scrypt" % ("en" if enc else "de"), pt, out, ctx), 1)
    sc.expect_bytes("%scryption is SM4 under the 16-byte key" % ("en" if enc else "de"), out,
                    sc.S.sm4_crypt(sc.S.sm4_keys(padded(sc, key, keylen)), ref, dec=not enc))


def wbaes_jobs(tier):
    r = [("wbaes key=16", wbaes, (16,), "default"),
         ("wbaes key=5 in-place", wbaes, (5, True), "default"),
         ("wbaes key=20", wbaes, (20,), "default"),
         ("wbaes second key", wbaes, (16, False, True), "default")]
    if tier != "quick":
        r += [("wbaes key=%d" % n, wbaes, (n,), "default") for n in (0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 31, 32, 33)]
    return r


def wbsm4_jobs(tier):
    J = lambda name, *a: (name, wbsm4, a, "default")
    r = []
    for enc in (1, 0):
        d = "enc" if enc else "dec"
        r += [J("wbsm4 %s key=16" % d, 16, enc), J("wbsm4 %s key=7 in-place" % d, 7, enc, (), True), J("wbsm4 %s key=33" % d, 33, enc, (13,)),
              J("wbsm4 %s second key" % d, 16, enc, (2,), False, True)]
        for dm in ([(0, 1), (5, 32), (31,)] if tier == "quick" else [(i,) for i in range(32)] + [(0, 1), (5, 32), (7, 8, 9), (0, 10, 11, 34)]):
            r.append(J("wbsm4 %s dummy rounds at %s" % (d, ",".join(map(str, dm))), 16, enc, dm))
    return r


# ------------------------------------------------------------------ white-box SM4 from self-equivalences
def se_wbsm4(sc, keylen, enc, first, inplace=False, regen=False):
    wbmodels.install(sc)
    seen = {}

    def pick(a, c, signed):
        k = (a.bits, c)
        if k not in seen:
            v = (first + len(seen)) % c
            seen[k] = -v if signed and len(seen) % 3 == 1 else v
        return seen[k]
    sc.I.pick = pick
    ctx = sc.call("WBCRYPTO_se_wbsm4_context_init", sc.n(enc, 32))
    if regen:
        sc.call("WBCRYPTO_se_wbsm4_gen_table", ctx, sc.buf("key0", 16), sc.n(16))
    key = sc.buf("key", keylen)
    sc.expect_ret("table generation succeeds", sc.call("WBCRYPTO_se_wbsm4_gen_table", ctx, key, sc.n(keylen)), 1)
    sc.I.pick = None
    sc.notes["choices"] = len(seen)
    pt = sc.buf("pt", 16, rw=inplace)
    ref = sc.data(pt, 16)
    out = pt if inplace else sc.scratch("out", 16)
    sc.expect_ret("the block function succeeds", sc.call("WBCRYPTO_se_wbsm4_%scrypt" % ("en" if enc else "de"), pt, out, ctx), 1)
    sc.expect_bytes("%scryption is SM4 under the 16-byte key" % ("en" if enc else "de"), out,
                    sc.S.sm4_crypt(sc.S.sm4_keys(padded(sc, key, keylen)), ref, dec=not enc))


def se_jobs(tier):
    """each run uses the next 128 self-equivalences: together all of them"""
    r = []
    n = 0
    for i in range(0, 2039, 128):
        enc = i // 128 % 2
        r.append(("se_wbsm4 %s, self-equivalences from %d" % ("enc" if enc else "dec", i), se_wbsm4, (16, enc, i), "big"))
    for enc in (1, 0):
        d = "enc" if enc else "dec"
        r += [("se_wbsm4 %s key=%d%s" % (d, k, " in-place" if ip else ""), se_wbsm4, (k, enc, f, ip), "big") for k, f, ip in ((3, 1000, True), (16, 2038, False), (40, 7, False))]
        r.append(("se_wbsm4 %s second key" % d, se_wbsm4, (16, enc, 500, False, True), "big"))
    if tier != "quick":
        r += [("se_wbsm4 %s, self-equivalences from %d" % ("enc" if e else "dec", i), se_wbsm4, (16, e, i), "big") for i in range(0, 2039, 31) for e in (0, 1)]
    return r


# ------------------------------------------------------------------ the matrix library under the models
def product(sc, what, n):
    """the real MatMul functions are the GF(2) products the models say"""
    U, I = sc.U, sc.I
    b = n // 8
    A = sc.buf("A", n * b)
    rows = wbmodels.rdrows(I, A, n)
    small = n == 8          # such matrices travel in a register
    a = U.concat([I.load(P(A.r, k), 1) for k in range(8)]) if small else A

    def apply(v):
        out = []
        for r in range(n):
            p = ZERO
            for c in range(n):
                p = p ^ U.mul(rows[r][c], v[c])
            out.append(p)
        return mk(tuple(out))
    if what == "Num":
        v = U.concat(sc.data(sc.buf("v", b), b))
        r = sc.call("MatMulNumM%d" % n, a, v)
        sc.ob("matrix times number", U.trunc(r, n).bits == apply(v.bits).bits if r.w > n else r.bits == apply(v.bits).bits, "MatMulNumM%d is not the GF(2) product" % n)
    elif what == "Vec":
        v = U.concat(sc.data(sc.buf("v", b), b))
        out = sc.scratch("out", b)
        sc.call("MatMulVecM%d" % n, a, v, out)
        sc.ob("matrix times vector", I.load(out, b).bits == apply(v.bits).bits, "MatMulVecM%d is not the GF(2) product" % n)
    else:
        B = sc.buf("B", n * b)
        rb = wbmodels.rdrows(I, B, n)
        bb = U.concat([I.load(P(B.r, k), 1) for k in range(8)]) if small else B
        out = sc.scratch("out", n * b)
        sc.call("MatMulMatM%d" % n, a, bb, out)
        ro = wbmodels.rdrows(I, out, n)
        cols = [apply([rb[k][c] for k in range(n)]).bits for c in range(n)]
        bad = [(r, c) for r in range(n) for c in range(n) if ro[r][c] != cols[c][r]]
        sc.ob("matrix times matrix", not bad, "MatMulMatM%d: entry %s is not that of the GF(2) product" % (n, bad[:1]))


def mat_jobs(which):
    return [("%s%d" % w, product, w, "default") for w in which]
