"""Format-preserving encryption: digits are symbolic, the block function is uninterpreted."""
from vlib import *
import bn

ALPH = b"0123456789abcdefghijklmnopqrstuvwxyz"


def text(sc, name, digits, radix, rw=False):
    """caller's string whose characters are the given digits (forms)"""
    Z, U = sc.ints, sc.U
    p = sc.buf(name, len(digits) + 1, rw=rw)
    bs = []
    for t in digits:
        if not t.t:
            bs.append(W(8, ALPH[t.c], None))
            continue
        w = Z.word(t, 8)
        g = U.dep(w.bits)
        bs.append(U.fromtable(g, [ALPH[x] for x in range(U.groups[g][1] + 1)], 8))
    sc.putbytes(p, bs + [W(8, 0, None)])
    return p


def digits_of(sc, p, n):
    """the digits a string of n characters consists of; None where a character is no digit"""
    Z, U = sc.ints, sc.U
    res = []
    for w in sc.data(p, n):
        t = None
        if w is not None:
            if w.c is not None:
                k = ALPH.find(bytes([w.c]))
                t = Z.const(k) if k >= 0 else None
            else:
                g = U.dep(w.bits)
                if g is not None and all(c == ALPH[x] for x, c in enumerate(U.table(w, g))):
                    t = U.groups[g][2]
        res.append(t)
    return res


def expect_digits(sc, label, p, want, radix):
    got = digits_of(sc, p, len(want))
    bad = [k for k in range(len(want)) if got[k] is None or got[k] != want[k]]
    sc.ob(label, not bad, "character %s of %d is not the defined one, last written at %s" % (bad[:4], len(want), sc.writer(p.r, p.o + bad[0]) if bad else ""))
    e = sc.data(P(p.r, p.o + len(want)), 1)[0]
    sc.ob(label + ": terminated", e is not None and e.c == 0, "no terminator after character %d" % len(want))
    out = [k for k in range(len(want)) if got[k] is not None and (sc.ints.range(got[k])[0] < 0 or sc.ints.range(got[k])[1] >= radix)]
    sc.ob(label + ": every character is a numeral of the radix", not out, "character %s may be outside the radix" % out[:4])


# ------------------------------------------------------------------ SP 800-38G
def num(Z, X, radix):
    return Z.comb([(radix ** (len(X) - 1 - i), x) for i, x in enumerate(X)])


def strm(Z, c, radix, m):
    out = []
    for _ in range(m):
        c, d = Z.divmod(c, radix)
        out.append(d)
    return out[::-1]


def xorb(U, a, b):
    return [U.xor(x, y) for x, y in zip(a, b)]


def be(v, n):
    return [W(8, v >> 8 * (n - 1 - k) & 255, None) for k in range(n)]


def numb(Z, bs):
    return Z.comb([(256 ** (len(bs) - 1 - k), Z.val(x)) for k, x in enumerate(bs)])


def ff1(sc, E, radix, T, X, dec):
    """Algorithms 7 and 8"""
    Z, U = sc.ints, sc.U
    n, t = len(X), len(T)
    u = n // 2
    v = n - u
    A, B = X[:u], X[u:]
    b = ((radix ** v - 1).bit_length() + 7) // 8
    d = 4 * ((b + 3) // 4) + 4
    Pb = be(1, 1) + be(2, 1) + be(1, 1) + be(radix, 3) + be(10, 1) + be(u % 256, 1) + be(n, 4) + be(t, 4)
    for i in (range(9, -1, -1) if dec else range(10)):
        m = u if i % 2 == 0 else v
        N = num(Z, A if dec else B, radix)
        Q = T + be(0, (-t - b - 1) % 16) + be(i, 1) + [Z.byte(N, b - 1 - k) for k in range(b)]
        R = be(0, 16)
        PQ = Pb + Q
        for k in range(0, len(PQ), 16):
            R = E(xorb(U, R, PQ[k:k + 16]))
        S = list(R)
        j = 1
        while len(S) < d:
            S += E(xorb(U, R, be(j, 16)))
            j += 1
        y = numb(Z, S[:d])
        if dec:
            c = Z.mod(Z.sub(num(Z, B, radix), y), radix ** m)
            B, A = A, strm(Z, c, radix, m)
        else:
            c = Z.mod(Z.add(num(Z, A, radix), y), radix ** m)
            A, B = B, strm(Z, c, radix, m)
    return A + B


def ff3(sc, E, radix, T, X, dec):
    """Algorithms 9 and 10 over the block function as supplied"""
    Z, U = sc.ints, sc.U
    n = len(X)
    u = (n + 1) // 2
    v = n - u
    A, B = X[:u], X[u:]
    T = (T + be(0, 8))[:8] if len(T) < 8 else T[:8]
    for i in (range(7, -1, -1) if dec else range(8)):
        m, Wt = (u, T[4:]) if i % 2 == 0 else (v, T[:4])
        N = num(Z, (A if dec else B)[::-1], radix)
        Pb = xorb(U, Wt, be(i, 4)) + [Z.byte(N, 11 - k) for k in range(12)]
        S = E(Pb[::-1])[::-1]
        y = numb(Z, S)
        if dec:
            c = Z.mod(Z.sub(num(Z, B[::-1], radix), y), radix ** m)
            B, A = A, strm(Z, c, radix, m)[::-1]
        else:
            c = Z.mod(Z.add(num(Z, A[::-1], radix), y), radix ** m)
            A, B = B, strm(Z, c, radix, m)[::-1]
    return A + B


ALG = {"ff1": ff1, "ff3": ff3, "ff1_cmac": ff1, "ff3_gmac": ff3}


def run(sc, alg, radix, n, tl, inplace=False, cipher=None):
    bn.Ints(sc)
    Z = sc.ints
    E = sc.E()
    mac = "mac" in alg
    key = sc.buf("K", 64)
    blk = sc.block_fn(CIPHERS[cipher] if cipher else "BLOCK", E, key=key)
    tw = sc.buf("tweak", tl) if tl else P(None)
    T = sc.data(tw, tl) if tl else []
    if cipher:
        ctx = sc.call("WBCRYPTO_%s_fpe_%sinit" % (cipher, "mac_" if mac else ""), key, tw, sc.n(tl), sc.n(radix, 32))
    else:
        ctx = sc.call("WBCRYPTO_fpe_mac_init" if mac else "WBCRYPTO_fpe_init", tw, sc.n(tl), sc.n(radix, 32), key, blk)
    sc.ob("init succeeds", isinstance(ctx, P) and ctx.r is not None, "init returned %r" % (ctx,))
    X = [Z.digit("x%d" % i, radix) for i in range(n)]
    pre = "WBCRYPTO_" + alg

    def tag(label):
        if not mac:
            return None
        t, ln = sc.scratch("tag" + label, 16), sc.scratch("len" + label, 8)
        sc.expect_ret(label + ": finish succeeds", sc.call(pre + "_finish", ctx, t, ln), 1)
        w = sc.I.word_le(ln, 8)
        sc.ob(label + ": tag length 16", w.c == 16, "length %s" % sc.show(w))
        return sc.data(t, 16)
    x = text(sc, "x", X, radix, rw=inplace)
    y = x if inplace else sc.scratch("y", n + 1)
    sc.expect_ret("encrypt succeeds", sc.call(pre + "_encrypt", ctx, x, y), 1)
    expect_digits(sc, "encryption equals SP 800-38G", y, ALG[alg](sc, E, radix, T, X, False), radix)
    te = tag("encrypt")
    z = y if inplace else sc.scratch("z", n + 1)
    sc.expect_ret("decrypt succeeds", sc.call(pre + "_decrypt", ctx, y, z), 1)
    expect_digits(sc, "decryption returns the message", z, X, radix)
    td = tag("decrypt")
    if mac:
        sc.ob("both directions compute the same tag", None not in te and te == td, "the tags differ")
        sc.ob("the tag depends on the message and the key", any(b.c is None for b in te), "the tag is constant")
    C = [Z.digit("c%d" % i, radix) for i in range(n)]
    w = sc.scratch("w", n + 1)
    sc.expect_ret("decrypt succeeds", sc.call(pre + "_decrypt", ctx, text(sc, "c", C, radix), w), 1)
    expect_digits(sc, "decryption equals SP 800-38G", w, ALG[alg](sc, E, radix, T, C, True), radix)


def refuse(sc, alg, radix, n):
    """a character that is no numeral of the radix, anywhere: refused, output untouched"""
    bn.Ints(sc)
    Z = sc.ints
    mac = "mac" in alg
    key = sc.buf("K", 64)
    tw = sc.buf("tweak", 8)
    ctx = sc.call("WBCRYPTO_fpe_mac_init" if mac else "WBCRYPTO_fpe_init", tw, sc.n(8), sc.n(radix, 32), key, sc.block_fn("BLOCK", sc.E(), key=key))
    bad = [c for c in range(1, 256) if c not in ALPH[:radix]]
    for d in ("encrypt", "decrypt"):
        wrong = []
        for i in range(n):
            for c in bad:
                X = [Z.digit("x%d" % k, radix) for k in range(n)]
                p = text(sc, "x", X, radix)
                sc.I.wmem(p.r)[i] = W(8, c, None)
                out = sc.scratch("y", n + 1)
                v = sc.call("WBCRYPTO_%s_%s" % (alg, d), ctx, p, out)
                if not (isinstance(v, W) and v.c == 0) or any(x is not None for x in sc.data(out, n + 1)):
                    wrong.append((i, c))
        sc.ob("%s refuses every character outside the radix, at every position" % d, not wrong, "position and character accepted: %s" % wrong[:5])


def badradix(sc):
    bn.Ints(sc)
    key, tw = sc.buf("K", 64), sc.buf("tweak", 8)
    for mac in ("", "mac_"):
        acc = []
        for r in [0, 1, 37, 38, 62, 64, 255, 256, 65536, 2 ** 31, 2 ** 32 - 1]:
            v = sc.call("WBCRYPTO_fpe_%sinit" % mac, tw, sc.n(8), sc.n(r, 32), key, sc.block_fn("BLOCK", sc.E(), key=key))
            if not (isinstance(v, P) and v.r is None):
                acc.append(r)
        sc.ob("fpe_%sinit refuses a radix outside 2..36" % mac, not acc, "accepted: %s" % acc)


CIPHERS = {"sm4": "WBCRYPTO_sm4_encrypt", "aes": "WBCRYPTO_aes_encrypt", "wbsm4": "WBCRYPTO_wbsm4_encrypt", "wbaes": "WBCRYPTO_wbaes_encrypt"}


def degenerate(sc, alg):
    """a message too short to be split is refused, output untouched"""
    bn.Ints(sc)
    key, tw = sc.buf("K", 64), sc.buf("tweak", 8)
    mac = "mac_" if "mac" in alg else ""
    ctx = sc.call("WBCRYPTO_fpe_%sinit" % mac, tw, sc.n(8), sc.n(10, 32), key, sc.block_fn("BLOCK", sc.E(), key=key))
    for n in ((0, 1) if alg.startswith("ff1") else (0,)):
        for d in ("encrypt", "decrypt"):
            X = [sc.ints.digit("x%d" % k, 10) for k in range(n)]
            out = sc.scratch("y", n + 1)
            sc.expect_ret("%s refuses a message of %d characters" % (d, n), sc.call("WBCRYPTO_%s_%s" % (alg, d), ctx, text(sc, "x", X, 10), out), 0)
            sc.ob("%s leaves the output alone" % d, all(x is None for x in sc.data(out, n + 1)), "output written")


def jobs(tier, algs=("ff1", "ff3")):
    r = []
    deep = tier != "quick"

    def add(alg, radix, n, tl, *a):
        r.append(("%s radix=%d len=%d tweak=%d%s" % (alg, radix, n, tl, "".join(" in place" if x is True else " " + x for x in a if x)), run, (alg, radix, n, tl) + a, "default"))
    for alg in algs:
        fast = "gmac" not in alg
        mx = lambda radix: 2 * max(k for k in range(2, 100) if radix ** k <= 2 ** 96) if alg.startswith("ff3") else 10 ** 9
        for radix in (range(2, 37) if fast or deep else (2, 3, 8, 10, 16, 26, 36)):
            for k, n in enumerate(range(2, 41) if deep and fast else (2, 9, 16, 27) if fast else (3, 12)):
                add(alg, radix, min(n, mx(radix)), (3 * radix + 5 * k) % 23)
            if alg.startswith("ff3"):
                add(alg, radix, mx(radix), 8)
        for n in (range(2, 60) if deep else (2, 3, 4, 5, 6, 7, 8, 10, 11, 13, 15, 18, 19, 22, 25, 31, 40) if fast else (2, 4, 5, 11, 18, 19)):
            add(alg, 10, min(n, mx(10)), 8)
        for tl in (range(0, 50) if deep and fast else (0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 24, 33) if fast else (0, 1, 4, 7, 9, 15, 16, 17)):
            add(alg, 10, 7, tl)
        if alg.startswith("ff1"):
            add(alg, 10, 513, 8)
            add(alg, 2, 600, 259)
        for radix, n in ((10, 10), (36, 9), (2, 5)):
            add(alg, radix, n, 4, True)
        for c in CIPHERS:
            add(alg, 10, 6, 9, False, c)
        for radix in (range(2, 37, 1) if deep else (10, 2, 36, 16) if fast else (10, 11)):
            r.append(("%s radix=%d foreign characters" % (alg, radix), refuse, (alg, radix, 3), "default"))
        r.append(("%s short messages" % alg, degenerate, (alg,), "default"))
    r.append(("fpe radix", badradix, (), "default"))
    seen = {}
    for j in r:
        seen.setdefault(j[0], j)
    return sorted(seen.values(), key=lambda j: 0 if "foreign" in j[0] or "len=5" in j[0] else 1)


def overlong(sc, alg, radix, n):
    """FF3 beyond its maximal length: no claim about the result"""
    bn.Ints(sc)
    key, tw = sc.buf("K", 64), sc.buf("tweak", 8)
    ctx = sc.call("WBCRYPTO_fpe_mac_init" if "mac" in alg else "WBCRYPTO_fpe_init", tw, sc.n(8), sc.n(radix, 32), key, sc.block_fn("BLOCK", sc.E(), key=key))
    for d in ("encrypt", "decrypt"):
        X = [sc.ints.digit("%s%d" % (d, i), radix) for i in range(n)]
        sc.call("WBCRYPTO_%s_%s" % (alg, d), ctx, text(sc, d + "x", X, radix), sc.scratch(d + "y", n + 1))
    sc.ob("analysed", True)


def mem_jobs(tier):
    """the scenarios memory safety is decided on"""
    r = []
    for j in jobs(tier, ("ff1", "ff3", "ff1_cmac", "ff3_gmac")):
        if tier != "quick" or j[1] is not run or j[2][1] in (2, 10, 26, 36):
            r.append(j)
    for alg in ("ff3", "ff3_gmac"):
        for radix, n in ((10, 57), (10, 63), (10, 90), (36, 41), (36, 60), (2, 200), (2, 300)):
            r.append(("%s radix=%d len=%d, over its maximal length" % (alg, radix, n), overlong, (alg, radix, n), "default"))
    return r
