"""FPE applications: phone numbers, identity card numbers, Chinese text."""
from vlib import *
import itertools
import bn
from sc_fpe import ALPH, ALG, CIPHERS, text, be

INITKEY = {"sm4": "init_key", "aes": "init_key", "wbsm4": "gen_table", "wbaes": "gen_table"}


def ctype(I):
    """the C locale's character classes, as <ctype.h> expands to"""
    tab = P(I.region("ctype", "global", 768, ro=True), 256)
    up, lo, al, di, xd, sp, pr, gr, bl, cn, pu, an = (1 << (k + 8 if k < 8 else k - 8) for k in range(12))
    for c in range(-128, 256):
        v = 0
        ch = chr(c) if 0 <= c < 128 else ""
        if ch:
            v = (up * ("A" <= ch <= "Z") | lo * ("a" <= ch <= "z") | al * (ch.isalpha()) | di * ("0" <= ch <= "9") | xd * (ch in "0123456789abcdefABCDEF") |
                 sp * (ch in " \t\n\v\f\r") | pr * (32 <= c < 127) | gr * (32 < c < 127) | bl * (ch in " \t") | cn * (c < 32 or c == 127) | pu * (32 < c < 127 and not ch.isalnum()) | an * ch.isalnum())
        I.wmem(tab.r)[256 + 2 * c] = W(8, v & 255, None)
        I.wmem(tab.r)[257 + 2 * c] = W(8, v >> 8, None)
    hold = P(I.region("ctype_b", "global", 8), 0)
    I.store(hold, tab, 8)
    I.models["__ctype_b_loc"] = lambda I, a, ins: hold

    def cls(lo, hi):
        def h(I, a, ins):
            U = I.U
            c = a[0]
            x = U.ult(c, W(32, lo, None), True)
            y = U.ult(W(32, hi, None), c, True)
            r = U.ite(x, bn.ZERO, U.ite(y, bn.ZERO, bn.ONE)) if hasattr(U, "ite") else None
            return U.select(r, W(32, 1, None), W(32, 0, None))
        return h
    for n, a, b in (("isdigit", 48, 57), ("isupper", 65, 90), ("islower", 97, 122)):
        I.models[n] = cls(a, b)
    I.models["printf"] = lambda I, a, ins: W(32, 0, None)
    I.models["puts"] = I.models["putchar"] = I.models["fprintf"] = I.models["fflush"] = I.models["printf"]


def app(sc, cipher, ffx, keylen, fail=None, only=False):
    """an initialised application context; the cipher is an uninterpreted function of the block, bound to the key it was given"""
    bn.Ints(sc)
    ctype(sc.I)
    key = sc.buf("key", keylen)
    K = sc.data(key, keylen)
    want = K[:16] if keylen >= 16 else K + be(16 - keylen, 1) * (16 - keylen)
    real = cipher if cipher in CIPHERS else "aes"
    seen = []

    def no(name):
        def h(I, a, ins):
            raise Imprecise("the application uses %s at %s" % (name, I.site(ins)))
        return h
    for c in CIPHERS:
        for f in ("context_init", INITKEY[c], "encrypt", "decrypt"):
            sc.I.models["WBCRYPTO_%s_%s" % (c, f)] = no("WBCRYPTO_%s_%s for cipher %s" % (c, f, cipher))
    cctx = P(sc.I.region("cipher context", "heap", 64), 0)
    args = []

    def init(I, a, ins):
        args.append([x.c for x in a])
        if only and sc.faults.now("context", ins):
            return P(None)
        return cctx

    def setkey(I, a, ins):
        n = a[2].c
        b = [I.load(P(a[1].r, a[1].o + k, a[1].idx), 1) for k in range(min(n, 16))]
        b = b if n >= 16 else b + be(16 - n, 1) * (16 - n)
        seen.append(isinstance(a[0], P) and a[0] == cctx and b == want)
        return W(32, int(not (only and sc.faults.now("key", ins))), None)
    sc.I.models["WBCRYPTO_%s_context_init" % real] = init
    sc.I.models["WBCRYPTO_%s_%s" % (real, INITKEY[real])] = setkey
    E = sc.E()
    sc.block_fn("WBCRYPTO_%s_encrypt" % real, E, key=cctx, fail=fail)
    ctx = sc.scratch("app", 24)
    if only:
        return sc.call("WBCRYPTO_fpe_app_init", ctx, key, sc.n(keylen), sc.cstr(cipher), sc.cstr(ffx))
    sc.expect_ret("initialisation succeeds", sc.call("WBCRYPTO_fpe_app_init", ctx, key, sc.n(keylen), sc.cstr(cipher), sc.cstr(ffx)), 1)
    sc.ob("the cipher is %s, keyed once with the key completed to 16 bytes" % real, seen == [True], "key set-up calls: %s" % seen)
    if real == "wbsm4":
        sc.ob("the white-box tables are for encryption", bool(args) and all(a[0] == 1 for a in args), "made for mode %s" % args)
    return ctx, E, "ff1" if ffx == "ff1" else "ff3"


def char(sc, t):
    """the character of a digit form"""
    if not t.t:
        return W(8, ALPH[t.c], None)
    w = sc.ints.word(t, 8)
    g = sc.U.dep(w.bits)
    return sc.U.fromtable(g, [ALPH[x] for x in range(sc.U.groups[g][1] + 1)], 8)


def kept(sc, name):
    """any printable character"""
    t = sc.ints.digit(name, 95)
    w = sc.ints.word(t, 8)
    return sc.U.fromtable(sc.U.dep(w.bits), list(range(32, 127)), 8)


def fullcall(sc, fn, ctx, src, dst, sample):
    if sample is None:
        return sc.call(fn, ctx, src, dst)
    return sc.call(fn + "_with_sample", ctx, src, dst, sc.cstr(sample))


def number(sc, kind, cipher, ffx, n, sample, tail="", keylen=16, inplace=False):
    """phone and identity card numbers"""
    ctx, E, alg = app(sc, cipher, ffx, keylen)
    Z = sc.ints
    star = [i for i in range(n) if sample is None or sample[i] == "*"]
    end = [W(8, ord(c), None) for c in tail]
    for d in ("encrypt", "decrypt"):
        D = {i: Z.digit("%s%d" % (d[0], i), 10) for i in star}
        chars = [char(sc, D[i]) if i in D else kept(sc, "%sk%d" % (d[0], i)) for i in range(n)]
        if tail == "" and kind == "idcard" and n - 1 not in D:
            chars[n - 1] = char(sc, Z.digit("%slast" % d[0], 10))
        src = sc.buf(d + "in", n + len(end) + 1, rw=inplace)
        sc.putbytes(src, chars + end + [W(8, 0, None)])
        dst = src if inplace else sc.scratch(d + "out", n + len(end) + 1)
        fn = "WBCRYPTO_fpe_%s_%s" % (d, kind)
        sc.expect_ret(fn + " succeeds", fullcall(sc, fn, ctx, src, dst, sample), 1)
        T = [chars[i] for i in range(n) if i not in D] + be(0, 1)
        Y = ALG[alg](sc, E, 10, T, [D[i] for i in star], d == "decrypt")
        want = list(chars)
        for i, y in zip(star, Y):
            want[i] = char(sc, y)
        sc.expect_bytes("%s: %s over the free digits with the kept characters as tweak; kept characters in place" % (fn, alg), dst, want + end + [W(8, 0, None)])
        if d == "encrypt":
            sc.ob("the definition is inverted by decryption", ALG[alg](sc, E, 10, T, Y, True) == [D[i] for i in star], "not inverse")


RANGES = [(0, 0), (1, 11), (12, 143), (144, 1727), (1728, 20735)]


def cn(sc, cipher, ffx, n, sample, parts):
    """Chinese text: n characters of U+4E00..U+9EFF, each of its range of RANGES"""
    ctx, E, alg = app(sc, cipher, ffx, 16)
    Z, U = sc.ints, sc.U
    star, i = [], 0
    if sample is None:
        star = list(range(n))
    else:
        for c in sample:
            if c == "*":
                star.append(i)
            i += 1
        assert i == n

    def utf8(t):
        w = Z.word(t, 16)
        b = w.bits if w.c is None else tuple(bn.ONE if w.c >> k & 1 else bn.ZERO for k in range(16))
        one, zero = bn.ONE, bn.ZERO
        return [mk(b[12:16] + (zero, one, one, one)), mk(b[6:12] + (zero, one)), mk(b[:6] + (zero, one))]

    for d in ("encrypt", "decrypt"):
        v = []
        for k in range(n):
            lo, hi = RANGES[parts[k % len(parts)]]
            v.append(Z.const(lo) if lo == hi else Z.atom(("cn", d, k), lo, hi))
        chars = [utf8(Z.comb(((1, x),), 0x4E00)) for x in v]
        src = sc.buf(d + "in", 3 * n + 1)
        sc.putbytes(src, sum(chars, []) + [W(8, 0, None)])
        dst = sc.scratch(d + "out", 3 * n + 1)
        fn = "WBCRYPTO_fpe_%s_cn_utf8" % d
        sc.expect_ret(fn + " succeeds", fullcall(sc, fn, ctx, src, dst, sample), 1)

        def duo(x):
            r = []
            for _ in range(4):
                x, q = Z.divmod(x, 12)
                r.append(q)
            return r
        T = [char(sc, q) for k in range(n) if k not in star for q in duo(v[k])] + be(0, 1)
        X = [q for k in star for q in duo(v[k])]
        Y = ALG[alg](sc, E, 12, T, X, d == "decrypt")
        want = list(chars)
        for j, k in enumerate(star):
            want[k] = utf8(Z.comb([(12 ** q, Y[4 * j + q]) for q in range(4)], 0x4E00))
        sc.expect_bytes("%s: %s over the free characters' base-12 digits with the kept ones as tweak; kept characters in place" % (fn, alg), dst, sum(want, []) + [W(8, 0, None)])
        if d == "encrypt":
            F = [Z.digit("f%d" % k, 12) for k in range(len(X))]
            sc.ob("the definition is inverted by decryption", ALG[alg](sc, E, 12, T, ALG[alg](sc, E, 12, T, F, False), True) == F, "not inverse")


def refused(sc, kind):
    """what cannot be encrypted is refused and the output left alone"""
    ctx, E, alg = app(sc, "sm4", "ff1", 16)
    Z = sc.ints
    for d in ("encrypt", "decrypt"):
        fn = "WBCRYPTO_fpe_%s_%s" % (d, kind)

        def probe(label, bs, sample):
            src = sc.buf("in", len(bs) + 1)
            sc.putbytes(src, bs + [W(8, 0, None)])
            dst = sc.scratch("out", len(bs) + 1)
            sc.expect_ret("%s refuses %s" % (fn, label), fullcall(sc, fn, ctx, src, dst, sample), 0)
            sc.ob("%s: output untouched after %s" % (fn, label), all(x is None for x in sc.data(dst, len(bs) + 1)), "output written")
        if kind == "cn_utf8":
            ok = [W(8, c, None) for c in "\u4e2d\u6587".encode()]
            for cp in (0x4DFF, 0x9F00, 0x9FFF, 0x3000, 0x0800, 0xFFFD):
                bad = [W(8, c, None) for c in chr(cp).encode()]
                probe("U+%04X" % cp, ok + bad, None)
                probe("U+%04X where the sample keeps it" % cp, ok + bad, "**\u4e2d")
                probe("U+%04X where the sample has *" % cp, bad + ok, "*\u4e2d*")
            for pos in range(3):
                for v in [h << 4 | x for h in range(16) for x in (4, 9)] if pos == 0 else [h << 6 | x for h in range(4) for x in (1, 45, 56, 63)]:
                    b = bytearray("\u4e2d".encode())
                    b[pos] = v
                    if not (b[0] >> 4 == 14 and b[1] >> 6 == 2 and b[2] >> 6 == 2 and 0x4E00 <= ((b[0] & 15) << 12 | (b[1] & 63) << 6 | b[2] & 63) <= 0x9EFF):
                        for sample in (None, "\u4e2d*\u4e2d"):
                            probe("a character with the bytes %s%s" % (b.hex(), " where the sample keeps it" if sample else ""), ok[:3] + [W(8, c, None) for c in b][:3] + ok[3:] if sample is None else [W(8, c, None) for c in b] + ok, sample)
            for bs in (b"Dxx", b"ExyGyz", b"a", b"ab", b"\xe4", b"\xe4\xb8", b"\xf0\x9f\x98\x80"):
                w = [W(8, c, None) for c in bs]
                probe("%r" % bs, w, None)
                probe("Chinese followed by %r" % bs, ok + w, None)
                probe("Chinese after %r" % bs, w + ok, None)
                probe("Chinese followed by %r, under a sample" % bs, ok + w, "*\u4e2d")
            probe("a sample that is too short", ok, "*")
            probe("a sample that is too long", ok, "***")
            probe("a sample that keeps too much", ok, "*\u4e2d\u4e2d")
        else:
            n = 11
            D = [char(sc, Z.digit("%s%d" % (d, i), 10)) for i in range(n)]
            for i in range(n):
                for c in "a/:-xX" if not (kind == "idcard" and i == n - 1) else "a/:-x":
                    probe("%r at position %d" % (c, i), D[:i] + [W(8, ord(c), None)] + D[i + 1:], None)
            probe("a foreign character under a star", D[:4] + [W(8, 45, None)] + D[5:], "138****8888")
            for k in range(1, n):
                probe("a sample of %d characters" % k, D, "1*****8888"[:k])
                if kind == "idcard":
                    probe("a sample of %d characters for %d digits and an X" % (k, n), D + [W(8, 88, None)], "1*****8888"[:k])
            probe("an empty number", [], None)


def jobs(tier):
    r = []
    deep = tier != "quick"

    def num(kind, cipher, ffx, n, sample, tail="", keylen=16, inplace=False):
        r.append(("%s %s %s %d%s sample=%s key=%d%s" % (kind, cipher, ffx, n, tail, sample, keylen, " in place" if inplace else ""), number, (kind, cipher, ffx, n, sample, tail, keylen, inplace), "default"))
    for c in list(CIPHERS) + ["", "des"]:
        for f in ("ff1", "ff3", "", "ff2"):
            if c in CIPHERS or f in ("ff1", "ff3"):
                num("phone", c, f, 11, "138****8888")
                num("idcard", c, f, 18, "4412**********1234")
                r.append(("cn_utf8 %s %s" % (c, f), cn, (c, f, 3, "*\u4e2d*", (4, 2, 3)), "default"))
    for f in ("ff1", "ff3"):
        for k in (0, 1, 7, 15, 17, 32):
            num("phone", "aes", f, 6, None, keylen=k)
        for n, s in ((11, None), (11, "***********"), (11, "*******8888"), (11, "1388888****"), (11, "*3*8*8*8*8*"), (8, "**345678"), (13, "+86138****888"), (20, None), (11, "138****8888999"), (12, "0-********-9")):
            num("phone", "sm4", f, n, s)
            num("phone", "sm4", f, n, s, inplace=True)
        for n, s, t in ((18, None, ""), (17, None, "X"), (17, "4412*************", "X"), (17, "4412*************X", "X"), (17, "4412**********123*", "X"), (18, "******************", ""), (15, "******810101***", ""), (18, "44****19900101****", ""), (5, None, "X"), (14, "44************", "X"), (20, "*" * 19 + "1", "X")):
            num("idcard", "sm4", f, n, s, t)
            num("idcard", "sm4", f, n, s, t, inplace=True)
        for p in range(5):
            for q in range(5):
                r.append(("cn_utf8 %s ranges %d%d" % (f, p, q), cn, ("sm4", f, 2, None, (p, q)), "default"))
                r.append(("cn_utf8 %s ranges %d%d sample" % (f, p, q), cn, ("sm4", f, 2, "*\u4e00", (p, q)), "default"))
                r.append(("cn_utf8 %s ranges %d%d sample" % (f, q, p), cn, ("sm4", f, 2, "\u9eff*", (q, p)), "default"))
        for k, s in enumerate((None, "****", "*\u6587\u4e2d*", "\u4e2d***", "***\u4e2d", "\u4e2d*\u4e2d*")):
            r.append(("cn_utf8 %s 4 sample=%s" % (f, s), cn, ("sm4", f, 4, s, ((k + 1) % 5, k % 5, 4, 3)), "default"))
        r.append(("cn_utf8 %s 1" % f, cn, ("sm4", f, 1, None, (4,)), "default"))
        r.append(("cn_utf8 %s 12" % f, cn, ("sm4", f, 12 if f == "ff1" else 6, None, (4, 3, 4)), "default"))
    for kind in ("phone", "idcard", "cn_utf8"):
        r.append(("%s refusals" % kind, refused, (kind,), "default"))
    seen = {}
    for j in r:
        seen.setdefault(j[0], j)
    return list(seen.values())
