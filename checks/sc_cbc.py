"""CBC scenarios: generic interface over an arbitrary permutation, and the four ciphers' own interfaces."""
from vlib import *
from envmodels import Cipher, block_model, install_aes
from sc_sm4 import padded


def setup(sc, alg):
    """-> (ctx, enc(bytes), dec(bytes) or None, encrypt fn name + trailing args, decrypt ...)"""
    if alg == "generic":
        C = Cipher(sc, "E")
        key = sc.buf("K", 64)
        be = sc.block_fn("BLOCKE", lambda b: C.enc("K", b), key=key)
        bd = sc.block_fn("BLOCKD", lambda b: C.dec("K", b), key=key)
        enc = lambda b: C.enc("K", b)
        dec = lambda b: C.dec("K", b)
        return enc, dec, (lambda i, n, o, m, u, iv: sc.call("WBCRYPTO_cbc128_encrypt", i, n, o, m, u, key, iv, be)), \
            (lambda i, n, o, m, u, iv: sc.call("WBCRYPTO_cbc128_decrypt", i, n, o, m, u, key, iv, bd))
    if alg == "sm4":
        ctx = sc.call("WBCRYPTO_sm4_context_init")
        key = sc.buf("key", 16)
        sc.call("WBCRYPTO_sm4_init_key", ctx, key, sc.n(16))
        rk = sc.S.sm4_keys(sc.data(key, 16))
        sc.freeze(ctx)
        inv = {}

        def enc(b):
            o = sc.S.sm4_crypt(rk, b)
            return o

        def dec(b):
            return sc.S.sm4_crypt(rk, b, dec=True)
    elif alg == "aes":
        C = install_aes(sc)
        ctx = sc.call("WBCRYPTO_aes_context_init")
        key = sc.buf("key", 16)
        sc.call("WBCRYPTO_aes_init_key", ctx, key, sc.n(16))
        kb = tuple(b.bits for b in sc.data(key, 16))
        sc.freeze(ctx)
        enc = lambda b: C.enc(kb, b)
        dec = lambda b: C.dec(kb, b)
    else:
        # white-box ciphers: the public block functions stay uninterpreted
        C = Cipher(sc, alg)
        ctx = sc.buf("ctx", None)
        enc = lambda b: C.enc("K", b)
        dec = lambda b: C.dec("K", b)
        if alg == "wbsm4":
            # one context per direction
            block_model(sc, "WBCRYPTO_wbsm4_encrypt", enc, ctx, "wbsm4 encryption")
            block_model(sc, "WBCRYPTO_wbsm4_decrypt", dec, ctx, "wbsm4 decryption")
        else:
            block_model(sc, "WBCRYPTO_wbaes_encrypt", enc, ctx, "wbaes encryption")
            dec = None
    E = lambda i, n, o, m, u, iv: sc.call("WBCRYPTO_%s_cbc_encrypt" % alg, i, n, o, m, u, ctx, iv)
    D = (lambda i, n, o, m, u, iv: sc.call("WBCRYPTO_%s_cbc_decrypt" % alg, i, n, o, m, u, ctx, iv)) if alg != "wbaes" else None
    return enc, dec, E, D


def pad(sc, bs):
    n = len(bs)
    r = -n % 16
    return bs + [W(8, r, None)] * r


def xor(sc, a, b):
    return [sc.U.xor(x, y) for x, y in zip(a, b)]


def ref_enc(sc, enc, iv, bs):
    out, prev = [], iv
    bs = pad(sc, bs)
    for k in range(0, len(bs), 16):
        prev = enc(xor(sc, bs[k:k + 16], prev))
        out += prev
    return out


def ref_dec(sc, dec, iv, bs):
    out, prev = [], iv
    for k in range(0, len(bs), 16):
        c = bs[k:k + 16]
        out += xor(sc, dec(c), prev)
        prev = c
    return out


def rd_len(sc, u):
    return sc.I.word_le(u, 8) if sc.I.read(u, 1)[0] is not None else None


def encrypt(sc, alg, n, slack=0, inplace=False, back=True, lastbit=(), last=None):
    enc, dec, E, D = setup(sc, alg)
    pn = n + (-n % 16)
    m = sc.buf("m", pn if inplace else n, rw=inplace)
    if lastbit:
        # the last message byte cannot be mistaken for padding
        b = list(sc.data(m, n)[n - 1].bits)
        for k in lastbit:
            b[k] = ONE
        sc.putbytes(P(m.r, n - 1), [mk(tuple(b))])
    if last is not None:
        sc.putbytes(P(m.r, n - 1), [W(8, last, None)])
    iv = sc.buf("iv", 16)
    m0, iv0 = sc.data(m, n), sc.data(iv, 16)
    out = m if inplace else sc.scratch("out", pn + slack)
    u = sc.scratch("olen", 8)
    sc.expect_ret("encrypt succeeds", E(m, sc.n(n), out, sc.n(pn + slack), u, iv), 1)
    w = rd_len(sc, u)
    sc.ob("the reported ciphertext length is the padded length", w is not None and w.c == pn, "reported %s, expected %d" % (sc.show(w), pn))
    ref = ref_enc(sc, enc, iv0, m0)
    sc.expect_bytes("ciphertext equals SP 800-38A CBC over the padded message", out, ref)
    if alg == "generic" or D is None or not back:
        return
    iv2 = sc.scratch("iv2", 16)
    sc.putbytes(iv2, iv0)
    pt = out if inplace else sc.scratch("pt", pn)
    u2 = sc.scratch("plen", 8)
    sc.expect_ret("decrypt succeeds", D(out, sc.n(pn), pt, sc.n(pn), u2, iv2), 1)
    sc.expect_bytes("decryption returns the message", pt, m0)
    w = rd_len(sc, u2)
    if last is not None and w is not None and 0 < last <= 16 and w.c == n - last:
        sc.ob("decryption reports the message length", False, "the last byte %d of a message that fills its blocks is taken for padding: reported %d, expected %d" % (last, w.c, n))
    else:
        sc.ob("decryption reports the message length", w is not None and w.c == n, "reported %s, expected %d" % (sc.show(w), n))


def decrypt(sc, alg, n, inplace=False):
    enc, dec, E, D = setup(sc, alg)
    c = sc.buf("c", n, rw=inplace)
    iv = sc.buf("iv", 16, rw=True)
    c0, iv0 = sc.data(c, n), sc.data(iv, 16)
    out = c if inplace else sc.scratch("out", n)
    u = sc.scratch("plen", 8)
    sc.expect_ret("decrypt succeeds", D(c, sc.n(n), out, sc.n(n), u, iv), 1)
    sc.expect_bytes("plaintext equals SP 800-38A CBC", out, ref_dec(sc, dec, iv0, c0))


def refuse(sc, alg, n, room, d):
    enc, dec, E, D = setup(sc, alg)
    f = D if d else E
    out = sc.scratch("out", room)
    wrote = []
    sc.expect_ret("refused", f(sc.buf("m", n), sc.n(n), out, sc.n(room), sc.scratch("olen", 8), sc.buf("iv", 16, rw=True)), 0)
    sc.ob("nothing is written on refusal", not sc.I.mem[out.r], "%d bytes written" % len(sc.I.mem[out.r]))


def jobs(tier):
    r = []
    T = tier == "thorough"

    def add(nm, fn, *a, **kw):
        r.append((nm, lambda sc: fn(sc, *a, **kw), (), "default"))
    for n in (range(0, 70) if T else (0, 1, 7, 8, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49)):
        add("cbc generic encrypt n=%d" % n, encrypt, "generic", n)
        add("cbc generic encrypt in-place n=%d" % n, encrypt, "generic", n, inplace=True)
        if n % 16 == 0:
            add("cbc generic decrypt n=%d" % n, decrypt, "generic", n)
            add("cbc generic decrypt in-place n=%d" % n, decrypt, "generic", n, inplace=True)
    add("cbc generic encrypt n=20 into a larger buffer", encrypt, "generic", 20, slack=9)
    for alg in ("aes", "wbsm4", "wbaes"):
        for n in (range(0, 50) if T else list(range(0, 16)) + [17, 23, 31, 33]):
            if n % 16 == 0 and n:
                continue
            add("cbc %s round trip n=%d" % (alg, n), encrypt, alg, n)
            add("cbc %s round trip in-place n=%d" % (alg, n), encrypt, alg, n, inplace=True)
        for n in ((16, 32, 48, 64) if T else (16, 32)):
            for v in range(17):
                add("cbc %s round trip n=%d, last byte %d" % (alg, n, v), encrypt, alg, n, last=v)
            for bits in ((7,), (6,), (5,), (4, 0), (4, 1), (4, 2), (4, 3)):
                # together: every last byte above 16
                add("cbc %s round trip n=%d, bits %s of the last byte set" % (alg, n, bits), encrypt, alg, n, lastbit=bits)
        if alg != "wbaes":
            for n in (16, 48):
                add("cbc %s decrypt n=%d" % (alg, n), decrypt, alg, n)
                add("cbc %s decrypt in-place n=%d" % (alg, n), decrypt, alg, n, inplace=True)
    for n in (5, 16, 20):
        add("cbc sm4 n=%d" % n, encrypt, "sm4", n, back=n < 16)
    add("cbc sm4 decrypt n=16", decrypt, "sm4", 16)
    if T:
        add("cbc sm4 decrypt n=32", decrypt, "sm4", 32)
    for alg in ("generic", "aes", "wbsm4", "wbaes", "sm4"):
        for n, room in ((16, 15), (17, 31), (1, 1), (20, 20), (33, 33)):
            add("cbc %s encrypt n=%d into %d bytes" % (alg, n, room), refuse, alg, n, room, False)
        if alg != "wbaes":
            for n, room in ((16, 15), (32, 31), (17, 32), (15, 32)):
                add("cbc %s decrypt n=%d into %d bytes" % (alg, n, room), refuse, alg, n, room, True)
    return r
