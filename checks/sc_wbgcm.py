"""White-box GCM: encoded AES inside, GCM outside."""
from vlib import *
import wbmodels
from sc_wb import gen
from sc_sm4 import padded


class NoEncoding(Exception):
    pass


def encoding(sc, bits, aes):
    """bits (a function of the AES output byte aes) -> the same function of any byte"""
    U, L = sc.U, sc.lin
    if bits == aes:
        return lambda x: x
    n = len(bits)
    keys = []
    for p in bits:
        m = next(iter(p)) if len(p) == 1 else None
        v = None if m is None else U.mono[m]
        if not v or len(v) != 1:
            break
        (v,) = v
        keys.append(U.vars[v])
    else:
        for k in (8, 4):            # one permutation of the byte, or one of each nibble
            parts = []
            for b in range(0, n, k):
                ks = keys[b:b + k]
                a = ks[0][0]
                if a[0] != "perm" or len(a[3]) != k or any(x[0] != a or x[1] != i for i, x in enumerate(ks)):
                    break
                parts.append(a)
            else:
                if parts:
                    inner = encoding(sc, sum((a[3] for a in parts), ()), aes)

                    def f(x):
                        x = inner(x)
                        out = ()
                        for i, a in enumerate(parts):
                            out += wbmodels.perm(U, sc.perms, a[1], a[2], k)(sc.I, mk(x[i * k:i * k + k])).bits[:k]
                        return out
                    return f
    terms = L.decode(bits)
    ws, rest = [], (ZERO,) * n
    for w, X in terms:
        d = tuple(a ^ b for a, b in zip(X, aes))
        if not all(free(U, p) for p in d):
            raise NoEncoding()
        ws.append(w)
        rest = tuple(a ^ b for a, b in zip(rest, L.evalv(w, d, n)))
    if len(ws) != 1:
        raise NoEncoding()
    return lambda x: tuple(a ^ b for a, b in zip(L.evalv(ws[0], x, n), rest))


def free(U, p):
    """made of random numbers and constants only"""
    return all(U.vars[v][0][0] == "rand" if isinstance(U.vars[v][0], tuple) else False for m in p for v in U.mono[m])


def summarise(sc, fn, tb, key, keylen):
    """analyse the block function once, on an arbitrary block; then use what was found for every call"""
    g, o = sc.buf("G", 16), sc.scratch("o", 16)
    sc.call(fn, g, o, tb)
    aes = sc.S.aes_crypt(sc.S.aes_keys(padded(sc, key, keylen)), sc.data(g, 16))
    out = sc.data(o, 16)
    fs, bad = [], []
    for i in range(16):
        try:
            fs.append(encoding(sc, out[i].bits, aes[i].bits))
        except NoEncoding:
            bad.append(i)
    sc.ob("every byte of the block function is AES-128's under an encoding of its own", not bad, "byte %s of %s is not an encoding of the AES output byte" % (bad[:3], fn))
    if bad:
        return None
    return fs


def use(sc, fn, maps, E):
    """maps: table region -> encodings"""
    def block(I, a, ins):
        inp = [I.load(P(a[0].r, a[0].o + k, a[0].idx), 1) for k in range(16)]
        fs = maps.get(a[2].r) if isinstance(a[2], P) else None
        if fs is None:
            raise Imprecise("block function called with another key context at %s" % I.site(ins))
        e = E(inp)
        for k in range(16):
            I.store(P(a[1].r, a[1].o + k, a[1].idx), mk(fs[k](e[k].bits)), 1)
        return W(32, 1, None)
    sc.I.models[fn] = block


def message(sc, pre, tb, ivl, al, chunks, dec, inplace, reuse, taglen, tag_):
    """one message on a context; returns (iv, aad, input, output, tag)"""
    ctx = reuse or sc.call(pre + "init", tb)
    sc.ob("init succeeds", isinstance(ctx, P) and ctx.r is not None, "init returned %r" % (ctx,))
    iv, aad = sc.buf("iv" + tag_, ivl), sc.buf("aad" + tag_, al)
    ml = sum(chunks)
    m = sc.buf("m" + tag_, ml, rw=inplace)
    iv0, aad0, m0 = sc.data(iv, ivl), sc.data(aad, al), sc.data(m, ml)
    out = m if inplace else sc.scratch("out" + tag_, ml)
    tag = sc.scratch("tag" + tag_, taglen)
    sc.expect_ret("setiv succeeds", sc.call(pre + "setiv", ctx, iv, sc.n(ivl)), 1)
    if al:
        sc.expect_ret("aad succeeds", sc.call(pre + "aad", ctx, aad, sc.n(al)), 1)
    o = 0
    for c in chunks:
        sc.expect_ret("data succeeds", sc.call(pre + ("decrypt" if dec else "encrypt"), ctx, P(m.r, o), sc.n(c), P(out.r, o), sc.n(c)), 1)
        o += c
    sc.expect_ret("finish succeeds", sc.call(pre + "finish", ctx, tag, sc.n(taglen)), 1)
    return ctx, iv0, aad0, m0, out, tag


def ee(sc, keylen, shapes):
    wbmodels.install(sc)
    tb = sc.scratch("tables", 8 << 20)
    key = sc.buf("key", keylen)
    pre = "WBCRYPTO_wbaes_wbgcm_ee_"
    gen(sc, pre + "gen_table", tb, key, sc.n(keylen))
    fn = "aux_WBCRYPTO_wbaes_wbgcm_ee_encrypt"
    fs = summarise(sc, fn, tb, key, keylen)
    if fs is None:
        return
    E = sc.E()
    use(sc, fn, {tb.r: fs}, E)
    ctx = None
    for n, (ivl, al, chunks, dec, kw) in enumerate(shapes):
        tl = kw.get("taglen", 16)
        ctx, iv, aad, m, out, tag = message(sc, pre, tb, ivl, al, chunks, dec, kw.get("inplace"), ctx if kw.get("reuse") else None, tl, str(n))
        ro, rt = sc.S.gcm(E, iv, aad, m, dec, tl)
        what = "%s iv=%d aad=%d len=%s%s" % ("decrypt" if dec else "encrypt", ivl, al, "+".join(map(str, chunks)), "".join(" %s" % k for k in kw))
        sc.expect_bytes(what + ": output equals SP 800-38D", out, ro)
        sc.expect_bytes(what + ": tag equals SP 800-38D", tag, rt)
    small = sc.scratch("small", 19)
    for d in ("encrypt", "decrypt"):
        sc.expect_ret("%s: too small output refused" % d, sc.call(pre + d, ctx, sc.buf("big" + d, 20), sc.n(20), small, sc.n(19)), 0)


def place(sc, name, data):
    b = sc.scratch(name, len(data))
    sc.putbytes(b, data)
    return b


def mask(sc, keylen, shapes):
    """the two contexts generated together; the ciphertext is GCM's with a fixed linear map on every byte position"""
    wbmodels.install(sc)
    pre = "WBCRYPTO_wbaes_wbgcm_mask_"
    tbs = [sc.call(pre + "init_table") for _ in range(2)]
    key = sc.buf("key", keylen)
    gen(sc, pre + "gen_table", tbs[0], tbs[1], key, sc.n(keylen))
    fn = "aux_WBCRYPTO_wbaes_wbgcm_mask_encrypt"
    fs = [summarise(sc, fn, t, key, keylen) for t in tbs]
    if None in fs:
        return
    E = sc.E()
    use(sc, fn, {t.r: f for t, f in zip(tbs, fs)}, E)
    S = sc.S
    ectx = dctx = None
    for n, (ivl, al, chunks, inplace, reuse, tl) in enumerate(shapes):
        what = "iv=%d aad=%d len=%s%s%s" % (ivl, al, "+".join(map(str, chunks)), " in-place" if inplace else "", " reuse" if reuse else "")
        ectx, iv, aad, m, out, tag = message(sc, pre, tbs[0], ivl, al, chunks, False, inplace, ectx if reuse else None, tl, str(n))
        ml = len(m)
        ct = sc.data(out, ml)
        # the tag is GCM's over the ciphertext as emitted
        rt = S.gcm(E, iv, aad, ct, True, tl)[1]
        sc.expect_bytes(what + ": tag is the GCM tag of the ciphertext", tag, rt)
        # the decryption context inverts and agrees on the tag
        ctx = (dctx if reuse else None) or sc.call(pre + "init", tbs[1])
        dctx = ctx
        sc.expect_ret("setiv succeeds", sc.call(pre + "setiv", ctx, place(sc, "ivd%d" % n, iv), sc.n(ivl)), 1)
        if al:
            sc.expect_ret("aad succeeds", sc.call(pre + "aad", ctx, place(sc, "aadd%d" % n, aad), sc.n(al)), 1)
        o = 0
        back = out if inplace else sc.scratch("back%d" % n, ml)
        for c in chunks:
            sc.expect_ret("data succeeds", sc.call(pre + "decrypt", ctx, P(out.r, out.o + o), sc.n(c), P(back.r, back.o + o), sc.n(c)), 1)
            o += c
        tag2 = sc.scratch("tagd%d" % n, tl)
        sc.expect_ret("finish succeeds", sc.call(pre + "finish", ctx, tag2, sc.n(tl)), 1)
        sc.expect_bytes(what + ": decryption returns the message", back, m)
        sc.expect_bytes(what + ": decryption computes the same tag", tag2, rt)
        # every ciphertext byte is an encoding of GCM's: inverted above, and a function of nothing else
        ro = S.gcm(E, iv, aad, m, False, tl)[0]
        bad = []
        for i in range(ml):
            try:
                encoding(sc, ct[i].bits, ro[i].bits)
            except NoEncoding:
                bad.append(i)
        sc.ob(what + ": every ciphertext byte is an encoding of GCM's ciphertext byte", not bad, "byte %s is not" % bad[:4])
    small = sc.scratch("small", 19)
    for d, c in (("encrypt", ectx), ("decrypt", dctx)):
        sc.expect_ret("%s: too small output refused" % d, sc.call(pre + d, c, sc.buf("big" + d, 20), sc.n(20), small, sc.n(19)), 0)


MSHAPES = [
    [(12, 0, (16,), False, False, 16), (12, 5, (33,), False, True, 16), (8, 17, (20,), False, True, 12), (12, 0, (), False, False, 16)],
    [(12, 20, (16, 16, 5), False, False, 16), (16, 3, (18,), False, True, 16), (12, 16, (40,), True, False, 16), (12, 3, (0,), False, False, 4)],
]


def mask_jobs(tier):
    return [("white-box GCM (mask) key=%d, messages %d" % (k, i), mask, (k, s), "default") for i, (k, s) in enumerate(zip((16, 5), MSHAPES))]


SHAPES = [
    [(12, 0, (16,), False, {}), (12, 5, (33,), True, {"reuse": 1}), (8, 17, (20,), False, {"reuse": 1}), (12, 0, (), False, {}), (12, 3, (0,), True, {})],
    [(12, 20, (16, 16, 5), False, {}), (16, 3, (18,), True, {}), (12, 16, (40,), False, {"inplace": 1}), (33, 0, (1,), False, {"reuse": 1}), (12, 9, (21,), True, {"taglen": 12})],
    [(12, 20, (16, 5), True, {}), (12, 1, (48,), True, {"inplace": 1}), (1, 3, (31,), False, {}), (12, 32, (15,), False, {"taglen": 4}), (13, 0, (32,), True, {"reuse": 1})],
]


def ee_jobs(tier):
    return [("white-box GCM (ee) key=%d, messages %d" % (k, i), ee, (k, s), "default") for i, (k, s) in enumerate(zip((16, 5, 20), SHAPES))]
