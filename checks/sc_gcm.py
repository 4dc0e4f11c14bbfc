"""GCM scenarios over an arbitrary (uninterpreted) block function."""
from vlib import *


CIPHERS = {"sm4": "WBCRYPTO_sm4_encrypt", "aes": "WBCRYPTO_aes_encrypt", "wbsm4": "WBCRYPTO_wbsm4_encrypt", "wbaes": "WBCRYPTO_wbaes_encrypt"}


def run(sc, ivl, al, chunks, dec, fn, inplace=False, reuse=None, taglen=16, slack=0, cipher=None):
    enc = sc.E()
    key = sc.buf("K", 64)
    blk = sc.block_fn(CIPHERS[cipher] if cipher else "BLOCK", enc, key=key)
    ctx = sc.call("WBCRYPTO_%s_gcm_init" % cipher, key) if cipher else sc.call("WBCRYPTO_gcm_init", key, blk)
    sc.ob("init succeeds", isinstance(ctx, P) and ctx.r is not None, "init returned %r" % (ctx,))
    if reuse:
        # an earlier message on the same context
        riv, ral, rml = reuse
        sc.call("WBCRYPTO_gcm_setiv", ctx, sc.buf("iv0", riv), sc.n(riv))
        if ral:
            sc.call("WBCRYPTO_gcm_aad", ctx, sc.buf("aad0", ral), sc.n(ral))
        if rml:
            sc.call("WBCRYPTO_gcm_encrypt", ctx, sc.buf("m0", rml), sc.n(rml), sc.scratch("o0", rml), sc.n(rml))
        sc.call("WBCRYPTO_gcm_finish", ctx, sc.scratch("t0", 16), sc.n(16))
    iv, aad = sc.buf("iv", ivl), sc.buf("aad", al)
    ml = sum(chunks)
    m = sc.buf("m", ml, rw=inplace)
    iv0, aad0, m0 = sc.data(iv, ivl), sc.data(aad, al), sc.data(m, ml)
    out = m if inplace else sc.scratch("out", ml)
    tag = sc.scratch("tag", taglen)
    sc.expect_ret("setiv succeeds", sc.call("WBCRYPTO_gcm_setiv", ctx, iv, sc.n(ivl)), 1)
    if al or not reuse:
        sc.expect_ret("aad succeeds", sc.call("WBCRYPTO_gcm_aad", ctx, aad, sc.n(al)), 1)
    o = 0
    for c in chunks:
        rest = ml - o if slack else c
        sc.expect_ret("data succeeds", sc.call(fn, ctx, P(m.r, o), sc.n(c), P(out.r, o), sc.n(rest)), 1)
        o += c
    sc.expect_ret("finish succeeds", sc.call("WBCRYPTO_gcm_finish", ctx, tag, sc.n(taglen)), 1)
    ro, rt = sc.S.gcm(enc, iv0, aad0, m0, dec, taglen)
    sc.expect_bytes("output equals SP 800-38D", out, ro)
    sc.expect_bytes("tag equals SP 800-38D", tag, rt)


def small(sc, fn):
    """a too small output buffer is refused and nothing is written"""
    key = sc.buf("K", 64)
    ctx = sc.call("WBCRYPTO_gcm_init", key, sc.block_fn("BLOCK", sc.E()))
    sc.call("WBCRYPTO_gcm_setiv", ctx, sc.buf("iv", 12), sc.n(12))
    out = sc.scratch("out", 19)
    sc.expect_ret("too small output refused", sc.call(fn, ctx, sc.buf("m", 20), sc.n(20), out, sc.n(19)), 0)


ENC, DEC = "WBCRYPTO_gcm_encrypt", "WBCRYPTO_gcm_decrypt"
PENC, PDEC = "WBCRYPTO_gcm_parallel_encrypt", "WBCRYPTO_gcm_parallel_decrypt"


def name(ivl, al, ch, fn, extra=""):
    return "%s iv=%d aad=%d len=%s%s" % (fn.replace("WBCRYPTO_", ""), ivl, al, "+".join(map(str, ch)), extra)


def jobs(tier):
    r = []

    def add(ivl, al, ch, dec, fn=None, **kw):
        fn = fn or (DEC if dec else ENC)
        extra = "".join(" %s=%s" % kv for kv in kw.items())
        r.append((name(ivl, al, ch, fn, extra), lambda sc, kw=kw, a=(ivl, al, ch, dec, fn): run(sc, *a, **kw), (), "default"))
    T = tier == "thorough"
    for dec in (False, True):
        for ml in ((0, 1, 15, 16, 17, 31, 32, 33, 48, 65) if not T else range(0, 82)):
            add(12, (ml * 7) % 37, (ml,), dec)
        for al in ((0, 1, 16, 32, 33) if not T else range(0, 50)):
            add(12, al, (20,), dec)
        for ivl in ((1, 8, 11, 13, 16, 32, 33) if not T else list(range(1, 50)) + [60, 64, 65]):
            add(ivl, 3, (33,) if ivl in (1, 8, 16) else (18,), dec)
        add(12, 5, (16, 32, 3), dec)
        add(12, 5, (16, 0, 16), dec, slack=1)
        add(12, 5, (16, 16, 7), dec, inplace=True)
        add(12, 5, (40,), dec, inplace=True)
        add(12, 5, (21,), dec, taglen=12)
        add(12, 5, (21,), dec, taglen=4)
        for c in CIPHERS:
            add(12, 5, (21,), dec, cipher=c)
        add(12, 7, (18,), dec, reuse=(12, 20, 35))
        add(12, 0, (18,), dec, reuse=(12, 20, 35))
        add(16, 0, (18,), dec, reuse=(7, 20, 0))
        add(12, 3, (4112 + 35,) if T else (16 * 20 + 3,), dec)
    return r


def small_jobs(tier):
    return [("too small output %s" % fn, small, (fn,), "default") for fn in (ENC, DEC)]


def parallel_jobs(tier):
    r = []
    for dec in (False, True):
        fn = PDEC if dec else PENC
        for ml in ((0, 1, 15, 16, 17, 32, 33, 48, 65, 130) if tier == "quick" else range(0, 100)):
            r.append((name(12, (ml * 7) % 37, (ml,), fn), lambda sc, a=(12, (ml * 7) % 37, (ml,), dec, fn): run(sc, *a), (), "noomp"))
        r.append((name(8, 3, (33,), fn), lambda sc, a=(8, 3, (33,), dec, fn): run(sc, *a), (), "noomp"))
        r.append((name(12, 3, (16, 20), fn), lambda sc, a=(12, 3, (16, 20), dec, fn): run(sc, *a), (), "noomp"))
        r.append((name(12, 3, (40,), fn, " in-place"), lambda sc, a=(12, 3, (40,), dec, fn): run(sc, *a, inplace=True), (), "noomp"))
        r.append((name(12, 3, (20,), fn, " reuse"), lambda sc, a=(12, 3, (20,), dec, fn): run(sc, *a, reuse=(12, 5, 20)), (), "noomp"))
        r.append(("too small output %s" % fn, small, (fn,), "noomp"))
    return r


def par(sc, a, order, kw):
    import omp
    omp.install(sc.I, threads=6, order=order)
    run(sc, *a, **kw)
    sc.ob("no two threads conflict", not sc.I.races, "; ".join(sc.I.races[:4]))
    sc.notes["regions"] = sc.I.regions_run
    sc.notes["iterations"] = sc.I.iters_seen


def omp_jobs(tier):
    r = []
    for dec in (False, True):
        fn = PDEC if dec else PENC
        for ml in ((0, 5, 16, 32, 53, 96, 130) if tier == "quick" else list(range(0, 100)) + [200]):
            for order in (1, -1):
                r.append((name(12, 5, (ml,), fn, " threads order %d" % order), par, ((12, 5, (ml,), dec, fn), order, {}), "default"))
        r.append((name(12, 3, (40,), fn, " in-place"), par, ((12, 3, (40,), dec, fn), 1, {"inplace": True}), "default"))
    return r
