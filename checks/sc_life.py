"""Life cycles: every free function erases the key-dependent bytes of what it
releases, releases all of it exactly once, and accepts NULL."""
from vlib import *
from envmodels import Cipher, install_aes, install_faults, FS
from absint import m_free
from sc_fault import quiet_random


def watch(sc):
    """every block a free function releases must hold no data-dependent byte"""
    I = sc.I
    sc.released = 0
    sc.watching = False

    def free(I, a, ins):
        p = a[0]
        if sc.watching and isinstance(p, P) and p.r is not None and p.r.kind == "heap" and p.o == 0 and p.r not in I.freed:
            sc.released += 1
            left = [k for k, v in I.mem[p.r].items() if isinstance(v, W) and v.c is None]
            if left:
                k = min(left)
                sc.ob("%s holds no key-dependent data when released" % p.r.name, False,
                      "%d bytes not erased (first: offset %d, written at %s), released at %s" % (len(left), k, sc.writer(p.r, k), I.site(ins)))
        return m_free(I, a, ins)
    I.models["free"] = free


def soil(sc):
    """key-dependent data in every byte a context may use for it"""
    w = sc.U.watom(("secret",), 8)
    sc.watching = True
    for r in list(sc.I.mem):
        if r.kind == "heap" and r not in sc.I.freed:
            m = sc.I.wmem(r)
            for k in range(r.size):
                if not isinstance(m.get(k), tuple) and not (isinstance(m.get(k), W) and m[k].c is not None and k in keep(sc, r)):
                    m[k] = w


def keep(sc, r):
    return getattr(sc, "keepbytes", {}).get(r, ())


def live(sc):
    return [r for r in sc.I.mem if r.kind == "heap" and r not in sc.I.freed]


def done(sc, least=1):
    l = live(sc)
    sc.ob("everything is released", not l, "%d blocks stay allocated, e.g. %s from %s" % (len(l), l[0].name if l else "", l[0].site if l else ""))
    sc.ob("something was released", sc.released >= least, "only %d blocks were released" % sc.released)


def flat(sc, alg, use):
    """contexts that are one block"""
    install_aes(sc)
    quiet_random(sc)
    watch(sc)
    ctx = sc.call("WBCRYPTO_%s_context_init" % alg, *([sc.n(1, 32)] if alg == "se_wbsm4" else []))
    if use:
        sc.expect_ret("key is set", sc.call("WBCRYPTO_%s_init_key" % alg, ctx, sc.buf("key", use), sc.n(use)), 1)
        sc.call("WBCRYPTO_%s_encrypt" % alg, sc.buf("m", 16), sc.scratch("c", 16), ctx)
    soil(sc)
    sc.call("WBCRYPTO_%s_context_free" % alg, ctx)
    done(sc)


def wbsm4(sc, dummies):
    watch(sc)
    ctx = sc.call("WBCRYPTO_wbsm4_context_init", sc.n(1, 32), sc.n(dummies, 32))
    # the round counts are no secret and steer the release
    sc.keepbytes = {ctx.r: {k for k, v in sc.I.mem[ctx.r].items() if isinstance(v, W) and v.c is not None}}
    soil(sc)
    sc.call("WBCRYPTO_wbsm4_context_free", ctx)
    done(sc, 32 * 4 * 6)


def gcm(sc, what, n):
    watch(sc)
    key, blk = sc.buf("K", 64), sc.block_fn("BLOCK", sc.E())
    ctx = sc.call("WBCRYPTO_%s_init" % what, key, blk)
    pre = "WBCRYPTO_%s" % what
    sc.call(pre + "_setiv", ctx, sc.buf("iv", 12), sc.n(12))
    sc.call(pre + "_aad", ctx, sc.buf("aad", 5), sc.n(5))
    if what == "gcm" and n:
        sc.call(pre + "_encrypt", ctx, sc.buf("m", n), sc.n(n), sc.scratch("c", n), sc.n(n))
        sc.call(pre + "_finish", ctx, sc.scratch("t", 16), sc.n(16))
    soil(sc)
    sc.call(pre + "_free", ctx)
    done(sc)


def wbgcm(sc, kind):
    watch(sc)

    def blkmodel(I, a, ins):
        w = sc.U.watom(("H",), 128)
        for k in range(16):
            I.store(P(a[1].r, a[1].o + k), mk(w.bits[8 * k:8 * k + 8]), 1)
        return W(32, 1, None)
    sc.I.models["aux_WBCRYPTO_wbaes_wbgcm_%s_encrypt" % kind] = blkmodel
    ctx = sc.call("WBCRYPTO_wbaes_wbgcm_%s_init" % kind, sc.buf("wb", None))
    soil(sc)
    sc.call("WBCRYPTO_wbaes_wbgcm_%s_free" % kind, ctx)
    done(sc)


def fpe(sc, mac):
    pre = "WBCRYPTO_fpe_mac" if mac else "WBCRYPTO_fpe"
    sc.released = 0

    def free(I, a, ins):
        sc.released += isinstance(a[0], P) and a[0].r is not None
        return m_free(I, a, ins)
    sc.I.models["free"] = free
    ctx = sc.call(pre + "_init", sc.buf("tw", 10), sc.n(10), sc.n(10, 32), sc.buf("K", 64), sc.block_fn("BLOCK", sc.E()))
    sc.call(pre + "_free", ctx)
    done(sc)


FREES = ["WBCRYPTO_%s_context_free" % a for a in ("aes", "sm4", "wbaes", "wbsm4")] + [
    "WBCRYPTO_gcm_free", "WBCRYPTO_gcmfile_free", "WBCRYPTO_fpe_free", "WBCRYPTO_fpe_mac_free", "WBCRYPTO_wbaes_wbgcm_ee_free", "WBCRYPTO_wbaes_wbgcm_mask_free"]


def null(sc, fn):
    sc.call(fn, NULL)
    sc.ob("%s accepts NULL" % fn, True)


def jobs(tier):
    r = []
    for alg in ("aes", "sm4", "wbaes"):
        for use in ((0,) if alg == "wbaes" else (0, 5, 16, 20)):
            r.append(("%s context, %d-byte key, free" % (alg, use), flat, (alg, use), "dse"))
    r.append(("se_wbsm4 context, free", flat, ("se_wbsm4", 0), "bigdse"))
    for d in (0, 1) if tier != "thorough" else (0, 1, 2, 4):
        r.append(("wbsm4 context with %d dummy groups, free" % d, wbsm4, (d,), "dse"))
    for what in ("gcm", "gcmfile"):
        for n in (0, 20):
            r.append(("%s context after %d bytes, free" % (what, n), gcm, (what, n), "dse"))
    for kind in ("ee", "mask"):
        r.append(("wbgcm %s context, free" % kind, wbgcm, (kind,), "dse"))
    for mac in (False, True):
        r.append(("fpe%s context, free" % (" mac" if mac else ""), fpe, (mac,), "dse"))
    for fn in FREES:
        r.append(("%s(NULL)" % fn, null, (fn,), "dse"))
    r.append(("se_wbsm4 free(NULL)", null, ("WBCRYPTO_se_wbsm4_context_free",), "bigdse"))
    return r
