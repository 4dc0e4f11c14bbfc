"""SM4 scenarios (public block API)."""
from vlib import *


def padded(sc, key, n):
    """documented key handling: 16 bytes used; shorter keys PKCS#7 padded, longer truncated"""
    k = sc.data(key, min(n, 16))
    return k + [W(8, 16 - n, None)] * (16 - n) if n < 16 else k


def block(sc, keylen, inplace):
    ctx = sc.call("WBCRYPTO_sm4_context_init")
    key = sc.buf("key", keylen)
    sc.expect_ret("init_key succeeds", sc.call("WBCRYPTO_sm4_init_key", ctx, key, sc.n(keylen)), 1)
    sc.freeze(ctx)
    rk = sc.S.sm4_keys(padded(sc, key, keylen))
    pt = sc.buf("pt", 16, rw=inplace)
    ref = sc.data(pt, 16)
    out = pt if inplace else sc.scratch("out", 16)
    sc.expect_ret("encrypt succeeds", sc.call("WBCRYPTO_sm4_encrypt", pt, out, ctx), 1)
    sc.expect_bytes("encryption equals GB/T 32907", out, sc.S.sm4_crypt(rk, ref))
    back = out if inplace else sc.scratch("back", 16)
    sc.expect_ret("decrypt succeeds", sc.call("WBCRYPTO_sm4_decrypt", out, back, ctx), 1)
    sc.expect_bytes("decryption inverts encryption", back, ref)
    ct = sc.buf("ct", 16)
    out2 = sc.scratch("out2", 16)
    sc.call("WBCRYPTO_sm4_decrypt", ct, out2, ctx)
    sc.expect_bytes("decryption equals GB/T 32907", out2, sc.S.sm4_crypt(rk, sc.data(ct, 16), dec=True))


def jobs(tier):
    r = [("sm4 key=16", block, (16, False), "default"), ("sm4 key=16 in-place", block, (16, True), "default")]
    return r


def key_jobs(tier):
    return [("sm4 key=%d" % n, block, (n, False), "default") for n in ([0, 1, 7, 15, 16, 17, 33] if tier == "quick" else list(range(0, 34)))]
