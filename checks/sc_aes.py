"""AES block interface: key handling and delegation to the AES block functions."""
from vlib import *
from envmodels import install_aes
from sc_sm4 import padded


def block(sc, keylen, inplace):
    C = install_aes(sc)
    ctx = sc.call("WBCRYPTO_aes_context_init")
    key = sc.buf("key", keylen)
    sc.expect_ret("init_key succeeds", sc.call("WBCRYPTO_aes_init_key", ctx, key, sc.n(keylen)), 1)
    sc.freeze(ctx)
    kb = tuple(b.bits for b in padded(sc, key, keylen))
    pt = sc.buf("pt", 16, rw=inplace)
    ref = sc.data(pt, 16)
    out = pt if inplace else sc.scratch("out", 16)
    sc.expect_ret("encrypt succeeds", sc.call("WBCRYPTO_aes_encrypt", pt, out, ctx), 1)
    sc.expect_bytes("encryption is AES-128 under the 16-byte key", out, C.enc(kb, ref))
    back = out if inplace else sc.scratch("back", 16)
    sc.expect_ret("decrypt succeeds", sc.call("WBCRYPTO_aes_decrypt", out, back, ctx), 1)
    sc.expect_bytes("decryption inverts encryption", back, ref)
    ct = sc.buf("ct", 16)
    out2 = sc.scratch("out2", 16)
    sc.call("WBCRYPTO_aes_decrypt", ct, out2, ctx)
    sc.expect_bytes("decryption is the AES-128 inverse under the 16-byte key", out2, C.dec(kb, sc.data(ct, 16)))


def rekey(sc, fn):
    """a context that is given a second key forgets the first"""
    if fn == "aes":
        C = install_aes(sc)
    ctx = sc.call("WBCRYPTO_%s_context_init" % fn)
    sc.call("WBCRYPTO_%s_init_key" % fn, ctx, sc.buf("key0", 16), sc.n(16))
    sc.call("WBCRYPTO_%s_encrypt" % fn, sc.buf("pt0", 16), sc.scratch("o0", 16), ctx)
    key = sc.buf("key", 16)
    sc.expect_ret("init_key succeeds", sc.call("WBCRYPTO_%s_init_key" % fn, ctx, key, sc.n(16)), 1)
    pt = sc.buf("pt", 16)
    out = sc.scratch("out", 16)
    sc.call("WBCRYPTO_%s_encrypt" % fn, pt, out, ctx)
    if fn == "aes":
        kb = tuple(b.bits for b in sc.data(key, 16))
        ref = C.enc(kb, sc.data(pt, 16))
    else:
        ref = sc.S.sm4_crypt(sc.S.sm4_keys(sc.data(key, 16)), sc.data(pt, 16))
    sc.expect_bytes("encryption uses the second key only", out, ref)
    ct = sc.buf("ct", 16)
    sc.call("WBCRYPTO_%s_decrypt" % fn, ct, out, ctx)
    ref = C.dec(kb, sc.data(ct, 16)) if fn == "aes" else sc.S.sm4_crypt(sc.S.sm4_keys(sc.data(key, 16)), sc.data(ct, 16), dec=True)
    sc.expect_bytes("decryption uses the second key only", out, ref)


def jobs(tier):
    r = [("aes key=%d%s" % (n, " in-place" if ip else ""), block, (n, ip), "default") for n in list(range(0, 34)) + [64] for ip in (False, True)]
    r += [("%s re-keyed" % f, rekey, (f,), "default") for f in ("aes", "sm4")]
    return r
