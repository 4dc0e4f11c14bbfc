"""SM3 scenarios."""
from vlib import *

CTXSIZE = 4096      # generous; the context is opaque to the scenario


def stream(sc, chunks):
    ctx = sc.scratch("ctx", CTXSIZE)
    n = sum(chunks)
    m = sc.buf("m", n)
    dg = sc.scratch("digest", 32)
    sc.expect_ret("init succeeds", sc.call("WBCRYPTO_sm3_init", ctx), 1)
    o = 0
    for c in chunks:
        sc.expect_ret("update succeeds", sc.call("WBCRYPTO_sm3_update", ctx, P(m.r, o), sc.n(c)), 1)
        o += c
    sc.expect_ret("final succeeds", sc.call("WBCRYPTO_sm3_final", ctx, dg), 1)
    sc.expect_bytes("digest equals GB/T 32905", dg, sc.S.sm3(sc.data(m, n)))


def oneshot(sc, n):
    m = sc.buf("m", n)
    dg = sc.scratch("digest", 32)
    sc.expect_ret("returns 1", sc.call("WBCRYPTO_sm3", m, sc.n(n), dg), 1)
    sc.expect_bytes("digest equals GB/T 32905", dg, sc.S.sm3(sc.data(m, n)))


def bigcount(sc, chunks):
    """length encoding of huge messages: the compression function is summarised"""
    blocks = []
    name = "sm3_block_data_order"
    if name not in sc.I.funcs:
        sc.notes["skipped"] = "no separate compression function"
        return

    def model(I, a, ins):
        n = a[2].c
        if n is None:
            raise Imprecise("symbolic block count")
        if n <= 4:
            blocks.append([I.load(P(a[1].r, a[1].o + 64 * (n - 1) + k), 1) for k in range(64)])
        return None
    sc.I.models[name] = model
    ctx = sc.scratch("ctx", CTXSIZE)
    m = P(sc.I.region("m", "input", None), 0)
    sc.call("WBCRYPTO_sm3_init", ctx)
    for c in chunks:
        sc.call("WBCRYPTO_sm3_update", ctx, m, sc.n(c))
    sc.call("WBCRYPTO_sm3_final", ctx, sc.scratch("digest", 32))
    want = sc.S.const_bytes((sum(chunks) * 8) & (2**64 - 1), 8)
    got = blocks[-1][56:] if blocks else []
    sc.ob("the 64-bit message length is encoded exactly", got == want, "length field %s, expected %s" % ([sc.show(x) for x in got], [hex(x.c) for x in want]))


def jobs(tier):
    r = []
    T = tier == "thorough"
    for n in ([0, 1, 3, 54, 55, 56, 57, 63, 64, 65, 118, 119, 120, 127, 128, 129, 200] if not T else range(0, 200)):
        r.append(("sm3 one-shot len=%d" % n, oneshot, (n,), "default"))
    chs = [(0,), (1, 1), (63, 1), (64, 1), (1, 63), (1, 64), (10, 54, 3), (30, 100), (60, 3, 1, 0, 5), (64, 64), (65, 63), (5, 123), (100, 28, 1), (7,) * 10, (63, 66)]
    if T:
        chs += [(a, b) for a in (0, 1, 31, 55, 56, 63, 64, 65, 127) for b in range(0, 130, 9)]
    for c in chs:
        r.append(("sm3 chunks=%s" % "+".join(map(str, c)), stream, (c,), "default"))
    big = [(2**29 - 1,), (2**29,), (2**29 + 70,), (2**29 - 1, 1), (2**29 - 64, 64), (3 * 2**28, 3 * 2**28), (2**32 - 1, 1), (2**32 + 5,), (2**32, 2**32), (2**35 + 3, 2**29 - 1, 9), (64 * 2**24 + 7, 2**29)]
    for c in big:
        r.append(("sm3 length counter %s" % "+".join(map(str, c)), bigcount, (c,), "default"))
    return r
