"""Key export and import: every table byte is a variable."""
from vlib import *
from envmodels import FS, install_faults

H = 16 + 4 + 4      # name, rounds, mode


def contexts(sc, ctx):
    """heap blocks reachable from a context, as (path, region)"""
    out, work, seen = [], [((), ctx.r)], set()
    while work:
        path, r = work.pop()
        if r in seen:
            continue
        seen.add(r)
        out.append((path, r))
        for k, v in sorted(((k, v) for k, v in sc.I.mem[r].items() if isinstance(v, tuple) and v[2] == 0), key=lambda x: x[0]):
            if isinstance(v[1], P) and v[1].r is not None:
                work.append((path + (k,), v[1].r))
    return sorted(out, key=lambda x: x[0])


def fill(sc, ctx, fixed):
    """a different variable in every byte that is not a pointer or one of the fixed offsets of the context itself"""
    n = 0
    sc.I.fuel = 10 ** 8
    m = sc.I.mem[ctx.r]
    end = 1 + max(k for k in m if m[k] is not None)
    pad = set(range(end, ctx.r.size)) if ctx.r.size - end < 8 else set()
    for path, r in contexts(sc, ctx):
        m = sc.I.wmem(r)
        for k in range(r.size):
            if isinstance(m.get(k), tuple) or (path == () and (k in fixed or k in pad)):
                continue
            (b,) = sc.U.watom(("t", n), 1).bits
            m[k] = mk((b, ONE ^ b, b, b, ONE ^ b, b, ONE ^ b, b))
            n += 1
    sc.notes["table_bytes"] = n
    return n


def new(sc, mode, dummies):
    ctx = sc.call("WBCRYPTO_wbsm4_context_init", sc.n(mode, 32), sc.n(dummies, 32))
    sc.ob("context is created", isinstance(ctx, P) and ctx.r is not None, "init returned %r" % (ctx,))
    return ctx


def consts(sc, ctx):
    """offsets of the context that init_context gave a constant"""
    return {k for k, v in sc.I.mem[ctx.r].items() if isinstance(v, W) and v.c is not None}


def keyed(sc, mode, dummies):
    a = new(sc, mode, dummies)
    fill(sc, a, consts(sc, a))
    for _, r in contexts(sc, a):
        r.ro = True
    return a


def same(sc, label, a, b, skip=()):
    ca, cb = contexts(sc, a), dict(contexts(sc, b))
    bad = None
    n = 0
    for path, r in ca:
        q = cb.get(path)
        if q is None:
            bad = bad or "a block is missing"
            continue
        ma, mb = sc.I.mem[r], sc.I.mem[q]
        for k in range(r.size):
            x = sc.I.cell(r, k, ma)
            if isinstance(x, tuple):
                continue
            y = sc.I.cell(q, k, mb)
            n += 1
            if x is not None and x != y and bad is None:
                bad = "byte %d of the block at %s differs, last written at %s" % (k, path, sc.writer(q, k))
    sc.notes["bytes_compared"] = n
    sc.ob(label, bad is None, bad or "")


def file(sc, mode, dummies, extra=0):
    """key to file and back, into a context with room for `extra` more dummy rounds"""
    fs = FS(sc)
    a = keyed(sc, mode, dummies)
    sc.expect_ret("export succeeds", sc.call("WBCRYPTO_wbsm4_key2file", a, sc.cstr("k")), 1)
    sc.ob("every stream is closed", not fs.still_open(), str(fs.still_open()))
    b = new(sc, 1 - mode, dummies + extra)
    sc.expect_ret("import succeeds", sc.call("WBCRYPTO_wbsm4_file2key", b, sc.cstr("k")), 1)
    sc.ob("every stream is closed", not fs.still_open(), str(fs.still_open()))
    equal(sc, a, b, extra)


def equal(sc, a, b, extra):
    if not extra:
        same(sc, "the imported context equals the exported one", a, b)
        return
    s = []
    for c in (a, b):
        p = sc.scratch("ks%d" % len(s), 8)
        sc.expect_ret("export succeeds", sc.call("WBCRYPTO_wbsm4_key2bytes", c, p), 1)
        q = sc.I.load(p, 8, True)
        s.append([sc.I.cell(q.r, k) for k in range(q.r.size)])
    bad = [k for k in range(max(map(len, s))) if k >= min(map(len, s)) or s[0][k] is None or s[0][k] != s[1][k]]
    sc.ob("both contexts export the same bytes", not bad, "differs at byte %s" % bad[:1])


def stream(sc, mode, dummies, extra=0):
    a = keyed(sc, mode, dummies)
    p = sc.scratch("ks", 8)
    sc.expect_ret("export succeeds", sc.call("WBCRYPTO_wbsm4_key2bytes", a, p), 1)
    ks = sc.I.load(p, 8, True)
    b = new(sc, 1 - mode, dummies + extra)
    ks.r.ro = True
    sc.expect_ret("import succeeds", sc.call("WBCRYPTO_wbsm4_bytes2key", b, ks), 1)
    equal(sc, a, b, extra)


def roomy(sc, how, mode, dummies, less, claim=None):
    """a key with more rounds than the context has room for is refused, the context's rounds stay"""
    fs = FS(sc)
    b = new(sc, mode, dummies - less)
    rounds = 32 + 4 * dummies
    said = rounds if claim is None else claim
    if how == "file":
        fs.create("k", [W(8, c, None) for c in b"DummyRound-WBSM4"] + [W(8, (said >> 8 * k) & 255, None) for k in range(4)]
                  + [W(8, k == 0, None) for k in range(4)] + [W(8, 5, None)] * (2 * 16384 + rounds * 24 * 1024))
        sc.I.fuel = 10 ** 8
        r = sc.call("WBCRYPTO_wbsm4_file2key", b, sc.cstr("k"))
    else:
        ks = sc.buf("ks", 12 + 2 * 16384 + rounds * 24 * 1024)
        sc.putbytes(P(ks.r, 4), [W(8, (said >> 8 * k) & 255, None) for k in range(4)])
        r = sc.call("WBCRYPTO_wbsm4_bytes2key", b, ks)
    sc.expect_ret("a key with more rounds than there is room for, or fewer than 32, is refused", r, 0)
    sc.ob("every stream is closed", not fs.still_open(), str(fs.still_open()))


def header(sc, what, n):
    """a file with another name, or cut off, is refused"""
    fs = FS(sc)
    b = new(sc, 1, 0)
    name = bytearray(b"DummyRound-WBSM4")
    if what == "name":
        name[n] ^= 1
    data = [W(8, c, None) for c in name] + [W(8, (32 >> 8 * k) & 255, None) for k in range(4)] + [W(8, k == 0, None) for k in range(4)]
    if what == "cut":
        data += sc.data(sc.buf("rest", max(0, n - len(data))), max(0, n - len(data)))
        data = data[:n]
    else:
        data += sc.data(sc.buf("rest", 4096), 4096)
    if what != "missing":
        fs.create("k", data)
    sc.expect_ret("a file that is no complete key is refused", sc.call("WBCRYPTO_wbsm4_file2key", b, sc.cstr("k")), 0)
    sc.ob("every stream is closed", not fs.still_open(), str(fs.still_open()))


def fault(sc, dec, cls, k):
    """a failing operation is reported"""
    install_faults(sc)
    fs = FS(sc)
    if dec:
        b = new(sc, 1, 0)
        fs.create("k", [W(8, c, None) for c in b"DummyRound-WBSM4"] + [W(8, (32 >> 8 * j) & 255, None) for j in range(4)]
                  + [W(8, j == 0, None) for j in range(4)] + sc.data(sc.buf("rest", 8192), 8192))
        f = lambda: sc.call("WBCRYPTO_wbsm4_file2key", b, sc.cstr("k"))
    elif cls == "alloc":
        b = keyed(sc, 1, 0)
        p = sc.scratch("ks", 8)
        f = lambda: sc.call("WBCRYPTO_wbsm4_key2bytes", b, p)
    else:
        b = keyed(sc, 1, 0)
        f = lambda: sc.call("WBCRYPTO_wbsm4_key2file", b, sc.cstr("k"))
    sc.faults.fail = {cls: {sc.faults.count.get(cls, 0) + k}}
    r = f()
    if sc.faults.hit:
        sc.expect_ret("a failing %s is reported" % cls, r, 0)
        sc.ob("every stream is closed", not fs.still_open(), str(fs.still_open()))
    sc.ob("analysed", True)


def store(sc, n):
    """generic key store: exactly the bytes, there and back"""
    fs = FS(sc)
    k = sc.buf("k", n)
    data = sc.data(k, n)
    sc.expect_ret("storing succeeds", sc.call("WBCRYPTO_keystore_key_to_file", k, sc.n(n), sc.cstr("f")), 1)
    got = fs.content("f")
    sc.ob("the file holds the key's bytes", got == data, "length %s" % (len(got) if got else got))
    out = sc.scratch("o", n)
    sc.expect_ret("loading succeeds", sc.call("WBCRYPTO_keystore_file_to_key", out, sc.n(n), sc.cstr("f")), 1)
    sc.expect_bytes("the loaded key is the stored one", out, data)
    sc.ob("every stream is closed", not fs.still_open(), str(fs.still_open()))


def storebad(sc, n, m, cls=None):
    fs = FS(sc)
    if m is not None:
        fs.create("f", sc.data(sc.buf("x", m), m))
    if cls:
        sc.faults.fail = {cls: {1}}
        sc.expect_ret("a failing %s is reported" % cls, sc.call("WBCRYPTO_keystore_key_to_file", sc.buf("k", n), sc.n(n), sc.cstr("g")), 0)
    else:
        sc.expect_ret("a missing or too short file is refused", sc.call("WBCRYPTO_keystore_file_to_key", sc.scratch("o", n), sc.n(n), sc.cstr("f")), 0)
    sc.ob("every stream is closed", not fs.still_open(), str(fs.still_open()))


def jobs(tier):
    r = []

    def add(nm, fn, *a):
        r.append((nm, fn, a, "default"))
    T = tier == "thorough"
    for mode, d, x in ((1, 0, 0), (0, 1, 0), (1, 1, 1)) + (((0, 0, 2), (1, 3, 0)) if T else ()):
        add("wbsm4 key file, mode %d, %d dummy rounds, room for %d more" % (mode, d, x), file, mode, d, x)
    for mode, d, x in ((1, 0, 0), (0, 1, 0), (1, 2, 1), (0, 0, 1)) + (((1, 5, 0), (0, 3, 3)) if T else ()):
        add("wbsm4 key bytes, mode %d, %d dummy rounds, room for %d more" % (mode, d, x), stream, mode, d, x)
    for how in ("file", "bytes"):
        for d, l in ((1, 1), (3, 1), (3, 3)):
            add("wbsm4 key %s with %d dummy rounds, room for %d" % (how, d, d - l), roomy, how, 1, d, l)
    for n in (-1, 0, 31, 1 << 30):
        for how in ("file", "bytes"):
            add("wbsm4 key %s with %d rounds" % (how, n), roomy, how, 1, 0, 0, n)
    for k in range(16):
        add("wbsm4 key file with another name, character %d" % k, header, "name", k)
    for n in (0, 1, 15, 16, 19, 20, 23, 24, 27, 28, 1000, 1024, 12 * 1024 + 24) + ((100000,) if T else ()):
        add("wbsm4 key file of %d bytes" % n, header, "cut", n)
    add("wbsm4 key file missing", header, "missing", 0)
    for k in (1, 2, 3, 4, 100):
        add("wbsm4 key export, failing fwrite %d" % k, fault, False, "fwrite", k)
        add("wbsm4 key import, failing fread %d" % k, fault, True, "fread", k)
    add("wbsm4 key export, failing fopen", fault, False, "fopen", 1)
    add("wbsm4 key import, failing fopen", fault, True, "fopen", 1)
    add("wbsm4 key bytes, failing allocation", fault, False, "alloc", 1)
    for n in (1, 16, 100, 4096):
        add("key store %d bytes" % n, store, n)
        add("key store %d bytes missing" % n, storebad, n, None)
        for m in (0, n - 1):
            add("key store %d bytes, file of %d" % (n, m), storebad, n, m)
    for c in ("fopen", "fwrite"):
        add("key store failing %s" % c, storebad, 16, None, c)
    return r
