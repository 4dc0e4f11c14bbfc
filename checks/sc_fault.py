"""Environment failures: the k-th allocation, stream operation or block-function call
of an operation fails; the operation must report it (0 / NULL) and survive it."""
from vlib import *
from envmodels import Cipher, install_aes, install_faults, FS

HUGE = 10 ** 9


def quiet_random(sc):
    m = sc.I.models
    cnt = [0]

    def rnd(I, a, ins):
        cnt[0] += 1
        return sc.U.watom(("random", cnt[0]), 32)
    m["InitRandom"] = lambda I, a, ins: None
    m["time"] = lambda I, a, ins: sc.U.watom(("time",), 64)
    m["cus_random"] = rnd
    m["rand"] = lambda I, a, ins: sc.U.zext(sc.U.trunc(rnd(I, a, ins), 31), 32)
    m["srand"] = lambda I, a, ins: None


def failing_block(sc, name="BLOCK"):
    key = sc.buf("K", 64)
    return key, sc.block_fn(name, sc.E(), fail=lambda ins: sc.faults.now("block", ins))


def failing_public(sc, fn):
    """public block function of a cipher, able to fail"""
    enc = sc.E()

    def model(I, a, ins):
        if sc.faults.now("block", ins):
            return W(32, 0, None)
        inp = [I.load(P(a[0].r, a[0].o + k), 1) for k in range(16)]
        for k, b in enumerate(enc(inp)):
            I.store(P(a[1].r, a[1].o + k), b, 1)
        return W(32, 1, None)
    sc.I.models[fn] = model


# each operation: setup(sc, *args) -> (thunk, expected result of a failed call)
def op_cbc(sc, dec, n):
    key, blk = failing_block(sc)
    args = (sc.buf("m", n), sc.n(n), sc.scratch("out", n + 16), sc.n(n + 16), sc.scratch("use", 8), key, sc.buf("iv", 16, rw=True), blk)
    return lambda: sc.call("WBCRYPTO_cbc128_decrypt" if dec else "WBCRYPTO_cbc128_encrypt", *args), 0


def op_algcbc(sc, alg, dec, n):
    failing_public(sc, "WBCRYPTO_%s_%s" % (alg, "decrypt" if dec else "encrypt"))
    args = (sc.buf("m", n), sc.n(n), sc.scratch("out", n + 16), sc.n(n + 16), sc.scratch("use", 8), sc.buf("ctx", None), sc.buf("iv", 16, rw=True))
    return lambda: sc.call("WBCRYPTO_%s_cbc_%s" % (alg, "decrypt" if dec else "encrypt"), *args), 0


def op_gcm_init(sc, fn):
    key, blk = failing_block(sc)
    return lambda: sc.call(fn, key, blk), NULL


def op_alg_init(sc, alg, what):
    failing_public(sc, "WBCRYPTO_%s_encrypt" % alg)
    return lambda: sc.call("WBCRYPTO_%s_%s_init" % (alg, what), sc.buf("ctx", None)), NULL


def op_gcm_setiv(sc, pre, n):
    key, blk = failing_block(sc)
    ctx = sc.call(pre + "_init", key, blk)
    iv = sc.buf("iv", n)
    return lambda: sc.call(pre + "_setiv", ctx, iv, sc.n(n)), 0


def op_gcm_data(sc, fn, n, omp):
    if omp:
        import omp as o
        o.install(sc.I, threads=6, order=1)
    key, blk = failing_block(sc)
    ctx = sc.call("WBCRYPTO_gcm_init", key, blk)
    sc.call("WBCRYPTO_gcm_setiv", ctx, sc.buf("iv", 12), sc.n(12))
    args = (ctx, sc.buf("m", n), sc.n(n), sc.scratch("out", n), sc.n(n))
    return lambda: sc.call(fn, *args), 0


def op_ctx(sc, fn, *args):
    return lambda: sc.call(fn, *[sc.n(a, 32) for a in args]), NULL


def op_sm4_key(sc):
    ctx = sc.call("WBCRYPTO_sm4_context_init")
    return lambda: sc.call("WBCRYPTO_sm4_init_key", ctx, sc.buf("key", 16), sc.n(16)), 0


def op_wb_key(sc, alg):
    quiet_random(sc)
    if alg == "wbsm4":
        ctx = sc.call("WBCRYPTO_wbsm4_context_init", sc.n(1, 32), sc.n(1, 32))
    else:
        ctx = sc.call("WBCRYPTO_se_wbsm4_context_init", sc.n(1, 32))
    return lambda: sc.call("WBCRYPTO_%s_gen_table" % alg, ctx, sc.buf("key", 16), sc.n(16)), 0


def op_wbgcm_init(sc, kind):
    enc = sc.E()
    for fn in ("aux_WBCRYPTO_wbaes_wbgcm_%s_encrypt" % kind,):
        failing_public(sc, fn)
    return lambda: sc.call("WBCRYPTO_wbaes_wbgcm_%s_init" % kind, sc.buf("wb", None)), NULL


def op_fpe_init(sc, mac):
    key, blk = failing_block(sc)
    return lambda: sc.call("WBCRYPTO_fpe_mac_init" if mac else "WBCRYPTO_fpe_init", sc.buf("tw", 10), sc.n(10), sc.n(10, 32), key, blk), NULL


def op_fpe(sc, alg, dec, n, radix, tl):
    import bn, sc_fpe
    bn.Ints(sc)
    key, blk = failing_block(sc)
    ctx = sc.call("WBCRYPTO_fpe_mac_init" if "mac" in alg else "WBCRYPTO_fpe_init", sc.buf("tw", tl), sc.n(tl), sc.n(radix, 32), key, blk)
    x = sc_fpe.text(sc, "x", [sc.ints.digit("x%d" % i, radix) for i in range(n)], radix)
    y = sc.scratch("y", n + 1)
    return lambda: sc.call("WBCRYPTO_%s_%s" % (alg, "decrypt" if dec else "encrypt"), ctx, x, y), 0


def op_app(sc, kind, ffx, dec, sample):
    import sc_app
    ctx, E, alg = sc_app.app(sc, "sm4", ffx, 16, fail=lambda ins: sc.faults.now("block", ins))
    if kind == "cn_utf8":
        bs = [W(8, c, None) for c in "\u4e2d\u6587\u5b57".encode()]
    else:
        bs = [sc_app.char(sc, sc.ints.digit("x%d" % i, 10)) for i in range(11)]
    src = sc.buf("in", len(bs) + 1)
    sc.putbytes(src, bs + [W(8, 0, None)])
    dst = sc.scratch("out", len(bs) + 1)
    return lambda: sc_app.fullcall(sc, "WBCRYPTO_fpe_%s_%s" % ("decrypt" if dec else "encrypt", kind), ctx, src, dst, sample), 0


def op_appinit(sc, cipher, ffx, keylen):
    import sc_app
    return lambda: sc_app.app(sc, cipher, ffx, keylen, only=True), 0


def op_keyfile(sc, what):
    fs = FS(sc)
    if what == "store":
        k = sc.buf("ctx", 100)
        return lambda: sc.call("WBCRYPTO_keystore_key_to_file", k, sc.n(100), sc.cstr("key")), 0
    if what == "load":
        fs.create("key", sc.data(sc.buf("stored", 100), 100))
        k = sc.scratch("ctx", 100)
        return lambda: sc.call("WBCRYPTO_keystore_file_to_key", k, sc.n(100), sc.cstr("key")), 0
    ctx = sc.call("WBCRYPTO_wbsm4_context_init", sc.n(1, 32), sc.n(0, 32))
    if what == "wbsm4_key2file":
        for r in list(sc.I.mem):
            if r.kind == "heap":
                for k in range(r.size):
                    if k not in sc.I.mem[r]:
                        sc.I.wmem(r)[k] = W(8, 0, None)
        return lambda: sc.call("WBCRYPTO_wbsm4_key2file", ctx, sc.cstr("key")), 0
    if what == "wbsm4_key2bytes":
        p = sc.scratch("pp", 8)
        return lambda: sc.call("WBCRYPTO_wbsm4_key2bytes", ctx, p), 0
    hdr = [W(8, c, None) for c in b"DummyRound-WBSM4" + (32).to_bytes(4, "little") + (1).to_bytes(4, "little")]
    fs.create("key", hdr + sc.data(sc.buf("tables", 4096), 4096))
    return lambda: sc.call("WBCRYPTO_wbsm4_file2key", ctx, sc.cstr("key")), 0


def fault(sc, op, args, cls, k):
    install_faults(sc)
    thunk, want = op(sc, *args)
    sc.faults.fail = {cls: {sc.faults.count.get(cls, 0) + k}}
    v = thunk()
    sc.notes["hit"] = 0
    if sc.faults.hit:
        sc.notes["hit"] = 1
        if want is NULL:
            sc.ob("a failing %s is reported" % cls, isinstance(v, P) and v.r is None, "NULL expected, got %s; %s" % (sc.show(v), sc.faults.hit))
        else:
            sc.expect_ret("a failing %s is reported (%s)" % (cls, sc.faults.hit[0]), v, want)
    sc.ob("analysed", True)


def short_key(sc, what):
    """a key file that is too short, has a foreign header, or more rounds than the context"""
    install_faults(sc)
    fs = FS(sc)
    if what == "store-short":
        fs.create("key", sc.data(sc.buf("stored", 99), 99))
        sc.expect_ret("a short key file is refused", sc.call("WBCRYPTO_keystore_file_to_key", sc.scratch("ctx", 100), sc.n(100), sc.cstr("key")), 0)
    elif what == "store-missing":
        sc.expect_ret("a missing key file is reported", sc.call("WBCRYPTO_keystore_file_to_key", sc.scratch("ctx", 100), sc.n(100), sc.cstr("key")), 0)
    else:
        ctx = sc.call("WBCRYPTO_wbsm4_context_init", sc.n(1, 32), sc.n(0, 32))
        tag, rounds = b"DummyRound-WBSM4", 32
        if what == "header":
            tag = b"DummyRound-WBSM5"
        elif what == "rounds36":
            rounds = 36
        elif what == "rounds31":
            rounds = 31
        elif what == "rounds-neg":
            rounds = 2 ** 32 - 4
        elif what == "rounds-huge":
            rounds = 2 ** 31 - 1
        bs = [W(8, c, None) for c in tag + rounds.to_bytes(4, "little") + (1).to_bytes(4, "little")] + sc.data(sc.buf("tables", 2000), 2000)
        if what.startswith("cut"):
            bs = bs[:int(what[3:])]
        if what != "missing":
            fs.create("key", bs)
        sc.expect_ret("a bad key file is refused", sc.call("WBCRYPTO_wbsm4_file2key", ctx, sc.cstr("key")), 0)
    sc.ob("every stream is closed", not fs.still_open(), "%s" % fs.still_open())


def jobs(tier):
    r = []
    T = tier == "thorough"

    def add(nm, op, args, cls, ks, kind="default"):
        for k in ks:
            r.append(("%s, failing %s #%d" % (nm, cls, k), fault, (op, args, cls, k), kind))
    for dec in (False, True):
        d = "decrypt" if dec else "encrypt"
        add("cbc %s" % d, op_cbc, (dec, 48), "block", range(1, 4))
        add("cbc %s" % d, op_cbc, (dec, 48), "alloc", range(1, 3))
        for alg in ("sm4", "aes", "wbsm4", "wbaes"):
            if alg == "wbaes" and dec:
                continue
            add("%s cbc %s" % (alg, d), op_algcbc, (alg, dec, 48), "block", range(1, 4))
            add("%s cbc %s" % (alg, d), op_algcbc, (alg, dec, 48), "alloc", range(1, 3))
        add("gcm %s" % d, op_gcm_data, ("WBCRYPTO_gcm_%s" % d, 40, False), "block", range(1, 4))
        add("parallel gcm %s" % d, op_gcm_data, ("WBCRYPTO_gcm_parallel_%s" % d, 40, True), "block", range(1, 4))
        add("parallel gcm %s (no OpenMP)" % d, op_gcm_data, ("WBCRYPTO_gcm_parallel_%s" % d, 40, False), "block", range(1, 4), "noomp")
        add("parallel gcm %s" % d, op_gcm_data, ("WBCRYPTO_gcm_parallel_%s" % d, 40, True), "alloc", range(1, 3))
    for fn in ("WBCRYPTO_gcm_init", "WBCRYPTO_gcmfile_init"):
        for cls in ("block", "alloc"):
            add(fn, op_gcm_init, (fn,), cls, (1, 2))
    for pre in ("WBCRYPTO_gcm", "WBCRYPTO_gcmfile"):
        for n in (12, 20):
            add("%s_setiv %d" % (pre, n), op_gcm_setiv, (pre, n), "block", (1,))
    for alg in ("sm4", "aes", "wbsm4", "wbaes"):
        for what in ("gcm", "gcmfile"):
            for cls in ("block", "alloc"):
                add("%s %s init" % (alg, what), op_alg_init, (alg, what), cls, (1, 2))
    for fn in ("sm4", "aes", "wbaes"):
        add("%s context" % fn, op_ctx, ("WBCRYPTO_%s_context_init" % fn,), "alloc", (1,))
    add("se_wbsm4 context", op_ctx, ("WBCRYPTO_se_wbsm4_context_init", 1), "alloc", (1,))
    add("wbsm4 context", op_ctx, ("WBCRYPTO_wbsm4_context_init", 1, 1), "alloc", list(range(1, 45)) + [100, 500, 1000] if not T else range(1, 1200, 3))
    add("mask table context", op_ctx, ("WBCRYPTO_wbaes_wbgcm_mask_init_table",), "alloc", list(range(1, 22)) + [600, 4113] if not T else list(range(1, 30)) + list(range(30, 4115, 50)))
    add("sm4 key", op_sm4_key, (), "alloc", (1,))
    add("wbsm4 key", op_wb_key, ("wbsm4",), "alloc", range(1, 6))
    add("se_wbsm4 key", op_wb_key, ("se_wbsm4",), "alloc", range(1, 3))
    for kind in ("ee", "mask"):
        add("wbgcm %s init" % kind, op_wbgcm_init, (kind,), "alloc", (1,))
    for mac in (False, True):
        add("fpe%s init" % (" mac" if mac else ""), op_fpe_init, (mac,), "alloc", (1, 2, 3))
    for alg in ("ff1", "ff3", "ff1_cmac", "ff3_gmac"):
        for dec in (False, True):
            nm = "%s %s" % (alg, "decrypt" if dec else "encrypt")
            add(nm, op_fpe, (alg, dec, 12, 10, 9), "alloc", range(1, 5))
            # FF1 with one, two and three blocks of key stream per round
            for n, ks in ((12, (1, 2, 3, 5, 8, 20, 21, 22, 23)), (80, (4, 5))) + (((120, (1, 2, 3, 4, 5, 6, 41)),) if T else ()) if alg.startswith("ff1") else ((12, (1, 2, 5, 8, 9, 10, 11, 12)),):
                add("%s of %d digits" % (nm, n), op_fpe, (alg, dec, n, 10, 9), "block", ks)
    for kind in ("phone", "idcard", "cn_utf8"):
        for ffx in ("ff1", "ff3"):
            for dec in (False, True):
                for sample in (None, "*\u4e2d*" if kind == "cn_utf8" else "13*******88"):
                    nm = "%s %s %s%s" % (kind, ffx, "decrypt" if dec else "encrypt", " with sample" if sample else "")
                    add(nm, op_app, (kind, ffx, dec, sample), "alloc", range(1, 10))
                    add(nm, op_app, (kind, ffx, dec, sample), "block", (1, 3))
    for cipher in ("sm4", "aes", "wbsm4", "wbaes", "other"):
        for what in ("alloc", "context", "key"):
            add("app init %s" % cipher, op_appinit, (cipher, "ff1", 7), what, (1, 2))
    for what in ("store", "load", "wbsm4_key2file", "wbsm4_file2key"):
        for cls, ks in (("fopen", (1,)), ("fwrite", (1, 2, 3, 4, 50) if "wbsm4" in what else (1, 2)), ("fread", (1, 2, 3, 4, 50) if "wbsm4" in what else (1,))):
            if (cls == "fread") == (what in ("load", "wbsm4_file2key")) or cls == "fopen":
                add("%s" % what, op_keyfile, (what,), cls, ks)
    add("wbsm4_key2bytes", op_keyfile, ("wbsm4_key2bytes",), "alloc", (1,))
    for what in ("store-short", "store-missing", "header", "rounds36", "rounds31", "rounds-neg", "rounds-huge", "missing", "cut0", "cut5", "cut16", "cut20", "cut24", "cut1000"):
        r.append(("key file: %s" % what, short_key, (what,), "default"))
    return r
