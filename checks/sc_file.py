"""File encryption scenarios (authenticated container: tag, length, ciphertext)."""
from vlib import *
from envmodels import FS, install_faults
from sc_gcm import CIPHERS

KINDS = ("gcmfile", "ee", "mask")


class Gcm:
    """The white-box GCM streaming interface as a black box: output and tag are
    opaque functions of everything fed so far."""

    def __init__(self, sc, kind):
        self.sc, self.U = sc, sc.U
        self.hist = ()
        self.ct = []
        self.ctx = sc.buf("wbctx", None)
        pre = "WBCRYPTO_wbaes_wbgcm_%s_" % kind
        m = sc.I.models
        m[pre + "encrypt"] = lambda I, a, ins: self.crypt(I, a, ins, False)
        m[pre + "decrypt"] = lambda I, a, ins: self.crypt(I, a, ins, True)
        m[pre + "finish"] = self.finish
        sc.ncrypt = 0

    def own(self, I, p, ins):
        if p != self.ctx:
            self.sc.ob("the stream functions are given the caller's context", False, "%r at %s" % (p, I.site(ins)))

    def crypt(self, I, a, ins, dec):
        self.own(I, a[0], ins)
        if self.sc.faults.now("crypt", ins):
            return W(32, 0, None)
        n = a[2].c
        if a[4].c < n:
            return W(32, 0, None)
        inp = [I.load(P(a[1].r, a[1].o + k), 1) for k in range(n)]
        pos = len(self.ct)
        out = []
        for k in range(n):
            ks = self.U.watom(("ks", pos + k), 8)
            out.append(self.U.xor(inp[k], ks))
        self.ct += inp if dec else out
        for k in range(n):
            I.store(P(a[3].r, a[3].o + k), out[k], 1)
        return W(32, 1, None)

    def tag(self, ct):
        w = self.U.watom(("wbtag", tuple(b.bits for b in ct)), 128)
        return [mk(w.bits[8 * k:8 * k + 8]) for k in range(16)]

    def finish(self, I, a, ins):
        self.own(I, a[0], ins)
        if self.sc.faults.now("crypt", ins):
            return W(32, 0, None)
        t = self.tag(self.ct)
        for k in range(a[2].c):
            I.store(P(a[1].r, a[1].o + k), t[k], 1)
        return W(32, 1, None)

    def ref(self, data, dec):
        out = [self.U.xor(b, self.U.watom(("ks", k), 8)) for k, b in enumerate(data)]
        return out, self.tag(data if dec else out)


def setup(sc, kind, al=5, faults={}, unit=False):
    install_faults(sc, **faults)
    fs = FS(sc)
    if kind.endswith("gcmfile"):
        enc = sc.E()
        if unit:
            # hash key 1: the hash layer is not what this scenario is about
            e0 = enc
            enc = lambda b: [W(8, 0x80 if k == 0 else 0, None) for k in range(16)] if all(x.c == 0 for x in b) else e0(b)
        key = sc.buf("K", 64)
        c = kind[:-8]
        blk = sc.block_fn(CIPHERS[c] if c else "BLOCK", enc, key=key, fail=lambda ins: sc.faults.now("crypt", ins))
        ctx = sc.call("WBCRYPTO_%s_gcmfile_init" % c, key) if c else sc.call("WBCRYPTO_gcmfile_init", key, blk)
        iv, aad = sc.buf("iv", 12), sc.buf("aad", al)
        sc.expect_ret("setiv succeeds", sc.call("WBCRYPTO_gcmfile_setiv", ctx, iv, sc.n(12)), 1)
        if al:
            sc.expect_ret("aad succeeds", sc.call("WBCRYPTO_gcmfile_aad", ctx, aad, sc.n(al)), 1)
        ref = lambda data, dec: sc.S.gcm(enc, sc.data(iv, 12), sc.data(aad, al), data, dec, 16)
        return fs, ctx, ref, "WBCRYPTO_gcmfile_encrypt", "WBCRYPTO_gcmfile_decrypt"
    g = Gcm(sc, kind)
    return fs, g.ctx, g.ref, "WBCRYPTO_wbaes_wbgcmfile_%s_encrypt" % kind, "WBCRYPTO_wbaes_wbgcmfile_%s_decrypt" % kind


def le8(n):
    return [W(8, (n >> (8 * k)) & 255, None) for k in range(8)]


def fdata(sc, nm, n):
    return sc.data(sc.buf(nm, n), n)


def closed(sc, fs):
    sc.ob("every stream is closed", not fs.still_open(), "still open: %s" % fs.still_open())


def eqbytes(sc, label, got, want):
    if got is None:
        sc.ob(label, False, "the file does not exist or its size is not fixed")
        return
    bad = [k for k in range(max(len(got), len(want))) if k >= len(got) or k >= len(want) or got[k] is None or got[k] != want[k]]
    sc.ob(label, not bad, "length %d, expected %d; first difference at byte %s" % (len(got), len(want), bad[:1]))


def encrypt(sc, kind, n):
    fs, ctx, ref, E, D = setup(sc, kind)
    data = fdata(sc, "m", n)
    fs.create("in.txt", data)
    ct, tag = ref(data, False)
    sc.expect_ret("encrypting a file succeeds", sc.call(E, ctx, sc.cstr("in.txt"), sc.cstr("out.bin")), 1)
    closed(sc, fs)
    eqbytes(sc, "the encrypted file is tag, length, ciphertext", fs.content("out.bin"), tag + le8(n) + ct)
    eqbytes(sc, "the input file is unchanged", fs.content("in.txt"), data)
    sc.ob("no other file remains", set(fs.files) == {"in.txt", "out.bin"}, "files: %s" % sorted(fs.files))


def decrypt(sc, kind, n):
    """a container with the right tag is accepted"""
    fs, ctx, ref, E, D = setup(sc, kind)
    ct = fdata(sc, "c", n)
    pt, tag = ref(ct, True)
    fs.create("in.bin", tag + le8(n) + ct)
    sc.expect_ret("an authentic file is accepted", sc.call(D, ctx, sc.cstr("in.bin"), sc.cstr("out.txt")), 1)
    closed(sc, fs)
    eqbytes(sc, "the decrypted file is the plaintext", fs.content("out.txt"), pt)
    eqbytes(sc, "the input file is unchanged", fs.content("in.bin"), tag + le8(n) + ct)


def forged(sc, kind, n, byte, bit):
    """stored tag differs in this bit at least, is arbitrary elsewhere"""
    fs, ctx, ref, E, D = setup(sc, kind, unit=True)
    ct = fdata(sc, "c", n)
    pt, tag = ref(ct, True)
    d = fdata(sc, "delta", 16)
    b = list(d[byte].bits)
    b[bit] = ONE
    d[byte] = mk(tuple(b))
    fs.create("in.bin", [sc.U.xor(x, y) for x, y in zip(tag, d)] + le8(n) + ct)
    sc.expect_ret("a file whose tag differs is refused", sc.call(D, ctx, sc.cstr("in.bin"), sc.cstr("out.txt")), 0)
    closed(sc, fs)


def wronglen(sc, kind, n, bit):
    fs, ctx, ref, E, D = setup(sc, kind, unit=True)
    ct = fdata(sc, "c", n)
    pt, tag = ref(ct, True)
    d = fdata(sc, "len", 8)
    b = list(d[bit // 8].bits)
    b[bit % 8] = ONE if not (n >> bit & 1) else ZERO
    d[bit // 8] = mk(tuple(b))
    fs.create("in.bin", tag + d + ct)
    sc.expect_ret("a file whose length field disagrees with its content is refused", sc.call(D, ctx, sc.cstr("in.bin"), sc.cstr("out.txt")), 0)
    closed(sc, fs)


def short(sc, kind, n):
    fs, ctx, ref, E, D = setup(sc, kind, unit=True)
    fs.create("in.bin", fdata(sc, "c", n))
    sc.expect_ret("a file shorter than its header is refused", sc.call(D, ctx, sc.cstr("in.bin"), sc.cstr("out.txt")), 0)
    closed(sc, fs)


def missing(sc, kind, dec):
    fs, ctx, ref, E, D = setup(sc, kind, unit=True)
    sc.expect_ret("a missing input file is reported", sc.call(D if dec else E, ctx, sc.cstr("in"), sc.cstr("out")), 0)
    closed(sc, fs)


def fault(sc, kind, n, dec, cls, k):
    """the k-th operation of a class fails: never reported as success"""
    fs, ctx, ref, E, D = setup(sc, kind, unit=True)
    data = fdata(sc, "m", n)
    if dec:
        pt, tag = ref(data, True)
        fs.create("in", tag + le8(n) + data)
    else:
        fs.create("in", data)
    base = sc.faults.count.get(cls, 0)
    sc.faults.fail = {cls: {base + k}}
    r = sc.call(D if dec else E, ctx, sc.cstr("in"), sc.cstr("out"))
    if sc.faults.hit:
        sc.expect_ret("a failing %s is reported" % cls, r, 0)
        sc.ob("every stream is closed after a failing %s" % cls, not fs.still_open(), "still open: %s" % fs.still_open())
        sc.notes["hit"] = 1
    sc.ob("analysed", True)


def jobs(tier):
    r = []
    T = tier == "thorough"

    def add(nm, fn, *a):
        r.append((nm, fn, a, "default"))
    for c in CIPHERS:
        add("%s_gcmfile encrypt" % c, encrypt, c + "_gcmfile", 20)
        add("%s_gcmfile decrypt" % c, decrypt, c + "_gcmfile", 20)
    for kind in KINDS:
        for n in ((0, 1, 16, 127, 128, 129, 256, 300) if kind != "gcmfile" or T else (0, 1, 17, 128, 150)):
            add("%s encrypt %d bytes" % (kind, n), encrypt, kind, n)
            add("%s decrypt %d bytes" % (kind, n), decrypt, kind, n)
        for byte in range(16):
            for bit in range(8):
                add("%s forged tag byte %d bit %d" % (kind, byte, bit), forged, kind, 130 if kind != "gcmfile" or T else 5, byte, bit)
        for n in (5, 130):
            for bit in range(64) if n == 5 or T else (0, 1, 7, 8, 31, 32, 63):
                add("%s length field bit %d wrong, %d bytes" % (kind, bit, n), wronglen, kind, n, bit)
        for n in (0, 1, 15, 16, 20, 23):
            add("%s file of %d bytes" % (kind, n), short, kind, n)
        for d in (False, True):
            add("%s missing input dec=%d" % (kind, d), missing, kind, d)
    return r


FAULTS = (("fopen", 4), ("fread", 8), ("fwrite", 8), ("alloc", 3), ("crypt", 14), ("fseek", 5))


def fault_jobs(tier):
    r = []
    for kind in KINDS:
        for d in (False, True):
            for cls, m in FAULTS:
                for k in range(1, m + 1):
                    r.append(("%s %s with failing %s #%d" % (kind, "decrypt" if d else "encrypt", cls, k), fault, (kind, 150, d, cls, k), "default"))
    return r
