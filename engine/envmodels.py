"""Models of code outside /repo that the library calls: the OpenSSL AES block
functions, stdio, allocation with injected failure.  Each model states the
callee's documented contract; contents stay symbolic."""
from absint import P, Fn, NULL, W, mk, Imprecise, ZERO, ONE


# ---------------------------------------------------------------- block pairs
class Cipher:
    """Uninterpreted permutation with its inverse, one per key value."""

    def __init__(self, sc, tag):
        self.sc, self.U, self.tag = sc, sc.U, tag
        self.inv = {}       # output bits -> input bytes (encryptions)
        self.dinv = {}      # output bits -> input bytes (decryptions)

    def _app(self, d, key, bs):
        U = self.U
        w = U.watom((self.tag, d, key, tuple(U.nmw(b).bits for b in bs)), 128)
        return [mk(w.bits[8 * k:8 * k + 8]) for k in range(16)]

    @staticmethod
    def _k(key, bs):
        return key, tuple(b.bits for b in bs)

    def enc(self, key, bs):
        h = self.dinv.get(self._k(key, bs))
        if h is not None:
            return list(h)
        o = self._app("E", key, bs)
        self.inv[self._k(key, o)] = list(bs)
        return o

    def dec(self, key, bs):
        h = self.inv.get(self._k(key, bs))
        if h is not None:
            return list(h)
        o = self._app("D", key, bs)
        self.dinv[self._k(key, o)] = list(bs)
        return o


def block_model(sc, fn, op, ctx, what):
    """replace a public block function by `op(bytes)`; it must be given the caller's context"""
    def model(I, a, ins):
        inp = [I.load(P(a[0].r, a[0].o + k, a[0].idx), 1) for k in range(16)]
        if not (isinstance(a[2], P) and a[2] == ctx):
            sc.ob("%s is given the caller's key context" % what, False, "it receives %r at %s" % (a[2], I.site(ins)))
        sc.blockcalls = getattr(sc, "blockcalls", 0) + 1
        st = sc.block_status(sc.blockcalls) if hasattr(sc, "block_status") else 1
        if st:
            for k, b in enumerate(op(inp)):
                I.store(P(a[1].r, a[1].o + k, a[1].idx), b, 1)
        return W(32, st, None)
    sc.I.models[fn] = model


# ---------------------------------------------------------------- OpenSSL AES
SCHED = 244     # sizeof(AES_KEY)


def install_aes(sc):
    C = Cipher(sc, "AES")
    U = sc.U
    scheds = {}
    sc.aes = C

    def setkey(d):
        def model(I, a, ins):
            if a[1].c not in (128, 192, 256):
                sc.ob("AES key size is 128, 192 or 256", False, "%s at %s" % (sc.show(a[1]), I.site(ins)))
                return W(32, 0xfffffffe, None)
            n = a[1].c // 8
            kb = tuple(I.load(P(a[0].r, a[0].o + k, a[0].idx), 1).bits for k in range(n))
            w = U.watom(("AES-sched", d, kb), 8 * SCHED)
            bs = [mk(w.bits[8 * k:8 * k + 8]) for k in range(SCHED)]
            scheds[tuple(b.bits for b in bs[:16])] = (d, kb)
            for k, b in enumerate(bs):
                I.store(P(a[2].r, a[2].o + k, a[2].idx), b, 1)
            return W(32, 0, None)
        return model

    def crypt(d):
        def model(I, a, ins):
            sb = [I.load(P(a[2].r, a[2].o + k, a[2].idx), 1) for k in range(SCHED)]
            h = scheds.get(tuple(b.bits for b in sb[:16]))
            inp = [I.load(P(a[0].r, a[0].o + k, a[0].idx), 1) for k in range(16)]
            if h is None or h[0] != d:
                # wrong kind of schedule: an unrelated function
                o = C._app("?" + d, tuple(b.bits for b in sb), inp)
            else:
                o = C.enc(h[1], inp) if d == "E" else C.dec(h[1], inp)
            for k, b in enumerate(o):
                I.store(P(a[1].r, a[1].o + k, a[1].idx), b, 1)
            return None
        return model
    m = sc.I.models
    m["AES_set_encrypt_key"] = setkey("E")
    m["AES_set_decrypt_key"] = setkey("D")
    m["AES_encrypt"] = crypt("E")
    m["AES_decrypt"] = crypt("D")
    return C


# ---------------------------------------------------------------- faults
class Faults:
    """enumerated environment failures: the k-th call of a class of functions fails"""

    def __init__(self, sc):
        self.sc = sc
        self.count = {}
        self.fail = {}      # class -> set of call indices (1-based)
        self.hit = []

    def now(self, cls, ins=None):
        n = self.count[cls] = self.count.get(cls, 0) + 1
        if n in self.fail.get(cls, ()):
            self.hit.append("%s call %d at %s" % (cls, n, self.sc.I.site(ins)))
            return True
        return False


def install_faults(sc, **fail):
    F = sc.faults = Faults(sc)
    F.fail = {k: set(v) for k, v in fail.items()}
    m = sc.I.models
    for fn in ("malloc", "calloc", "realloc", "CRYPTO_malloc", "CRYPTO_zalloc"):
        if fn in m:
            def w(I, a, ins, base=m[fn]):
                if F.now("alloc", ins):
                    return NULL
                return base(I, a, ins)
            m[fn] = w
    return F


# ---------------------------------------------------------------- stdio
class FS:
    """Paths to files (memory regions); streams are regions whose state cells live
    in the analysed memory, so that joins treat them like any other memory."""

    def __init__(self, sc):
        self.sc, self.I = sc, sc.I
        self.files = {}     # path -> Region (content)
        self.streams = {}   # stream region -> (path, content region, mode)
        self.opened = []
        self.removed = []
        self.n = 0
        m = sc.I.models
        for k in dir(self):
            if k.startswith("f_"):
                m[k[2:]] = getattr(self, k)
        m["fopen64"] = self.f_fopen
        m["fseeko"] = self.f_fseek
        m["ftello"] = self.f_ftell
        if not hasattr(sc, "faults"):
            install_faults(sc)

    def bad(self, cls, ins):
        return self.sc.faults.now(cls, ins)

    # scenario side
    def create(self, path, bs):
        r = self.I.region("file:" + path, "file", None)
        for k, b in enumerate(bs):
            self.I.wmem(r)[k] = b
        self.I.wmem(r)["size"] = W(64, len(bs), None)
        self.files[path] = r
        return r

    def content(self, path):
        r = self.files.get(path)
        if r is None:
            return None
        n = self.I.mem[r]["size"].c
        if n is None:
            return None
        return [self.I.mem[r].get(k) for k in range(n)]

    def still_open(self):
        return [p for s, (p, c, m) in self.streams.items() if s not in self.I.freed]

    # helpers
    def path(self, p):
        s = ""
        p = self.I.fold(p)
        for k in range(4096):
            c = self.I.load(P(p.r, p.o + k, p.idx), 1)
            if c.c is None:
                raise Imprecise("file name is not constant")
            if c.c == 0:
                return s
            s += chr(c.c)

    def st(self, p, what):
        if not isinstance(p, P) or p.r is None or p.r not in self.streams:
            self.I.alarm("bad-stream", "%s of %r, which is not an open stream" % (what, p))
            raise Imprecise("%s of a bad stream at %s" % (what, self.I.site()))
        if p.r in self.I.freed:
            self.I.alarm("use-after-close", "%s of a closed stream (%s)" % (what, self.streams[p.r][0]))
        return p.r, self.streams[p.r][1]

    def get(self, r, k):
        v = self.I.mem[r][k]
        if v.c is None:
            raise Imprecise("stream position is not constant at %s" % self.I.site())
        return v.c

    def put(self, r, k, v):
        self.I.wmem(r)[k] = W(64, v & (2**64 - 1), None)

    # functions
    def f_fopen(self, I, a, ins):
        path, mode = self.path(a[0]), self.path(a[1])
        if self.bad("fopen", ins):
            return NULL
        if mode.startswith("r"):
            if path not in self.files:
                return NULL
            c = self.files[path]
        elif mode.startswith("w"):
            # truncates an existing file: same content object
            c = self.files.get(path)
            if c is None:
                c = self.create(path, [])
            else:
                for k in list(I.mem[c]):
                    del I.wmem(c)[k]
                self.put(c, "size", 0)
        else:
            c = self.files.get(path) or self.create(path, [])
        self.n += 1
        s = I.region("FILE#%d(%s)" % (self.n, path), "stream", 216)
        s.site = I.site(ins)
        self.streams[s] = (path, c, mode)
        self.put(s, "pos", 0 if not mode.startswith("a") else self.get(c, "size"))
        self.put(s, "err", 0)
        self.put(s, "eof", 0)
        self.opened.append((path, mode))
        return P(s, 0)

    def f_fclose(self, I, a, ins):
        if isinstance(a[0], P) and a[0].r is None:
            I.alarm("null-deref", "fclose(NULL)")
            return W(32, 0, None)
        s, c = self.st(a[0], "fclose")
        I.freed[s] = I.site(ins)
        return W(32, 0xffffffff if self.bad("fclose", ins) else 0, None)

    def num(self, a, ins):
        if a.c is None:
            raise Imprecise("I/O of symbolic size at %s" % self.I.site(ins))
        return a.c

    def f_fread(self, I, a, ins):
        sz, n = self.num(a[1], ins), self.num(a[2], ins)
        s, c = self.st(a[3], "fread")
        if self.bad("fread", ins):
            self.put(s, "err", 1)
            return W(64, 0, None)
        pos, size = self.get(s, "pos"), self.get(c, "size")
        want = sz * n
        have = max(0, min(want, size - pos))
        if have < want:
            self.put(s, "eof", 1)
        for k in range(have):
            I.store(P(a[0].r, a[0].o + k, a[0].idx), I.mem[c][pos + k], 1)
        self.put(s, "pos", pos + have)
        return W(64, have // sz if sz else 0, None)

    def f_fwrite(self, I, a, ins):
        sz, n = self.num(a[1], ins), self.num(a[2], ins)
        s, c = self.st(a[3], "fwrite")
        if self.bad("fwrite", ins):
            self.put(s, "err", 1)
            return W(64, 0, None)
        pos = self.get(s, "pos")
        for k in range(sz * n):
            I.wmem(c)[pos + k] = I.load(P(a[0].r, a[0].o + k, a[0].idx), 1)
        self.put(s, "pos", pos + sz * n)
        self.put(c, "size", max(self.get(c, "size"), pos + sz * n))
        return W(64, n if sz else 0, None)

    def f_fgetc(self, I, a, ins):
        s, c = self.st(a[0], "fgetc")
        if self.bad("fread", ins):
            self.put(s, "err", 1)
            return W(32, 0xffffffff, None)
        pos, size = self.get(s, "pos"), self.get(c, "size")
        if pos >= size:
            self.put(s, "eof", 1)
            return W(32, 0xffffffff, None)
        self.put(s, "pos", pos + 1)
        return I.U.zext(I.mem[c][pos], 32)

    f_getc = f_fgetc

    def f_fputc(self, I, a, ins):
        s, c = self.st(a[1], "fputc")
        if self.bad("fwrite", ins):
            self.put(s, "err", 1)
            return W(32, 0xffffffff, None)
        pos = self.get(s, "pos")
        b = I.U.trunc(a[0], 8)
        I.wmem(c)[pos] = b
        self.put(s, "pos", pos + 1)
        self.put(c, "size", max(self.get(c, "size"), pos + 1))
        return I.U.zext(b, 32)

    f_putc = f_fputc

    def f_fseek(self, I, a, ins):
        s, c = self.st(a[0], "fseek")
        if self.bad("fseek", ins):
            return W(32, 0xffffffff, None)
        off = a[1]
        if off.c is None:
            raise Imprecise("seek to a symbolic offset")
        base = {0: 0, 1: self.get(s, "pos"), 2: self.get(c, "size")}[a[2].c]
        self.put(s, "pos", base + off.s)
        self.put(s, "eof", 0)
        return W(32, 0, None)

    def f_rewind(self, I, a, ins):
        s, c = self.st(a[0], "rewind")
        self.put(s, "pos", 0)
        self.put(s, "eof", 0)
        self.put(s, "err", 0)
        return None

    def f_ftell(self, I, a, ins):
        s, c = self.st(a[0], "ftell")
        if self.bad("fseek", ins):
            return W(64, 2**64 - 1, None)
        return W(64, self.get(s, "pos"), None)

    def f_ferror(self, I, a, ins):
        s, c = self.st(a[0], "ferror")
        return W(32, self.get(s, "err"), None)

    def f_feof(self, I, a, ins):
        s, c = self.st(a[0], "feof")
        return W(32, self.get(s, "eof"), None)

    def f_clearerr(self, I, a, ins):
        s, c = self.st(a[0], "clearerr")
        self.put(s, "err", 0)
        self.put(s, "eof", 0)
        return None

    def f_fflush(self, I, a, ins):
        if isinstance(a[0], P) and a[0].r is None:
            return W(32, 0, None)
        s, c = self.st(a[0], "fflush")
        if self.bad("fwrite", ins):
            self.put(s, "err", 1)
            return W(32, 0xffffffff, None)
        return W(32, 0, None)

    def f_remove(self, I, a, ins):
        p = self.path(a[0])
        self.removed.append(p)
        # unlinked, open streams keep their content
        self.files.pop(p, None)
        return W(32, 0, None)

    f_unlink = f_remove

    def f_rename(self, I, a, ins):
        p, q = self.path(a[0]), self.path(a[1])
        if self.bad("fwrite", ins):
            return W(32, 0xffffffff, None)
        self.files[q] = self.files.pop(p)
        return W(32, 0, None)

    def f_perror(self, I, a, ins):
        return None

    def f_fputs(self, I, a, ins):
        s, c = self.st(a[1], "fputs")
        if self.bad("fwrite", ins):
            self.put(s, "err", 1)
            return W(32, 0xffffffff, None)
        p = I.fold(a[0])
        for k in range(1 << 20):
            b = I.load(P(p.r, p.o + k), 1)
            if b.c == 0:
                return W(32, 1, None)
            if b.c is None:
                raise Imprecise("fputs of symbolic text")
            pos = self.get(s, "pos")
            I.wmem(c)[pos] = b
            self.put(s, "pos", pos + 1)
            self.put(c, "size", max(self.get(c, "size"), pos + 1))

    def f_fgets(self, I, a, ins):
        s, c = self.st(a[2], "fgets")
        if self.bad("fread", ins):
            self.put(s, "err", 1)
            return NULL
        n = self.num(a[1], ins)
        k = 0
        while k < n - 1:
            pos, size = self.get(s, "pos"), self.get(c, "size")
            if pos >= size:
                self.put(s, "eof", 1)
                break
            b = I.mem[c][pos]
            self.put(s, "pos", pos + 1)
            I.store(P(a[0].r, a[0].o + k, a[0].idx), b, 1)
            k += 1
            if b.c is None:
                # a symbolic byte could be a newline: text header of unknown content
                raise Imprecise("fgets over symbolic bytes at %s" % I.site(ins))
            if b.c == 10:
                break
        if k == 0:
            return NULL
        I.store(P(a[0].r, a[0].o + k, a[0].idx), W(8, 0, None), 1)
        return a[0]
