"""Reference definitions, written from the standards over the word algebra of poly.py."""
from poly import W, mk, ZERO, ONE

# ---- SM4 (GB/T 32907-2016): the S-box is generated from its algebraic definition
# S(x) = A * inv(A*x + c) + c over GF(2^8)/(x^8+x^7+x^6+x^5+x^4+x^2+1)


def _gf_mul(a, b, mod):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= mod
        b >>= 1
    return r


def _gf_inv(a, mod):
    if a == 0:
        return 0
    r = 1
    for _ in range(254):
        r = _gf_mul(r, a, mod)
    return r


def sm4_sbox():
    # rows of A: circulant generated from 0xA7 (Liu et al., "Analysis of the SMS4 block cipher", 2007), constant 0xD3
    row = 0xA7
    rows = [((row << i) | (row >> (8 - i))) & 0xFF for i in range(8)]

    def aff(x):
        y = 0
        for i in range(8):
            y |= (bin(rows[i] & x).count("1") & 1) << i
        return y ^ 0xD3
    return [aff(_gf_inv(aff(x), 0x1F5)) for x in range(256)]


def aes_sbox():
    out = []
    for x in range(256):
        b = _gf_inv(x, 0x11B)
        y = 0
        for i in range(5):
            y ^= ((b << i) | (b >> (8 - i))) & 0xFF
        out.append(y ^ 0x63)
    return out


SM4_FK = [0xA3B1BAC6, 0x56AA3350, 0x677D9197, 0xB27022DC]
SM4_CK = [sum((((4 * i + j) * 7) & 0xFF) << (8 * (3 - j)) for j in range(4)) for i in range(32)]


class Spec:
    def __init__(self, U):
        self.U = U
        self._sm4 = [W(8, v, None) for v in sm4_sbox()]
        self._aes = [W(8, v, None) for v in aes_sbox()]

    def sub(self, table, byte):
        """S-box on a (possibly symbolic) byte"""
        if byte.c is not None:
            return table[byte.c]
        live = [i for i, b in enumerate(byte.bits) if b and b != ONE]
        base = sum(1 << i for i, b in enumerate(byte.bits) if b == ONE)
        ents = []
        for v in range(1 << len(live)):
            t = base
            for j, i in enumerate(live):
                if v >> j & 1:
                    t |= 1 << i
            ents.append(table[t])
        # same term ordering as the interpreter: by weight
        return self.U.lut([byte.bits[i] for i in live], ents, 8)

    def bytes_of(self, w):
        return [mk(w.bits[8 * i:8 * i + 8]) for i in range(w.w // 8)]

    def tau(self, w):
        return self.U.concat([self.sub(self._sm4, b) for b in self.bytes_of(w)])

    def L(self, w):
        U = self.U
        r = w
        for n in (2, 10, 18, 24):
            r = U.xor(r, U.rotl(w, n))
        return r

    def Lp(self, w):
        U = self.U
        return U.xor(U.xor(w, U.rotl(w, 13)), U.rotl(w, 23))

    def sm4_keys(self, keybytes):
        U = self.U
        K = [U.xor(self.be(keybytes[4 * i:4 * i + 4]), W(32, SM4_FK[i], None)) for i in range(4)]
        rk = []
        for i in range(32):
            x = U.xor(U.xor(K[i + 1], K[i + 2]), U.xor(K[i + 3], W(32, SM4_CK[i], None)))
            K.append(U.xor(K[i], self.Lp(self.tau(x))))
            rk.append(K[-1])
        return rk

    def be(self, bs):
        return self.U.concat(list(reversed(bs)))

    def tobytes_be(self, w):
        return list(reversed(self.bytes_of(w)))

    def sm4_crypt(self, rk, inbytes, dec=False):
        U = self.U
        X = [self.be(inbytes[4 * i:4 * i + 4]) for i in range(4)]
        for i in range(32):
            k = rk[31 - i] if dec else rk[i]
            t = U.xor(U.xor(X[i + 1], X[i + 2]), U.xor(X[i + 3], k))
            X.append(U.xor(X[i], self.L(self.tau(t))))
        out = []
        for j in range(4):
            out += self.tobytes_be(X[35 - j])
        return out

    # ---- GF(2^128) of SP 800-38D: blocks as 16 bytes, bit 0 = MSB of byte 0
    # ---- AES-128 (FIPS 197)
    def xtime(self, w):
        b = w.bits
        return mk((b[7], b[0] ^ b[7], b[1], b[2] ^ b[7], b[3] ^ b[7], b[4], b[5], b[6]))

    def aes_keys(self, kb):
        U = self.U
        ws = [kb[4 * i:4 * i + 4] for i in range(4)]
        rc = 1
        for i in range(4, 44):
            t = list(ws[i - 1])
            if i % 4 == 0:
                t = [self.sub(self._aes, x) for x in t[1:] + t[:1]]
                t[0] = U.xor(t[0], W(8, rc, None))
                rc = _gf_mul(rc, 2, 0x11b)
            ws.append([U.xor(a, b) for a, b in zip(ws[i - 4], t)])
        return [sum(ws[4 * r:4 * r + 4], []) for r in range(11)]

    def aes_crypt(self, rk, inp):
        U = self.U
        s = [U.xor(a, b) for a, b in zip(inp, rk[0])]
        for r in range(1, 11):
            s = [self.sub(self._aes, x) for x in s]
            s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
            if r < 10:
                o = []
                for c in range(4):
                    a = s[4 * c:4 * c + 4]
                    for i in range(4):
                        x, y = a[i], a[(i + 1) % 4]
                        v = U.xor(self.xtime(x), U.xor(self.xtime(y), y))
                        o.append(U.xor(v, U.xor(a[(i + 2) % 4], a[(i + 3) % 4])))
                s = o
            s = [U.xor(a, b) for a, b in zip(s, rk[r])]
        return s

    def gf_bits(self, bs):
        out = []
        for b in bs:
            out += [b.bits[7 - i] for i in range(8)]
        return out

    def gf_bytes(self, bits):
        return [mk(tuple(bits[8 * k + 7 - i] for i in range(8))) for k in range(16)]

    def gf_powers(self, hbytes):
        """H * x^i for i = 0..127"""
        v = self.gf_bits(hbytes)
        out = []
        for _ in range(128):
            out.append(v)
            lsb = v[127]
            v = [ZERO] + v[:127]
            for p in (0, 1, 2, 7):      # R = 11100001 || 0^120
                v[p] = v[p] ^ lsb
        return out

    def gf_mul(self, xbytes, powers):
        U = self.U
        x = self.gf_bits(xbytes)
        z = [set() for _ in range(128)]
        for i in range(128):
            if not x[i]:
                continue
            xi = U.name(x[i]) if len(x[i]) > U.BIG else x[i]
            for j in range(128):
                h = powers[i][j]
                if h:
                    z[j] ^= U.mul(xi, h)
        return self.gf_bytes([frozenset(s) for s in z])

    def xorb(self, a, b):
        return [self.U.xor(x, y) for x, y in zip(a, b)]

    def const_bytes(self, v, n):
        return [W(8, b, None) for b in v.to_bytes(n, "big")]

    def ghash(self, powers, data, y=None):
        """data: list of bytes, zero padded to whole blocks"""
        y = y or self.const_bytes(0, 16)
        for i in range(0, len(data), 16):
            blk = data[i:i + 16]
            blk = blk + [W(8, 0, None)] * (16 - len(blk))
            y = self.gf_mul(self.xorb(y, blk), powers)
        return y

    def inc32(self, block):
        """inc_32 of SP 800-38D on 16 bytes"""
        w = self.be(block[12:])
        return block[:12] + self.tobytes_be(self.U.add(w, W(32, 1, None)))

    def gcm(self, E, iv, aad, msg, dec=False, taglen=16):
        """SP 800-38D GCM over an arbitrary 128-bit block function E (bytes -> bytes)"""
        H = E(self.const_bytes(0, 16))
        pw = self.gf_powers(H)
        if len(iv) == 12:
            J0 = iv + self.const_bytes(1, 4)
        else:
            y = self.ghash(pw, iv)
            J0 = self.gf_mul(self.xorb(y, self.const_bytes(len(iv) * 8, 16)), pw)
        ctr = J0
        out = []
        for i in range(0, len(msg), 16):
            ctr = self.inc32(ctr)
            blk = msg[i:i + 16]
            out += self.xorb(blk, E(ctr))
        ct = msg if dec else out
        y = self.ghash(pw, aad)
        y = self.ghash(pw, ct, y)
        y = self.gf_mul(self.xorb(y, self.const_bytes(len(aad) * 8, 8) + self.const_bytes(len(msg) * 8, 8)), pw)
        tag = self.xorb(E(J0), y)[:taglen]
        return out, tag

    # ---- SM3 (GB/T 32905-2016)
    SM3_IV = [0x7380166F, 0x4914B2B9, 0x172442D7, 0xDA8A0600, 0xA96F30BC, 0x163138AA, 0xE38DEE4D, 0xB0FB0E4E]

    def sm3_compress(self, V, blk):
        U = self.U
        R = U.rotl

        def X(*a):
            r = a[0]
            for b in a[1:]:
                r = U.xor(r, b)
            return r

        def add(*a):
            r = a[0]
            for b in a[1:]:
                r = U.add(r, b)
            return r
        Wd = [self.be(blk[4 * i:4 * i + 4]) for i in range(16)]
        for j in range(16, 68):
            t = X(Wd[j - 16], Wd[j - 9], R(Wd[j - 3], 15))
            Wd.append(X(X(t, R(t, 15), R(t, 23)), R(Wd[j - 13], 7), Wd[j - 6]))
        A, B, C, D, E, F, G, H = V
        for j in range(64):
            Tj = 0x79CC4519 if j < 16 else 0x7A879D8A
            k = j % 32
            Tj = ((Tj << k) | (Tj >> (32 - k))) & 0xFFFFFFFF if k else Tj
            a12 = R(A, 12)
            SS1 = R(add(a12, E, W(32, Tj, None)), 7)
            SS2 = U.xor(SS1, a12)
            if j < 16:
                ff, gg = X(A, B, C), X(E, F, G)
            else:
                ff = X(U.and_(A, B), U.and_(A, C), U.and_(B, C))
                gg = X(U.and_(E, F), U.and_(U.not_(E), G))
            TT1 = add(ff, D, SS2, U.xor(Wd[j], Wd[j + 4]))
            TT2 = add(gg, H, SS1, Wd[j])
            D, C, B, A = C, R(B, 9), A, TT1
            H, G, F, E = G, R(F, 19), E, X(TT2, R(TT2, 9), R(TT2, 17))
        return [U.xor(a, b) for a, b in zip((A, B, C, D, E, F, G, H), V)]

    def sm3(self, msg):
        n = len(msg)
        m = msg + [W(8, 0x80, None)]
        while len(m) % 64 != 56:
            m.append(W(8, 0, None))
        m += self.const_bytes(n * 8, 8)
        V = [W(32, v, None) for v in self.SM3_IV]
        for i in range(0, len(m), 64):
            V = self.sm3_compress(V, m[i:i + 64])
        out = []
        for v in V:
            out += self.tobytes_be(v)
        return out
