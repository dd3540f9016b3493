"""Reference definitions of the algorithms, written from the published
specifications (RFC 1321, RFC 3174, FIPS 180-4, RIPEMD paper, SipHash paper and
HalfSipHash reference, xxHash spec, FNV draft).  Each block function works on an
abstract word algebra so that the same text is used with Python integers
(validation, replay) and with symbolic terms (proof)."""
import term as T


class IntAlg:
    """words are Python ints"""
    def __init__(self, w):
        self.w = w
        self.m = (1 << w) - 1

    def c(self, v):
        return v & self.m

    def add(self, *xs):
        return sum(xs) & self.m

    def sub(self, a, b):
        return (a - b) & self.m

    def mul(self, a, k):
        return (a * k) & self.m

    def xor(self, *xs):
        r = 0
        for x in xs:
            r ^= x
        return r

    def and_(self, a, b):
        return a & b

    def or_(self, a, b):
        return a | b

    def not_(self, a):
        return a ^ self.m

    def rotl(self, a, r):
        r %= self.w
        return ((a << r) | (a >> (self.w - r))) & self.m if r else a

    def rotr(self, a, r):
        return self.rotl(a, self.w - r)

    def shr(self, a, r):
        return a >> r

    def shl(self, a, r):
        return (a << r) & self.m

    def le(self, bs):
        return int.from_bytes(bytes(bs), 'little')

    def be(self, bs):
        return int.from_bytes(bytes(bs), 'big')

    def tole(self, x):
        return [(x >> (8 * i)) & 255 for i in range(self.w // 8)]

    def tobe(self, x):
        return self.tole(x)[::-1]

    def ext(self, b):
        return b


class TermAlg:
    def __init__(self, w):
        self.w = w

    def c(self, v):
        return T.const(self.w, v)

    def _l(self, x):
        return T.const(self.w, x) if isinstance(x, int) else x

    def add(self, *xs):
        r = self.c(0)
        for x in xs:
            r = T.add(r, self._l(x))
        return r

    def sub(self, a, b):
        return T.sub(self._l(a), self._l(b))

    def mul(self, a, k):
        return T.mulc(self._l(a), k)

    def xor(self, *xs):
        r = self.c(0)
        for x in xs:
            r = T.xor(r, self._l(x))
        return r

    def and_(self, a, b):
        return T.and_(self._l(a), self._l(b))

    def or_(self, a, b):
        return T.or_(self._l(a), self._l(b))

    def not_(self, a):
        return T.not_(self._l(a))

    def rotl(self, a, r):
        return T.rotl(self._l(a), r)

    def rotr(self, a, r):
        return T.rotl(self._l(a), self.w - r)

    def shr(self, a, r):
        return T.lshr(self._l(a), r)

    def shl(self, a, r):
        return T.shl(self._l(a), r)

    def le(self, bs):
        return T.concat_bytes(list(bs))

    def be(self, bs):
        return T.concat_bytes(list(bs)[::-1])

    def tole(self, x):
        return [T.extract(self._l(x), 8 * i, 8) for i in range(self.w // 8)]

    def tobe(self, x):
        return self.tole(x)[::-1]

    def ext(self, b):
        return T.zext(b, self.w)


# ---------------------------------------------------------------- MD5 (RFC 1321)
import math

_MD5_K = [int(abs(math.sin(i + 1)) * 4294967296) & 0xffffffff for i in range(64)]
_MD5_S = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]]


def md5_step(A, st, block):
    X = [A.le(block[4 * i:4 * i + 4]) for i in range(16)]
    a, b, c, d = st
    for i in range(64):
        r = i // 16
        if r == 0:
            f = A.or_(A.and_(b, c), A.and_(A.not_(b), d))
            g = i
        elif r == 1:
            f = A.or_(A.and_(b, d), A.and_(c, A.not_(d)))
            g = (5 * i + 1) % 16
        elif r == 2:
            f = A.xor(b, c, d)
            g = (3 * i + 5) % 16
        else:
            f = A.xor(c, A.or_(b, A.not_(d)))
            g = (7 * i) % 16
        t = A.add(a, f, X[g], _MD5_K[i])
        a, d, c, b = d, c, b, A.add(b, A.rotl(t, _MD5_S[r][i % 4]))
    return [A.add(st[0], a), A.add(st[1], b), A.add(st[2], c), A.add(st[3], d)]


# ---------------------------------------------------------------- SHA-1 (FIPS 180-4)
def sha1_step(A, st, block):
    W = [A.be(block[4 * i:4 * i + 4]) for i in range(16)]
    for t in range(16, 80):
        W.append(A.rotl(A.xor(W[t - 3], W[t - 8], W[t - 14], W[t - 16]), 1))
    a, b, c, d, e = st
    for t in range(80):
        if t < 20:
            f = A.xor(A.and_(b, c), A.and_(A.not_(b), d))
            k = 0x5a827999
        elif t < 40:
            f = A.xor(b, c, d)
            k = 0x6ed9eba1
        elif t < 60:
            f = A.xor(A.and_(b, c), A.and_(b, d), A.and_(c, d))
            k = 0x8f1bbcdc
        else:
            f = A.xor(b, c, d)
            k = 0xca62c1d6
        T_ = A.add(A.rotl(a, 5), f, e, k, W[t])
        e, d, c, b, a = d, c, A.rotl(b, 30), a, T_
    return [A.add(x, y) for x, y in zip(st, (a, b, c, d, e))]


# ---------------------------------------------------------------- SHA-2 (FIPS 180-4)
def _primes(n):
    out = []
    x = 2
    while len(out) < n:
        if all(x % p for p in out if p * p <= x):
            out.append(x)
        x += 1
    return out


def _icbrt(n):
    x = int(round(n ** (1 / 3)))
    lo, hi = 0, 1 << ((n.bit_length() + 2) // 3 + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= n:
            lo = m
        else:
            hi = m - 1
    return lo


_P = _primes(80)
K256 = [_icbrt(p << 96) & 0xffffffff for p in _P[:64]]
K512 = [_icbrt(p << 192) & 0xffffffffffffffff for p in _P]
IV256 = [math.isqrt(p << 64) & 0xffffffff for p in _P[:8]]
IV512 = [math.isqrt(p << 128) & 0xffffffffffffffff for p in _P[:8]]
IV384 = [math.isqrt(p << 128) & 0xffffffffffffffff for p in _P[8:16]]
IV224 = [x & 0xffffffff for x in IV384]


def _sha2_step(A, st, block, wb, K, S0, S1, s0, s1):
    R = len(K)
    W = [A.be(block[wb * i:wb * i + wb]) for i in range(16)]
    for t in range(16, R):
        x, y = W[t - 2], W[t - 15]
        W.append(A.add(A.xor(A.rotr(x, s1[0]), A.rotr(x, s1[1]), A.shr(x, s1[2])), W[t - 7],
                       A.xor(A.rotr(y, s0[0]), A.rotr(y, s0[1]), A.shr(y, s0[2])), W[t - 16]))
    a, b, c, d, e, f, g, h = st
    for t in range(R):
        t1 = A.add(h, A.xor(A.rotr(e, S1[0]), A.rotr(e, S1[1]), A.rotr(e, S1[2])), A.xor(A.and_(e, f), A.and_(A.not_(e), g)), K[t], W[t])
        t2 = A.add(A.xor(A.rotr(a, S0[0]), A.rotr(a, S0[1]), A.rotr(a, S0[2])), A.xor(A.and_(a, b), A.and_(a, c), A.and_(b, c)))
        h, g, f, e, d, c, b, a = g, f, e, A.add(d, t1), c, b, a, A.add(t1, t2)
    return [A.add(x, y) for x, y in zip(st, (a, b, c, d, e, f, g, h))]


def sha256_step(A, st, block):
    return _sha2_step(A, st, block, 4, K256, (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10))


def sha512_step(A, st, block):
    return _sha2_step(A, st, block, 8, K512, (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6))


def _sha512t_iv(t):
    A = IntAlg(64)
    st = [x ^ 0xa5a5a5a5a5a5a5a5 for x in IV512]
    m = b'SHA-512/%d' % t
    blk = m + b'\x80' + bytes(128 - 1 - len(m) - 8) + (8 * len(m)).to_bytes(8, 'big')
    return sha512_step(A, st, list(blk))


IV512_224 = _sha512t_iv(224)
IV512_256 = _sha512t_iv(256)

# ---------------------------------------------------------------- RIPEMD
_RL = [list(range(16)),
       [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8],
       [3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12],
       [1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2],
       [4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13]]
_RR = [[5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12],
       [6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2],
       [15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13],
       [8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14],
       [12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11]]
_SL = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
       [7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12],
       [11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5],
       [11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12],
       [9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6]]
_SR = [[8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6],
       [9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11],
       [9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5],
       [15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8],
       [8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11]]
_KL = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]
_KR160 = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
_KR128 = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0]


def _rf(A, j, x, y, z):
    if j == 0:
        return A.xor(x, y, z)
    if j == 1:
        return A.or_(A.and_(x, y), A.and_(A.not_(x), z))
    if j == 2:
        return A.xor(A.or_(x, A.not_(y)), z)
    if j == 3:
        return A.or_(A.and_(x, z), A.and_(y, A.not_(z)))
    return A.xor(x, A.or_(y, A.not_(z)))


def rmd160_step(A, st, block):
    X = [A.le(block[4 * i:4 * i + 4]) for i in range(16)]
    al, bl, cl, dl, el = st
    ar, br, cr, dr, er = st
    for r in range(5):
        for i in range(16):
            t = A.add(A.rotl(A.add(al, _rf(A, r, bl, cl, dl), X[_RL[r][i]], _KL[r]), _SL[r][i]), el)
            al, el, dl, cl, bl = el, dl, A.rotl(cl, 10), bl, t
            t = A.add(A.rotl(A.add(ar, _rf(A, 4 - r, br, cr, dr), X[_RR[r][i]], _KR160[r]), _SR[r][i]), er)
            ar, er, dr, cr, br = er, dr, A.rotl(cr, 10), br, t
    return [A.add(st[1], cl, dr), A.add(st[2], dl, er), A.add(st[3], el, ar), A.add(st[4], al, br), A.add(st[0], bl, cr)]


def rmd128_step(A, st, block):
    X = [A.le(block[4 * i:4 * i + 4]) for i in range(16)]
    al, bl, cl, dl = st
    ar, br, cr, dr = st
    for r in range(4):
        for i in range(16):
            t = A.rotl(A.add(al, _rf(A, r, bl, cl, dl), X[_RL[r][i]], _KL[r]), _SL[r][i])
            al, dl, cl, bl = dl, cl, bl, t
            t = A.rotl(A.add(ar, _rf(A, 3 - r, br, cr, dr), X[_RR[r][i]], _KR128[r]), _SR[r][i])
            ar, dr, cr, br = dr, cr, br, t
    return [A.add(st[1], cl, dr), A.add(st[2], dl, ar), A.add(st[3], al, br), A.add(st[0], bl, cr)]


MD_IV = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]
SHA1_IV = MD_IV + [0xc3d2e1f0]


# ---------------------------------------------------------------- SipHash-2-4
def sip64_round(A, v):
    v0, v1, v2, v3 = v
    v0 = A.add(v0, v1)
    v1 = A.xor(A.rotl(v1, 13), v0)
    v0 = A.rotl(v0, 32)
    v2 = A.add(v2, v3)
    v3 = A.xor(A.rotl(v3, 16), v2)
    v0 = A.add(v0, v3)
    v3 = A.xor(A.rotl(v3, 21), v0)
    v2 = A.add(v2, v1)
    v1 = A.xor(A.rotl(v1, 17), v2)
    v2 = A.rotl(v2, 32)
    return [v0, v1, v2, v3]


def sip64_step(A, v, block):
    m = A.le(block)
    v = list(v)
    v[3] = A.xor(v[3], m)
    for _ in range(2):
        v = sip64_round(A, v)
    v[0] = A.xor(v[0], m)
    return v


def sip32_round(A, v):
    v0, v1, v2, v3 = v
    v0 = A.add(v0, v1)
    v1 = A.xor(A.rotl(v1, 5), v0)
    v0 = A.rotl(v0, 16)
    v2 = A.add(v2, v3)
    v3 = A.xor(A.rotl(v3, 8), v2)
    v0 = A.add(v0, v3)
    v3 = A.xor(A.rotl(v3, 7), v0)
    v2 = A.add(v2, v1)
    v1 = A.xor(A.rotl(v1, 13), v2)
    v2 = A.rotl(v2, 16)
    return [v0, v1, v2, v3]


def sip32_step(A, v, block):
    m = A.le(block)
    v = list(v)
    v[3] = A.xor(v[3], m)
    for _ in range(2):
        v = sip32_round(A, v)
    v[0] = A.xor(v[0], m)
    return v


# ---------------------------------------------------------------- xxHash
X32 = [2654435761, 2246822519, 3266489917, 668265263, 374761393]
X64 = [11400714785074694791, 14029467366897019727, 1609587929392839161, 9650029242287828579, 2870177450012600261]


def xxh32_round(A, acc, x):
    return A.mul(A.rotl(A.add(acc, A.mul(x, X32[1])), 13), X32[0])


def xxh64_round(A, acc, x):
    return A.mul(A.rotl(A.add(acc, A.mul(x, X64[1])), 31), X64[0])


def xxh32_step(A, v, block):
    return [xxh32_round(A, v[i], A.le(block[4 * i:4 * i + 4])) for i in range(4)]


def xxh64_step(A, v, block):
    return [xxh64_round(A, v[i], A.le(block[8 * i:8 * i + 8])) for i in range(4)]


FNV = {32: (0x811c9dc5, 0x01000193), 64: (0xcbf29ce484222325, 0x00000100000001b3)}


def fnv_step(A, st, block):
    return [A.mul(A.xor(st[0], A.ext(block[0])), FNV[A.w][1])]


# ---------------------------------------------------------------- MurmurHash3 (public domain reference by Austin Appleby)
M3A = (0xcc9e2d51, 0x1b873593)
M3F = (0x87c37b91114253d5, 0x4cf5ad432745937f)


def mur32_k(A, k):
    return A.mul(A.rotl(A.mul(k, M3A[0]), 15), M3A[1])


def mur32_step(A, st, block):
    h = A.rotl(A.xor(st[0], mur32_k(A, A.le(block))), 13)
    return [A.add(A.mul(h, 5), A.c(0xe6546b64))]


def mur32_fmix(A, h):
    h = A.mul(A.xor(h, A.shr(h, 16)), 0x85ebca6b)
    h = A.mul(A.xor(h, A.shr(h, 13)), 0xc2b2ae35)
    return A.xor(h, A.shr(h, 16))


def mur128_k1(A, k):
    return A.mul(A.rotl(A.mul(k, M3F[0]), 31), M3F[1])


def mur128_k2(A, k):
    return A.mul(A.rotl(A.mul(k, M3F[1]), 33), M3F[0])


def mur128_step(A, st, block):
    h1, h2 = st
    h1 = A.xor(h1, mur128_k1(A, A.le(block[:8])))
    h1 = A.add(A.mul(A.add(A.rotl(h1, 27), h2), 5), A.c(0x52dce729))
    h2 = A.xor(h2, mur128_k2(A, A.le(block[8:])))
    h2 = A.add(A.mul(A.add(A.rotl(h2, 31), h1), 5), A.c(0x38495ab5))
    return [h1, h2]


def mur128_fmix(A, k):
    k = A.mul(A.xor(k, A.shr(k, 33)), 0xff51afd7ed558ccd)
    k = A.mul(A.xor(k, A.shr(k, 33)), 0xc4ceb9fe1a85ec53)
    return A.xor(k, A.shr(k, 33))


# ---------------------------------------------------------------- SpookyHash V2 (public domain reference by Bob Jenkins)
SPK_C = 0xdeadbeefdeadbeef
SPK_MIX = [11, 32, 43, 31, 17, 28, 39, 57, 55, 54, 22, 46]
SPK_END = [44, 15, 34, 21, 38, 33, 10, 13, 38, 53, 42, 54]
SPK_SMIX = [50, 52, 30, 41, 54, 48, 38, 37, 62, 34, 5, 36]
SPK_SEND = [15, 52, 26, 51, 28, 9, 47, 54, 32, 25, 63]


def spk_mix(A, st, block):
    """one 96-byte round"""
    s = list(st)
    for i in range(12):
        s[i] = A.add(s[i], A.le(block[8 * i:8 * i + 8]))
        s[(i + 2) % 12] = A.xor(s[(i + 2) % 12], s[(i + 10) % 12])
        s[(i + 11) % 12] = A.xor(s[(i + 11) % 12], s[i])
        s[i] = A.rotl(s[i], SPK_MIX[i])
        s[(i + 11) % 12] = A.add(s[(i + 11) % 12], s[(i + 1) % 12])
    return s


def spk_end(A, st, block):
    s = [A.add(x, A.le(block[8 * i:8 * i + 8])) for i, x in enumerate(st)]
    for _ in range(3):
        for i in range(12):
            a, b, c = (i + 11) % 12, (i + 1) % 12, (i + 2) % 12
            s[a] = A.add(s[a], s[b])
            s[c] = A.xor(s[c], s[a])
            s[b] = A.rotl(s[b], SPK_END[i])
    return s


def spk_short_mix(A, h):
    h = list(h)
    for i, r in enumerate(SPK_SMIX):
        x, y, z = (i + 2) % 4, (i + 3) % 4, i % 4
        h[x] = A.rotl(h[x], r)
        h[x] = A.add(h[x], h[y])
        h[z] = A.xor(h[z], h[x])
    return h


def spk_short_end(A, h):
    h = list(h)
    for i, r in enumerate(SPK_SEND):
        x, y = (i + 3) % 4, (i + 2) % 4
        h[x] = A.xor(h[x], h[y])
        h[y] = A.rotl(h[y], r)
        h[x] = A.add(h[x], h[y])
    return h


def spk_step(A, st, block):
    return spk_mix(A, spk_mix(A, st, block[:96]), block[96:])
