"""Abstract hash machines: chaining words, pending bytes, byte counter.

Every streaming algorithm of the library is specified as
   absorb   : words' = step(words, block)  for every full block of the stream
   finish   : (words, pending bytes, n) -> (result bytes/word, words', n')
   seed/key : initial words, or default construction followed by calls
The text is generic over the word algebra (ints or symbolic terms)."""
import term as T
from specs import alg
from specs.alg import IntAlg, TermAlg


class C:
    """byte-counter arithmetic for ints or terms (counter width cw)"""
    def __init__(self, alg_, cw):
        self.A = alg_
        self.cw = cw


class Machine:
    kind = ''
    arr = False          # result is a byte array
    stale = False        # old message bytes may stay behind the pending ones until result
    longshort = False    # result depends on whether a whole block has been absorbed
    legacy = False
    seed2 = False        # has a constructor taking two seeds
    FN = None            # ghost fold granularity (bytes); N unless the block is absorbed in parts

    def __init__(self, name, hdr, cls, N, w, step, iv, dwarf=None, **kw):
        self.name, self.hdr, self.cls, self.N, self.w, self.step, self.iv = name, hdr, cls, N, w, step, iv
        self.k = len(iv)
        self.FN = N
        self.fstep = step
        self.dwarf = dwarf or (cls + 'E$')
        self.__dict__.update(kw)

    def alg(self, A):
        return A(self.w)

    # counter helpers -------------------------------------------------
    def cadd(self, A, n, c):
        if A is IntAlg:
            return (n + c) & ((1 << self.cw) - 1)
        return T.add(n, T.const(self.cw, c))

    cw = 64


class MD(Machine):
    """Merkle-Damgard with 0x80 padding and a length field"""
    be = False
    lenbytes = 8
    outlen = None
    kind = 'md'

    def padlen(self, m):
        r = self.N - self.lenbytes
        return (r - m if m < r else r + self.N - m) + self.lenbytes

    def finish(self, A, words, pend, n):
        """pend: list of bytes (len < N); n: 64-bit counter"""
        m = len(pend)
        a64 = A(64)
        a8 = A(8)
        bits = a64.mul(n, 8)
        lb = a64.tobe(bits) if self.be else a64.tole(bits)
        z = a8.c(0)
        if self.lenbytes == 16:
            lb = [z] * 8 + lb if self.be else lb + [z] * 8
        pl = self.padlen(m)
        tail = list(pend) + [a8.c(0x80)] + [z] * (pl - 1 - self.lenbytes) + lb
        assert len(tail) % self.N == 0
        WA = A(self.w)
        for i in range(0, len(tail), self.N):
            words = self.step(WA, words, tail[i:i + self.N])
        out = []
        for x in words:
            out += WA.tobe(x) if self.be else WA.tole(x)
        return out[:self.outlen], words, self.cadd(A, n, pl)

    def seed(self, s):
        """-> ('words', iv) | ('calls', [...])"""
        return None


class Mur32(Machine):
    kind = 'mur'

    def finish(self, A, words, pend, n):
        m = len(pend)
        WA = A(32)
        z = A(8).c(0)
        h = words[0]
        if m:
            h = WA.xor(h, alg.mur32_k(WA, WA.le(list(pend) + [z] * (4 - m))))
        h = alg.mur32_fmix(WA, WA.xor(h, (n & M32) if A is IntAlg else T.trunc(n, 32)))
        return WA.tole(h), words, self.cadd(A, n, 4 - m)


class Mur128(Machine):
    kind = 'mur'

    def finish(self, A, words, pend, n):
        m = len(pend)
        WA = A(64)
        z = A(8).c(0)
        h1, h2 = words
        b = list(pend) + [z] * (16 - m)
        if m > 8:
            h2 = WA.xor(h2, alg.mur128_k2(WA, WA.le(b[8:])))
        if m > 0:
            h1 = WA.xor(h1, alg.mur128_k1(WA, WA.le(b[:8])))
        h1, h2 = WA.xor(h1, n), WA.xor(h2, n)
        h1 = WA.add(h1, h2)
        h2 = WA.add(h2, h1)
        h1, h2 = alg.mur128_fmix(WA, h1), alg.mur128_fmix(WA, h2)
        h1 = WA.add(h1, h2)
        h2 = WA.add(h2, h1)
        return WA.tole(h1) + WA.tole(h2), words, self.cadd(A, n, 16 - m)


class Spooky(Machine):
    kind = 'spk'

    def finish(self, A, words, pend, n, long=None):
        m = len(pend)
        WA = A(64)
        z = A(8).c(0)
        if long is None:
            long = n >= self.N
        h = list(words)
        if not long:
            a, b, c, d = h[0], h[1], WA.c(alg.SPK_C), WA.c(alg.SPK_C)
            i = 0
            while m - i >= 16:
                c = WA.add(c, WA.le(pend[i:i + 8]))
                d = WA.add(d, WA.le(pend[i + 8:i + 16]))
                a, b, c, d = alg.spk_short_mix(WA, [a, b, c, d])
                if m - i >= 32:
                    a = WA.add(a, WA.le(pend[i + 16:i + 24]))
                    b = WA.add(b, WA.le(pend[i + 24:i + 32]))
                    i += 16
                i += 16
            d = WA.add(d, WA.c(m << 56))
            if i == m:
                c = WA.add(c, WA.c(alg.SPK_C))
                d = WA.add(d, WA.c(alg.SPK_C))
            else:
                t = list(pend[i:]) + [z] * (16 - m + i)
                c = WA.add(c, WA.le(t[:8]))
                d = WA.add(d, WA.le(t[8:]))
            h[0], h[1] = alg.spk_short_end(WA, [a, b, c, d])[:2]
        else:
            p = list(pend)
            if m >= 96:
                h = alg.spk_mix(WA, h, p[:96])
                p = p[96:]
            p = p + [z] * (95 - len(p)) + [A(8).c(len(p))]
            h = alg.spk_end(WA, h, p)
        return WA.tole(h[0]) + WA.tole(h[1]), h, self.cadd(A, n, self.N - m)


def spk_iv(a, b):
    return [a, b, alg.SPK_C] * 4


class Sip(Machine):
    kind = 'sip'

    def finish(self, A, words, pend, n):
        m = len(pend)
        WA = A(self.w)
        z = A(8).c(0)
        nb = (n & 255) if A is IntAlg else T.extract(n, 0, 8)
        blk = list(pend) + [z] * (self.N - 1 - m) + [nb]
        v = self.step(WA, words, blk)
        v = [v[0], v[1], WA.xor(v[2], WA.c(0xff)), v[3]]
        rnd = alg.sip64_round if self.w == 64 else alg.sip32_round
        for _ in range(4):
            v = rnd(WA, v)
        r = WA.xor(*v) if self.w == 64 else WA.xor(v[1], v[3])
        return WA.tole(r), v, self.cadd(A, n, self.N - m)


class XXH(Machine):
    kind = 'xxh'

    def finish(self, A, words, pend, n, long=None):
        """long: bool, n >= N (decided by the caller)"""
        m = len(pend)
        WA = A(self.w)
        if long is None:
            long = n >= self.N
        v1, v2, v3, v4 = words
        if self.w == 32:
            P = alg.X32
            if long:
                h = WA.add(WA.rotl(v1, 1), WA.rotl(v2, 7), WA.rotl(v3, 12), WA.rotl(v4, 18))
            else:
                h = WA.add(v3, P[4])
            h = WA.add(h, (n & 0xffffffff) if A is IntAlg else T.trunc(n, 32))
            i = 0
            while m - i >= 4:
                h = WA.add(h, WA.mul(WA.le(pend[i:i + 4]), P[2]))
                h = WA.mul(WA.rotl(h, 17), P[3])
                i += 4
            while i < m:
                h = WA.add(h, WA.mul(WA.ext(pend[i]), P[4]))
                h = WA.mul(WA.rotl(h, 11), P[0])
                i += 1
            g = h
            for s, p in ((15, P[1]), (13, P[2]), (16, None)):
                g = WA.xor(g, WA.shr(g, s))
                if p:
                    g = WA.mul(g, p)
        else:
            P = alg.X64
            if long:
                h = WA.add(WA.rotl(v1, 1), WA.rotl(v2, 7), WA.rotl(v3, 12), WA.rotl(v4, 18))
                for v in words:
                    h = WA.xor(h, alg.xxh64_round(WA, WA.c(0), v))
                    h = WA.add(WA.mul(h, P[0]), P[3])
            else:
                h = WA.add(v3, P[4])
            h = WA.add(h, n)
            i = 0
            A32 = A(32)
            while m - i >= 8:
                h = WA.xor(h, alg.xxh64_round(WA, WA.c(0), WA.le(pend[i:i + 8])))
                h = WA.add(WA.mul(WA.rotl(h, 27), P[0]), P[3])
                i += 8
            if m - i >= 4:
                h = WA.xor(h, WA.mul(WA.ext(A32.le(pend[i:i + 4])), P[0]))
                h = WA.add(WA.mul(WA.rotl(h, 23), P[1]), P[2])
                i += 4
            while i < m:
                h = WA.xor(h, WA.mul(WA.ext(pend[i]), P[4]))
                h = WA.mul(WA.rotl(h, 11), P[0])
                i += 1
            g = h
            for s, p in ((33, P[1]), (29, P[2]), (32, None)):
                g = WA.xor(g, WA.shr(g, s))
                if p:
                    g = WA.mul(g, p)
        w2 = [WA.add(v1, h), WA.add(v2, h), WA.sub(v3, h), WA.sub(v4, h)]
        return WA.tole(g), w2, self.cadd(A, n, self.N - m)


class FNV(Machine):
    kind = 'fnv'

    def finish(self, A, words, pend, n):
        WA = A(self.w)
        return WA.tole(words[0]), [WA.mul(WA.xor(words[0], WA.c(0xff)), alg.FNV[self.w][1])], n


M32 = (1 << 32) - 1
M64 = (1 << 64) - 1
SIP64_IV = [0x736f6d6570736575, 0x646f72616e646f6d, 0x6c7967656e657261, 0x7465646279746573]
SIP32_IV = [0, 0, 0x6c796765, 0x74656462]


def xxh_iv(w, s=0):
    P = alg.X32 if w == 32 else alg.X64
    m = (1 << w) - 1
    return [(s + P[0] + P[1]) & m, (s + P[1]) & m, s & m, (s - P[0]) & m]


MACHINES = {}
for mc in [
    MD('md5', 'md5.hpp', 'md5_128', 64, 32, alg.md5_step, alg.MD_IV, outlen=16),
    MD('sha1', 'sha1.hpp', 'sha1_160', 64, 32, alg.sha1_step, alg.SHA1_IV, outlen=20, be=True),
    MD('sha2_224', 'sha2.hpp', 'sha2_224', 64, 32, alg.sha256_step, alg.IV224, outlen=28, be=True),
    MD('sha2_256', 'sha2.hpp', 'sha2_256', 64, 32, alg.sha256_step, alg.IV256, outlen=32, be=True),
    MD('sha2_384', 'sha2.hpp', 'sha2_384', 128, 64, alg.sha512_step, alg.IV384, outlen=48, be=True, lenbytes=16),
    MD('sha2_512', 'sha2.hpp', 'sha2_512', 128, 64, alg.sha512_step, alg.IV512, outlen=64, be=True, lenbytes=16),
    MD('sha2_512_224', 'sha2.hpp', 'sha2_512_224', 128, 64, alg.sha512_step, alg.IV512_224, outlen=28, be=True, lenbytes=16),
    MD('sha2_512_256', 'sha2.hpp', 'sha2_512_256', 128, 64, alg.sha512_step, alg.IV512_256, outlen=32, be=True, lenbytes=16),
    MD('ripemd_128', 'ripemd.hpp', 'ripemd_128', 64, 32, alg.rmd128_step, alg.MD_IV, outlen=16),
    MD('ripemd_160', 'ripemd.hpp', 'ripemd_160', 64, 32, alg.rmd160_step, alg.SHA1_IV, outlen=20),
    Sip('siphash_64', 'siphash.hpp', 'siphash_64', 8, 64, alg.sip64_step, SIP64_IV),
    Sip('siphash_32', 'siphash.hpp', 'siphash_32', 4, 32, alg.sip32_step, SIP32_IV, cw=32),
    XXH('xxhash_32', 'xxhash.hpp', 'xxhash_32', 16, 32, alg.xxh32_step, xxh_iv(32)),
    XXH('xxhash_64', 'xxhash.hpp', 'xxhash_64', 32, 64, alg.xxh64_step, xxh_iv(64)),
    FNV('fnv1a_32', 'fnv1a.hpp', 'fnv1a_32', 1, 32, alg.fnv_step, [alg.FNV[32][0]], dwarf='fnv1a_32E$'),
    FNV('fnv1a_64', 'fnv1a.hpp', 'fnv1a_64', 1, 64, alg.fnv_step, [alg.FNV[64][0]], dwarf='fnv1a_64E$'),
    Mur32('murmur3_32', 'legacy/murmur3.hpp', 'murmur3_32', 4, 32, alg.mur32_step, [0], legacy=True),
    Mur128('murmur3_128', 'legacy/murmur3.hpp', 'murmur3_128', 16, 64, alg.mur128_step, [0, 0], legacy=True, arr=True, seed2=True),
    Spooky('spooky2_128', 'legacy/spooky2.hpp', 'spooky2_128', 192, 64, alg.spk_step, [0, 0, alg.SPK_C] * 4, legacy=True, arr=True, seed2=True, longshort=True, FN=96, fstep=alg.spk_mix),
]:
    MACHINES[mc.name] = mc
for mc in MACHINES.values():
    if mc.kind == 'md':
        mc.arr = True
    else:
        mc.outlen = 16 if mc.arr else mc.w // 8
    if mc.kind in ('xxh', 'mur', 'spk'):
        mc.stale = True
    if mc.kind == 'xxh':
        mc.longshort = True


class Ref:
    """executable reference object (ints): what the real object must do over any history"""
    def __init__(self, mc, words=None, pend=b'', n=0):
        self.mc = mc
        self.words = list(mc.iv if words is None else words)
        self.pend = bytes(pend)
        self.n = n

    def copy(self):
        return Ref(self.mc, self.words, self.pend, self.n)

    def update(self, data):
        mc = self.mc
        d = self.pend + bytes(data)
        A = IntAlg(mc.w)
        i = 0
        while len(d) - i >= mc.N:
            self.words = mc.step(A, self.words, d[i:i + mc.N])
            i += mc.N
        self.pend = d[i:]
        self.n = (self.n + len(data)) & ((1 << mc.cw) - 1)

    def result(self):
        out, self.words, self.n = self.mc.finish(IntAlg, self.words, list(self.pend), self.n)
        self.pend = b''
        return bytes(out)

    @staticmethod
    def seeded(mc, s):
        r = Ref(mc)
        if s == 0:
            return r
        if mc.kind == 'md':
            r.update(s.to_bytes(8, 'little'))
            r.result()
        elif mc.name == 'siphash_64':
            r.words[0] ^= s
            r.words[2] ^= s
        elif mc.name == 'siphash_32':
            a, b = s & M32, s >> 32
            r.words = [r.words[0] ^ a, r.words[1] ^ b, r.words[2] ^ a, r.words[3] ^ b]
        elif mc.kind == 'xxh':
            r.words = xxh_iv(mc.w, s & ((1 << mc.w) - 1))
            if mc.w == 32 and s >> 32:
                A = IntAlg(32)
                r.words = [alg.xxh32_round(A, v, s >> 32) for v in r.words]
        elif mc.kind == 'fnv':
            r.update(s.to_bytes(8, 'little'))
        elif mc.name == 'murmur3_32':
            r.words = [s & M32]
            if s >> 32:
                r.words = mc.step(IntAlg(32), r.words, (s >> 32).to_bytes(4, 'little'))
        elif mc.name == 'murmur3_128':
            r.words = [s, s]
        elif mc.kind == 'spk':
            r.words = spk_iv(s, 0)
        return r

    @staticmethod
    def seeded2(mc, a, b):
        r = Ref(mc)
        r.words = spk_iv(a, b) if mc.kind == 'spk' else [a, b]
        return r

    @staticmethod
    def keyed(mc, k):
        r = Ref(mc)
        if not k:
            return r
        if mc.name == 'siphash_64' and len(k) == 16:
            a, b = int.from_bytes(k[:8], 'little'), int.from_bytes(k[8:], 'little')
            r.words = [r.words[0] ^ a, r.words[1] ^ b, r.words[2] ^ a, r.words[3] ^ b]
            return r
        if mc.name == 'siphash_32' and len(k) == 8:
            return Ref.seeded(mc, int.from_bytes(k, 'little'))
        if mc.legacy:
            L = 4 if mc.name == 'murmur3_32' else 16
            a, b = int.from_bytes(k[:min(8, L)], 'little'), int.from_bytes(k[8:L], 'little')
            r.words = spk_iv(a, b) if mc.kind == 'spk' else [a] if L == 4 else [a, a] if len(k) <= 8 else [a, b]
            if len(k) > L:
                r.update(k[L:])
                r.result()
            return r
        r.update(k)
        if mc.kind != 'fnv':
            r.result()
        return r
