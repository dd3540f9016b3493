#!/usr/bin/env python3-vt
"""The executable form of the specifications against independent implementations and
published vectors.  Run by setup_cmd; fails loudly if a specification was mistyped."""
import hashlib, hmac, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'dv'))
sys.setrecursionlimit(100000)
from specs.machine import MACHINES, Ref
from native import HmacRef

rng = random.Random(1)
bad = 0


def chk(name, got, want):
    global bad
    if got != want:
        bad += 1
        print('MISMATCH', name, got.hex(), want.hex())


LIB = {'md5': 'md5', 'sha1': 'sha1', 'sha2_224': 'sha224', 'sha2_256': 'sha256', 'sha2_384': 'sha384', 'sha2_512': 'sha512', 'sha2_512_224': 'sha512_224', 'sha2_512_256': 'sha512_256', 'ripemd_160': 'ripemd160'}
n = 0
for k, h in LIB.items():
    mc = MACHINES[k]
    try:
        hashlib.new(h)
    except Exception:
        continue
    for L in list(range(0, 2 * mc.N + 3, 7)) + [mc.N - 1, mc.N, mc.N - 8, mc.N - 9, mc.N - 16, mc.N - 17]:
        m = bytes(rng.getrandbits(8) for _ in range(L))
        r = Ref(mc)
        r.update(m[:L // 3])
        r.update(m[L // 3:])
        chk(k, r.result(), hashlib.new(h, m).digest())
        key = bytes(rng.getrandbits(8) for _ in range((L * 3) % (2 * mc.N + 5)))
        a = HmacRef(mc, key)
        a.update(m)
        chk('hmac ' + k, a.result(), hmac.new(key, m, h).digest())
        n += 2
V = [
    ('ripemd_128', None, b'abc', 'c14a12199c66e4ba84636b0f69144c77'),
    ('ripemd_128', None, b'12345678901234567890123456789012345678901234567890123456789012345678901234567890', '3f45ef194732c2dbb2c4a2c769795fa3'),
    ('ripemd_160', None, b'abc', '8eb208f7e05d987a9b044a8e98c6b087f15a0bfc'),
    ('ripemd_160', None, b'12345678901234567890123456789012345678901234567890123456789012345678901234567890', '9b752e45573d4b39f4dbd3323cab82bf63326bfb'),
    ('siphash_64', bytes(range(16)), bytes(range(15)), 'e545be4961ca29a1'),
    ('siphash_64', bytes(range(16)), b'', '310e0edd47db6f72'),
    ('siphash_32', bytes(range(8)), b'', 'a9359f5b'),
    ('siphash_32', bytes(range(8)), bytes(range(1)), '27475ab8'),
    ('fnv1a_32', None, b'foobar', (0xbf9cf968).to_bytes(4, 'little').hex()),
    ('fnv1a_64', None, b'foobar', (0x85944171f73967e8).to_bytes(8, 'little').hex()),
    ('xxhash_32', None, b'', (0x02cc5d05).to_bytes(4, 'little').hex()),
    ('xxhash_32', None, b'abc', (0x32d153ff).to_bytes(4, 'little').hex()),
    ('xxhash_64', None, b'', (0xef46db3751d8e999).to_bytes(8, 'little').hex()),
    ('xxhash_64', None, b'abc', (0x44bc2cf5ad770999).to_bytes(8, 'little').hex()),
    ('xxhash_32', None, b'Nobody inspects the spammish repetition', (0xe2293b2f).to_bytes(4, 'little').hex()),
    ('xxhash_64', None, b'Nobody inspects the spammish repetition', (0xfbcea83c8a378bf1).to_bytes(8, 'little').hex()),
]
for k, key, m, w in V:
    r = Ref.keyed(MACHINES[k], key) if key else Ref(MACHINES[k])
    r.update(m)
    chk(k, r.result(), bytes.fromhex(w))
    n += 1
try:
    import xxhash
    for L in range(0, 120, 5):
        m = bytes(rng.getrandbits(8) for _ in range(L))
        s = rng.getrandbits(32)
        for k, f in (('xxhash_32', xxhash.xxh32), ('xxhash_64', xxhash.xxh64)):
            r = Ref.seeded(MACHINES[k], s)
            r.update(m)
            chk(k, r.result(), f(m, seed=s).intdigest().to_bytes(MACHINES[k].outlen, 'little'))
            n += 1
except ImportError:
    pass
# SMHasher's verification procedure and its published values
for k, w in (('murmur3_32', 0xB0F57EE3), ('murmur3_128', 0x6384BA69), ('spooky2_128', 0x893CFCBE)):
    def H(m, s):
        mc = MACHINES[k]
        r = Ref.seeded2(mc, s, s) if mc.seed2 else Ref.seeded(mc, s)
        c = rng.randrange(len(m) + 1)
        r.update(m[:c])
        r.update(m[c:])
        return r.result()
    out = b''.join(H(bytes(range(i)), 256 - i) for i in range(256))
    chk('SMHasher verification ' + k, H(out, 0)[:4], w.to_bytes(4, 'little'))
    n += 1
import z3
s = z3.Solver()
x = z3.BitVec('x', 8)
s.add(x + 1 == x)
assert s.check() == z3.unsat
print('selftest: %d comparisons, %d mismatches' % (n, bad))
sys.exit(1 if bad else 0)
