"""Replaying on the real code.  Used only after an obligation failed: compiles the
current headers natively and looks for a call history whose outcome differs from
the executable form of the specification (specs.machine.Ref)."""
import os, random, subprocess, time, hmac as _h
import build
from specs.machine import MACHINES, Ref, IntAlg

DRV = r'''
#include <boost/hash2/%(hdr)s>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
#include <string>
using namespace boost::hash2;
typedef %(cls)s X;
struct slot { alignas(16) unsigned char b[sizeof(X)]; bool live; };
static slot S[8];
static X* at(int i){ return reinterpret_cast<X*>(S[i].b); }
static int hx(int c){ return c <= '9' ? c - '0' : c - 'a' + 10; }
struct block { unsigned char* base; unsigned char* p; std::size_t n;
  block(std::string const& h, unsigned mis): base(0), p(0), n(0) {
    if(h == "0") return;                      // null pointer, no bytes
    if(h != "-") n = h.size() / 2;
    base = static_cast<unsigned char*>(std::malloc(n + mis + (n + mis == 0)));
    p = base + mis;
    for(std::size_t i = 0; i < n; ++i) p[i] = static_cast<unsigned char>(hx(h[2*i]) * 16 + hx(h[2*i+1]));
  }
  ~block(){ std::free(base); } };
template<class R> static void show(R const& r, std::true_type){ unsigned char b[sizeof(R)]; R v = r; for(std::size_t i = 0; i < sizeof(R); ++i){ b[i] = static_cast<unsigned char>(v); v = static_cast<R>(v >> 4 >> 4); } for(unsigned char c: b) std::printf("%%02x", c); }
template<class R> static void show(R const& r, std::false_type){ for(unsigned char c: r) std::printf("%%02x", c); }
int main(){
  char cmd; int i, j; static char buf[1 << 20]; unsigned mis = 0; char save[sizeof(X)];
  (void)save;
  while(std::scanf(" %%c", &cmd) == 1){
    mis = (mis * 5 + 3) %% 16;
    if(cmd == 'H'){ std::scanf("%%d", &i); std::printf("H %%d\n", i); for(slot& s: S) std::memset(s.b, 0xA5, sizeof s.b); std::fflush(stdout); }
    else if(cmd == 'D'){ std::scanf("%%d", &i); ::new(static_cast<void*>(S[i].b)) X(); }
    else if(cmd == 'S'){ unsigned long long n; std::scanf("%%d %%llu", &i, &n); ::new(static_cast<void*>(S[i].b)) X(static_cast<std::uint64_t>(n)); }
    %(seed2)s
    else if(cmd == 'K' || cmd == 'U' || cmd == 'V'){ std::scanf("%%d %%1048575s", &i, buf); block k(buf, mis);
      if(cmd == 'K') ::new(static_cast<void*>(S[i].b)) X(static_cast<unsigned char const*>(k.p), k.n);
      else if(cmd == 'U') at(i)->update(static_cast<void const*>(k.p), k.n);
      else at(i)->update(static_cast<unsigned char const*>(k.p), k.n); }
    else if(cmd == 'R'){ std::scanf("%%d", &i); X::result_type r = at(i)->result(); std::printf("R "); show(r, std::is_integral<X::result_type>()); std::printf("\n"); }
    else if(cmd == 'C'){ std::scanf("%%d %%d", &i, &j); ::new(static_cast<void*>(S[i].b)) X(*at(j)); }
    else if(cmd == 'A'){ std::scanf("%%d %%d", &i, &j); *at(i) = *at(j); }
    else if(cmd == 'P'){ unsigned off; std::scanf("%%d %%u %%1048575s", &i, &off, buf); block k(buf, 0); std::memcpy(S[i].b + off, k.p, k.n); }
    else if(cmd == 'B'){ unsigned long long n; std::scanf("%%d %%llu", &i, &n); static std::vector<unsigned char> z(1 << 22); while(n){ std::size_t k = n < z.size() ? static_cast<std::size_t>(n) : z.size(); at(i)->update(z.data(), k); n -= k; } }
    else if(cmd == 'G'){ std::scanf("%%d", &i); std::printf("G "); for(unsigned char c: S[i].b) std::printf("%%02x", c); std::printf("\n"); }
    std::fflush(stdout);
  }
}
'''


SEED2 = "else if(cmd == 'T'){ unsigned long long a, b; std::scanf(\"%d %llu %llu\", &i, &a, &b); ::new(static_cast<void*>(S[i].b)) X(static_cast<std::uint64_t>(a), static_cast<std::uint64_t>(b)); }"


class Native:
    def __init__(self, hdr, cls, flags=('-O1',), cxx='g++', defs=()):
        d = build.workdir()
        self.name = os.path.join(d, 'drv_%s_%d_%s' % (cls, os.getpid(), abs(hash((flags, defs))) % 99999))
        with open(self.name + '.cpp', 'w') as f:
            f.write(DRV % dict(hdr=hdr, cls=cls, seed2=SEED2 if cls in ('murmur3_128', 'spooky2_128') else ''))
        r = subprocess.run([cxx, '-std=c++17', '-w'] + list(flags) + list(defs) + ['-I', build.REPO + '/include', self.name + '.cpp', '-o', self.name], capture_output=True, text=True)
        if r.returncode:
            raise build.BuildError(r.stderr[-2000:])

    def run(self, histories, timeout=120):
        """histories: lists of command strings -> list of (outputs, crashed-message or None)"""
        inp = []
        for k, h in enumerate(histories):
            inp.append('H %d' % k)
            inp += h
        try:
            p = subprocess.run([self.name], input='\n'.join(inp) + '\n', capture_output=True, text=True, timeout=timeout, env=dict(os.environ, UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0'))
            err, out, rc = p.stderr, p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
            err, rc = 'no answer within %d s' % timeout, -1
        res = []
        for l in out.split('\n'):
            if l.startswith('H '):
                res.append(([], None))
            elif l[:2] in ('R ', 'G ') and res:
                res[-1][0].append(l[2:])
        if rc != 0 and res:
            res[-1] = (res[-1][0], 'exit status %d: %s' % (rc, err.strip()[:500]))
        return res


class HmacRef:
    def __init__(self, mc, key=b''):
        self.mc = mc
        N = mc.N
        if len(key) > N:
            r = Ref(mc)
            r.update(key)
            key = r.result()
        key = key[:N] + b'\0' * (N - len(key))
        self.i, self.o = Ref(mc), Ref(mc)
        self.i.update(bytes(b ^ 0x36 for b in key))
        self.o.update(bytes(b ^ 0x5C for b in key))

    def copy(self):
        r = HmacRef.__new__(HmacRef)
        r.mc, r.i, r.o = self.mc, self.i.copy(), self.o.copy()
        return r

    def update(self, d):
        self.i.update(d)

    def result(self):
        self.o.update(self.i.result())
        return self.o.result()


def ref_new(mc, hm, kind, arg=None):
    if hm:
        if kind == 'S':
            return HmacRef(mc, arg.to_bytes(8, 'little') if arg else b'')
        return HmacRef(mc, arg or b'')
    if kind == 'D':
        return Ref(mc)
    return Ref.seeded(mc, arg) if kind == 'S' else Ref.keyed(mc, arg)


def sim(mc, hm, cmds):
    """expected outputs of a history (R lines only)"""
    s, out = {}, []
    for c in cmds:
        p = c.split()
        i = int(p[1])
        if p[0] == 'D':
            s[i] = ref_new(mc, hm, 'D')
        elif p[0] == 'S':
            s[i] = ref_new(mc, hm, 'S', int(p[2]))
        elif p[0] == 'T':
            s[i] = Ref.seeded2(mc, int(p[2]), int(p[3]))
        elif p[0] == 'K':
            s[i] = ref_new(mc, hm, 'K', b'' if p[2] in '0-' else bytes.fromhex(p[2]))
        elif p[0] in 'UV':
            s[i].update(b'' if p[2] in '0-' else bytes.fromhex(p[2]))
        elif p[0] == 'B':
            s[i].update(bytes(int(p[2])))
        elif p[0] == 'R':
            out.append(s[i].result().hex())
        elif p[0] in 'CA':
            s[i] = s[int(p[2])].copy()
    return out


def hexs(b):
    return b.hex() if b else '-'


def lens(rng, N, m=0):
    """a boundary-biased length"""
    r = rng.random()
    if r < 0.10:
        return 0
    if r < 0.45:
        return rng.choice([1, 2, 3, N - 1, N, N + 1, max(0, N - 9), max(0, N - 8), max(0, N - 16), max(0, N - 17), 2 * N - 1, 2 * N, 2 * N + 1, max(0, (N - m)), max(0, N - m - 1), N - m + 1, 2 * N - m, 3 * N - m])
    if r < 0.9:
        return rng.randrange(0, 2 * N + 2)
    return rng.randrange(0, 6 * N + 2)


SEEDS = [0, 1, 2, 255, 256, 0x80, 0xFFFF, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, (1 << 64) - 1, 0x0123456789ABCDEF, 0xFF00000000000000]


def history(rng, mc, hm, focus, k):
    N = max(mc.N, 8) if mc.kind == 'fnv' else mc.N
    h = []
    m = 0
    ctor = 'D'
    if focus in ('C05', 'C06', 'C08', 'C09', 'C10') or (focus in ('C11', 'C01', 'C13', 'C14') and rng.random() < 0.4):
        ctor = rng.choice('DSK') if focus != 'C06' else rng.choice('DS')
    if focus == 'C05':
        ctor = rng.choice('KKS')
    if focus == 'C25':
        ctor = rng.choice('DSKT' if mc.seed2 else 'DSK')
    kb = lambda n: bytes(rng.getrandbits(8) if rng.random() < 0.8 else rng.choice([0, 255]) for _ in range(n))
    if ctor == 'D':
        h.append('D 0')
    elif ctor == 'S':
        s = rng.choice(SEEDS) if rng.random() < 0.5 else rng.getrandbits(rng.choice([8, 16, 31, 32, 33, 63, 64]))
        if focus == 'C06' and mc.name == 'xxhash_32' or focus == 'C25' and mc.name == 'murmur3_32':
            s &= 0xFFFFFFFF
        h.append('S 0 %d' % s)
    elif ctor == 'T':
        h.append('T 0 %d %d' % tuple(rng.choice(SEEDS) if rng.random() < 0.4 else rng.getrandbits(64) for _ in range(2)))
    else:
        if focus == 'C05':
            n = 16 if mc.name == 'siphash_64' else 8
        else:
            n = lens(rng, N) if rng.random() < 0.7 else rng.choice([4, 7, 8, 9, 15, 16, 17, 32])
        if focus == 'C08':
            n = rng.choice([0, 1, N - 1, N, N + 1, N + 2, 2 * N, rng.randrange(0, 3 * N)])
        h.append('K 0 %s' % (hexs(kb(n)) if n or rng.random() < 0.5 else '0'))
        if focus == 'C09':
            m = 0
    nup = rng.choice([1, 1, 2, 3, 4]) if focus not in ('C01', 'C11', 'C13') else rng.choice([1, 2, 3, 4, 5, 6])
    # systematic small sweep over a single message first
    if k < 2 * N + 4 and focus not in ('C01',):
        h.append('U 0 %s' % hexs(kb(k)))
    else:
        for _ in range(nup):
            n = lens(rng, N, m)
            d = kb(n)
            c = rng.choice('UV')
            h.append('%s 0 %s' % (c, hexs(d) if n or rng.random() < 0.6 else '0'))
            m = (m + n) % N
            if focus in ('C11', 'C13') and rng.random() < 0.25:
                h.append('R 0')
                m = 0
            if focus == 'C11' and rng.random() < 0.25:
                j = rng.randrange(1, 4)
                h.append(('C %d 0' if rng.random() < 0.5 else 'D %d') % ((j,)))
                if h[-1][0] == 'D':
                    h.append('A %d 0' % j)
                h.append('U %d %s' % (j, hexs(kb(lens(rng, N)))))
                h.append('R %d' % j)
    h.append('R 0')
    if focus in ('C07', 'C09', 'C11', 'C13', 'C14', 'C15'):
        h.append('R 0')
        if rng.random() < 0.6:
            h.append('V 0 %s' % hexs(kb(lens(rng, N))))
            h.append('R 0')
    return h


def hint_histories(mc, hm, hints):
    out = []
    for x in hints:
        if not isinstance(x, dict):
            continue
        n = x.get('n')
        if isinstance(x.get('seed'), int):
            out.append(['S 0 %d' % x['seed'], 'R 0', 'U 0 616263', 'R 0'])
        if isinstance(n, int) and n < 100000:
            m = x.get('m') if isinstance(x.get('m'), int) else 0
            data = bytes(range(256)) * (n // 256 + 1)
            pend = bytes((7 * j + 1) & 255 for j in range(m))
            for pre in (0, mc.N, 2 * mc.N):
                out.append(['D 0', 'U 0 %s' % hexs(bytes(pre) + pend), 'U 0 %s' % hexs(data[:n]), 'R 0', 'R 0', 'U 0 6162', 'R 0'])
            key = x.get('key')
            if key:
                key = bytes(v or 0 for v in key)
                out.append(['K 0 %s' % hexs(key), 'R 0', 'U 0 616263', 'R 0'])
    return out


def check_hist(nat, mc, hm, hs):
    """-> (history, message) of the first deviation, or None"""
    res = nat.run(hs)
    for h, (got, crash) in zip(hs, res):
        want = sim(mc, hm, h)
        g = [x for x in got]
        if crash:
            return h, 'the code stopped: %s' % crash
        if g != want:
            for i, (a, b) in enumerate(zip(g, want)):
                if a != b:
                    return h, 'result number %d is %s, the specification gives %s' % (i + 1, a, b)
            return h, 'missing results'
    return None


def shrink(nat, mc, hm, h):
    """drop commands / shorten data while the deviation stays"""
    best = h
    for _ in range(40):
        changed = False
        for i in range(len(best) - 1, -1, -1):
            if best[i][0] in 'DSKT' and best[i][2] == '0':
                continue
            c = best[:i] + best[i + 1:]
            if not any(x[0] == 'R' for x in c):
                continue
            try:
                r = check_hist(nat, mc, hm, [c])
            except Exception:
                continue
            if r:
                best = c
                changed = True
                break
        if not changed:
            break
    return best


def search_hash(pid, mcnames, hints, budget, seed=1, hmacs=(), san=False, log=None):
    """-> dict(replay info) or None.  Random histories per algorithm until the budget ends."""
    t0 = time.time()
    nats = []
    for n in mcnames:
        mc = MACHINES[n]
        nats.append((mc, False))
    for n in hmacs:
        nats.append((MACHINES[n], True))
    fl = ('-O1',) if not san else ('-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all')
    built = []
    for mc, hm in nats:
        cls = ('hmac_' if hm else '') + mc.cls
        try:
            built.append((mc, hm, Native(mc.hdr, cls, fl)))
        except build.BuildError:
            pass
    rng = random.Random(seed)
    rnd = 0
    tried = 0
    while time.time() - t0 < budget:
        for mc, hm, nat in built:
            if time.time() - t0 > budget:
                break
            hs = []
            if rnd == 0:
                hs += hint_histories(mc, hm, hints.get(mc.name, []))
            per = 150 if mc.N >= 64 else 300
            hs += [history(rng, mc, hm, pid, rnd * per + k) for k in range(per)]
            tried += len(hs)
            r = check_hist(nat, mc, hm, hs)
            if r:
                h = shrink(nat, mc, hm, r[0])
                r2 = check_hist(nat, mc, hm, [h]) or r
                return dict(cls=('hmac_' if hm else '') + mc.cls, hdr=mc.hdr, history=r2[0], deviation=r2[1], flags=list(fl), tried=tried)
        rnd += 1
    return None


# ------------------------------------------------------------ state-level replay
def decode(mc, rep, raw):
    words = [int.from_bytes(raw[o:o + s], 'little') for o, s in rep.words]
    pend, m, n = b'', None, None
    if rep.m:
        m = int.from_bytes(raw[rep.m[0]:rep.m[0] + rep.m[1]], 'little')
    if rep.n:
        n = int.from_bytes(raw[rep.n[0]:rep.n[0] + rep.n[1]], 'little')
    if rep.buf:
        if m is None:
            m = n % mc.N
        pend = raw[rep.buf[0]:rep.buf[0] + m]
    return words, pend, n


def state_replay(pid, mc, rep, hints, seed=1, budget=30, buffer_only=False):
    """the counterexample state put into a real object (members located through the debug
    information), then ordinary calls.  Used only after the representation has been
    confirmed on objects built by ordinary calls."""
    t0 = time.time()
    try:
        nat = Native(mc.hdr, mc.cls)
    except build.BuildError:
        return None
    rng = random.Random(seed)
    # 1. confirm the representation on ordinary histories
    hs = []
    for k in range(60):
        h = ['D 0'] + ['U 0 %s' % hexs(bytes(rng.getrandbits(8) for _ in range(lens(rng, mc.N)))) for _ in range(rng.randrange(0, 4))]
        if rng.random() < 0.3:
            h += ['R 0', 'U 0 %s' % hexs(bytes(rng.getrandbits(8) for _ in range(rng.randrange(mc.N + 1))))]
        hs.append(h + ['G 0'])
    res = nat.run(hs)
    dirty = None
    for h, (got, crash) in zip(hs, res):
        if crash or not got:
            return None
        r = Ref(mc)
        for c in h:
            p = c.split()
            if p[0] == 'U':
                r.update(b'' if p[2] in '0-' else bytes.fromhex(p[2]))
            elif p[0] == 'R':
                r.result()
        raw = bytes.fromhex(got[-1])
        w, pend, n = decode(mc, rep, raw)
        if buffer_only:
            b = raw[rep.buf[0]:rep.buf[0] + mc.N]
            lastR = max([i for i, c in enumerate(h) if c[0] == 'R'] or [-1])
            if mc.kind == 'md' and b != r.pend + b'\0' * (mc.N - len(r.pend)):
                return dict(cls=mc.cls, hdr=mc.hdr, history=h, deviation='the buffer holds %s, expected the %d unfinished bytes %s followed by zeros' % (b.hex(), len(r.pend), r.pend.hex()), flags=['-O1'])
        if w != r.words or bytes(pend) != r.pend or (n is not None and n != r.n):
            return None
    if buffer_only:
        hs = []
        for k in range(mc.N * 2):
            hs.append(['D 0', 'U 0 %s' % hexs(bytes(rng.randrange(1, 256) for _ in range(k))), 'R 0', 'G 0'])
            hs.append(['D 0', 'U 0 %s' % hexs(bytes(rng.randrange(1, 256) for _ in range(k + 1))), 'U 0 %s' % hexs(bytes(rng.randrange(1, 256) for _ in range(rng.randrange(2 * mc.N)))), 'G 0'])
        for h, (got, crash) in zip(hs, nat.run(hs)):
            if crash or not got:
                continue
            raw = bytes.fromhex(got[-1])
            b = raw[rep.buf[0]:rep.buf[0] + mc.N]
            r = Ref(mc)
            for c in h:
                p = c.split()
                if p[0] == 'U':
                    r.update(b'' if p[2] in '0-' else bytes.fromhex(p[2]))
                elif p[0] == 'R':
                    r.result()
            want = r.pend + b'\0' * (mc.N - len(r.pend))
            if (mc.kind == 'md' or h[-2] == 'R 0') and b != want:
                return dict(cls=mc.cls, hdr=mc.hdr, history=h, deviation='the buffer holds %s, expected %s' % (b.hex(), want.hex()), flags=['-O1'])
        return None
    # 2. large counters
    if not rep.n:
        return None
    cands = []
    for x in hints:
        if isinstance(x, dict) and isinstance(x.get('nb'), int):
            cands.append((x['nb'], x.get('m') if isinstance(x.get('m'), int) else rng.randrange(mc.N)))
    lim = 1 << (min(mc.cw, 61) - mc.N.bit_length())
    for e in range(1, mc.cw):
        for m in (0, mc.N - 1, rng.randrange(mc.N), rng.randrange(mc.N)):
            cands.append(((1 << e) // mc.N, m))
            cands.append((rng.randrange(1 << e) // mc.N, m))
    hs, want = [], []
    for nb, m in cands:
        if nb >= lim:
            nb %= lim
        n = nb * mc.N + m
        words = [rng.getrandbits(mc.w) for _ in range(mc.k)]
        pend = bytes(rng.getrandbits(8) for _ in range(m))
        r = Ref(mc, words, pend, n)
        h = ['D 0']
        for (o, s), w in zip(rep.words, words):
            h.append('P 0 %d %s' % (o, w.to_bytes(s, 'little').hex()))
        h.append('P 0 %d %s' % (rep.buf[0], (pend + b'\0' * (mc.N - m)).hex()))
        if rep.m:
            h.append('P 0 %d %s' % (rep.m[0], m.to_bytes(rep.m[1], 'little').hex()))
        h.append('P 0 %d %s' % (rep.n[0], (n & ((1 << 8 * rep.n[1]) - 1)).to_bytes(rep.n[1], 'little').hex()))
        d = bytes(rng.getrandbits(8) for _ in range(lens(rng, mc.N)))
        h += ['U 0 %s' % hexs(d), 'R 0', 'U 0 %s' % hexs(d[:5]), 'R 0']
        r.update(d)
        w1 = r.result().hex()
        r.update(d[:5])
        want.append([w1, r.result().hex()])
        hs.append(h)
    for h, (got, crash), w in zip(hs, nat.run(hs), want):
        if crash or got != w:
            return dict(cls=mc.cls, hdr=mc.hdr, history=h, deviation=crash or 'results %s, the specification gives %s' % (got, w), flags=['-O1'],
                        note='P lines set members of the object to the state reached after absorbing the stated number of bytes')
    return None
