"""Relational searches on the real code (used only after an obligation failed): two ways of
doing the same thing, compared inside one native program."""
import os, subprocess, time
import build

PRE = r'''
#include <boost/hash2/%(hdr)s>
#include <boost/hash2/hmac.hpp>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
#include <string>
#include <chrono>
#include <sys/mman.h>
using namespace boost::hash2;
typedef %(cls)s X;
static const std::size_t N = %(N)d;
static std::uint64_t g = 88172645463325252ull;
static std::uint64_t rnd(){ g ^= g << 13; g ^= g >> 7; g ^= g << 17; return g; }
static std::size_t len(std::size_t m = 0){ switch(rnd() %% 8){ case 0: return 0; case 1: { std::size_t t[] = {1,2,N-1,N,N+1,2*N,2*N-1,2*N+1,N-m,2*N-m,N>8?N-8:1,N>9?N-9:1,N>16?N-16:1,N>17?N-17:1,3*N}; return t[rnd() %% 15] %% (4*N); } case 2: return rnd() %% (6*N+1); case 3: return rnd() %% 4; default: return rnd() %% (2*N+2); } }
typedef std::vector<unsigned char> V;
static std::vector<std::uint64_t> hint_s = { %(hint_s)s };
static std::vector<V> hint_b = { %(hint_b)s };
static V bytes(std::size_t n){ if(!hint_b.empty() && rnd() %% 8 == 0) return hint_b[rnd() %% hint_b.size()]; V v(n); for(auto& c: v){ c = static_cast<unsigned char>(rnd() >> 20); if(rnd() %% 6 == 0) c = (rnd() & 1) ? 0 : 255; } return v; }
static std::string hex(unsigned char const* p, std::size_t n){ static const char* d = "0123456789abcdef"; std::string s; for(std::size_t i = 0; i < n; ++i){ s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s.empty() ? "-" : s; }
static std::string hex(V const& v){ return hex(v.data(), v.size()); }
template<class R> static std::string show(R const& r, typename std::enable_if<std::is_integral<R>::value>::type* = 0){ char b[40]; std::sprintf(b, "%%016llx", static_cast<unsigned long long>(r)); return b; }
template<class R> static std::string show(R const& r, typename std::enable_if<!std::is_integral<R>::value>::type* = 0){ return hex(r.data(), r.size()); }
template<class Y> struct box { alignas(16) unsigned char b[sizeof(Y)]; box(){ int k = static_cast<int>(rnd()); std::memset(b, k, sizeof b); } Y& o(){ return *reinterpret_cast<Y*>(b); } };
static std::uint64_t seedv(){ static const std::uint64_t t[] = {0,1,2,255,256,0x80,0xFFFF,1ull<<31,(1ull<<32)-1,1ull<<32,(1ull<<32)+1,1ull<<63,~0ull,0x0123456789ABCDEFull,0xFF00000000000000ull}; std::uint64_t r = rnd(); if(!hint_s.empty() && rnd() %% 3 == 0) return hint_s[rnd() %% hint_s.size()]; return rnd() & 1 ? t[r %% 15] : (r >> (rnd() %% 64)); }
struct ctor { int k; std::uint64_t s; V key; std::string txt;
  ctor(){ k = static_cast<int>(rnd() %% 3); s = seedv(); key = bytes(rnd() %% 3 ? len() : std::size_t(8 * (rnd() %% 4))); txt = k == 0 ? std::string("default") : k == 1 ? "seed " + std::to_string(s) : "key " + hex(key); }
  template<class Y> void make(box<Y>& b) const { if(k == 0) ::new(static_cast<void*>(b.b)) Y(); else if(k == 1) ::new(static_cast<void*>(b.b)) Y(s); else ::new(static_cast<void*>(b.b)) Y(key.data(), key.size()); } };
/* feed v in pieces from fresh, oddly aligned blocks */
template<class Y> static void feed(Y& y, V const& v, std::string* log, bool one = false){
  std::size_t i = 0; bool first = true;
  while(i < v.size() || first || rnd() %% 8 == 0){ first = false;
    std::size_t n = one ? v.size() : len(i %% N); if(n > v.size() - i) n = v.size() - i;
    std::size_t mis = rnd() %% 16; unsigned char* q = static_cast<unsigned char*>(std::malloc(n + mis + 1)); if(n) std::memcpy(q + mis, v.data() + i, n);
    bool nul = n == 0 && (rnd() & 1); bool uc = rnd() & 1;
    if(uc) y.update(static_cast<unsigned char const*>(nul ? 0 : q + mis), n); else y.update(static_cast<void const*>(nul ? 0 : q + mis), n);
    std::free(q); i += n; if(log) *log += (log->empty() ? "" : " ") + std::to_string(n);
    if(one) break; } }
template<class Y> static std::string tail(Y& y, unsigned k){ std::string s = show(y.result()); unsigned char z[] = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"; s += " " + show(y.result()); y.update(z, k); s += " " + show(y.result()); return s; }
static void dev(std::string const& s){ std::printf("DEV %%s\n", s.c_str()); std::fflush(stdout); std::exit(3); }
static long tried = 0;
static void once();
int main(int argc, char** argv){ double lim = std::atof(argv[1]); g ^= std::strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ull; (void)argc;
  auto t0 = std::chrono::steady_clock::now();
  do { for(int i = 0; i < 200; ++i, ++tried) once(); } while(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < lim);
  std::printf("OK %%ld\n", tried); }
'''

BODY = {}
BODY['C01'] = r'''
static void huge(){ static bool done = false; if(done) return; done = true; if(!%(huge)d) return;
  std::size_t n = (std::size_t(1) << 32) + 37; void* p = mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) return;
  for(int pre = 0; pre < 2; ++pre){ box<X> a, b; ::new(static_cast<void*>(a.b)) X(); ::new(static_cast<void*>(b.b)) X(); unsigned char c[3] = {1,2,3}; if(pre){ a.o().update(c, 3); b.o().update(c, 3); }
    a.o().update(p, n); for(std::size_t i = 0; i < n; ){ std::size_t k = n - i < (1u << 24) ? n - i : (1u << 24); b.o().update(static_cast<unsigned char const*>(p) + i, k); i += k; }
    std::string x = tail(a.o(), 5), y = tail(b.o(), 5); if(x != y) dev("default; after " + std::to_string(3 * pre) + " bytes, one update of 2^32+37 zero bytes gives " + x + "; the same bytes in updates of at most 2^24 give " + y); }
  munmap(p, n); }
static void once(){ huge(); ctor c; V v = bytes(rnd() %% 4 ? len() + len() : len() * 3); std::string l; box<X> a, b; c.make(a); c.make(b);
  bool again = rnd() %% 3 == 0; if(again){ V w = bytes(len()); feed(a.o(), w, 0, true); feed(b.o(), w, 0, true); a.o().result(); b.o().result(); }
  feed(a.o(), v, 0, true); feed(b.o(), v, &l); unsigned k = rnd() %% 30; std::string x = tail(a.o(), k), y = tail(b.o(), k);
  if(x != y) dev("construct " + c.txt + "; message " + hex(v) + ": one update gives results " + x + "; updates of sizes " + l + " give " + y); }
'''
BODY['C08'] = r'''
typedef %(base)s H;
static void once(){ ctor c; if(c.k == 2 && rnd() %% 2) { c.key = bytes(rnd() %% (3 * N)); c.txt = "key " + hex(c.key); }
  V key = c.k == 2 ? c.key : V(); if(c.k == 1 && c.s) for(int i = 0; i < 8; ++i) key.push_back(static_cast<unsigned char>(c.s >> (8 * i)));
  if(key.size() > N){ H h; h.update(key.data(), key.size()); auto r = h.result(); key.assign(r.begin(), r.end()); } key.resize(N);
  V v = bytes(rnd() %% 3 ? len() : len() * 2); std::string l; box<X> a; c.make(a); feed(a.o(), v, &l); auto got = a.o().result();
  H in, out; for(auto b: key){ unsigned char x = b ^ 0x36, y = b ^ 0x5C; in.update(&x, 1); out.update(&y, 1); } if(v.size()) in.update(v.data(), v.size()); auto d = in.result(); out.update(d.data(), d.size()); auto want = out.result();
  if(show(got) != show(want)) dev("construct " + c.txt + "; message " + hex(v) + " in updates of " + l + ": result " + show(got) + ", H((K^opad)||H((K^ipad)||m)) with the same H is " + show(want)); }
'''
BODY['C09'] = r'''
static void cmp(X& a, X& b, std::string const& what){ V v = bytes(len()); a.update(v.data(), v.size()); b.update(v.data(), v.size()); unsigned k = rnd() %% 20; std::string x = tail(a, k), y = tail(b, k); if(x != y) dev(what + "; then update(" + hex(v) + "): results " + x + " against " + y); }
static void once(){ box<X> a, b; int k = static_cast<int>(rnd() %% 5); bool hm = %(hm)d, sr = %(calls)d, fnv = %(fnv)d, skip = %(skip)d;
  if(k == 0){ ::new(static_cast<void*>(a.b)) X(std::uint64_t(0)); ::new(static_cast<void*>(b.b)) X(); cmp(a.o(), b.o(), "X(0) against X()"); return; }
  if(k == 1){ unsigned char z = 1; ::new(static_cast<void*>(a.b)) X(static_cast<unsigned char const*>(rnd() & 1 ? &z : 0), std::size_t(0)); ::new(static_cast<void*>(b.b)) X(); cmp(a.o(), b.o(), "X(p,0) against X()"); return; }
  if(k == 2 || k == 3){ std::uint64_t s = seedv(); if(!s) s = 1; unsigned char le[8]; for(int i = 0; i < 8; ++i) le[i] = static_cast<unsigned char>(s >> (8 * i)); ::new(static_cast<void*>(a.b)) X(s);
    if(hm) ::new(static_cast<void*>(b.b)) X(le, 8); else if(sr){ ::new(static_cast<void*>(b.b)) X(); b.o().update(le, 8); if(!fnv) b.o().result(); } else return;
    cmp(a.o(), b.o(), "X(" + std::to_string(s) + ") against " + (hm ? "the 8-byte key" : "X(), update(8 bytes), result()")); return; }
  if(hm) return; V key = bytes(rnd() %% 2 ? len() : 1 + rnd() %% 40); if(key.empty() || (skip && key.size() == %(sk)d)) return; ::new(static_cast<void*>(a.b)) X(key.data(), key.size()); ::new(static_cast<void*>(b.b)) X(); b.o().update(key.data(), key.size()); if(!fnv) b.o().result();
  cmp(a.o(), b.o(), "X(p,n) with key " + hex(key) + " against X(), update(p,n), result()"); }
'''
BODY['C10'] = r'''
static bool same(X a, X b){ for(int i = 0; i < 6; ++i){ X x(a), y(b); V v = bytes(rnd() %% 40 + i * N); x.update(v.data(), v.size()); y.update(v.data(), v.size()); if(x.result() != y.result() || x.result() != y.result()) return false; } return true; }
static void once(){ int k = static_cast<int>(rnd() %% 6); std::uint64_t s = seedv(), t = seedv(); 
  if(k == 1) t = s ^ (1ull << (rnd() %% 64)); if(k == 2) t = s ^ (0xFFull << (8 * (rnd() %% 8))); if(k == 3) t = (s & 0xFFFFFFFFu) | (rnd() << 32); if(k == 4) t = (s << 32) | (s >> 32); if(k == 5 && %(sk)d){ V a = bytes(%(sk)d), b = a; if(rnd() & 1) b[rnd() %% b.size()] ^= static_cast<unsigned char>(1 + rnd() %% 255); else { std::size_t i = rnd() %% b.size(), j = rnd() %% b.size(); std::swap(b[i], b[j]); } if(a == b) return; if(same(X(a.data(), a.size()), X(b.data(), b.size()))) dev("keys " + hex(a) + " and " + hex(b) + " give indistinguishable objects"); return; }
  if(%(lo)d){ s &= 0xFFFFFFFFu; t &= 0xFFFFFFFFu; } if(s == t) return; if(same(X(s), X(t))) dev("seeds " + std::to_string(s) + " and " + std::to_string(t) + " give indistinguishable objects"); }
'''
BODY['C11'] = r'''
static void once(){ ctor c; box<X> a, b; c.make(a); c.make(b); std::string log; int steps = 1 + static_cast<int>(rnd() %% 6);
  for(int i = 0; i < steps; ++i){
    if(rnd() %% 3){ V v = bytes(len()); feed(a.o(), v, 0, true); feed(b.o(), v, 0); log += "; update(" + hex(v) + ")"; }
    else { auto x = a.o().result(), y = b.o().result(); log += "; result()"; if(show(x) != show(y)) dev("construct " + c.txt + log + ": two objects with this same history give " + show(x) + " and " + show(y)); }
    if(rnd() %% 4 == 0){ box<X> d; if(rnd() & 1) ::new(static_cast<void*>(d.b)) X(a.o()); else { ctor e; e.make(d); V w = bytes(len()); feed(d.o(), w, 0); d.o() = a.o(); }
      V v = bytes(len()); box<X> ref; ::new(static_cast<void*>(ref.b)) X(b.o()); feed(d.o(), v, 0); std::string x = tail(d.o(), 7); feed(ref.o(), v, 0); std::string y = tail(ref.o(), 7); if(x != y) dev("construct " + c.txt + log + "; a copy continued with update(" + hex(v) + ") gives " + x + ", another copy " + y);
      if(rnd() & 1){ a.o() = *&a.o(); } }
  }
  std::string x = tail(a.o(), 9), y = tail(b.o(), 9); if(x != y) dev("construct " + c.txt + log + ": results " + x + " and " + y + " from the same history"); 
%(pad)s
}
'''
PADMD = r'''
  /* the second result is that of the message extended by the padding */
  { V v = bytes(len()); X p; if(!v.empty()) p.update(v.data(), v.size()); p.result(); V w = v; w.push_back(0x80); while(w.size() %% N != N - %(lb)d) w.push_back(0); std::uint64_t bits = std::uint64_t(v.size()) * 8; for(int i = 0; i < %(lb)d; ++i){ int sh = %(be)d ? 8 * (%(lb)d - 1 - i) : 8 * i; w.push_back(sh >= 64 ? 0 : static_cast<unsigned char>(bits >> sh)); }
    X q; q.update(w.data(), w.size()); V x = bytes(len()); if(!x.empty()){ p.update(x.data(), x.size()); q.update(x.data(), x.size()); } auto r = p.result(), s = q.result(); if(show(r) != show(s)) dev("default; update(" + hex(v) + "); result(); update(" + hex(x) + "): the next result is " + show(r) + ", that of the message extended by its padding is " + show(s)); }
'''


def hint_text(hints):
    ss, bs = [], []
    for x in hints:
        if not isinstance(x, dict):
            continue
        for k, v in x.items():
            if isinstance(v, int) and k.startswith('seed'):
                ss.append(v & ((1 << 64) - 1))
            elif isinstance(v, list) and (k.startswith('key') or k in ('data', 'pend', 'block')) and v and all(isinstance(b, int) and 0 <= b < 256 for b in v) and len(v) < 2000:
                bs.append(v)
    return dict(hint_s=', '.join('%dull' % s for s in ss[:40]), hint_b=', '.join('{ %s }' % ', '.join(map(str, b)) for b in bs[:40]))


def run(pid, mc, hm, budget, seed, huge=False, hints=()):
    """-> (deviation text or None, tried, source path)"""
    cls = ('hmac_' if hm else '') + mc.cls
    lb = getattr(mc, 'lenbytes', 8)
    be = 1 if getattr(mc, 'be', False) else 0
    sk = {'siphash_64': 16, 'siphash_32': 8}.get(mc.name, 0)
    pad = ''
    if pid == 'C11' and mc.kind == 'md' and not hm:
        pad = PADMD % dict(lb=lb, be=be)
    src = PRE % dict(hdr=mc.hdr, cls=cls, N=max(mc.N, 8) if mc.kind in ('fnv', 'sip') else mc.N, **hint_text(hints))
    src += BODY[pid] % dict(huge=int(huge), base=mc.cls, hm=int(hm), calls=int(mc.kind in ('md', 'fnv')), fnv=int(mc.kind == 'fnv'), skip=int(sk > 0), sk=sk, lo=int(mc.name == 'xxhash_32'), pad=pad)
    return build_run(src, 'rel_%s_%s' % (pid, cls), budget, seed)


def build_run(src, name, budget, seed, flags=('-O1',), cxx='g++', std='c++17', args=()):
    d = build.workdir()
    p = os.path.join(d, '%s_%d' % (name, os.getpid()))
    with open(p + '.cpp', 'w') as f:
        f.write(src)
    r = subprocess.run([cxx, '-std=' + std, '-w'] + list(flags) + ['-I', build.REPO + '/include', p + '.cpp', '-o', p], capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError(r.stderr[-2000:])
    try:
        q = subprocess.run([p, '%g' % budget, str(seed)] + list(args), capture_output=True, text=True, timeout=budget + 60,
                           env=dict(os.environ, UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0'))
    except subprocess.TimeoutExpired:
        return None, 0
    for l in q.stdout.split('\n'):
        if l.startswith('DEV '):
            return l[4:], 0
    if q.returncode != 0:
        return 'the program stopped with status %d: %s' % (q.returncode, (q.stderr or q.stdout)[-600:]), 0
    n = [l for l in q.stdout.split('\n') if l.startswith('OK ')]
    return None, int(n[0][3:]) if n else 0
