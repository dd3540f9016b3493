"""Looking for a failing input on the real code, after an obligation of a property failed.
Nothing here decides a property: it only turns a failed obligation into a concrete input."""
import os, random, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import build, native, relfuzz, unit, props
from specs.machine import MACHINES, Ref

def affected(fails):
    """algorithms named by the failed jobs, with the countermodels as hints"""
    mcs, hms, hints = [], [], {}
    for r, u in fails:
        kw = u.get('kw') or {}
        n = kw.get('mcn')
        if not n:
            n = r['name'].split('/')[0].replace('hmac_', '')
            if n not in MACHINES:
                continue
        h = (u.get('kind') or '').startswith('hmac') or r['name'].startswith('hmac_')
        l = hms if h else mcs
        names = [n] + [x.split('/')[0].replace('hmac_', '') for x in r.get('same_code') or []]
        for n in names:
            if n in MACHINES and n not in l:
                l.append(n)
            for f in u['failures']:
                if f.get('model'):
                    hints.setdefault(n, []).append(f['model'])
    return mcs, hms, hints


def par(tasks, budget):
    """tasks: callables returning dict or None; first hit wins"""
    t0 = time.time()
    out = None
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(t) for t in tasks]
        for f in fs:
            try:
                r = f.result(timeout=max(1, budget + 80 - (time.time() - t0)))
            except Exception as e:
                r = None
            if r and out is None:
                out = r
                for g in fs:
                    g.cancel()
    return out


def rel_task(pid, n, hm, budget, seed, hints, huge=False):
    def f():
        d, tried = relfuzz.run(pid, MACHINES[n], hm, budget, seed, huge, hints)
        if d:
            return dict(cls=('hmac_' if hm else '') + MACHINES[n].cls, deviation=d, kind='two uses of the real code that must agree')
    return f


def spec_task(pid, n, hm, budget, seed, hints, san=False):
    def f():
        return native.search_hash(pid, [] if hm else [n], {n: hints}, budget, seed, [n] if hm else (), san)
    return f


def state_task(pid, n, hints, seed, buffer_only=False):
    def f():
        mc = MACHINES[n]
        rep = unit.find_layout(mc, build.hasher(mc, 'std17'))
        return native.state_replay(pid, mc, rep, hints, seed, 30, buffer_only)
    return f


def huge_hint(hints):
    return any(isinstance(x, dict) and isinstance(x.get('n'), int) and x['n'] >= 1 << 31 for x in hints)


def search(pid, fails, budget, seed, t0):
    import appsearch
    if pid in appsearch.PARTS:
        return appsearch.focus(pid, fails, budget, seed)
    mcs, hms, hints = affected(fails)
    objs = [x for x in fails if (x[1].get('kind') or '') in ('app_fixed', 'app_range', 'app_size', 'app_unord', 'integral', 'digest')]
    if objs:
        b = budget if not mcs and not hms else budget / 2
        r = None
        if pid == 'C14':
            r = par([lambda w=w: appsearch.ce_objects(b * .7, seed, w) for w in range(6)], b)
        r = r or appsearch.conc_units(objs, b * .5, seed)
        if r or (not mcs and not hms):
            return r
        budget = budget / 2
    if not mcs and not hms:
        mcs = list(props.LEG if pid == 'C25' else props.ALL)
    k = max(1, (len(mcs) + len(hms) + 7) // 8)
    b = max(4, budget / k / 2)
    tasks = []
    for n, hm in [(n, False) for n in mcs] + [(n, True) for n in hms]:
        h = hints.get(n, [])
        if pid in ('C01', 'C08', 'C09', 'C10', 'C11'):
            if pid == 'C08' and not hm:
                continue
            tasks.append(rel_task(pid, n, hm, b, seed, h, huge_hint(h)))
        if pid in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C25'):
            tasks.append(spec_task(pid, n, hm, b, seed, h))
            if not hm and MACHINES[n].kind != 'fnv':
                tasks.append(state_task(pid, n, h, seed))
        if pid == 'C11' and not hm and MACHINES[n].kind != 'md':
            tasks.append(later_task(n, b, seed, h))
        if pid == 'C12' and not hm:
            tasks.append(state_task(pid, n, h, seed, True))
        if pid == 'C13':
            tasks.append(spec_task(pid, n, hm, b, seed, h, True))
            tasks.append(san_task(n, hm, b, seed, h))
        if pid == 'C14':
            tasks.append(lambda n=n, hm=hm, h=h: ce_search(n, hm, b, seed, h))
    if pid == 'C15':
        return port_search(mcs, hms, hints, fails, budget, seed)
    return par(tasks, budget)


def later_task(n, budget, seed, hints):
    """C11 for algorithms without a padding identity: later results against the reference,
    reported only where the first result is right"""
    def f():
        r = native.search_hash('C11', [n], {n: hints}, budget, seed)
        if r and 'result number 1 ' not in r['deviation']:
            return r
    return f


SAN = [('g++', ('-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all')),
       ('clang++-18', ('-O1', '-g', '-fsanitize=memory,undefined', '-fno-sanitize-recover=all'))]


def san_task(n, hm, budget, seed, hints):
    """histories under the sanitizers, deviation = sanitizer report"""
    def f():
        mc = MACHINES[n]
        for cxx, fl in SAN[1:]:
            try:
                nat = native.Native(mc.hdr, ('hmac_' if hm else '') + mc.cls, fl, cxx)
            except build.BuildError:
                continue
            rng = random.Random(seed)
            t0 = time.time()
            k = 0
            while time.time() - t0 < budget:
                hs = [native.history(rng, mc, hm, 'C13', k + i) for i in range(150)]
                k += 150
                for h, (got, crash) in zip(hs, nat.run(hs)):
                    if crash and 'no answer' not in crash:
                        return dict(cls=mc.cls, hdr=mc.hdr, history=h, deviation='the code stopped: %s' % crash, flags=list(fl))
    return f


# ------------------------------------------------------------ constant evaluation
CE_PRE = r'''
#include <boost/hash2/%s>
#include <boost/hash2/hmac.hpp>
#include <cstdint>
#include <cstdio>
using namespace boost::hash2;
typedef %s X; typedef X::result_type R;
struct O { R a, b, c; };
static bool eq(R const& x, R const& y){ return x == y; }
'''


def ce_case(i, rng, mc, N, hints):
    k = rng.randrange(3)
    seed = rng.choice(native.SEEDS) if rng.random() < .5 else rng.getrandbits(64)
    kb = lambda n: [rng.getrandbits(8) for _ in range(n)]
    key = kb(rng.choice([1, 4, 7, 8, 9, 16, 17, N, N + 1, 2 * N]))
    n1 = native.lens(rng, N)
    n2 = native.lens(rng, N, n1 % N)
    n3 = rng.randrange(0, N + 2)
    m = kb(n1 + n2 + n3 + 1)
    s = 'constexpr unsigned char m%d[] = { %s };\n' % (i, ','.join(map(str, m)))
    s += 'constexpr unsigned char k%d[] = { %s };\n' % (i, ','.join(map(str, key)))
    c = ['X h', 'X h(std::uint64_t(%dull))' % seed, 'X h(k%d, sizeof k%d)' % (i, i)][k]
    s += 'constexpr O f%d(){ %s; h.update(m%d, %d); h.update(m%d + %d, %d); R a = h.result(); R b = h.result(); h.update(m%d + %d, %d); R d = h.result(); return O{ a, b, d }; }\n' % (i, c, i, n1, i, n1, n2, i, n1 + n2, n3)
    s += 'constexpr O c%d = f%d();\n' % (i, i)
    d = '%s; update(%d bytes), update(%d bytes), result, result, update(%d bytes), result; bytes %s%s' % (['default', 'seed %d' % seed, 'key ' + bytes(key).hex()][k], n1, n2, n3, bytes(m[:-1]).hex(), '')
    return s, d


def ce_search(n, hm, budget, seed, hints):
    mc = MACHINES[n]
    N = max(mc.N, 4)
    rng = random.Random(seed)
    t0 = time.time()
    rounds = 0
    while time.time() - t0 < budget:
        rounds += 1
        src = CE_PRE % (mc.hdr, ('hmac_' if hm else '') + mc.cls)
        ds = []
        for i in range(25):
            s, d = ce_case(i, rng, mc, N, hints)
            src += s
            ds.append(d)
        src += 'int main(int, char**){\n'
        for i in range(25):
            src += '{ O (*volatile p)() = f%d; O r = p(); if(!(eq(r.a, c%d.a) && eq(r.b, c%d.b) && eq(r.c, c%d.c))){ std::printf("DEV %d\\n"); return 3; } }\n' % (i, i, i, i, i)
        src += 'std::printf("OK 25\\n"); }\n'
        cxx, fl = [('g++', ('-O0', '-fconstexpr-ops-limit=900000000')), ('clang++-18', ('-O0', '-fconstexpr-steps=900000000'))][rounds % 2]
        try:
            r, _ = relfuzz.build_run(src, 'ce_%s_%d' % (n, rounds), 0, seed, fl, cxx)
        except build.BuildError as e:
            m = re.search(r'c(\d+)', str(e))
            if 'constant' in str(e) or 'constexpr' in str(e):
                return dict(cls=mc.cls, deviation='not usable in a constant expression: ' + str(e)[-900:], compiler=cxx, cases=ds[:3])
            return None
        if r is not None:
            i = int(r) if r.strip().isdigit() else 0
            return dict(cls=mc.cls, deviation='the constant-expression value differs from the run-time value: ' + ds[i][:3000], compiler=cxx)
    return None


# ------------------------------------------------------------ other targets
def interp(mc, mod, hist, size):
    """results of a history, computed by executing the IR compiled for another target"""
    import sym, term as T
    from term import const
    z = const(mod.ptrw, 0)
    ex = sym.Exec(mod, [], [])
    ex.tlimit = 60
    st = sym.State()
    objs, out = {}, []
    for c in hist:
        p = c.split()
        i = int(p[1])
        if i not in objs:
            objs[i] = ex.alloc(st, 'obj%d' % i, size, align=16)
        me = sym.Ptr(objs[i], z)

        def blk(h):
            b = b'' if h in '0-' else bytes.fromhex(h)
            o = ex.alloc(st, 'in', len(b), [(const(8, x), 0) for x in b], align=1, ro=True)
            return sym.Ptr(o, z), const(mod.ptrw, len(b))
        if p[0] == 'D':
            o = ex.run_fn(st, 'h_default', [me])
        elif p[0] == 'S':
            o = ex.run_fn(st, 'h_seed', [me, const(64, int(p[2]))])
        elif p[0] in 'KUV':
            a, n = blk(p[2])
            o = ex.run_fn(st, {'K': 'h_key', 'U': 'h_update', 'V': 'h_updatec'}[p[0]], [me, a, n])
        elif p[0] == 'R':
            r = ex.alloc(st, 'res', mc.outlen, align=8)
            o = ex.run_fn(st, 'h_result', [me, sym.Ptr(r, z)])
            if mc.arr:
                out.append(bytes(ex.readloc(o[0], r, k, 1).a for k in range(mc.outlen)).hex())
            else:
                out.append(ex.readloc(o[0], r, 0, mc.outlen).a.to_bytes(mc.outlen, 'little').hex())
        else:
            continue
        if len(o) != 1:
            raise RuntimeError('no unique outcome')
        st = o[0]
    bad = [x for x in ex.obls if not x.ok]
    return out, bad


def port_search(mcs, hms, hints, fails, budget, seed):
    cf = {}
    for r, u in fails:
        kw = u.get('kw') or {}
        if kw.get('mcn') and kw.get('cfg'):
            cf.setdefault(kw['mcn'], set()).add(kw['cfg'])
    t0 = time.time()
    rng = random.Random(seed)
    pairs = [(n, c, False) for n in mcs for c in sorted(cf.get(n, {'be64', 'le32'}))] + [(n, c, True) for n in hms for c in sorted(cf.get(n, {'be64'}))]
    ctx = []
    for n, c, hm in pairs[:12]:
        mc = MACHINES[n]
        X = type('X', (), dict(hdr=mc.hdr, cls=('hmac_' if hm else '') + mc.cls))
        try:
            mod = build.hasher(X if hm else mc, c)
            nat = native.Native(mc.hdr, X.cls)
        except build.BuildError as e:
            return dict(cls=mc.cls, deviation='does not compile for %s: %s' % (c, str(e)[-600:]))
        ctx.append((mc, c, hm, mod, nat, unit.global_int(mod, 'h_sizes', 0)))
    k = 0
    while time.time() - t0 < budget and ctx:
        for mc, c, hm, mod, nat, size in ctx:
            hs = []
            if k == 0:
                hs += [[x for x in h if x[0] in 'DSKUVR'] for h in native.hint_histories(mc, hm, hints.get(mc.name, []))[:6] if sum(len(x) for x in h) < 3000]
            for _ in range(4):
                h = native.history(rng, mc, hm, 'C15', rng.randrange(4 * mc.N + 20))
                if rng.random() < .5:
                    h[0] = 'S 0 %d' % rng.choice(native.SEEDS + [rng.getrandbits(64)])
                elif rng.random() < .3:
                    h[0] = 'K 0 %s' % bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 8, 16, 3, 70]))).hex()
                hs.append([x for x in h if x[0] in 'DSKUVR'])
            for h, (want, crash) in zip(hs, nat.run(hs)):
                if time.time() - t0 > budget:
                    return None
                try:
                    got, bad = interp(mc, mod, h, size)
                except Exception as e:
                    continue
                if not crash and got != want:
                    return dict(cls=('hmac_' if hm else '') + mc.cls, history=h, target=build.CFGS[c].get('target'), deviation='compiled for %s (LLVM IR executed): %s; on this machine: %s' % (build.CFGS[c].get('target'), got, want))
        k += 1
    return None
