"""Executing jobs (in worker processes)."""
import time
import term as T, build, unit, step, rel, sym, smt
import units_hash as U
from term import const
from unit import Unit, find_layout, need, run_unit
from specs.machine import MACHINES

V = T.var


def mach(mcn, cfg, r):
    """machine and contracts: r False = published algorithm with the block function by contract
    where there is one; True = everything else from the code; 'step' = published padding and
    length field over the code's own block function and initial values"""
    mc = MACHINES[mcn]
    mod = build.hasher(mc, cfg)
    if r is True:
        a, cs = rel.machine(mc, cfg)
        return a, mod, cs
    s = step.find_steps(mc, mod)
    if not s:
        return mc, mod, []
    a = step.abstract(mc)
    if mc.kind == 'md':
        return a, mod, step.contracts(mc, mod, s)
    if r == 'step':
        return a, mod, step.contracts(mc, mod, s)
    return mc, mod, []


def d_update(mcn, cfg, case, fn, rel):
    a, mod, cs = mach(mcn, cfg, rel)
    return [run_unit(U.u_update, a, mod, case, fn, cs)]


def d_result(mcn, cfg, ms, rel, goals):
    a, mod, cs = mach(mcn, cfg, rel)
    out = []
    for m in ms:
        for lc in ((True, False) if a.longshort else (None,)):
            out.append(run_unit(U.u_result, a, mod, m, lc, cs, tuple(goals)))
    return out


def d_step(mcn, cfg, std):
    mc = MACHINES[mcn]
    mod = build.hasher(mc, cfg)
    out = [run_unit(step.u_step, mc, mod, f, r, std) for f, r in step.find_steps(mc, mod)]
    return out


def d_default(mcn, cfg, rel):
    a, mod, cs = mach(mcn, cfg, rel)
    return [run_unit(U.u_default, a, mod)]


def d_seed(mcn, cfg, rel, only=None, lt32=False):
    a, mod, cs = mach(mcn, cfg, rel)
    if rel and only is None:
        return [run_unit(u_safe_seed, a, mod)]
    return [run_unit(U.u_seed, a, mod, cs, only, lt32)]


def d_seed2(mcn, cfg):
    a, mod, cs = mach(mcn, cfg, False)
    return [run_unit(U.u_seed2, a, mod, cs)]


def d_seedh(mcn, cfg):
    mc = MACHINES[mcn]
    return [run_unit(U.u_seedh, mc, build.hasher(mc, cfg))]


def d_key(mcn, cfg, special):
    mc = MACHINES[mcn]
    mod = build.hasher(mc, cfg)
    return [run_unit(U.u_key, own(mc), mod, 'h_key', special)]


def own(mc, cfg='std17'):
    import copy
    a = copy.copy(mc)
    a.iv = rel.own_iv(mc, build.hasher(mc, cfg))
    return a


def d_copy(mcn, cfg, fn):
    mc = MACHINES[mcn]
    return [run_unit(U.u_copy, mc, build.hasher(mc, cfg), fn)]


_hm = {}


def hm(mcn, cfg):
    k = (mcn, cfg)
    if k not in _hm:
        _hm[k] = U.HM(MACHINES[mcn], cfg)
    return _hm[k]


def d_hmac_ctor(mcn, cfg, kind):
    return [run_unit(lambda: U.u_hmac_ctor(hm(mcn, cfg), kind))]


def d_hmac_op(mcn, cfg, op):
    return [run_unit(lambda: U.u_hmac_op(hm(mcn, cfg), op))]


def d_ce_mem(cfg, what):
    return [run_unit(U.u_ce_mem, cfg, what)]


def u_safe_seed(mc, mod):
    """construction from any seed: memory safe, no undefined behaviour, well-formed object"""
    u = Unit('%s::ctor(seed) well formed' % mc.cls, mod, U.ce_contracts(mod))
    rep = find_layout(mc, mod)
    ex = u.exec([])
    oid = ex.alloc(u.st, 'this', rep.size, align=rep.align)
    s = V(64, 'seed')
    u.inputs['seed'] = s
    outs = u.run('h_seed', [sym.Ptr(oid, const(mod.ptrw, 0)), s])
    for o in outs:
        wf(u, mc, rep, ex, o, oid)
    u.cover(outs)
    return u.done()


def wf(u, mc, rep, ex, o, oid):
    vs = [need(ex.readloc(o, oid, q, s), 8 * s) for q, s in rep.words]
    if rep.buf and not mc.stale:
        vs += [rep.getbuf(ex, o, oid, j) for j in range(mc.N)]
    bad = [t.a for t in T.topo(vs) if t.k == 'var' and t.a.startswith('uninit')]
    u.add('invariant: every member that is read later is initialised', not bad, 'canonical', 'uninitialised')
    if rep.m:
        u.prove(o, 'no pending bytes after construction', T.ult(rep.getm(ex, o, oid), const(64, mc.N)))


def u_null(mc, mod, contracts):
    """update(null, 0): nothing is dereferenced, nothing changes"""
    u = Unit('%s::update(null,0)' % mc.cls, mod, list(contracts) + U.ce_contracts(mod))
    rep = find_layout(mc, mod)
    for fn in ('h_update', 'h_updatec'):
        for full in ((False, True) if rep.buf else (False,)):
            ex = u.exec([])
            st = u.st
            oid = ex.alloc(st, 'this', rep.size, align=rep.align)
            st.mem[oid].fields = [(o, s) for _, o, s, _ in rep.fields]
            U.put_state(u, rep, mc, oid)
            if rep.buf:
                p2 = mc.N & (mc.N - 1) == 0
                m = const(64, 0) if not full else T.zext(V(mc.N.bit_length() - 1, 'm'), 64) if p2 else T.bvar(64, 'm.%d' % mc.N, mc.N - 1)
                nb = V(mc.cw, 'nb') if p2 else T.bvar(mc.cw, 'nb.%d' % mc.N, (1 << (mc.cw - 3)) // mc.N - 1)
                rep.put_m(ex, st, oid, m)
                rep.put_n(ex, st, oid, T.add(T.mulc(nb, mc.N), T.trunc(m, mc.cw) if mc.cw < 64 else m))
            before = list(st.mem[oid].cells)
            z = const(mod.ptrw, 0)
            outs = u.run(fn, [sym.Ptr(oid, z), ex.null(), z])
            for o in outs:
                idx = [i for i, c in enumerate(before) if c is not None]
                u.prove_eqs(o, 'object unchanged', [need(ex.readloc(o, oid, i, 1), 8) for i in idx], [ex.byte(before[i]) for i in idx])
            u.cover(outs)
    return u.done()


def d_null(mcn, cfg):
    a, mod, cs = mach(mcn, cfg, True)
    return [run_unit(u_null, a, mod, cs)]


# ------------------------------------------------------------ injectivity (C10)
def u_inj(mc, mod, what):
    u = Unit('%s: distinct %s give distinct states' % (mc.cls, what), mod, U.ce_contracts(mod))
    rep = find_layout(mc, mod)
    pw = mod.ptrw
    runs = []
    ex = u.exec([])
    base = None
    vs = []
    for t in ('a', 'b'):
        ex = u.exec([])
        st = u.st
        oid = ex.alloc(st, 'this', rep.size, align=rep.align)
        p = sym.Ptr(oid, const(pw, 0))
        if what == 'seeds':
            s = V(64, 'seed_' + t)
            if mc.name == 'xxhash_32':
                s = T.zext(V(32, 'seed_' + t), 64)
            u.inputs['seed_' + t] = s
            vs.append([s])
            outs = u.run('h_seed', [p, s])
        else:
            sk = U.special_key(mc)
            k = [V(8, 'k%s%d' % (t, i)) for i in range(sk)]
            u.inputs['key_' + t] = k
            vs.append(k)
            b = ex.alloc(st, 'key', sk, [(x, 0) for x in k], ro=True, align=1)
            outs = u.run('h_key', [p, sym.Ptr(b, const(pw, 0)), const(pw, sk)])
        u.cover(outs)
        runs.append([(o, [need(ex.readloc(o, oid, q, s), 8 * s) for q, s in rep.words]) for o in outs])

    class O:
        pass
    for o1, w1 in runs[0]:
        for o2, w2 in runs[1]:
            o = O()
            o.pc = list(o1.pc) + list(o2.pc)
            same = T.conj([T.eq(x, y) for x, y in zip(w1, w2)])
            u.prove(o, 'equal states imply equal %s' % what, T.implies(same, T.conj([T.eq(x, y) for x, y in zip(*vs)])))
    return u.done()


def d_inj_seed(mcn, cfg):
    mc = MACHINES[mcn]
    return [run_unit(u_inj, mc, build.hasher(mc, cfg), 'seeds')]


def d_inj_key(mcn, cfg):
    mc = MACHINES[mcn]
    return [run_unit(u_inj, mc, build.hasher(mc, cfg), 'keys')]


# ------------------------------------------------------------ same outcome in two builds
def pair(mcn, cfg):
    mc = MACHINES[mcn]
    m0, m1 = build.hasher(mc, 'std17'), build.hasher(mc, cfg)
    a0, c0 = rel.machine(mc, 'std17')
    a1, c1 = rel.machine(mc, cfg)
    return mc, (m0, m1), (list(c0) + U.ce_contracts(m0), list(c1) + U.ce_contracts(m1))


def d_same_step(mcn, cfg):
    mc = MACHINES[mcn]
    m0, m1 = build.hasher(mc, 'std17'), build.hasher(mc, cfg)
    return [run_unit(u_same_step, mc, m0, m1, cfg)]


def u_same_step(mc, m0, m1, cfg):
    u = Unit('%s block function [%s = reference build]' % (mc.cls, cfg), m1, [])
    s0, s1 = step.find_steps(mc, m0), step.find_steps(mc, m1)
    if not s0 or not s1:
        # the update units use the reference build's own one-block terms directly
        u.add('no separate block function', True, 'canonical')
        return u.done()
    ws = [V(mc.w, 's%d' % i) for i in range(mc.k)]
    blk = [V(8, 'x%d' % j) for j in range(mc.N)]
    u.inputs.update(words=ws, block=blk)
    first = None
    for mod, ss in ((m0, s0), (m1, s1)):
        for f, r in ss:
            u.mod = mod
            u.contracts = U.ce_contracts(mod)
            ex = u.exec([])
            args, oid, offs, b = step.setup(mc, find_layout(mc, mod), ex, u.st, r, ws, blk)
            outs = u.run(f, args)
            u.cover(outs)
            for o in outs:
                got = [need(ex.readloc(o, oid, q, mc.w // 8), mc.w) for q in offs]
                if first is None:
                    first = got
                else:
                    u.prove_eqs(o, 'new chaining words as in the reference build', got, first)
    return u.done()


def d_same_result(mcn, cfg, ms):
    mc, mods, cs = pair(mcn, cfg)
    out = []
    for m in ms:
        for lc in ((True, False) if mc.longshort else (None,)):
            def prep(u, rep, ex, st, oid):
                ws, pend, n, kw = U.put_result_state(u, mc, rep, ex, st, oid, m, lc)
                u.inputs.update(words=ws, pend=pend, m=const(32, m), n=n)
                return []
            out.append(run_unit(rel.u_same, mc, mods, '%s::result[m=%d] [%s = reference build]' % (mc.cls, m, cfg), prep, 'h_result', cs, 'as in the reference build'))
    return out


def d_same_seed(mcn, cfg):
    mc, mods, cs = pair(mcn, cfg)

    def prep(u, rep, ex, st, oid):
        s = V(64, 'seed')
        u.inputs['seed'] = s
        return [s]
    return [run_unit(rel.u_same, mc, mods, '%s::ctor(seed) [%s = reference build]' % (mc.cls, cfg), prep, 'h_seed', cs, 'as in the reference build')]


def d_same_key(mcn, cfg):
    mc, mods, cs = pair(mcn, cfg)

    def prep(u, rep, ex, st, oid):
        sk = U.special_key(mc)
        k = [V(8, 'k%d' % i) for i in range(sk)]
        u.inputs['key'] = k
        b = ex.alloc(st, 'key', sk, [(x, 0) for x in k], ro=True, align=1)
        return [sym.Ptr(b, const(ex.pw, 0)), const(ex.pw, sk)]
    return [run_unit(rel.u_same, mc, mods, '%s::ctor(key) [%s = reference build]' % (mc.cls, cfg), prep, 'h_key', cs, 'as in the reference build')]


# ------------------------------------------------------------ hashing of objects
import append, integral, digest as dig_


def d_app_fixed(fam, cfg, flavs):
    ds, mod = append.fixed(fam, cfg, flavs)
    return [run_unit(append.u_fixed, d, mod, fl, cfg) for d in ds for fl in flavs]


def d_app_range(cfg, fl, flavs, elem, conts=None):
    ds, mod = append.ranges(cfg, flavs)
    std = build.CFGS[cfg].get('std', 'c++17')
    out = []
    for d in ds:
        if d.name == elem:
            for c in append.conts_for(d, std):
                if conts is None or c in conts:
                    out += [run_unit(append.u_range, c, d, mod, fl, cfg, null) for null in (False, True)]
    return out


def d_app_size(cfg, flavs):
    ds, mod = append.ranges(cfg, flavs)
    return [run_unit(append.u_size, n, mod, fl, cfg) for n, t in append.SIZES for fl in flavs]


def d_app_unord(cfg, fl, flavs, elem):
    ds, mod = append.unordered(cfg, flavs)
    return [run_unit(append.u_unord, c, d, rn, mod, fl, cfg) for d in ds if d.name == elem for rn in append.RESULTS if rn == 'u64' or elem == 'elem' for c in append.unord_variants(d, rn)]


def d_integral(cfg, ts):
    mod = integral.module(cfg)
    out = []
    for t in ts:
        out += [run_unit(integral.u_integral, t, r, mod, cfg) for r, _ in integral.RS]
        out += [run_unit(integral.u_array, t, a, mod, cfg) for a, _, _ in integral.AS]
    return out


def d_digest(cfg, ns, whats):
    mod = dig_.module(cfg)
    return [run_unit(dig_.u_digest, w, n, mod, cfg) for n in ns for w in whats]


def d_lemma(name):
    import lemma
    return [lemma.run(name)]


def preload(key):
    kind, cfg, a, b = key
    try:
        if kind == 'app_fixed':
            append.fixed(a, cfg, b)
        elif kind in ('app_range', 'app_size'):
            append.ranges(cfg, b)
        elif kind == 'app_unord':
            append.unordered(cfg, b)
        elif kind == 'integral':
            integral.module(cfg)
        elif kind == 'digest':
            dig_.module(cfg)
    except Exception:
        pass


def preload_key(kind, kw):
    if kind.startswith('app_') or kind in ('integral', 'digest'):
        k = {'app_size': 'app_range'}.get(kind, kind)
        return (k, kw['cfg'], kw.get('fam') or '', kw.get('flavs') or '')


DISPATCH = {k[2:]: v for k, v in list(globals().items()) if k.startswith('d_')}


def dispatch(kind, kw):
    return DISPATCH[kind](**kw)


def run_job(job, deadline):
    """-> dict(name, ok, units, wall)"""
    t0 = time.time()
    unit.DEADLINE[0] = deadline
    best = None
    for kind, kw in job[1]:
        if time.time() > deadline:
            break
        try:
            us = dispatch(kind, kw)
        except build.BuildError as e:
            us = [failed(job[0], 'the harness does not compile: ' + str(e)[:1500], 'build')]
        except RecursionError:
            us = [failed(job[0], 'recursion limit')]
        except rel.NoStep as e:
            us = [dict(failed(job[0], ''), obligations=0, nfail=0, failures=[], assumed=['%s: not decided for this property: %s (C25 reports that)' % (job[0], e)])]
        except Exception as e:
            import traceback
            tb = traceback.format_exc().strip().split('\n')
            us = [failed(job[0], '%s: %s @ %s' % (type(e).__name__, str(e)[:300], tb[-3].strip() if len(tb) > 3 else ''))]
        ok = all(u['nfail'] == 0 for u in us)
        if best is None or ok:
            best = (ok, us, kind, kw)
        if ok:
            break
    if best is None:
        best = (False, [failed(job[0], 'time limit reached before this unit started')], '', {})
    for u in best[1]:
        if u['nfail']:
            u['kind'] = best[2]
            u['kw'] = best[3]
    return dict(name=job[0], ok=best[0], units=best[1], wall=time.time() - t0)


def failed(name, msg, kind='undecided'):
    return dict(unit=name, obligations=1, discharged=0, by={}, kinds={}, nfail=1, called={}, contracted={}, loops=[], unrolled={}, covered=0, assumed=[], wall=0.0,
                failures=[dict(obligation='unit could not be completed', where=name, how=kind, status=msg, model=None, detail='')], smt={})
