"""Relational machines: the parts of an algorithm that a property does not talk about are
taken from the code itself (mechanically, on every run), so that e.g. 'splitting a message
does not matter' is decided independently of whether the compression function is the
published one."""
import copy
import term as T, sym, build, step, sweep
from term import const
from specs.alg import TermAlg
from unit import Unit, find_layout, need

V = T.var


def own_iv(mc, mod):
    """words left by the default constructor"""
    rep = find_layout(mc, mod)
    ex = sym.Exec(mod, [], [])
    ex.tlimit = 30
    st = sym.State()
    oid = ex.alloc(st, 'this', rep.size, align=rep.align)
    outs = ex.run_fn(st, 'h_default', [sym.Ptr(oid, const(mod.ptrw, 0))])
    ws = [ex.readloc(outs[0], oid, o, s) for o, s in rep.words]
    if len(outs) != 1 or any(not isinstance(w, T.T) or w.k != 'const' for w in ws):
        raise sym.EngineError('default constructor does not leave constant chaining words')
    return [w.a for w in ws]


def own_step(mc, mod):
    """terms of the words after update(one block) in terms of s0.., x0.."""
    rep = find_layout(mc, mod)
    ex = sym.Exec(mod, [], [])
    ex.tlimit = 120
    st = sym.State()
    oid = ex.alloc(st, 'this', rep.size, align=rep.align)
    st.mem[oid].fields = [(o, s) for _, o, s, _ in rep.fields]
    ws = [V(mc.w, 's%d' % i) for i in range(mc.k)]
    blk = [V(8, 'x%d' % j) for j in range(mc.N)]
    for i, w in enumerate(ws):
        rep.put_word(ex, st, oid, i, w)
    if rep.buf:
        for j in range(mc.N):
            rep.put_buf(ex, st, oid, j, const(8, 0))
        rep.put_m(ex, st, oid, const(64, 0))
        rep.put_n(ex, st, oid, T.mulc(V(mc.cw, 'nb'), mc.N))
    b = ex.alloc(st, 'block', mc.N, [(x, 0) for x in blk], align=1, ro=True)
    z = const(mod.ptrw, 0)
    outs = ex.run_fn(st, 'h_update', [sym.Ptr(oid, z), sym.Ptr(b, z), const(mod.ptrw, mc.N)])
    outs = [o for o in outs]
    if len(outs) != 1:
        raise sym.EngineError('update of one block has several outcomes')
    got = [need(ex.readloc(outs[0], oid, o, s), mc.w) for o, s in rep.words]
    ok = set(ws + blk)
    if any(t.k == 'var' and t not in ok for t in T.topo(got)):
        raise sym.EngineError('update of one block does not give a function of words and block')
    return ws, blk, got


class NoStep(Exception):
    pass


_rel = {}


def machine(mc, cfg, base='std17'):
    """-> (relational machine, contracts for cfg's module)"""
    key = (mc.name, cfg, base)
    if key in _rel:
        return _rel[key]
    mb = build.hasher(mc, base)
    m = build.hasher(mc, cfg)
    a = None
    cs = []
    sb = step.find_steps(mc, mb)
    if sb:
        s = sb if cfg == base else step.find_steps(mc, m)
        if s:
            a = step.abstract(mc)
            cs = step.contracts(mc, m, s)
    if a is None:
        ws, blk, got = own_step(mc, mb)
        a = copy.copy(mc)
        if mc.FN != mc.N:
            # the code works in pieces smaller than its block: the published block function is
            # used where the code's own one equals it, otherwise there is nothing to relate to
            want = mc.step(TermAlg(mc.w), ws, blk)
            if any(x is not y for x, y in zip(got, want)) and not sweep.equal(got, want):
                raise NoStep('update of one block is not the published block function')

        def st(A, words, block):
            return T.subst(got, dict(zip(ws + blk, list(words) + list(block))))
        a.step = st
    a.iv = own_iv(mc, mb)
    a.rel = True
    _rel[key] = (a, cs)
    return _rel[key]


def put_abs(u, rep, mc, oid, ws, pend, n, buf0=None):
    ex, st = u.ex, u.st
    for i in range(mc.k):
        rep.put_word(ex, st, oid, i, ws[i])
    if rep.buf:
        for j in range(mc.N):
            rep.put_buf(ex, st, oid, j, pend[j] if j < len(pend) else V(8, 'stale%d' % j) if mc.stale else const(8, 0))
        rep.put_m(ex, st, oid, const(64, len(pend)))
        rep.put_n(ex, st, oid, n)


def words_of(rep, ex, o, oid, mc):
    return [rep.word(ex, o, oid, i) for i in range(mc.k)]


def u_same(mc, mods, name, prep, fn, contracts, label):
    """run the same function of two builds on the same symbolic arguments; every observable
    component of the outcome must be equal.  prep(u, rep, ex, st, oid) -> extra args"""
    u = Unit(name, mods[0])
    res = []
    for mod, cs in zip(mods, contracts):
        rep = find_layout(mc, mod)
        u.mod = mod
        ex = u.exec([], cs)
        st = u.st
        oid = ex.alloc(st, 'this', rep.size, align=rep.align)
        st.mem[oid].fields = [(o, s) for _, o, s, _ in rep.fields]
        args = prep(u, rep, ex, st, oid)
        r = None
        if fn == 'h_result':
            r = ex.alloc(st, 'digest', mc.outlen, align=8)
            args = args + [sym.Ptr(r, const(mod.ptrw, 0))]
        outs = u.run(fn, [sym.Ptr(oid, const(mod.ptrw, 0))] + args)
        comp = []
        for o in outs:
            d = {}
            if r is not None:
                d['result'] = [u.byte(o, r, i) for i in range(mc.outlen)] if mc.arr else [need(ex.readloc(o, r, 0, mc.outlen), mc.w)]
            d['chaining words'] = words_of(rep, ex, o, oid, mc)
            if rep.buf:
                if rep.m:
                    d['pending count'] = [rep.getm(ex, o, oid)]
                if rep.n:
                    d['byte counter'] = [rep.getn(ex, o, oid)]
                if not mc.stale or fn == 'h_result':
                    d['buffer'] = [rep.getbuf(ex, o, oid, j) for j in range(mc.N)]
            comp.append((o, d))
        u.cover(outs)
        res.append(comp)
    for o1, d1 in res[0]:
        for o2, d2 in res[1]:
            pc = list(o1.pc) + [c for c in o2.pc if c not in o1.pc]

            class O:
                pass
            o = O()
            o.pc = pc
            for k in d1:
                if k in d2:
                    u.prove_eqs(o, '%s: %s' % (label, k), d2[k], d1[k])
                else:
                    u.add('postcondition: %s: %s' % (label, k), False, 'shape', 'layouts differ')
    return u.done()
