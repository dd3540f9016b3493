"""Contract units for the streaming hash algorithms.  Each unit symbolically
executes one real function (the LLVM IR clang produces from /repo's headers,
callees inlined or taken by contract) from an arbitrary state satisfying the
representation contract, and proves its postcondition."""
import time
import term as T, ir, sym, smt, fold, build
from term import const
from specs import alg
from specs.machine import MACHINES, IntAlg, TermAlg, xxh_iv
from unit import Unit, Rep, find_layout, need

V = T.var


def load(mc, std='c++17', defs=(), target=None):
    return build.hasher_ir(mc.hdr, mc.cls, std, defs, target)


def counter(mc, nb, m):
    """n_ == N*nb + m at counter width"""
    n = T.mulc(nb, mc.N) if mc.N > 1 else nb
    return T.add(n, m)


def u_update(mc, mod, case, fn='h_update', contracts=()):
    """update(p,n): absorbs exactly p[0..n)"""
    u = Unit('%s::update[%s%s]' % (mc.cls, case, '' if fn == 'h_update' else ',' + fn), mod, list(contracts) + ce_contracts(mod))
    rep = find_layout(mc, mod)
    N, k = mc.N, mc.k
    pw2 = N & (N - 1) == 0
    bits = (N - 1).bit_length()
    pw = mod.ptrw
    # ghost positions are counted at pointer width; the stretch of the stream one call
    # touches is shorter than the address space, so positions in it are distinct
    per = N // mc.FN
    F = fold.Fold('S', k, mc.w, mc.FN, lambda s, blk: (mc.fstep if mc.FN != mc.N else mc.step)(TermAlg(mc.w), s, blk), pw=pw)
    F.deep = 2 * per if per > 1 else 1
    FS = lambda i, b: F.S(i, T.mulc(b, per))
    ex = u.exec([F])
    st = u.st
    # n is parametrised by the number q of further full blocks and the new pending count r:
    # every pair (m, n) with m < N is covered by exactly one of 'short' (m+n < N) and 'long'
    zx = lambda t, w: T.zext(t, w) if t.w < w else T.trunc(t, w) if t.w > w else t
    b0 = T.zext(V(pw - 5 - bits, 'b0'), pw)
    # a counter taken modulo a block size that is no power of two is specified below its wrap-around
    nb = V(mc.cw, 'nb') if pw2 else T.zext(V(mc.cw - bits - 4, 'nb'), mc.cw)
    mcase, lcase = case.split(',')
    rr = V(bits, 'r') if bits else None
    mm = V(bits, 'm') if bits and mcase == 'm>0' else None
    below = (lambda x, w: zx(x, w)) if pw2 else (lambda x, w: T.bvar(w, '%s%d.%d' % (x.a, w, N), N - 1))
    if mcase not in ('m=0', 'm>0'):
        mconst = int(mcase[2:])
    else:
        mconst = 0

    def width(w):
        m = below(mm, w) if mm is not None else const(w, mconst)
        r = below(rr, w) if rr is not None else const(w, 0)
        if lcase == 'short':
            return m, r, T.sub(r, m), const(w, 0)
        q = zx(V(min(pw, 60) - bits - 2, 'q'), w)
        return m, r, T.add(T.mulc(q, N) if N > 1 else q, T.add(r, T.sub(const(w, N if N > 1 else 0), m))), T.add(q, const(w, 1 if N > 1 else 0))
    mv, me, n, nblk = width(pw)
    me64 = width(64)[1]
    mc_, nc = (zx(width(max(mc.cw, pw))[0], mc.cw), zx(width(max(mc.cw, pw))[2], mc.cw)) if lcase == 'long' else (zx(width(64)[0], mc.cw), zx(width(64)[2], mc.cw))
    P = lambda x: const(pw, x)
    be = T.add(b0, nblk)
    oid = u.this = ex.alloc(st, 'this', rep.size, align=rep.align)
    st.mem[oid].fields = [(o, s) for _, o, s, _ in rep.fields]
    for i in range(k):
        rep.put_word(ex, st, oid, i, FS(i, b0))
    off0 = T.mulc(b0, N)
    stale = [V(8, 'stale%d' % j) if mc.stale else const(8, 0) for j in range(N)]
    if rep.buf:
        for j in range(N):
            c = T.ite(T.ult(P(j), mv), F.M(T.add(off0, P(j))), stale[j])
            rep.put_buf(ex, st, oid, j, c)
        rep.put_m(ex, st, oid, width(64)[0])
        rep.put_n(ex, st, oid, counter(mc, nb, mc_))
    if mm is not None:
        st.assume(T.ne(mm, const(bits, 0)) if pw2 else T.ne(mv, P(0)))
    if lcase == 'short' and bits:
        st.assume(T.ule(mv, me))
    L = T.add(off0, mv)
    p = ex.new_obj(st, 'input', n, None, lambda off: F.M(T.add(L, off)), True, 1)
    F.where = (oid, [o for o, _ in rep.words])
    pv = sym.Ptr(p, P(0))
    u.inputs.update(m=mv, n=n, nb=nb, words=[FS(i, b0) for i in range(k)])
    u.inputs['pend'] = lambda ev: [ev(F.M(T.add(off0, P(j)))) for j in range(ev(mv))]
    u.inputs['data'] = lambda ev: [ev(F.M(T.add(L, P(j)))) for j in range(min(ev(n), 3 * N + 64))]
    outs = u.run(fn, [sym.Ptr(oid, P(0)), pv, n])
    for o in outs:
        F.refold(ex, o)
        for i in range(k):
            u.prove(o, 'chaining word %d is the fold of the stream' % i, T.eq(rep.word(ex, o, oid, i), FS(i, be)))
        if rep.buf:
            if rep.m:
                u.prove(o, 'pending count == (m+n) mod N', T.eq(rep.getm(ex, o, oid), me64))
            if rep.n:
                u.prove(o, 'byte counter advanced by n', T.eq(rep.getn(ex, o, oid), T.add(counter(mc, nb, mc_), nc)))
            gs = []
            for j in range(N):
                e = F.M(T.add(T.mulc(be, N), P(j)))
                got = rep.getbuf(ex, o, oid, j)
                if mc.stale:
                    gs.append(T.implies(T.ult(P(j), me), T.eq(got, e)))
                else:
                    gs.append(T.eq(got, T.ite(T.ult(P(j), me), e, const(8, 0))))
            u.prove_all(o, 'buffer holds the unfinished block' + ('' if mc.stale else ', rest zero'), gs)
    u.cover(outs)
    return u.done()


def u_result(mc, mod, m, longcase=None, contracts=(), goals=('digest', 'post', 'erase', 'dep')):
    """result() with m pending bytes"""
    u = Unit('%s::result[m=%d%s]' % (mc.cls, m, '' if longcase is None else ',long' if longcase else ',short'), mod, list(contracts) + ce_contracts(mod))
    rep = find_layout(mc, mod)
    N, k = mc.N, mc.k
    pw = mod.ptrw
    ex = u.exec([])
    st = u.st
    oid = u.this = ex.alloc(st, 'this', rep.size, align=rep.align)
    st.mem[oid].fields = [(o, s) for _, o, s, _ in rep.fields]
    ws, pend, n, kw = put_result_state(u, mc, rep, ex, st, oid, m, longcase)
    u.inputs.update(words=ws, pend=pend, m=const(32, m), n=n)
    if rep.buf:
        u.inputs['nb'] = V(mc.cw, 'nb') if N & (N - 1) == 0 else T.var(mc.cw, 'nb.%d' % N)
    r = ex.alloc(st, 'digest', mc.outlen, align=8)
    outs = u.run('h_result', [sym.Ptr(oid, const(pw, 0)), sym.Ptr(r, const(pw, 0))])
    spec = None
    if 'digest' in goals or 'post' in goals:
        spec = mc.finish(TermAlg, ws, pend, n, **kw)
    names = set(x.a for x in ws + pend) | {'nb', 'nb.%d' % N}
    for o in outs:
        dig = [u.byte(o, r, i) for i in range(mc.outlen)] if mc.arr else [need(ex.readloc(o, r, 0, mc.outlen), mc.w)]
        post = [rep.word(ex, o, oid, i) for i in range(k)]
        if 'digest' in goals:
            if mc.arr:
                u.prove_eqs(o, 'digest', dig, spec[0])
            else:
                u.prove_eqs(o, 'hash value', dig, [TermAlg(mc.w).le(spec[0])])
        if 'dep' in goals:
            dep = sorted(set(t.a for t in T.topo(dig + post) if t.k == 'var' and t.a not in names))
            u.add('postcondition: value and new state are a function of chaining words, pending bytes and byte count', not dep, 'canonical', 'depends on %s' % dep[:3])
        if 'post' in goals:
            u.prove_eqs(o, 'chaining state after result', post, spec[1])
        if rep.buf:
            if 'erase' in goals:
                u.prove_eqs(o, 'buffer erased', [rep.getbuf(ex, o, oid, j) for j in range(N)], [const(8, 0)] * N, kind='erase')
            if 'post' in goals or 'dep' in goals or 'erase' in goals:
                if rep.m:
                    u.prove(o, 'no pending bytes', T.eq(rep.getm(ex, o, oid), const(64, 0)))
            if rep.n:
                if 'post' in goals:
                    u.prove(o, 'byte counter after result', T.eq(rep.getn(ex, o, oid), spec[2]))
                else:
                    u.prove(o, 'byte counter after result is a multiple of the block size', T.eq(T.and_(rep.getn(ex, o, oid), const(mc.cw, N - 1)) if N & (N - 1) == 0 else T.urem(rep.getn(ex, o, oid), const(mc.cw, N)), const(mc.cw, 0)))
    u.cover(outs)
    return u.done()


def put_result_state(u, mc, rep, ex, st, oid, m, longcase):
    """an arbitrary well-formed object with m pending bytes"""
    N, k = mc.N, mc.k
    ws = [V(mc.w, 's%d' % i) for i in range(k)]
    for i in range(k):
        rep.put_word(ex, st, oid, i, ws[i])
    pend = [V(8, 'p%d' % j) for j in range(m)]
    nb = V(mc.cw, 'nb') if N & (N - 1) == 0 else T.bvar(mc.cw, 'nb.%d' % N, (1 << (mc.cw - 3)) // N - 1)
    n = counter(mc, nb, const(mc.cw, m))
    if rep.buf:
        for j in range(N):
            rep.put_buf(ex, st, oid, j, pend[j] if j < m else V(8, 'stale%d' % j) if mc.stale else const(8, 0))
        rep.put_m(ex, st, oid, const(64, m))
        rep.put_n(ex, st, oid, n)
        if mc.kind != 'sip':
            st.assume(T.ult(nb, const(mc.cw, (1 << (mc.cw - 3)) // N)))
    kw = {}
    if longcase is not None:
        kw['long'] = longcase
        z = const(mc.cw, 0)
        if longcase:
            st.assume(T.ne(nb, z))
        else:
            n = counter(mc, z, const(mc.cw, m))
            rep.put_n(ex, st, oid, n)
    return ws, pend, n, kw


def check_obj(u, o, mc, rep, oid, words, pend=(), n=None):
    ex = u.ex
    u.prove_eqs(o, 'chaining words', [rep.word(ex, o, oid, i) for i in range(mc.k)], words)
    if rep.buf:
        if mc.stale and pend is not None:
            u.prove_eqs(o, 'pending bytes', [rep.getbuf(ex, o, oid, j) for j in range(len(pend))], list(pend))
        else:
            u.prove_eqs(o, 'buffer', [rep.getbuf(ex, o, oid, j) for j in range(mc.N)], list(pend) + [const(8, 0)] * (mc.N - len(pend)))
        if rep.m:
            u.prove(o, 'pending count', T.eq(rep.getm(ex, o, oid), const(64, len(pend))))
        if rep.n:
            u.prove(o, 'byte counter', T.eq(rep.getn(ex, o, oid), n if isinstance(n, T.T) else const(mc.cw, n)))


def tw(mc, ws):
    return [const(mc.w, x) for x in ws]


def u_default(mc, mod, contracts=()):
    u = Unit('%s::ctor()' % mc.cls, mod, list(contracts) + ce_contracts(mod))
    rep = find_layout(mc, mod)
    ex = u.exec([])
    oid = ex.alloc(u.st, 'this', rep.size, align=rep.align)
    outs = u.run('h_default', [sym.Ptr(oid, const(mod.ptrw, 0))])
    for o in outs:
        check_obj(u, o, mc, rep, oid, tw(mc, mc.iv), [], 0)
    u.cover(outs)
    return u.done()


def seed_spec(mc, s, zero):
    """words, n after construction from a seed term (zero: seed == 0)"""
    A = TermAlg(mc.w)
    iv = tw(mc, mc.iv)
    if zero:
        return iv, 0
    by = [T.extract(s, 8 * i, 8) for i in range(8)]
    if mc.kind == 'md':
        _, w, n = mc.finish(TermAlg, iv, by, const(64, 8))
        return w, n
    if mc.name == 'siphash_64':
        return [T.xor(iv[0], s), iv[1], T.xor(iv[2], s), iv[3]], 0
    if mc.name == 'siphash_32':
        a, b = T.trunc(s, 32), T.extract(s, 32, 32)
        return [T.xor(iv[0], a), T.xor(iv[1], b), T.xor(iv[2], a), T.xor(iv[3], b)], 0
    if mc.kind == 'fnv':
        w = iv
        for b in by:
            w = mc.step(A, w, [b])
        return w, 0
    if mc.name == 'murmur3_32':
        return [T.ite(T.eq(T.extract(s, 32, 32), const(32, 0)), T.trunc(s, 32), mc.step(A, [T.trunc(s, 32)], [T.extract(s, 32 + 8 * i, 8) for i in range(4)])[0])], 0
    if mc.name == 'murmur3_128':
        return [s, s], 0
    if mc.kind == 'spk':
        a = [s, const(64, 0), const(64, alg.SPK_C)]
        return a * 4, 0
    P = alg.X32 if mc.w == 32 else alg.X64
    a = T.trunc(s, 32) if mc.w == 32 else s
    w = [A.add(a, A.c(P[0]), A.c(P[1])), A.add(a, A.c(P[1])), a, A.sub(a, A.c(P[0]))]
    if mc.w == 32:
        hi = T.extract(s, 32, 32)
        w = [T.ite(T.eq(hi, const(32, 0)), x, alg.xxh32_round(A, x, hi)) for x in w]
    return w, 0


def u_seed(mc, mod, contracts=(), only=None, lt32=False):
    u = Unit('%s::ctor(seed)' % mc.cls, mod, list(contracts) + ce_contracts(mod))
    rep = find_layout(mc, mod)
    for zero in ((True, False) if only is None else (only == 'zero',)):
        ex = u.exec([])
        oid = ex.alloc(u.st, 'this', rep.size, align=rep.align)
        s = const(64, 0) if zero else T.zext(V(32, 'seed'), 64) if lt32 else V(64, 'seed')
        if not zero:
            u.st.assume(T.ne(s, const(64, 0)))
        u.inputs['seed'] = s
        outs = u.run('h_seed', [sym.Ptr(oid, const(mod.ptrw, 0)), s])
        w, n = seed_spec(mc, s, zero)
        for o in outs:
            check_obj(u, o, mc, rep, oid, w, [], n)
        u.cover(outs)
    return u.done()


def u_seed2(mc, mod, contracts=()):
    u = Unit('%s::ctor(seed1, seed2)' % mc.cls, mod, list(contracts) + ce_contracts(mod))
    rep = find_layout(mc, mod)
    ex = u.exec([])
    oid = ex.alloc(u.st, 'this', rep.size, align=rep.align)
    a, b = V(64, 'seed'), V(64, 'seed2')
    u.inputs['seed'], u.inputs['seed2'] = a, b
    outs = u.run('h_seed2', [sym.Ptr(oid, const(mod.ptrw, 0)), a, b])
    w = [a, b, const(64, alg.SPK_C)] * 4 if mc.kind == 'spk' else [a, b]
    for o in outs:
        check_obj(u, o, mc, rep, oid, w, [], 0)
    u.cover(outs)
    return u.done()


# ------------------------------------------------------------ history-contract units
import hist


def put_state(u, rep, mc, oid, tag=''):
    """arbitrary well-formed object content; -> list of all byte terms"""
    ex, st = u.ex, u.st
    ws = [V(mc.w, 'w%s%d' % (tag, i)) for i in range(mc.k)]
    for i in range(mc.k):
        rep.put_word(ex, st, oid, i, ws[i])
    if rep.buf:
        for j in range(mc.N):
            rep.put_buf(ex, st, oid, j, V(8, 'b%s%d' % (tag, j)))
        if rep.m:
            rep.put_m(ex, st, oid, V(64, 'm%s' % tag))
        if rep.n:
            rep.put_n(ex, st, oid, V(64, 'n%s' % tag))


def u_copy(mc, mod, fn):
    """copy construction / assignment: every member equal, source unchanged"""
    u = Unit('%s::%s' % (mc.cls, {'h_copy': 'copy constructor', 'h_assign': 'copy assignment'}[fn]), mod)
    rep = find_layout(mc, mod)
    ex = u.exec([])
    a = ex.alloc(u.st, 'source', rep.size, align=rep.align)
    b = ex.alloc(u.st, 'target', rep.size, align=rep.align)
    put_state(u, rep, mc, a)
    if fn == 'h_assign':
        put_state(u, rep, mc, b, 'old')
    before = list(u.st.mem[a].cells)
    z = const(mod.ptrw, 0)
    outs = u.run(fn, [sym.Ptr(b, z), sym.Ptr(a, z)])
    for o in outs:
        idx = [i for i, c in enumerate(before) if c is not None]
        u.prove_eqs(o, 'copy equals the original', [need(ex.readloc(o, b, i, 1), 8) for i in idx], [ex.byte(before[i]) for i in idx])
        u.add('postcondition: original unchanged', o.mem[a].cells == before, 'canonical', 'changed')
    u.cover(outs)
    return u.done()


def default_recogniser(mc, rep):
    def f(ex, st, oid, off):
        seeded = []
        for i in range(mc.k):
            v = ex.readloc(st, oid, off + rep.words[i][0], rep.words[i][1])
            if v is None or (v is not const(mc.w, mc.iv[i]) and not mc.legacy):
                return None
            seeded.append(v)
        if rep.buf:
            for j in range(mc.N):
                v = ex.readloc(st, oid, off + rep.buf[0] + j, 1)
                if v is not const(8, 0) and not mc.stale:
                    return None
            for q in (rep.m, rep.n):
                if q:
                    v = ex.readloc(st, oid, off + q[0], q[1])
                    if v is None or v.k != 'const' or v.a != 0:
                        return None
        if mc.legacy and any(v is not const(mc.w, c) for v, c in zip(seeded, mc.iv)):
            return (('seeded',) + tuple(seeded),)
        return ()
    return f


def special_key(mc):
    return {'siphash_64': 16, 'siphash_32': 8}.get(mc.name)


# the legacy algorithms take up to this many leading bytes of a byte sequence as their seed
SEEDLEN = {'murmur3_32': 4, 'murmur3_128': 16, 'spooky2_128': 16}


def legacy_words(mc, key):
    le = lambda b, n: T.concat_bytes(list(b) + [const(8, 0)] * (n - len(b)))
    if mc.name == 'murmur3_32':
        return [le(key, 4)]
    a, b = le(key[:8], 8), le(key[8:], 8)
    if mc.kind == 'spk':
        return [a, b, const(64, alg.SPK_C)] * 4
    return [a, a] if len(key) <= 8 else [a, b]


def u_key(mc, mod, fn='h_key', special=True):
    """byte-sequence constructor == default construction, update(p,n), result() (n != 0)"""
    u = Unit('%s::ctor(p,n)' % mc.cls, mod)
    rep = find_layout(mc, mod)
    H = hist.Hist(mc.cls, rep.size, mc.outlen, default_recogniser(mc, rep))
    H_c = [c for c in H.contracts() if c[1] != H.h_default]
    pw = mod.ptrw
    sl = SEEDLEN.get(mc.name)
    for case in ('null', 'general') + (('special',) if special and special_key(mc) else ()) + (tuple(range(1, sl + 1)) if sl else ()):
        ex = u.exec([], H_c)
        st = u.st
        st.ghost['nomerge'] = True
        oid = ex.alloc(st, 'this', rep.size, align=rep.align)
        n = V(pw, 'n')
        sk = special_key(mc)
        if case == 'null':
            n = const(pw, 0)
            p = ex.null()
        else:
            if case == 'special':
                n = const(pw, sk)
            elif sl and case != 'general':
                n = const(pw, case)
            elif sl:
                st.assume(T.ult(const(pw, sl), n))
            elif sk:
                st.assume(T.ne(n, const(pw, sk)))
            st.assume(T.ule(n, const(pw, (1 << (pw - 1)) - 1)))
            M = lambda off: T.uf('M', 8, T.zext(off, 64) if off.w < 64 else off)
            p = sym.Ptr(ex.new_obj(st, 'key', n, None, M, True, 1), const(pw, 0))
            u.inputs['n'] = n
            u.inputs['key'] = lambda ev, n=n, M=M: [ev(M(const(64, j))) for j in range(min(ev(n), 300))]
        outs = u.run(fn, [sym.Ptr(oid, const(pw, 0)), p, n])
        for o in outs:
            if case == 'special':
                key = [M(const(pw, j)) for j in range(sk)]
                A = TermAlg(mc.w)
                iv = tw(mc, mc.iv)
                if mc.name == 'siphash_64':
                    a, b = T.concat_bytes(key[:8]), T.concat_bytes(key[8:])
                    w = [T.xor(x, y) for x, y in zip(iv, (a, b, a, b))]
                else:
                    w, _ = seed_spec(mc, T.concat_bytes(key), False)
                check_obj(u, o, mc, rep, oid, w, [], 0)
                continue
            if sl and case not in ('null', 'general'):
                check_obj(u, o, mc, rep, oid, legacy_words(mc, [M(const(64, j)) for j in range(case)]), [], 0)
                continue
            h = H.get(ex, o, oid, 0)
            if sl and case == 'general':
                key = [M(const(64, j)) for j in range(sl)]
                if h is not None and h and h[0][0] == 'seeded':
                    u.prove_eqs(o, 'the leading bytes are the seed', list(h[0][1:]), legacy_words(mc, key))
                    H.match(u, o, 'the remaining bytes are absorbed and a result discarded', h[1:], (('r', 'key', const(pw, sl), T.sub(n, const(pw, sl))), ('res',)))
                else:
                    u.add('postcondition: seeded with the leading bytes', False, 'shape', str(h))
                continue
            if h == ():
                check_obj(u, o, mc, rep, oid, tw(mc, mc.iv), [], 0)
                u.prove(o, 'an object equal to the default is left only for an empty sequence', T.eq(n, const(pw, 0)))
                continue
            want = (('r', 'key', const(pw, 0), n),) + ((('res',),) if mc.kind != 'fnv' else ())
            if H.match(u, o, 'equals default construction, update(p,n)' + (', result()' if mc.kind != 'fnv' else ''), h, want) and mc.kind != 'fnv':
                u.prove(o, 'result() is applied to a nonempty sequence only', T.ne(n, const(pw, 0)))
        u.cover(outs)
    r = u.done()
    return r


def u_seedh(mc, mod):
    """integer seed constructor, by history: nothing for 0, otherwise the 8 little-endian seed
    bytes, then (block algorithms) a discarded result"""
    u = Unit('%s::ctor(seed) by history' % mc.cls, mod)
    rep = find_layout(mc, mod)
    H = hist.Hist(mc.cls, rep.size, mc.outlen, default_recogniser(mc, rep))
    H_c = [c for c in H.contracts() if c[1] != H.h_default]
    for zero in (True, False):
        ex = u.exec([], H_c + ce_contracts(mod))
        st = u.st
        st.ghost['nomerge'] = True
        oid = ex.alloc(st, 'this', rep.size, align=rep.align)
        s = const(64, 0) if zero else V(64, 'seed')
        if not zero:
            st.assume(T.ne(s, const(64, 0)))
        u.inputs['seed'] = s
        outs = u.run('h_seed', [sym.Ptr(oid, const(mod.ptrw, 0)), s])
        for o in outs:
            h = H.get(ex, o, oid, 0)
            by = tuple(('b', T.extract(s, 8 * i, 8)) for i in range(8))
            want = () if zero else by + ((('res',),) if mc.kind != 'fnv' else ())
            H.match(u, o, 'seed %s' % ('0 equals default construction' if zero else 'equals default construction, update(8 little-endian bytes)' + (', result()' if mc.kind != 'fnv' else '')), h, want)
        u.cover(outs)
    return u.done()


# ------------------------------------------------------------ HMAC
class HM:
    """hmac<H> harness: H through its contracts"""
    def __init__(self, mc, cfg):
        self.mc = mc
        self.cls = 'hmac_' + mc.cls
        self.mod = build.hasher(type('X', (), dict(hdr=mc.hdr, cls=self.cls)), cfg)
        base = build.hasher(mc, cfg)
        self.rep = find_layout(mc, base)
        self.size = self.rep.size
        self.H = hist.Hist(mc.cls, self.size, mc.outlen)
        self.pw = self.mod.ptrw


def hm_key(u, hm, kind, ex, st):
    """-> (ctor name, args after this, padded key bytes)"""
    mc, pw = hm.mc, hm.pw
    N = mc.N
    z = const(pw, 0)
    zero = [const(8, 0)] * N
    if kind == 'default':
        return 'h_default', [], zero
    if kind == 'seed0':
        return 'h_seed', [const(64, 0)], zero
    if kind == 'seed':
        s = V(64, 'seed')
        st.assume(T.ne(s, const(64, 0)))
        u.inputs['seed'] = s
        return 'h_seed', [s], [T.extract(s, 8 * i, 8) for i in range(8)] + zero[8:]
    if kind == 'null':
        return 'h_key', [ex.null(), z], zero
    n = V(pw, 'n')
    M = lambda off: T.uf('K', 8, T.zext(off, 64) if off.w < 64 else off)
    p = sym.Ptr(ex.new_obj(st, 'key', n, None, M, True, 1), z)
    u.inputs['n'] = n
    u.inputs['key'] = lambda ev: [ev(M(const(64, j))) for j in range(min(ev(n), 400))]
    if kind == 'short':
        st.assume(T.ule(n, const(pw, N)))
        return 'h_key', [p, n], [T.ite(T.ult(const(pw, j), n), M(const(pw, j)), const(8, 0)) for j in range(N)]
    st.assume(T.ult(const(pw, N), n))
    st.assume(T.ule(n, const(pw, (1 << (pw - 1)) - 1)))
    d = hm.H.digest((('r', 'key', z, n),))
    return 'h_key', [p, n], (d + zero)[:N]


def hm_parts(u, hm, o, oid):
    """(inner, outer) histories; the inner object is the one that starts with the 0x36 pad"""
    return [hm.H.get(u.ex, o, oid, off) for off in (0, hm.size)]


def u_hmac_ctor(hm, kind):
    mc = hm.mc
    u = Unit('hmac<%s>::ctor[%s]' % (mc.cls, kind), hm.mod)
    ex = u.exec([], hm.H.contracts() + ce_contracts(hm.mod))
    st = u.st
    st.ghost['nomerge'] = True
    oid = ex.alloc(st, 'this', 2 * hm.size, align=8)
    fn, args, key = hm_key(u, hm, kind, ex, st)
    outs = u.run(fn, [sym.Ptr(oid, const(hm.pw, 0))] + args)
    want = [tuple(('b', T.xor(k, const(8, pad))) for k in key) for pad in (0x36, 0x5C)]
    inner = hm_roles(hm)
    for o in outs:
        hs = hm_parts(u, hm, o, oid)
        hm.H.match(u, o, 'inner object absorbed K xor ipad', hs[inner], want[0])
        hm.H.match(u, o, 'outer object absorbed K xor opad', hs[1 - inner], want[1])
    u.cover(outs)
    return u.done()


def hm_roles(hm):
    """index (0/1) of the inner subobject, from what the default constructor does"""
    if hasattr(hm, 'inner'):
        return hm.inner
    u = Unit('roles', hm.mod)
    ex = u.exec([], hm.H.contracts() + ce_contracts(hm.mod))
    oid = ex.alloc(u.st, 'this', 2 * hm.size, align=8)
    outs = u.run('h_default', [sym.Ptr(oid, const(hm.pw, 0))])
    hm.inner = 1
    for o in outs:
        for i, h in enumerate(hm_parts(u, hm, o, oid)):
            if h and h[0] == ('b', const(8, 0x36)):
                hm.inner = i
    return hm.inner


def u_hmac_op(hm, op):
    """update forwards to the inner object; result is outer(inner digest)"""
    mc, H, pw = hm.mc, hm.H, hm.pw
    u = Unit('hmac<%s>::%s' % (mc.cls, op), hm.mod)
    inner = hm_roles(hm)
    ex = u.exec([], H.contracts() + ce_contracts(hm.mod))
    st = u.st
    oid = ex.alloc(st, 'this', 2 * hm.size, align=8)
    z = const(pw, 0)
    hi, ho = (('r', 'inner-history', z, V(pw, 'ni')),), (('r', 'outer-history', z, V(pw, 'no')),)
    H.put(ex, st, oid, inner * hm.size, hi)
    H.put(ex, st, oid, (1 - inner) * hm.size, ho)
    if op == 'result':
        r = ex.alloc(st, 'digest', mc.outlen, align=8)
        outs = u.run('h_result', [sym.Ptr(oid, z), sym.Ptr(r, z)])
        d = [('b', x) for x in H.digest(hi)]
        for o in outs:
            hs = hm_parts(u, hm, o, oid)
            u.prove_eqs(o, 'result == outer(inner result)', [u.byte(o, r, i) for i in range(mc.outlen)], H.digest(ho + tuple(d)))
            H.match(u, o, 'inner object finalised', hs[inner], hi + (('res',),))
            H.match(u, o, 'outer object finalised', hs[1 - inner], ho + tuple(d) + (('res',),))
    elif op.startswith('update'):
        n = V(pw, 'n')
        st.assume(T.ule(n, const(pw, (1 << (pw - 1)) - 1)))
        M = lambda off: T.uf('M', 8, T.zext(off, 64) if off.w < 64 else off)
        nul = op.endswith('null')
        if nul:
            n = z
        p = ex.null() if nul else sym.Ptr(ex.new_obj(st, 'input', n, None, M, True, 1), z)
        u.inputs['n'] = n
        outs = u.run('h_updatec' if 'uchar' in op else 'h_update', [sym.Ptr(oid, z), p, n])
        for o in outs:
            hs = hm_parts(u, hm, o, oid)
            H.match(u, o, 'inner object absorbs exactly p[0..n)', hs[inner], hi + ((('r', 'input', z, n),) if not nul else ()))
            H.match(u, o, 'outer object unchanged', hs[1 - inner], ho)
    else:
        b = ex.alloc(st, 'target', 2 * hm.size, align=8)
        if op == 'assign':
            H.put(ex, st, b, 0, (('r', 'x', z, V(pw, 'nx')),))
            H.put(ex, st, b, hm.size, (('r', 'y', z, V(pw, 'ny')),))
        outs = u.run('h_' + op, [sym.Ptr(b, z), sym.Ptr(oid, z)])
        for o in outs:
            for nm, q in (('copy', b), ('original', oid)):
                hs = hm_parts(u, hm, o, q)
                H.match(u, o, nm + ': inner', hs[inner], hi)
                H.match(u, o, nm + ': outer', hs[1 - inner], ho)
    u.cover(outs)
    return u.done()


# ------------------------------------------------------------ constant-evaluation helpers
CE_MAX = 128


def ce_contracts(mod):
    """contracts of detail::memcpy / memset on the constant-evaluation path (proved by
    u_ce_mem), used where the length is symbolic"""
    if not getattr(mod, 'ce', False):
        return []

    def lenok(ex, st, n, line):
        if n.k == 'const':
            return NotImplemented
        ex.oblige(st, 'precondition: block length <= %d' % CE_MAX, T.ule(n, const(n.w, CE_MAX)), line)

    def cpy(ex, st, fr, fn, args, dest, line):
        if lenok(ex, st, args[2], line) is NotImplemented:
            return NotImplemented
        ex.memcpy(st, args[0], args[1], args[2], line)

    def mset(ex, st, fr, fn, args, dest, line):
        if lenok(ex, st, args[2], line) is NotImplemented:
            return NotImplemented
        ex.memset(st, args[0], args[1], args[2], line)
    return [(lambda f: (f.dem or '').startswith('boost::hash2::detail::memcpy('), cpy),
            (lambda f: (f.dem or '').startswith('boost::hash2::detail::memset('), mset)]


CE_SRC = r"""
#include <boost/hash2/detail/memcpy.hpp>
#include <boost/hash2/detail/memset.hpp>
#include <boost/hash2/detail/memcmp.hpp>
using namespace boost::hash2;
extern "C" {
void h_memcpy(unsigned char* d, unsigned char const* s, std::size_t n){ detail::memcpy(d, s, n); }
void h_memset(unsigned char* d, unsigned char c, std::size_t n){ detail::memset(d, c, n); }
int h_memcmp(unsigned char const* a, unsigned char const* b, std::size_t n){ return detail::memcmp(a, b, n); }
}
"""


def ce_mod(cfg):
    c = build.CFGS[cfg]
    k = ('mem', cfg)
    if k not in build._mods:
        build._mods[k] = build.compile_ir(CE_SRC, c.get('std', 'c++17'), c.get('defs', ()), c.get('target'))
    return build._mods[k]


def u_ce_mem(cfg, what):
    """detail::memcpy / memset / memcmp, symbolic length n <= 128, against the contracts of the C functions"""
    mod = ce_mod(cfg)
    u = Unit('detail::%s[%s]' % (what, cfg), mod)
    pw = mod.ptrw
    z = const(pw, 0)
    L = CE_MAX
    ex = u.exec([])
    st = u.st
    if what == 'memcmp':
        # the two operands of digest comparison: every length used by a digest
        for n in (4, 8, 16, 20, 28, 32, 48, 64):
            ex = u.exec([])
            a = [V(8, 'a%d' % i) for i in range(n)]
            b = [V(8, 'b%d' % i) for i in range(n)]
            u.inputs.update(a=a, b=b)
            u.st.ghost['nomerge'] = True
            oa = ex.alloc(u.st, 'a', n, [(x, 0) for x in a], ro=True)
            ob = ex.alloc(u.st, 'b', n, [(x, 0) for x in b], ro=True)
            outs = u.run('h_memcmp', [sym.Ptr(oa, z), sym.Ptr(ob, z), const(pw, n)])
            for o in outs:
                u.prove(o, 'memcmp is zero exactly for equal blocks', T.eq(T.eq(o.ret, const(32, 0)), T.conj([T.eq(x, y) for x, y in zip(a, b)])))
            u.cover(outs)
        return u.done()
    n = V(pw, 'n')
    st.assume(T.ule(n, const(pw, L)))
    u.inputs['n'] = n
    old = [V(8, 'o%d' % i) for i in range(L)]
    d = ex.alloc(st, 'target', L, [(x, 0) for x in old])
    S = lambda off: T.uf('S', 8, T.zext(off, 64) if off.w < 64 else off)
    if what == 'memcpy':
        s = ex.new_obj(st, 'source', n, None, S, True, 1)
        outs = u.run('h_memcpy', [sym.Ptr(d, z), sym.Ptr(s, z), n])
        val = lambda j: S(const(64, j))
    else:
        c = V(8, 'c')
        outs = u.run('h_memset', [sym.Ptr(d, z), c, n])
        val = lambda j: c
    for o in outs:
        u.prove_all(o, what + ' sets exactly the first n bytes', [T.eq(u.byte(o, d, j), T.ite(T.ult(const(pw, j), n), val(j), old[j])) for j in range(L)])
    u.cover(outs)
    return u.done()
