"""Discharging proof obligations: canonical form first, then SMT (z3, and cvc5
as an independent second back end)."""
import time, os, subprocess, tempfile
import z3
import term as T


class Stats:
    def __init__(self):
        self.q = 0
        self.syn = 0
        self.smt = 0
        self.time = 0.0
        self.cvc5 = 0
        self.cvc5_time = 0.0
        self.unknown = 0
        self.slow = 0.0


stats = Stats()
_cache = {}
_ufd = {}


def _fpsort(w):
    return z3.Float32() if w == 32 else z3.Float64()


def _conv(t):
    k = t.k
    w = t.w
    c = _cache
    if k == 'const':
        return z3.BitVecVal(t.a, w)
    if k == 'var' and t in T.UB:
        # a bounded variable: the values above the bound stand for zero (a total reading, so no
        # side condition is needed)
        ub = T.UB[t]
        b = ub.bit_length()
        v = z3.BitVec(t.a, b)
        v = z3.If(z3.ULE(v, z3.BitVecVal(ub, b)), v, z3.BitVecVal(0, b))
        return z3.ZeroExt(w - b, v) if b < w else v
    if k == 'var':
        return z3.BitVec(t.a, w)
    if k == 'anf':
        r = None
        for ls, m in t.d.items():
            p = None
            if not ls:
                p = z3.BitVecVal(m, w)
            else:
                ls = sorted(ls, key=lambda q: (q[0].id, q[1]))
                # common contiguous field extraction when a single mask run
                lo = (m & -m).bit_length() - 1
                hi = m.bit_length() - 1
                if m == ((1 << (hi + 1)) - (1 << lo)):
                    for a, s in ls:
                        e = c[a]
                        l, h = lo - s, hi - s
                        if not (l == 0 and h == a.w - 1):
                            e = z3.Extract(h, l, e)
                        p = e if p is None else p & e
                    parts = []
                    if hi < w - 1:
                        parts.append(z3.BitVecVal(0, w - 1 - hi))
                    parts.append(p)
                    if lo > 0:
                        parts.append(z3.BitVecVal(0, lo))
                    p = z3.Concat(*parts) if len(parts) > 1 else p
                else:
                    for a, s in ls:
                        e = c[a]
                        W = a.w
                        if s > 0:
                            if W < w:
                                e = z3.ZeroExt(w - W, e)
                                W = w
                            e = e << s
                        elif s < 0:
                            e = z3.LShR(e, -s)
                        if W < w:
                            e = z3.ZeroExt(w - W, e)
                        elif W > w:
                            e = z3.Extract(w - 1, 0, e)
                        p = e if p is None else p & e
                    p = p & z3.BitVecVal(m, w)
            r = p if r is None else r ^ p
        return r
    if k == 'sum':
        r = None
        for a, q in t.a[1]:
            e = c[a]
            h = 1 << (w - 1)
            if q == 1:
                p = e
            elif q == (1 << w) - 1:
                p = -e
            elif q & (q - 1) == 0:
                p = e << (q.bit_length() - 1)
            else:
                p = e * z3.BitVecVal(q, w)
            r = p if r is None else r + p
        if t.a[0]:
            r = r + z3.BitVecVal(t.a[0], w)
        return r
    if k == 'uf':
        args = t.a[1:]
        key = (t.a[0], tuple(a.w for a in args), w)
        f = _ufd.get(key)
        if f is None:
            if not args:
                f = z3.BitVec('uf0_' + t.a[0], w)
            else:
                f = z3.Function('uf_%s_%s' % (t.a[0], '_'.join(str(a.w) for a in args)), *([z3.BitVecSort(a.w) for a in args] + [z3.BitVecSort(w)]))
            _ufd[key] = f
        return f(*[c[a] for a in args]) if args else f
    if k == 'fop':
        (name, fw) = t.a[0]
        a = [z3.fpBVToFP(c[x], _fpsort(fw)) for x in t.a[1:]]
        rm = z3.RNE()
        if name in ('fadd', 'fsub', 'fmul'):
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul}[name](rm, a[0], a[1])
            return z3.fpToIEEEBV(r)
        if name in ('oeq', 'une', 'olt'):
            b = {'oeq': lambda: z3.fpEQ(a[0], a[1]), 'une': lambda: z3.Not(z3.fpEQ(a[0], a[1])), 'olt': lambda: z3.fpLT(a[0], a[1])}[name]()
            return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if name == 'fpext':
            return z3.fpToIEEEBV(z3.fpFPToFP(rm, a[0], z3.Float64()))
        if name == 'fptrunc':
            return z3.fpToIEEEBV(z3.fpFPToFP(rm, a[0], z3.Float32()))
        raise Exception(name)
    a = [c[x] for x in t.a]
    one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
    if k == 'opq':
        return a[0]
    if k == 'conj':
        return z3.If(z3.And(*[cbool(x) for x in t.a]), one, zero)
    if k == 'mul':
        return a[0] * a[1]
    if k == 'udiv':
        return z3.UDiv(a[0], a[1])
    if k == 'urem':
        return z3.URem(a[0], a[1])
    if k == 'sdiv':
        return a[0] / a[1]
    if k == 'srem':
        return z3.SRem(a[0], a[1])
    if k == 'shl':
        return a[0] << a[1]
    if k == 'lshr':
        return z3.LShR(a[0], a[1])
    if k == 'ashr':
        return a[0] >> a[1]
    if k == 'ite':
        return z3.If(a[0] == 1, a[1], a[2])
    if k == 'eq0':
        return z3.If(a[0] == 0, one, zero)
    if k == 'ult':
        return z3.If(z3.ULT(a[0], a[1]), one, zero)
    if k == 'slt':
        return z3.If(a[0] < a[1], one, zero)
    raise Exception('smt ' + k)


def conv(t):
    if t in _cache:
        return _cache[t]
    for x in T.topo([t]):
        if x not in _cache:
            _cache[x] = _conv(x)
    return _cache[t]


def cbool(t):
    """width-1 term -> z3 Bool, with friendlier shapes"""
    if t.k == 'const':
        return z3.BoolVal(bool(t.a))
    if t.k == 'anf':
        d = t.d
        if len(d) == 2 and d.get(T._E):
            e = dict(d)
            del e[T._E]
            return z3.Not(cbool(T.mk_anf(1, e)))
        if len(d) == 1:
            (ls, m), = d.items()
            if all(a.w == 1 for a, s in ls):
                return z3.And(*[cbool(a) for a, s in ls])
    if t.k == 'conj':
        return z3.And(*[cbool(x) for x in t.a])
    if t.k == 'eq0':
        return conv(t.a[0]) == 0
    if t.k == 'ult':
        return z3.ULT(conv(t.a[0]), conv(t.a[1]))
    if t.k == 'slt':
        return conv(t.a[0]) < conv(t.a[1])
    return conv(t) == 1


TIMEOUT = [60000]
SECOND = [False]     # also run cvc5
VERBOSE = bool(os.environ.get('DV_VERBOSE'))
deadline = [None]


def _solve(fs, timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout))
    for f in fs:
        s.add(cbool(f))
    t0 = time.time()
    r = s.check()
    dt = time.time() - t0
    stats.smt += 1
    stats.time += dt
    stats.slow = max(stats.slow, dt)
    if VERBOSE and dt > 1:
        print('   [smt %.1fs %s]' % (dt, r))
    return r, s


_qcache = {}


def check_sat(fs, timeout=None):
    """-> 'sat' | 'unsat' | 'unknown' , solver"""
    fs2 = []
    for f in fs:
        if f.k == 'const':
            if not f.a:
                return 'unsat', None
            continue
        fs2.append(f)
    if not fs2:
        return 'sat', None
    key = frozenset(fs2)
    if key in _qcache:
        return _qcache[key], None
    for f in fs2:
        if T.not_(f) in key:
            return 'unsat', None
    r, s = _solve(fs2, timeout or TIMEOUT[0])
    r = str(r)
    if r == 'unknown':
        stats.unknown += 1
    else:
        _qcache[key] = r
    return r, s


def check_cvc5(fs, timeout_s=60):
    s = z3.Solver()
    for f in fs:
        s.add(cbool(f))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write(txt)
        fn = fh.name
    t0 = time.time()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout_s * 1000), fn], capture_output=True, text=True, timeout=timeout_s + 20)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except subprocess.TimeoutExpired:
        out = 'unknown'
    finally:
        os.unlink(fn)
    stats.cvc5 += 1
    stats.cvc5_time += time.time() - t0
    return out


class Result:
    def __init__(self, ok, how, model=None, status=''):
        self.ok, self.how, self.model, self.status = ok, how, model, status


class _NotLin(Exception):
    pass


def _lia(fs, timeout=4000):
    """the same question over the integers: every comparison of linear sums is read with an
    explicit wrap-around multiple, every other subterm is an integer within its bounds.
    Hypotheses of another form are dropped, so only 'unsat' means anything"""
    I, side = {}, []

    def atom(t):
        v = I.get(t)
        if v is None:
            v = I[t] = z3.Int('i%d' % t.id)
            side.append(z3.And(v >= T.umin(t), v <= T.umax(t)))
        return v
    lins = {}

    def lin(t):
        if t in lins:
            return lins[t]
        c, l = T._lin(t)
        top = 1 << t.w
        half = top >> 1
        sg = lambda x: x - top if x >= half else x
        lo = hi = sg(c)
        e = z3.IntVal(sg(c))
        for a, m in l.items():
            if a is t and m == 1:
                lins[t] = atom(t)
                return lins[t]
            m = sg(m)
            e = e + m * atom(a)
            lo += m * (T.umax(a) if m < 0 else T.umin(a))
            hi += m * (T.umax(a) if m > 0 else T.umin(a))
        if lo < 0 or hi >= top:
            k = z3.Int('w%d' % t.id)
            side.append(z3.And(k >= -(hi // top) - 1, k <= -(lo // top) + 1))
            e = e + top * k
            side.append(z3.And(e >= 0, e < top))
        lins[t] = e
        return e

    def b(t):
        if t.k == 'const':
            return z3.BoolVal(bool(t.a))
        if t.k == 'ult':
            return lin(t.a[0]) < lin(t.a[1])
        if t.k == 'eq0':
            return lin(t.a[0]) == 0
        if t.k == 'conj':
            return z3.And(*[b(x) for x in t.a])
        if t.k == 'anf' and t.w == 1:
            d = dict(t.d)
            neg = frozenset() in d
            d.pop(frozenset(), None)
            if len(d) == 1:
                (ls, _), = d.items()
                xs = [x for x, sh in ls if sh == 0 and x.w == 1]
                if len(xs) == len(ls):
                    r = z3.And(*[b(x) for x in xs])
                    return z3.Not(r) if neg else r
        raise _NotLin()
    s = z3.Solver()
    s.set('timeout', timeout)
    t0 = time.time()
    n = len(fs)
    for i, f in enumerate(fs):
        try:
            e = b(f)
        except _NotLin:
            if i == n - 1:
                return False
            continue
        s.add(e)
    for e in side:
        s.add(e)
    r = s.check()
    stats.smt += 1
    stats.time += time.time() - t0
    return r == z3.unsat


def prove(hyps, goal, timeout=None, want_model=True):
    """hyps |= goal (1-bit terms)"""
    stats.q += 1
    if goal.k == 'const' and goal.a:
        stats.syn += 1
        return Result(True, 'canonical')
    if goal in hyps:
        stats.syn += 1
        return Result(True, 'hypothesis')
    full = timeout or TIMEOUT[0]
    if T.UB and any(t in T.UB for t in T.topo([goal] + list(hyps))) and _lia(list(hyps) + [T.not_(goal)]):
        return Result(True, 'z3 (integers)')
    r, s = check_sat(list(hyps) + [T.not_(goal)], min(full, 1500))
    if r == 'unknown':
        if _lia(list(hyps) + [T.not_(goal)]):
            return Result(True, 'z3 (integers)')
        r, s = check_sat(list(hyps) + [T.not_(goal)], full)
    if r == 'unsat':
        if SECOND[0] and s is not None:
            c = check_cvc5(list(hyps) + [T.not_(goal)])
            if c == 'sat':
                return Result(False, 'disagreement', None, 'z3 unsat, cvc5 sat')
            return Result(True, 'z3+cvc5' if c == 'unsat' else 'z3')
        return Result(True, 'z3')
    if r == 'unknown':
        c = check_cvc5(list(hyps) + [T.not_(goal)], 60)
        if c == 'unsat':
            return Result(True, 'cvc5')
        return Result(False, 'unknown', None, 'solver: unknown')
    m = None
    if want_model:
        if s is None:
            s2 = z3.Solver()
            s2.set('timeout', int(timeout or TIMEOUT[0]))
            for f in list(hyps) + [T.not_(goal)]:
                s2.add(cbool(f))
            if s2.check() == z3.sat:
                m = s2.model()
        else:
            m = s.model()
    return Result(False, 'sat', m, 'countermodel')


def model_eval(m, t):
    v = m.eval(conv(t), model_completion=True)
    return v.as_long()


def feasible(hyps, timeout=10000):
    r, _ = check_sat(hyps, timeout)
    return r != 'unsat'
