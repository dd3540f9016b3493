"""Equality of large term DAGs: random simulation proposes internal
equivalences, each is proved by SMT over a cut and then merged."""
import random, time
import term as T
import smt

stats = {'queries': 0, 'merged': 0}


def _env(terms, rng):
    def uf(name, w, *args):
        return _hash(seed, name, w, args)
    seed = rng.getrandbits(64)
    return seed


def _hash(seed, name, w, args):
    import hashlib
    h = hashlib.blake2b(repr((seed, name, w, args)).encode(), digest_size=16).digest()
    return int.from_bytes(h, 'little') & ((1 << w) - 1)


def sim(order, seeds):
    vals = []
    for sd in seeds:
        c = {}
        ufs = {'__uf__': (lambda name, w, *a, sd=sd: _hash(sd, name, w, a)), '__var__': (lambda w, name, sd=sd: _hash(sd, name, w, ()))}

        class E(dict):
            def __contains__(self, k):
                return False
        e = E()
        for t in order:
            c[t] = T._eval1(t, c, e, ufs)
        vals.append(c)
    return vals


def equal(xs, ys, pc=(), budget=60.0, seed=1):
    if all(x is y for x, y in zip(xs, ys)):
        return True
    t0 = time.time()
    rng = random.Random(seed)
    pcroots = list(pc)
    order = T.topo(list(xs) + list(ys))
    seeds = [rng.getrandbits(64) for _ in range(3)]
    vals = sim(order, seeds)
    # quick refutation (only meaningful when no path condition constrains the inputs)
    for x, y in zip(xs, ys):
        if any(v[x] != v[y] for v in vals) and not pcroots:
            return False
    rep = {}
    classes = {}

    def get(t):
        return rep.get(t, t)
    for t in order:
        n = T.rebuild(t, get)
        if n not in rep:
            rep[n] = n
        if t.k in ('const', 'var'):
            rep[t] = n
            classes.setdefault((t.w,) + tuple(v[t] for v in vals), []).append(n)
            continue
        sig = (t.w,) + tuple(v[t] for v in vals)
        cl = classes.setdefault(sig, [])
        found = None
        if n in cl:
            found = n
        elif t.w > 1:
            for c in cl[:3]:
                if time.time() - t0 > budget:
                    return False
                if cut_equal(n, c, pcroots):
                    found = c
                    stats['merged'] += 1
                    break
        if found is None:
            cl.append(n)
            found = n
        rep[t] = found
    if all(get(x) is get(y) for x, y in zip(xs, ys)):
        return True
    # last resort: direct queries
    for x, y in zip(xs, ys):
        if get(x) is get(y):
            continue
        if time.time() - t0 > budget:
            return False
        if not smt.prove(list(pc), T.eq(get(x), get(y)), timeout=20000, want_model=False).ok:
            return False
    return True


def cut_equal(a, b, pc):
    """prove a == b with increasing cut depth"""
    if (a.k == 'sum' or b.k == 'sum') and T.split_lin(a) == T.split_lin(b):
        return True
    for depth in (2, 4):
        m = {}
        _cut(a, depth, m)
        _cut(b, depth, m)
        x, y = T.subst([a, b], {t: T.var(t.w, 'cut!%d' % t.id) for t in m})
        stats['queries'] += 1
        e = T.eq(x, y)
        if e.k == 'const' and e.a:
            return True
        r, _ = smt.check_sat([T.not_(e)], 3000)
        if r == 'unsat':
            return True
    if pc:
        r, _ = smt.check_sat(list(pc) + [T.not_(T.eq(a, b))], 3000)
        return r == 'unsat'
    return False


def _cut(t, d, m):
    """collect terms at depth d below t (as cut points)"""
    st = [(t, d)]
    best = {}
    while st:
        x, k = st.pop()
        if best.get(x, -1) >= k:
            continue
        best[x] = k
        for c in T.children(x):
            st.append((c, k - 1 if x.k not in ('anf', 'opq') else k)) if k > 0 else None
    for x, k in best.items():
        if k == 0 and x.k not in ('const', 'var'):
            m[x] = True
