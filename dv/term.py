"""Hash-consed bit-vector terms with a canonical form.

A term of width w is kept as an XOR of monomials, each monomial being
    mask & leaf_1 & leaf_2 & ...        (leaf = (atom, shift))
where the bit i of leaf (a, s) is bit i-s of atom a (0 outside a).  Every
combination of and/or/xor/not, constant shifts, rotates, zero extension,
truncation and concatenation is canonical in this form (algebraic normal form
per bit).  Atoms are variables, uninterpreted applications, linear sums
(modulo 2^w), products, if-then-else, comparisons, divisions, ...
"""
import math
import sys
sys.setrecursionlimit(200000)

CAP_PROD = 4096     # monomials allowed in a product before operands are made opaque
CAP_XOR = 20000


class T:
    __slots__ = ('id', 'w', 'k', 'a', 'd', 'size')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_tab = {}
_all = []


def _mk(key, w, k, a, d=None):
    t = _tab.get(key)
    if t is None:
        t = T()
        t.id = len(_all)
        t.w = w
        t.k = k
        t.a = a
        t.d = d
        _tab[key] = t
        _all.append(t)
    return t


def mask(w):
    return (1 << w) - 1


def const(w, v):
    v &= (1 << w) - 1
    return _mk(('c', w, v), w, 'const', v)


def var(w, name):
    return _mk(('v', w, name), w, 'var', name)


UB = {}


def bvar(w, name, ub):
    """a variable ranging over 0..ub"""
    t = var(w, name)
    UB[t] = ub
    return t


_fresh = [0]


def fresh(w, name='x'):
    _fresh[0] += 1
    return var(w, '%s!%d' % (name, _fresh[0]))


def uf(name, w, *args):
    return _mk(('u', name, w, args), w, 'uf', (name,) + args)


TRUE = const(1, 1)
FALSE = const(1, 0)
_E = frozenset()


def is_const(t):
    return t.k == 'const'


def anf(t):
    k = t.k
    if k == 'anf':
        return t.d
    if k == 'const':
        return {_E: t.a} if t.a else {}
    return {frozenset(((t, 0),)): (1 << t.w) - 1}


_leafsup = {}


def leaf_support(leaf, w):
    a, s = leaf
    m = (1 << a.w) - 1
    m = m << s if s >= 0 else m >> -s
    return m & ((1 << w) - 1)


def mk_anf(w, d):
    """d: dict leafset -> mask (already restricted to support)"""
    if not d:
        return const(w, 0)
    if len(d) == 1:
        (ls, m), = d.items()
        if not ls:
            return const(w, m)
        if len(ls) == 1:
            (a, s), = ls
            if s == 0 and a.w == w and m == (1 << w) - 1:
                return a
    if len(d) > CAP_XOR:
        raise MemoryError('anf too large')
    key = ('n', w, frozenset(d.items()))
    t = _tab.get(key)
    if t is None:
        t = _mk(key, w, 'anf', None, d)
    return t


def xor(x, y):
    if x is y:
        return const(x.w, 0)
    if x.k == 'const':
        if x.a == 0:
            return y
        if y.k == 'const':
            return const(x.w, x.a ^ y.a)
    elif y.k == 'const' and y.a == 0:
        return x
    dx = anf(x)
    dy = anf(y)
    if len(dx) < len(dy):
        dx, dy = dy, dx
    d = dict(dx)
    for ls, m in dy.items():
        o = d.get(ls)
        if o is None:
            d[ls] = m
        else:
            o ^= m
            if o:
                d[ls] = o
            else:
                del d[ls]
    return mk_anf(x.w, d)


def not_(x):
    return xor(x, const(x.w, -1))


def opaque(t):
    """wrap a large anf into an atom"""
    return _mk(('q', t), t.w, 'opq', (t,))


def and_(x, y):
    if x is y:
        return x
    w = x.w
    if x.k == 'const':
        x, y = y, x
    if y.k == 'const':
        if x.k == 'const':
            return const(w, x.a & y.a)
        c = y.a
        if c == 0:
            return y
        if c == mask(w):
            return x
        if x.k == 'sum' and (c & (c + 1)) == 0:
            kb = c.bit_length()
            if kb not in (8, 1):
                return zext(trunc(x, kb), w)
        d = {}
        for ls, m in anf(x).items():
            m &= c
            if m:
                d[ls] = m
        return mk_anf(w, d)
    dx = anf(x)
    dy = anf(y)
    if w == 1 and (x.k == 'conj' or y.k == 'conj' or (len(dx) > 1 and len(dy) > 1 and len(dx) * len(dy) > 12)):
        return conj([x, y])
    if len(dx) * len(dy) > CAP_PROD:
        if len(dx) > 64:
            x = opaque(x)
            dx = anf(x)
        if len(dy) > 64 or len(dx) * len(dy) > CAP_PROD:
            y = opaque(y)
            dy = anf(y)
    d = {}
    for ls, m in dx.items():
        for lt, n in dy.items():
            q = m & n
            if not q:
                continue
            u = ls | lt
            # contradictory / redundant leaves are left to the solver
            o = d.get(u)
            if o is None:
                d[u] = q
            else:
                o ^= q
                if o:
                    d[u] = o
                else:
                    del d[u]
    return mk_anf(w, d)


def support(t):
    """mask of bits that can be non-zero"""
    if t.k == 'const':
        return t.a
    if t.k == 'anf':
        r = 0
        for m in t.d.values():
            r |= m
        return r
    return (1 << t.w) - 1


def umax(t):
    """upper bound of the unsigned value"""
    if t.k == 'const':
        return t.a
    if t.k == 'sum':
        r = t.a[0]
        full = (1 << t.w) - 1
        for a, c in t.a[1]:
            r += c * umax(a)
            if r > full:
                return full
        return r
    if t.k == 'ite':
        return max(umax(t.a[1]), umax(t.a[2]))
    if t.k == 'udiv' and t.a[1].k == 'const':
        return umax(t.a[0]) // max(1, t.a[1].a)
    if t.k == 'urem' and t.a[1].k == 'const' and t.a[1].a:
        return t.a[1].a - 1
    if t.k == 'var' and t in UB:
        return UB[t]
    return support(t)


def umin(t):
    if t.k == 'const':
        return t.a
    if t.k == 'sum':
        if umax(t) < (1 << t.w) - 1 or _nowrap(t):
            return t.a[0]
        return 0
    if t.k == 'ite':
        return min(umin(t.a[1]), umin(t.a[2]))
    return 0


def _nowrap(t):
    r = t.a[0]
    full = (1 << t.w) - 1
    for a, c in t.a[1]:
        r += c * umax(a)
    return r <= full


def or_(x, y):
    if x.w == 1:
        if x is TRUE or y is TRUE:
            return TRUE
        if x is FALSE:
            return y
        if y is FALSE or x is y:
            return x
        if len(anf(x)) * len(anf(y)) > 6 or x.k == 'conj' or y.k == 'conj':
            return not_(conj([not_(x), not_(y)]))
    if support(x) & support(y) == 0:
        return xor(x, y)
    return xor(xor(x, y), and_(x, y))


def shl(x, s):
    w = x.w
    if s == 0:
        return x
    if s >= w:
        return const(w, 0)
    if x.k == 'const':
        return const(w, x.a << s)
    d = {}
    full = (1 << w) - 1
    for ls, m in anf(x).items():
        m = (m << s) & full
        if m:
            d[frozenset((a, k + s) for a, k in ls)] = m
    return mk_anf(w, d)


def lshr(x, s):
    w = x.w
    if s == 0:
        return x
    if s >= w:
        return const(w, 0)
    if x.k == 'const':
        return const(w, x.a >> s)
    if x.k == 'sum' and w > 1 and _nowrap(x):
        k = (1 << s) - 1
        lo = x.a[0] & k
        hi = {}
        for a, c in x.a[1]:
            if c & k:
                lo += c * umax(a)
            else:
                hi[a] = c >> s
        if lo <= k and hi:
            return _mksum(w, x.a[0] >> s, hi)
    d = {}
    for ls, m in anf(x).items():
        m >>= s
        if m:
            d[frozenset((a, k - s) for a, k in ls)] = m
    return mk_anf(w, d)


def rotl(x, r):
    w = x.w
    r %= w
    if r == 0:
        return x
    return xor(_shl_bits(x, r), lshr(x, w - r))


def _shl_bits(x, s):
    return shl(x, s)


def zext(x, w):
    if w == x.w:
        return x
    if x.k == 'const':
        return const(w, x.a)
    return mk_anf(w, dict(anf(x)))


def trunc(x, w):
    if w == x.w:
        return x
    if x.k == 'const':
        return const(w, x.a)
    if x.k == 'sum' and w not in (8, 1):
        r = const(w, x.a[0])
        for a, c in x.a[1]:
            r = add(r, mulc(trunc(a, w), c))
        return r
    if x.k == 'ite' and w != 8 and w != 1:
        return ite(x.a[0], trunc(x.a[1], w), trunc(x.a[2], w))
    full = (1 << w) - 1
    d = {}
    for ls, m in anf(x).items():
        m &= full
        if m:
            d[ls] = m
    return mk_anf(w, d)


def sext(x, w):
    if w == x.w:
        return x
    if x.k == 'const':
        v = x.a
        if v >> (x.w - 1):
            v |= mask(w) ^ mask(x.w)
        return const(w, v)
    if not (support(x) >> (x.w - 1)) & 1:
        return zext(x, w)
    s = bit(x, x.w - 1)
    r = zext(x, w)
    hi = mask(w) ^ mask(x.w)
    return xor(r, and_(spread(s, w), const(w, hi)))


def bit(x, i):
    return trunc(lshr(x, i), 1) if i else trunc(x, 1)


def spread(b, w):
    """1-bit term replicated to w bits"""
    if b.k == 'const':
        return const(w, -b.a)
    d = {}
    for ls, m in anf(b).items():
        for i in range(w):
            k = frozenset((a, s + i) for a, s in ls)
            d[k] = d.get(k, 0) | (1 << i)
    return mk_anf(w, d)


def extract(x, lo, w):
    if lo == 0 and w == x.w:
        return x
    if lo == 0:
        return trunc(x, w)
    return trunc(lshr(x, lo), w)


def concat_bytes(bs):
    """little-endian list of 8-bit terms"""
    w = 8 * len(bs)
    if len(bs) == 1:
        return bs[0]
    d = {}
    for i, b in enumerate(bs):
        s = 8 * i
        for ls, m in anf(b).items():
            k = frozenset((a, q + s) for a, q in ls) if s else ls
            m <<= s
            o = d.get(k)
            if o is None:
                d[k] = m
            else:
                o ^= m
                if o:
                    d[k] = o
                else:
                    del d[k]
    return mk_anf(w, d)


# ---------------------------------------------------------------- arithmetic
def _lin(t):
    """-> (const, {arg: coef}) modulo 2^w"""
    w = t.w
    if t.k == 'const':
        return t.a, {}
    if t.k == 'sum':
        return t.a[0], dict(t.a[1])
    if t.k == 'anf':
        d = t.d
        full = (1 << w) - 1
        if len(d) == 1:
            (ls, m), = d.items()
            if len(ls) == 1:
                (a, s), = ls
                if s > 0 and m == leaf_support((a, s), w):
                    b = trunc(a, w) if a.w > w else zext(a, w)
                    if b.k == 'sum':
                        c = 1 << s
                        return (b.a[0] * c) & full, {x: (y * c) & full for x, y in b.a[1] if (y * c) & full}
                    return 0, {b: 1 << s}
        if d.get(_E) == full:
            e = dict(d)
            del e[_E]
            c, l = _lin(mk_anf(w, e))
            return (-c - 1) & full, {x: (-y) & full for x, y in l.items()}
    return 0, {t: 1}


def split_lin(t):
    """_lin with every atom that is a concatenation of bit ranges taken as their sum"""
    full = (1 << t.w) - 1
    c, l = _lin(t)
    out = {}
    for a, m in l.items():
        parts = None
        if a.k == 'anf' and len(a.d) > 1:
            seen, ok = 0, True
            for ls, q in a.d.items():
                if len(ls) > 1 or q & seen:
                    ok = False
                    break
                seen |= q
            if ok:
                parts = [_lin(mk_anf(a.w, {ls: q})) for ls, q in a.d.items()]
        for pc, pl in parts or [(0, {a: 1})]:
            c += pc * m
            for b, q in pl.items():
                out[b] = (out.get(b, 0) + q * m) & full
    return c & full, {b: q for b, q in out.items() if q}


def _mksum(w, c, l):
    if not l:
        return const(w, c)
    if len(l) == 1 and c == 0:
        (a, k), = l.items()
        if k == 1:
            return a
        if k & (k - 1) == 0:
            return _shl_anf(a, k.bit_length() - 1)
    if len(l) == 1 and c == mask(w):
        (a, k), = l.items()
        if k == mask(w):
            return not_(a)
    items = tuple(sorted(l.items(), key=lambda p: p[0].id))
    return _mk(('s', w, c, items), w, 'sum', (c, items))


def _shl_anf(x, s):
    w = x.w
    d = {}
    full = (1 << w) - 1
    for ls, m in anf(x).items():
        m = (m << s) & full
        if m:
            d[frozenset((a, k + s) for a, k in ls)] = m
    return mk_anf(w, d)


def add(x, y):
    w = x.w
    if x.k == 'const':
        if x.a == 0:
            return y
        if y.k == 'const':
            return const(w, x.a + y.a)
    elif y.k == 'const' and y.a == 0:
        return x
    if w == 1:
        return xor(x, y)
    c1, l1 = _lin(x)
    c2, l2 = _lin(y)
    full = (1 << w) - 1
    if len(l1) < len(l2):
        l1, l2 = l2, l1
    for a, k in l2.items():
        o = (l1.get(a, 0) + k) & full
        if o:
            l1[a] = o
        else:
            del l1[a]
    return _mksum(w, (c1 + c2) & full, l1)


def mulc(x, c):
    w = x.w
    full = (1 << w) - 1
    c &= full
    if c == 0:
        return const(w, 0)
    if c == 1:
        return x
    k, l = _lin(x)
    return _mksum(w, (k * c) & full, {a: (q * c) & full for a, q in l.items() if (q * c) & full})


def neg(x):
    return mulc(x, -1)


def sub(x, y):
    return add(x, neg(y))


def mul(x, y):
    if x.k == 'const':
        return mulc(y, x.a)
    if y.k == 'const':
        return mulc(x, y.a)
    if x.w == 1:
        return and_(x, y)
    if x.id > y.id:
        x, y = y, x
    return _mk(('m', x, y), x.w, 'mul', (x, y))


def exact_quotient(x, n):
    """x / n when x is a non-wrapping linear combination of multiples of n"""
    c, l = _lin(x)
    if c % n or any(m % n for m in l.values()) or not l:
        return None
    if c + sum(m * umax(a) for a, m in l.items()) >= 1 << x.w:
        return None
    r = const(x.w, c // n)
    for a, m in l.items():
        r = add(r, mulc(a, m // n))
    return r


def divmod_split(x, n):
    """(q, r) with x == n*q + r, r < n, when x is a non-wrapping sum whose parts that are no
    multiples of n stay below n"""
    c, l = _lin(x)
    if not l or c + sum(m * umax(a) for a, m in l.items()) >= 1 << x.w:
        return None
    q, r = const(x.w, c // n), const(x.w, c % n)
    top = c % n
    for a, m in l.items():
        if m % n:
            top += m * umax(a)
            r = add(r, mulc(a, m))
        else:
            q = add(q, mulc(a, m // n))
    return (q, r) if top < n else None


def udiv(x, y):
    if y.k == 'const' and y.a:
        if x.k == 'const':
            return const(x.w, x.a // y.a)
        q = exact_quotient(x, y.a)
        if q is not None:
            return q
        if y.a & (y.a - 1) == 0:
            return lshr(x, y.a.bit_length() - 1)
        q = divmod_split(x, y.a)
        if q is not None:
            return q[0]
    return _mk(('ud', x, y), x.w, 'udiv', (x, y))


def urem(x, y):
    if y.k == 'const' and y.a:
        if x.k == 'const':
            return const(x.w, x.a % y.a)
        if y.a & (y.a - 1) == 0:
            return and_(x, const(x.w, y.a - 1))
        if umax(x) < y.a:
            return x
        q = divmod_split(x, y.a)
        if q is not None:
            return q[1]
    return _mk(('ur', x, y), x.w, 'urem', (x, y))


def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def sdiv(x, y):
    if x.k == 'const' and y.k == 'const' and y.a:
        a, b = tosigned(x.a, x.w), tosigned(y.a, y.w)
        q = abs(a) // abs(b)
        return const(x.w, q if (a < 0) == (b < 0) else -q)
    if y.k == 'const' and 0 < y.a < 1 << (x.w - 1) and umax(x) < 1 << (x.w - 1):
        return udiv(x, y)
    return _mk(('sd', x, y), x.w, 'sdiv', (x, y))


def srem(x, y):
    if x.k == 'const' and y.k == 'const' and y.a:
        a, b = tosigned(x.a, x.w), tosigned(y.a, y.w)
        r = abs(a) % abs(b)
        return const(x.w, r if a >= 0 else -r)
    return _mk(('sr', x, y), x.w, 'srem', (x, y))


def shlv(x, y):
    if y.k == 'const':
        return shl(x, y.a) if y.a < x.w else const(x.w, 0)
    return _mk(('shl', x, y), x.w, 'shl', (x, y))


def lshrv(x, y):
    if y.k == 'const':
        return lshr(x, y.a) if y.a < x.w else const(x.w, 0)
    return _mk(('lshr', x, y), x.w, 'lshr', (x, y))


def ashrv(x, y):
    if y.k == 'const':
        s = min(y.a, x.w - 1)
        if x.k == 'const':
            return const(x.w, tosigned(x.a, x.w) >> s)
        return sext(trunc(lshr(x, s), x.w - s), x.w) if s else x
    return _mk(('ashr', x, y), x.w, 'ashr', (x, y))


# ---------------------------------------------------------------- predicates
def _common(x, y):
    """x = g*X + rx, y = g*Y + ry with g > 1, 0 <= rx, ry < g, nothing wrapping: (X, rx, Y, ry)"""
    if x.k not in ('sum', 'anf') or y.k not in ('sum', 'anf'):
        return None
    cx, lx = _lin(x)
    cy, ly = _lin(y)
    g = 0
    for m in list(lx.values()) + list(ly.values()):
        g = math.gcd(g, m)
        if g == 1:
            return None
    if g < 2:
        return None
    top = 1 << x.w
    for c, l in ((cx, lx), (cy, ly)):
        if c + sum(m * umax(a) for a, m in l.items()) >= top:
            return None
    out = []
    for c, l in ((cx, lx), (cy, ly)):
        r = const(x.w, c // g)
        for a, m in l.items():
            r = add(r, mulc(a, m // g))
        out += [r, c % g]
    return out


def eq(x, y):
    if x is y:
        return TRUE
    w = x.w
    if w > 8:
        q = _common(x, y)
        if q is not None:
            return eq(q[0], q[2]) if q[1] == q[3] else FALSE
    if x.k == 'const' and y.k == 'const':
        return TRUE if x.a == y.a else FALSE
    if w == 1:
        return not_(xor(x, y))
    if x.k == 'const':
        x, y = y, x
    if x.k == 'ite' and y.k == 'const':
        c, a, b = x.a
        if a.k == 'const' or b.k == 'const':
            return ite(c, eq(a, y), eq(b, y))
    d = sub(x, y)
    if d.k == 'const':
        return TRUE if d.a == 0 else FALSE
    d2 = xor(x, y)
    if d2.k == 'const':
        return TRUE if d2.a == 0 else FALSE
    if d2.k == 'anf' and d2.d.get(_E, 0):
        # a bit position where only the constant remains
        r = 0
        for ls, m in d2.d.items():
            if ls:
                r |= m
        if d2.d[_E] & ~r:
            return FALSE
    if d.k == 'sum':
        n = neg(d)
        if n.id < d.id and n.k == 'sum':
            d = n
        return _mk(('eq', d), 1, 'eq0', (d,))
    return _mk(('eq', d2), 1, 'eq0', (d2,))


def ne(x, y):
    return not_(eq(x, y))


def ult(x, y):
    if x is y:
        return FALSE
    # remove a common constant when neither side wraps
    if x.k == 'sum' and x.a[0] and _nowrap(x):
        if y.k == 'const':
            if y.a <= x.a[0]:
                return FALSE
            k = min(x.a[0], y.a)
            return ult(add(x, const(x.w, -k)), const(x.w, y.a - k))
        if y.k == 'sum' and y.a[0] and _nowrap(y):
            k = min(x.a[0], y.a[0])
            return ult(add(x, const(x.w, -k)), add(y, const(x.w, -k)))
    if y.k == 'sum' and y.a[0] and x.k == 'const' and _nowrap(y):
        if x.a < y.a[0]:
            return TRUE
        k = y.a[0]
        return ult(const(x.w, x.a - k), add(y, const(x.w, -k)))
    if umax(x) < umin(y):
        return TRUE
    if umax(y) <= umin(x):
        return FALSE
    if x.w > 8:
        q = _common(x, y)
        if q is not None:
            return not_(ult(q[2], q[0])) if q[1] < q[3] else ult(q[0], q[2])
    if y.k == 'const':
        if y.a == 0:
            return FALSE
        if x.k == 'const':
            return TRUE if x.a < y.a else FALSE
        if y.a == 1:
            return eq(x, const(x.w, 0))
        if support(x) < y.a:
            return TRUE
        if y.a & (y.a - 1) == 0:
            return eq(lshr(x, y.a.bit_length() - 1), const(x.w, 0)) if x.k != 'sum' else _mk(('ult', x, y), 1, 'ult', (x, y))
    if x.k == 'const':
        if x.a == mask(x.w):
            return FALSE
        if support(y) <= x.a:
            return FALSE
        if x.a == 0:
            return ne(y, const(y.w, 0))
    if x.w == 1:
        return and_(not_(x), y)
    return _mk(('ult', x, y), 1, 'ult', (x, y))


def ule(x, y):
    return not_(ult(y, x))


def slt(x, y):
    if x is y:
        return FALSE
    if x.k == 'const' and y.k == 'const':
        return TRUE if tosigned(x.a, x.w) < tosigned(y.a, y.w) else FALSE
    w = x.w
    sb = 1 << (w - 1)
    if not support(x) & sb and not support(y) & sb:
        return ult(x, y)
    if y.k == 'const' and y.a == 0:
        return bit(x, w - 1)
    return _mk(('slt', x, y), 1, 'slt', (x, y))


def sle(x, y):
    return not_(slt(y, x))


def ite(c, a, b):
    if c.k == 'const':
        return a if c.a else b
    if a is b:
        return a
    if c.k == 'anf' and c.d.get(_E):
        return ite(not_(c), b, a)
    if a.w == 1:
        return xor(b, and_(c, xor(a, b)))
    if a.k == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.k == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return _mk(('ite', c, a, b), a.w, 'ite', (c, a, b))


def implies(a, b):
    return not_(conj([a, not_(b)]))


def conj(ts):
    """n-ary conjunction of 1-bit terms, kept as one atom (no ANF expansion)"""
    s = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t.k == 'const':
            if not t.a:
                return FALSE
            continue
        if t.k == 'conj':
            st.extend(t.a)
            continue
        s.add(t)
    for t in s:
        if not_(t) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s.pop()
    a = tuple(sorted(s, key=lambda t: t.id))
    return _mk(('&',) + a, 1, 'conj', a)


def disj(ts):
    return not_(conj([not_(t) for t in ts]))


def fop(op, w, *args):
    return _mk(('f', op, w, args), w, 'fop', (op,) + args)


# ---------------------------------------------------------------- traversal
def children(t):
    k = t.k
    if k in ('const', 'var'):
        return ()
    if k == 'anf':
        s = []
        seen = set()
        for ls in t.d:
            for a, _ in ls:
                if a not in seen:
                    seen.add(a)
                    s.append(a)
        return s
    if k == 'sum':
        return [a for a, _ in t.a[1]]
    if k in ('uf', 'fop'):
        return t.a[1:]
    return t.a


def topo(roots):
    seen = set()
    out = []
    for r in roots:
        if r in seen:
            continue
        st = [(r, False)]
        while st:
            t, done = st.pop()
            if done:
                out.append(t)
                continue
            if t in seen:
                continue
            seen.add(t)
            st.append((t, True))
            for c in children(t):
                if c not in seen:
                    st.append((c, False))
    return out


def rebuild(t, f):
    """rebuild node with children mapped by f (callable)"""
    k = t.k
    if k in ('const', 'var'):
        return t
    if k == 'anf':
        w = t.w
        r = const(w, 0)
        same = True
        for ls in t.d:
            for a, _ in ls:
                if f(a) is not a:
                    same = False
                    break
            if not same:
                break
        if same:
            return t
        acc = {}
        for ls, m in t.d.items():
            if all(f(a) is a for a, _ in ls):
                acc[ls] = m
                continue
            p = const(w, m)
            for a, s in ls:
                b = f(a)
                if b.w < w:
                    b = zext(b, w)
                W = b.w
                b = _shl_bits(b, s) if s > 0 else lshr(b, -s)
                if W > w:
                    b = trunc8safe(b, w)
                p = and_(p, b)
            r = xor(r, p)
        return xor(r, mk_anf(w, acc))
    if k == 'sum':
        r = const(t.w, t.a[0])
        for a, c in t.a[1]:
            r = add(r, mulc(f(a), c))
        return r
    if k == 'uf':
        return uf(t.a[0], t.w, *[f(x) for x in t.a[1:]])
    if k == 'fop':
        return fop(t.a[0], t.w, *[f(x) for x in t.a[1:]])
    a = [f(x) for x in t.a]
    return _BUILD[k](*a)


def trunc8safe(x, w):
    full = (1 << w) - 1
    if x.k == 'const':
        return const(w, x.a)
    d = {}
    for ls, m in anf(x).items():
        m &= full
        if m:
            d[ls] = m
    return mk_anf(w, d)


_BUILD = {
    'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem,
    'shl': shlv, 'lshr': lshrv, 'ashr': ashrv, 'ite': ite, 'ult': ult, 'slt': slt,
    'eq0': lambda d: eq(d, const(d.w, 0)), 'opq': opaque, 'conj': lambda *a: conj(a),
}


def subst(roots, m, cache=None):
    """substitute terms (dict T->T), returns list"""
    if cache is None:
        cache = {}
    for t in topo(roots):
        if t in cache:
            continue
        if t in m:
            cache[t] = m[t]
        else:
            cache[t] = rebuild(t, cache.__getitem__)
    return [cache[r] for r in roots]


def evaluate(roots, env, ufs=None, cache=None):
    """env: var T or name -> int ; ufs: name -> callable(width, *ints)"""
    if cache is None:
        cache = {}
    for t in topo(roots):
        if t in cache:
            continue
        cache[t] = _eval1(t, cache, env, ufs)
    return [cache[r] for r in roots]


def _eval1(t, c, env, ufs):
    k = t.k
    w = t.w
    full = (1 << w) - 1
    if k == 'const':
        return t.a
    if k == 'var' and t in UB:
        v = env[t] & full if t in env else env[t.a] & full if t.a in env else ufs['__var__'](w, t.a) & full if callable(ufs) or (ufs and '__var__' in ufs) else None
        if v is not None:
            return v if v <= UB[t] else v % (UB[t] + 1)
    if k == 'var':
        if t in env:
            return env[t] & full
        if t.a in env:
            return env[t.a] & full
        if callable(ufs) or (ufs and '__var__' in ufs):
            return ufs['__var__'](w, t.a) & full
        raise KeyError(t.a)
    if k == 'anf':
        r = 0
        for ls, m in t.d.items():
            for a, s in ls:
                v = c[a]
                m &= v << s if s >= 0 else v >> -s
                if not m:
                    break
            r ^= m
        return r & full
    if k == 'sum':
        r = t.a[0]
        for a, q in t.a[1]:
            r += c[a] * q
        return r & full
    if k == 'uf':
        return ufs[t.a[0]](w, *[c[x] for x in t.a[1:]]) & full if t.a[0] in ufs else ufs['__uf__'](t.a[0], w, *[c[x] for x in t.a[1:]]) & full
    a = [c[x] for x in t.a if isinstance(x, T)]
    if k == 'fop':
        import struct
        return _fopeval(t.a[0], w, a)
    if k == 'opq':
        return a[0]
    if k == 'conj':
        return 1 if all(a) else 0
    if k == 'mul':
        return (a[0] * a[1]) & full
    if k == 'udiv':
        return a[0] // a[1] if a[1] else full
    if k == 'urem':
        return a[0] % a[1] if a[1] else a[0]
    if k in ('sdiv', 'srem'):
        x, y = tosigned(a[0], w), tosigned(a[1], w)
        if y == 0:
            return 0
        q = abs(x) // abs(y)
        q = q if (x < 0) == (y < 0) else -q
        return (q if k == 'sdiv' else x - q * y) & full
    if k == 'shl':
        return (a[0] << a[1]) & full if a[1] < w else 0
    if k == 'lshr':
        return a[0] >> a[1] if a[1] < w else 0
    if k == 'ashr':
        return (tosigned(a[0], w) >> min(a[1], w - 1)) & full
    if k == 'ite':
        return a[1] if a[0] else a[2]
    if k == 'eq0':
        return 1 if a[0] == 0 else 0
    if k == 'ult':
        return 1 if a[0] < a[1] else 0
    if k == 'slt':
        cw = t.a[0].w
        return 1 if tosigned(a[0], cw) < tosigned(a[1], cw) else 0
    raise Exception('eval ' + k)


def _fopeval(op, w, a):
    import struct

    def dec(v, w):
        return struct.unpack('<f', struct.pack('<I', v))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', v))[0]

    def enc(v, w):
        try:
            return struct.unpack('<I', struct.pack('<f', v))[0] if w == 32 else struct.unpack('<Q', struct.pack('<d', v))[0]
        except OverflowError:
            return 0x7f800000 if v > 0 else 0xff800000
    name, fw = op
    x = [dec(v, fw) for v in a]
    if name == 'fadd':
        return enc(x[0] + x[1], fw)
    if name == 'fsub':
        return enc(x[0] - x[1], fw)
    if name == 'fmul':
        return enc(x[0] * x[1], fw)
    if name == 'oeq':
        return int(x[0] == x[1])
    if name == 'une':
        return int(not (x[0] == x[1]))
    if name == 'olt':
        return int(x[0] < x[1])
    if name == 'fpext':
        return enc(x[0], 64)
    if name == 'fptrunc':
        return enc(x[0], 32)
    raise Exception('fop ' + name)


# ---------------------------------------------------------------- printing
def show(t, depth=4):
    k = t.k
    if k == 'const':
        return '%d' % t.a if t.a < 1024 else '0x%x' % t.a
    if k == 'var':
        return t.a
    if depth == 0:
        return '#%d' % t.id
    s = lambda x: show(x, depth - 1)
    if k == 'anf':
        out = []
        for i, (ls, m) in enumerate(t.d.items()):
            if i >= 6:
                out.append('...%d' % len(t.d))
                break
            parts = []
            cov = mask(t.w)
            for a, sh in ls:
                parts.append(s(a) + ('<<%d' % sh if sh > 0 else '>>%d' % -sh if sh < 0 else ''))
                cov &= leaf_support((a, sh), t.w)
            if m != cov or not parts:
                parts.append('0x%x' % m)
            out.append('&'.join(parts))
        return '(' + ' ^ '.join(out) + ')'
    if k == 'sum':
        out = []
        h = mask(t.w) >> 1
        for a, c in t.a[1][:8]:
            c = c if c <= h else c - mask(t.w) - 1
            out.append(s(a) if c == 1 else '%d*%s' % (c, s(a)))
        if t.a[0]:
            c = t.a[0]
            c = c if c <= h else c - mask(t.w) - 1
            out.append(str(c))
        return '(' + ' + '.join(out) + ')'
    if k == 'uf':
        return '%s(%s)' % (t.a[0], ','.join(s(x) for x in t.a[1:]))
    return '%s(%s)' % (k, ','.join(s(x) if isinstance(x, T) else str(x) for x in t.a))
