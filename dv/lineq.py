"""Rewriting modulo the equalities of the path condition (linear, modulo 2^w): a goal that
becomes canonical needs no solver."""
import term as T
from term import const


def _pick(l, w):
    """atom to eliminate: a fresh loop counter if there is one, else the smallest 2-adic coefficient"""
    best = None
    for a, c in l.items():
        v = (c & -c).bit_length() - 1
        fresh = a.k == 'var' and isinstance(a.a, str) and '!' in a.a or a.k == 'anf' and any(x.k == 'var' and '!' in str(x.a) for x in T.topo([a]))
        key = (0 if fresh else 1, v, -a.id)
        if best is None or key < best[0]:
            best = (key, a, c)
    return best[1], best[2]


class Rules:
    def __init__(self, pc):
        self.lin = []        # (w, atom, coef, linear term equal to zero)
        self.sub = {}        # atom -> term
        self.cache = {}
        todo = []
        for p in pc:
            if p.k == 'eq0':
                todo.append(p.a[0])
            elif p.k == 'conj':
                todo += [x.a[0] for x in p.a if x.k == 'eq0']
        todo.sort(key=lambda x: len(T.topo([x])))
        for x in todo:
            y = self.rw(x)
            if y.k == 'const':
                continue
            c, l = T._lin(y)
            if not l:
                continue
            if len(l) == 1 and c == 0:
                (a, k), = l.items()
                if k == 1 and a.k != 'sum':
                    # a itself is zero; when it is a zero-extended variable, so is the variable
                    v = self._lone(a)
                    self.sub[v if v is not None else a] = const((v if v is not None else a).w, 0)
                    self.cache = {}
                    continue
            a, k = _pick(l, y.w)
            self.lin.append((y.w, a, k, y))
            self.cache = {}

    @staticmethod
    def _lone(a):
        if a.k == 'anf' and len(a.d) == 1:
            (ls, m), = a.d.items()
            if len(ls) == 1:
                (v, s), = ls
                if s == 0 and v.k == 'var' and m == (1 << v.w) - 1:
                    return v
        return None

    def _norm(self, t):
        for _ in range(6):
            if t in self.sub:
                t = self.sub[t]
            if t.k not in ('sum', 'anf', 'var', 'ite', 'uf'):
                return t
            hit = False
            c, l = None, None
            for w, a, k, L in self.lin:
                if w != t.w:
                    continue
                if l is None:
                    c, l = T._lin(t)
                q = l.get(a)
                if not q:
                    continue
                v = (k & -k).bit_length() - 1
                if q & ((1 << v) - 1):
                    continue
                odd = k >> v
                mult = ((q >> v) * pow(odd, -1, 1 << w)) & ((1 << w) - 1)
                t = T.sub(t, T.mulc(L, mult))
                hit = True
                l = None
            if not hit:
                return t
        return t

    def rw(self, t):
        if not self.lin and not self.sub:
            return t
        c = self.cache
        for x in T.topo([t]):
            if x in c:
                continue
            if x in self.sub:
                c[x] = self.sub[x]
            else:
                c[x] = self._norm(T.rebuild(x, c.__getitem__))
        return c[t]


_memo = [None, None]


def simplify(pc, goals):
    key = tuple(pc)
    if _memo[0] != key:
        _memo[0] = key
        _memo[1] = Rules(pc)
    r = _memo[1]
    return [r.rw(g) for g in goals]
