"""Ghost fold: names S_i(b) for the i-th state word after b blocks of the ghost
stream M have been absorbed, with the defining equation
   S(b+1) = step(S(b), M[N*b .. N*b+N-1])."""
import term as T
from term import const
import sweep


class Fold:
    def __init__(self, name, k, w, N, step, stream='M', pw=64, where=None):
        self.name, self.k, self.w, self.N, self.step, self.stream, self.pw = name, k, w, N, step, stream, pw
        self.where = where          # (oid, [offsets]) of the state words
        self.memo = {}
        self.back = {}
        self.unfolded = 0
        self.swept = 0
        self.nofold = set()
        self.noback = set()
        self.deep = 1

    def S(self, i, b):
        return T.uf('%s%d' % (self.name, i), self.w, b)

    def M(self, x):
        return T.uf(self.stream, 8, x)

    def expand(self, b, n=1):
        """words after n blocks starting from S(b), in terms of S(b) and M"""
        key = (b, n)
        r = self.memo.get(key)
        if r is None:
            prev = [self.S(i, b) for i in range(self.k)] if n == 1 else self.expand(b, n - 1)
            bb = T.add(b, const(self.pw, n - 1))
            base = T.mulc(bb, self.N)
            block = [self.M(T.add(base, const(self.pw, j))) for j in range(self.N)]
            r = self.step(prev, block)
            self.memo[key] = r
        return r

    def bases(self, terms):
        out = []
        for t in T.topo(terms):
            if t.k == 'uf' and t.a[0].startswith(self.name) and t.a[0][len(self.name):].isdigit():
                if t.a[1] not in out:
                    out.append(t.a[1])
        return out

    def refold_words(self, words, pc=(), full=True):
        """-> b such that words == S(b), or None"""
        if all(t.k == 'uf' and t.a[0] == '%s%d' % (self.name, i) for i, t in enumerate(words)):
            b = words[0].a[1]
            if all(t.a[1] is b for t in words):
                return b
        if not full and tuple(words) in self.nofold:
            return None
        bs = self.bases(words)
        for b in bs:
            for n in range(1, 9):
                e = self.expand(b, n)
                if all(x is y for x, y in zip(e, words)):
                    return T.add(b, const(self.pw, n))
                if n >= 2 and not any(len(T.topo(words)) > 1.5 * len(T.topo(self.expand(b, n - 1))) for _ in (0,)):
                    break
        self.nofold.add(tuple(words))
        for b in bs[:2] if full else ():
            for n in range(1, 3):
                e = self.expand(b, n)
                if sweep.equal(words, e, pc):
                    self.swept += 1
                    return T.add(b, const(self.pw, n))
        return None

    def refold_locals(self, ex, st):
        """chaining words held in local variables: replace step(S(b)) by S(b+1)"""
        n = self.w // 8
        for oid in list(st.mem):
            o = st.mem[oid]
            if o.cells is None or o.ro or o.fn is not None or not isinstance(o.size, int) or o.size > 8 * n * self.k:
                continue
            for off in range(0, o.size - n + 1, n):
                c = o.cells[off]
                if c is None or not isinstance(c[0], T.T) or c[0].w != self.w or c[0].k in ('const', 'var', 'uf'):
                    continue
                v = ex.readloc(st, oid, off, n)
                if not isinstance(v, T.T) or v in self.noback:
                    continue
                r = self.back.get(v)
                if r is None:
                    bs = self.bases([v])
                    for c in range(1, self.deep + 1):
                        for b in bs[:3]:
                            for i, e in enumerate(self.expand(b, c)):
                                self.back[e] = self.S(i, T.add(b, const(self.pw, c)))
                        r = self.back.get(v)
                        if r is not None:
                            break
                    if r is None:
                        self.noback.add(v)
                        continue
                ex.writeloc(st, oid, off, n, r)

    def refold(self, ex, st, full=True):
        if full:
            self.refold_locals(ex, st)
        if self.where is None:
            return
        oid, offs = self.where
        if oid not in st.mem:
            return
        n = self.w // 8
        ws = [ex.readloc(st, oid, o, n) for o in offs]
        if any(x is None or not isinstance(x, T.T) for x in ws):
            return
        b = self.refold_words(ws, st.pc, full)
        if b is None:
            return
        for i, o in enumerate(offs):
            s = self.S(i, b)
            if ws[i] is not s:
                ex.writeloc(st, oid, o, n, s)

    def guess(self, ex, x, y, t):
        if x.k == 'uf' and x.a[0].startswith(self.name) and x.a[0][len(self.name):].isdigit():
            tt = T.zext(t, x.a[1].w)
            return [T.uf(x.a[0], x.w, T.add(x.a[1], T.mulc(tt, c))) for c in (1, 2, 4, 8)]
        return []

    def unfold(self, a, b):
        """if one side is S_i(arg) and the other contains S(arg - n): expand"""
        for x, y, sw in ((b, a, False), (a, b, True)):
            if x.k == 'uf' and x.a[0].startswith(self.name) and x.a[0][len(self.name):].isdigit() and not (y.k == 'uf' and y.a[0] == x.a[0]):
                i = int(x.a[0][len(self.name):])
                for c in self.bases([y]):
                    d = T.sub(x.a[1], c)
                    if d.k == 'const' and 1 <= d.a <= 8:
                        self.unfolded += 1
                        e = self.expand(c, d.a)[i]
                        return (y, e) if not sw else (e, y)
        return a, b

    def equal(self, a, b, pc):
        if a is b:
            return True
        r = sweep.equal([a], [b], pc)
        if r:
            self.swept += 1
        return r
