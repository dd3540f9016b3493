"""History contracts.  A hash object reached only through its contracts is an
opaque handle that stands for the sequence of events it has absorbed:

  X::X()          requires nothing           ensures  history == ()
  X::update(p,n)  requires p readable for n  ensures  history == old . bytes p[0..n)
  X::result()     requires nothing           ensures  ret == D(old), history == old . result

The same three contracts are what u_update / u_result / u_default prove about the
bodies (the abstract state is a function of the history, D its finalisation)."""
import re
import term as T, ir, smt
from term import const
from sym import Ptr, EngineError


def norm(pc, pieces):
    """merge adjacent ranges, drop empty ones"""
    out = []
    for p in pieces:
        if p[0] == 'r':
            if p[3].k == 'const' and p[3].a == 0:
                continue
            if out and out[-1][0] == 'r' and out[-1][1] == p[1]:
                q = out[-1]
                nx = T.add(q[2], q[3])
                if nx is p[2] or (T.eq(nx, p[2]).k != 'const' and smt.prove(pc, T.eq(nx, p[2]), want_model=False).ok):
                    out[-1] = ('r', p[1], q[2], T.add(q[3], p[3]))
                    continue
        out.append(p)
    return tuple(out)


class Hist:
    def __init__(self, cls, size, rlen, recognise=None, full=None):
        self.cls = cls                  # class name without namespace
        self.full = full or r'boost::hash2::%s' % cls
        self.size, self.rlen = size, rlen
        self.ids = {}                   # history -> id
        self.hs = []
        self.recognise = recognise
        base = cls.split('::')[-1]
        # an inherited update/result is recognised through the wrapper's static type
        self.events = 0

    def id(self, h):
        if h not in self.ids:
            self.ids[h] = len(self.hs)
            self.hs.append(h)
        return self.ids[h]

    def cells(self, h):
        i = self.id(h)
        return [(T.var(8, 'H!%s!%d!%d' % (self.cls, i, k)), 0) for k in range(self.size)]

    def digest(self, h):
        i = self.id(h)
        return [T.var(8, 'D!%s!%d!%d' % (self.cls, i, k)) for k in range(self.rlen)]

    def put(self, ex, st, oid, off, h):
        o = st.wr(oid)
        o.cells[off:off + self.size] = self.cells(h)

    def get(self, ex, st, oid, off):
        """history of the object at (oid, off), or None"""
        o = st.mem[oid]
        cs = o.cells[off:off + self.size]
        if len(cs) < self.size:
            return None
        c = cs[0]
        if c is not None and isinstance(c[0], T.T) and c[0].k == 'var' and c[0].a.startswith('H!%s!' % self.cls):
            i = int(c[0].a.split('!')[2])
            h = self.hs[i]
            if cs == self.cells(h):
                return h
            return None
        if self.recognise:
            return self.recognise(ex, st, oid, off)
        return None

    def this(self, ex, st, p, line):
        if p.obj == 0 or p.off.k != 'const':
            raise EngineError('object pointer not concrete')
        h = self.get(ex, st, p.obj, p.off.a)
        if h is None:
            ex.fail(st, 'precondition: %s object is well formed (reached through its own functions only)' % self.cls, line)
        return h

    def pieces(self, ex, st, p, n, line):
        if n.k == 'const' and n.a == 0:
            return []
        if p.obj == 0:
            # null is allowed with n == 0 only
            ex.oblige(st, 'precondition: null pointer only with n == 0', T.eq(n, const(n.w, 0)), line)
            return []
        o = ex.bounds(st, p, n.a if n.k == 'const' else n, line, 'update reads')
        if o is None:
            return None
        if n.k == 'const' and (o.fn is None or n.a <= 256):
            cs = ex.read_cells(st, o, p.off, n.a)
            if any(c is None for c in cs):
                ex.fail(st, 'memory-safety: update reads uninitialised memory in %s' % o.name, line)
                return None
            return [('b', ex.byte(c)) for c in cs]
        if o.fn is None:
            raise EngineError('update of symbolic length from %s' % o.name)
        return [('r', o.name, p.off, n)]

    def contracts(self):
        F = re.escape(self.full)
        base = re.escape(re.sub(r'<.*', '', self.full).split('::')[-1])
        dflt = re.compile(r'^%s::%s\(\)$' % (F, base))
        upd = re.compile(r'^(%s|boost::hash2::detail::\w+(<.*>)?)::update\((void|unsigned char) const\*, unsigned (long|int)\)$' % F)
        res = re.compile(r'^(%s|boost::hash2::detail::\w+(<.*>)?)::result\(\)$' % F)
        return [(lambda f: bool(dflt.match(f.dem or '')), self.h_default),
                (lambda f: bool(upd.match(f.dem or '')), self.h_update),
                (lambda f: bool(res.match(f.dem or '')), self.h_result)]

    def h_default(self, ex, st, fr, fn, args, dest, line):
        p = args[0]
        if ex.bounds(st, p, self.size, line, 'constructor') is None:
            return None
        self.put(ex, st, p.obj, p.off.a, ())
        self.events += 1
        return None

    def h_update(self, ex, st, fr, fn, args, dest, line):
        h = self.this(ex, st, args[0], line)
        if h is None:
            return None
        ps = self.pieces(ex, st, args[1], args[2], line)
        if ps is None:
            return None
        self.put(ex, st, args[0].obj, args[0].off.a, norm(st.pc, h + tuple(ps)))
        self.events += 1
        return None

    def h_result(self, ex, st, fr, fn, args, dest, line):
        sret = bool(fn.params) and 'sret' in fn.params[0][2]
        th = args[1] if sret else args[0]
        h = self.this(ex, st, th, line)
        if h is None:
            return None
        d = self.digest(h)
        self.put(ex, st, th.obj, th.off.a, h + (('res',),))
        self.events += 1
        if sret:
            if ex.bounds(st, args[0], self.rlen, line, 'result') is None:
                return None
            o = st.wr(args[0].obj)
            o.cells[args[0].off.a:args[0].off.a + self.rlen] = [(x, 0) for x in d]
            return None
        t = ex.mod.resolve(fn.ret)
        sz = ex.mod.size(t)
        tmp = ex.alloc(st, 'ret', sz, [(x, 0) for x in d] + [(const(8, 0), 0)] * (sz - self.rlen))
        fr.regs[dest] = ex.load(st, Ptr(tmp, const(ex.pw, 0)), t, line)
        del st.mem[tmp]
        return None

    def match(self, u, o, label, got, want):
        """got history (or None) equals want under o.pc"""
        if got is None:
            u.add('postcondition: ' + label, False, 'shape', 'object was changed outside update/result')
            return False
        want = norm(o.pc, want)
        if got == want:
            u.add('postcondition: ' + label, True, 'canonical')
            return True
        if len(got) != len(want) or any(a[0] != b[0] for a, b in zip(got, want)):
            # unreachable path?
            r = smt.prove(o.pc, T.FALSE)
            u.add('postcondition: ' + label, r.ok, r.how, 'histories differ: %d events %s, expected %d %s' % (len(got), ''.join(x[0] for x in got)[:40], len(want), ''.join(x[0] for x in want)[:40]), u.eval_inputs(r.model) if r.model is not None else None)
            return r.ok
        goals = []
        for a, b in zip(got, want):
            if a == b:
                continue
            if a[0] == 'b':
                goals.append(T.eq(a[1], b[1]))
            elif a[0] == 'r':
                if a[1] != b[1]:
                    goals.append(T.FALSE)
                else:
                    goals += [T.eq(a[2], b[2]), T.eq(a[3], b[3])]
        return u.prove_all(o, label, goals)
