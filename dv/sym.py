"""Symbolic execution of LLVM IR with proof obligations, contracts on callees,
and inductive (unbounded) loop summaries."""
import os, time
import term as T
import smt
import ir
from term import const, TRUE, FALSE

MAXITER = 700


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class Agg:
    __slots__ = ('el',)

    def __init__(self, el):
        self.el = el

    def __repr__(self):
        return 'Agg%r' % (self.el,)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    """Memory object. cells: list of entries
         None           uninitialised byte
         (value, k)     k-th byte (little-endian significance) of value: T or Ptr
       or a read-only function off->byte term (stream)."""
    __slots__ = ('name', 'size', 'cells', 'fn', 'ro', 'align', 'freed', 'fields')

    def __init__(self, name, size, cells=None, fn=None, ro=False, align=1):
        self.name, self.size, self.cells, self.fn, self.ro, self.align = name, size, cells, fn, ro, align
        self.fields = None

    def copy(self):
        o = Obj(self.name, self.size, list(self.cells) if self.cells is not None else None, self.fn, self.ro, self.align)
        o.fields = self.fields
        return o


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'prev', 'regs', 'allocas', 'dest', 'callline')

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.order[0]
        self.idx = 0
        self.prev = None
        self.regs = {}
        self.allocas = []
        self.dest = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.idx, f.prev, f.dest = self.fn, self.block, self.idx, self.prev, self.dest
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        return f


class State:
    def __init__(self):
        self.mem = {}
        self.owned = set()
        self.frames = []
        self.pc = []
        self.ret = None
        self.ghost = {}
        self.known = {}
        self.dead = False

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        self.owned = set()
        s.owned = set()
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.ret = self.ret
        s.ghost = dict(self.ghost)
        s.known = dict(self.known)
        return s

    def wr(self, oid):
        if oid not in self.owned:
            self.mem[oid] = self.mem[oid].copy()
            self.owned.add(oid)
        return self.mem[oid]

    def assume(self, c):
        if c.k == 'const':
            if not c.a:
                self.dead = True
            return
        if c.k == 'conj':
            for a in c.a:
                self.assume(a)
            return
        if c.k == 'anf' and len(c.d) == 1 and T._E not in c.d:
            (ls, m), = c.d.items()
            if all(a.w == 1 for a, s in ls):
                for a, s in ls:
                    if a not in self.pc:
                        self.pc.append(a)
                return
        if c not in self.pc:
            self.pc.append(c)


class EngineError(Exception):
    pass


class Obligation:
    __slots__ = ('kind', 'loc', 'ok', 'how', 'model', 'goal', 'pc', 'status', 'detail')

    def __init__(self, kind, loc, ok, how, goal=None, pc=None, model=None, status='', detail=''):
        self.kind, self.loc, self.ok, self.how = kind, loc, ok, how
        self.goal, self.pc, self.model, self.status, self.detail = goal, pc, model, status, detail

    def __repr__(self):
        return '%s @ %s : %s [%s] %s' % (self.kind, self.loc, 'ok' if self.ok else 'FAILED', self.how, self.detail)


class Exec:
    def __init__(self, mod, contracts=None, folds=None, check_ub=True):
        self.mod = mod
        self.contracts = contracts or []      # list of (predicate(fn), handler)
        self.folds = folds or []
        self.obls = []
        self.rec = True
        self.nobj = 1
        self.gobj = {}
        self.pw = mod.ptrw
        self.called = {}
        self.contracted = {}
        self.loops_sum = []
        self.loops_unrolled = {}
        self.steps = 0
        self.addr = {}
        self.dec = {}
        self.ub = check_ub
        self.maxsteps = 30_000_000
        self.stoponfail = False
        self._ccache = {}
        self.tstart = time.time()
        self.tlimit = None
        self.uninit_ok = False
        self.max_unroll_sym = 300

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, size, cells=None, fn=None, ro=False, align=16):
        oid = self.nobj
        self.nobj += 1
        o = Obj(name, size, cells, fn, ro, align)
        st.mem[oid] = o
        st.owned.add(oid)
        return oid

    def alloc(self, st, name, nbytes, init=None, align=16, ro=False):
        cells = [None] * nbytes if init is None else init
        return self.new_obj(st, name, nbytes, cells, None, ro, align)

    def null(self):
        return Ptr(0, const(self.pw, 0))

    def addr_of(self, p):
        if p.obj == 0:
            return p.off
        if isinstance(p.obj, str):
            b = T.var(self.pw, 'addr_' + p.obj)
        else:
            b = self.addr.get(p.obj)
            if b is None:
                b = T.var(self.pw, 'addr!%d' % p.obj)
                self.addr[p.obj] = b
        return T.add(b, p.off)

    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None and isinstance(oid, str) and oid.startswith('@'):
            o = self.glob(oid[1:])
            if o is not None:
                st.mem[oid] = o
        return o

    def glob(self, name):
        if name in self.gobj:
            return self.gobj[name]
        g = self.mod.globals.get(name)
        if g is None or g[1] is None:
            return None
        t, init, isc = g
        cells = [None] * self.mod.size(t)
        self._ginit(cells, 0, t, init)
        o = Obj('@' + name, len(cells), cells, None, isc, 16)
        self.gobj[name] = o
        return o

    def _ginit(self, cells, off, t, v):
        t = self.mod.resolve(t)
        if v[0] == 'zero' or v[0] == 'undef':
            for i in range(self.mod.size(t)):
                cells[off + i] = (const(8, 0), 0)
            if t.k == 'ptr':
                p = self.null()
                for i in range(self.pw // 8):
                    cells[off + i] = (p, i)
            return
        if v[0] == 'bytes':
            for i, b in enumerate(v[1]):
                cells[off + i] = (const(8, b), 0)
            return
        if v[0] == 'agg':
            if t.k in ('arr', 'vec'):
                es = self.mod.size(t.el)
                for i, (et, ev) in enumerate(v[1]):
                    self._ginit(cells, off + i * es, t.el, ev)
            else:
                offs, _ = self.mod.offsets(t)
                for o, et, (x, ev) in zip(offs, t.el, v[1]):
                    self._ginit(cells, off + o, et, ev)
            return
        val = self.cval(v, t)
        self._put(cells, off, val, self.mod.size(t), t)

    def _put(self, cells, off, val, n, t):
        if isinstance(val, Ptr):
            for i in range(n):
                cells[off + i] = (val, i)
            return
        if val is UNDEF:
            for i in range(n):
                cells[off + i] = None
            return
        if val.w < 8 * n:
            val = T.zext(val, 8 * n)
        if self.mod.big:
            for i in range(n):
                cells[off + i] = (val, n - 1 - i)
        else:
            for i in range(n):
                cells[off + i] = (val, i)

    # ------------------------------------------------------------ values
    def cval(self, v, t):
        k = v[0]
        if k == 'int':
            t = self.mod.resolve(t)
            if t.k == 'ptr':
                return Ptr(0, const(self.pw, v[1]))
            return const(t.w, v[1])
        if k == 'zero':
            return self.zero(v[1] if v[1].k != 'void' else t)
        if k == 'undef':
            return self.undef(t)
        if k == 'fp':
            return const(self.mod.resolve(t).w, v[1])
        if k == 'g':
            return Ptr('@' + v[1], const(self.pw, 0))
        if k == 'agg':
            return Agg([self.cval(e, et) for et, e in v[1]])
        if k == 'bytes':
            return Agg([const(8, b) for b in v[1]])
        if k == 'cgep':
            b = self.cval(v[2], ir.PTR)
            return self.gep(b, v[1], [(it, self.cval(iv, it)) for it, iv in v[3]])
        if k == 'ccast':
            x = self.cval(v[3], v[2])
            if v[1] == 'ptrtoint':
                a = self.addr_of(x)
                w = v[4].w
                return T.trunc(a, w) if w < a.w else T.zext(a, w)
            if v[1] == 'inttoptr':
                return Ptr(0, T.zext(x, self.pw))
            return x
        if k == 'cbin':
            a = self.cval(v[3], v[2])
            b = self.cval(v[4], v[2])
            return {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'xor': T.xor, 'and': T.and_, 'or': T.or_}[v[1]](a, b)
        raise EngineError('const value %r' % (v,))

    def zero(self, t):
        t = self.mod.resolve(t)
        if t.k == 'int':
            return const(t.w, 0)
        if t.k == 'ptr':
            return self.null()
        if t.k in ('float', 'double', 'x86_fp80'):
            return const(t.w, 0)
        if t.k in ('arr', 'vec'):
            return Agg([self.zero(t.el)] * t.n)
        return Agg([self.zero(e) for e in t.el])

    def undef(self, t):
        t = self.mod.resolve(t)
        if t.k in ('arr', 'vec'):
            return Agg([self.undef(t.el)] * t.n)
        if t.k == 'struct':
            return Agg([self.undef(e) for e in t.el])
        return UNDEF

    def val(self, fr, v, t):
        if v[0] == 'r':
            return fr.regs[v[1]]
        key = id(v)
        c = self._ccache.get(key)
        if c is None:
            c = (self.cval(v, t), v)
            self._ccache[key] = c
        return c[0]

    def gep(self, base, t, idx):
        off = base.off
        pw = self.pw
        first = True
        cur = t
        for it, iv in idx:
            if first:
                es = self.mod.size(cur)
                off = T.add(off, T.mulc(self._sx(iv), es))
                first = False
                continue
            cur = self.mod.resolve(cur)
            if cur.k == 'struct':
                i = iv.a
                off = T.add(off, const(pw, self.mod.offsets(cur)[0][i]))
                cur = cur.el[i]
            else:
                cur = cur.el
                off = T.add(off, T.mulc(self._sx(iv), self.mod.size(cur)))
        return Ptr(base.obj, off)

    def _sx(self, v):
        if v.w < self.pw:
            return T.sext(v, self.pw)
        if v.w > self.pw:
            return T.trunc(v, self.pw)
        return v

    # ------------------------------------------------------------ obligations
    def loc(self, st, line=0):
        if not st.frames:
            return '?'
        f = st.frames[-1].fn
        n = f.dem or f.name
        return '%s:%s' % (n, line)

    def oblige(self, st, kind, goal, line=0, detail=''):
        """prove goal under st.pc; then assume it"""
        if goal.k == 'const' and goal.a:
            if self.rec:
                self.obls.append(Obligation(kind, self.loc(st, line), True, 'canonical'))
            return True
        if not self.rec and goal.k != 'const':
            return True      # probing only: everything is proved again in the recorded pass
        r = smt.prove(st.pc, goal)
        if self.rec:
            self.obls.append(Obligation(kind, self.loc(st, line), r.ok, r.how, goal, list(st.pc), r.model, r.status, detail))
        if not r.ok:
            self.failed = True
            st.assume(goal)
            if goal.k == 'const':
                st.dead = True
        return r.ok

    def fail(self, st, kind, line=0, detail=''):
        """reached a point that must be unreachable"""
        r = smt.prove(st.pc, FALSE)
        if self.rec:
            self.obls.append(Obligation(kind, self.loc(st, line), r.ok, r.how, FALSE, list(st.pc), r.model, r.status, detail))
        st.dead = True
        return r.ok

    # ------------------------------------------------------------ memory access
    def sizeT(self, o):
        return o.size if isinstance(o.size, T.T) else const(self.pw, o.size)

    def bounds(self, st, p, n, line, what):
        """n: python int or T. Returns Obj or None"""
        if p.obj == 0 and p.off.k == 'const' and isinstance(n, int) is False:
            pass
        o = self.getobj(st, p.obj) if p.obj != 0 else None
        if o is None:
            self.fail(st, 'memory-safety: %s through a pointer to no live object' % what, line, repr(p))
            return None
        if isinstance(o.size, int) and isinstance(n, int) and p.off.k == 'const':
            if p.off.a + n <= o.size:
                if self.rec:
                    self.obls.append(Obligation('memory-safety', self.loc(st, line), True, 'canonical'))
                return o
            self.fail(st, 'memory-safety: %s out of bounds of %s' % (what, o.name), line, 'offset %d+%d of %s' % (T.tosigned(p.off.a, self.pw), n, o.size))
            return None
        if isinstance(n, int) and self.extent(st, p, n, o, line):
            return o
        sz = self.sizeT(o)
        N = n if isinstance(n, T.T) else const(self.pw, n)
        g = self.inside(p.off, N, sz)
        self.oblige(st, 'memory-safety: %s in bounds of %s' % (what, o.name), g, line)
        return None if st.dead else o

    def inside(self, off, n, sz):
        if T.umax(off) + T.umax(n) < 1 << self.pw:
            return T.ule(T.add(off, n), sz)
        return T.conj([T.ule(off, sz), T.ule(n, T.sub(sz, off))])

    def extent(self, st, p, n, o, line):
        """lemma cache: intervals [a,b) around a symbolic base proved to lie in the object"""
        if not self.rec or p.off.k == 'const':
            return False
        if isinstance(o.size, T.T) and p.off.k == 'sum' and o.size.k == 'sum' and not o.size.a[0] and T.umax(p.off) + n < 1 << self.pw:
            return False                       # whole elements: the direct goal is simple
        base, c = p.off, 0
        if p.off.k == 'sum':
            c = T.tosigned(p.off.a[0], self.pw)
            base = T.add(p.off, const(self.pw, -c))
        key = (p.obj, base)
        iv = st.known.get(key, ())
        for a, b in iv:
            if a <= c and c + n <= b:
                self.obls.append(Obligation('memory-safety', self.loc(st, line), True, 'lemma'))
                return True
        sz = self.sizeT(o)
        for k in ((128, 64, 32, 16) if not iv else (64,)):
            if k <= n:
                break
            g = self.inside(p.off, const(self.pw, k), sz)
            if g.k != 'const' and smt.prove(st.pc, g, timeout=5000, want_model=False).ok:
                st.known[key] = iv + ((c, c + k),)
                self.obls.append(Obligation('memory-safety: %d bytes readable in %s' % (k, o.name), self.loc(st, line), True, 'z3', g))
                return True
        return False

    def split(self, t, n):
        return [(t, i) for i in range(n)]

    def byte(self, cell):
        v, k = cell
        if isinstance(v, Ptr):
            a = self.addr_of(v)                # k counts in memory order
            return T.extract(a, 8 * (self.pw // 8 - 1 - k if self.mod.big else k), 8)
        if v.w == 8:
            return v
        return T.extract(v, 8 * k, 8)

    def load_cells(self, cells, t, st, line):
        """cells in memory order -> value of type t"""
        n = len(cells)
        if any(c is None for c in cells):
            return None
        v, k = cells[0]
        if isinstance(v, Ptr):
            if t.k == 'ptr' and n == self.pw // 8 and all(c[0] is v and c[1] == i for i, c in enumerate(cells)):
                return v
        if self.mod.big:
            cells = cells[::-1]
            v, k = cells[0]
        if not isinstance(v, Ptr) and k == 0 and v.w == 8 * n and all(c[0] is v and c[1] == i for i, c in enumerate(cells)):
            r = v
        else:
            r = T.concat_bytes([self.byte(c) for c in cells])
        if t.k == 'ptr':
            return self.to_ptr(r)
        if t.w < r.w:
            r = T.trunc(r, t.w)
        return r

    def to_ptr(self, r):
        # recognise addr!k + off
        if r.k == 'var' and r.a.startswith('addr'):
            for o, b in self.addr.items():
                if b is r:
                    return Ptr(o, const(self.pw, 0))
        if r.k == 'sum':
            for a, c in r.a[1]:
                if c == 1 and a.k == 'var' and a.a.startswith('addr!'):
                    for o, b in self.addr.items():
                        if b is a:
                            return Ptr(o, T.sub(r, b))
        return Ptr(0, r)

    def load(self, st, p, t, line, align=1):
        t = self.mod.resolve(t)
        if t.k in ('struct', 'arr', 'vec'):
            el = []
            if t.k == 'struct':
                offs, _ = self.mod.offsets(t)
                for o, e in zip(offs, t.el):
                    el.append(self.load(st, Ptr(p.obj, T.add(p.off, const(self.pw, o))), e, line))
                    if st.dead:
                        return UNDEF
            else:
                es = self.mod.size(t.el)
                for i in range(t.n):
                    el.append(self.load(st, Ptr(p.obj, T.add(p.off, const(self.pw, i * es))), t.el, line))
                    if st.dead:
                        return UNDEF
            return Agg(el)
        n = (t.w + 7) // 8 if t.k != 'ptr' else self.pw // 8
        o = self.bounds(st, p, n, line, 'read')
        if o is None:
            st.dead = True
            return UNDEF
        self.alignchk(st, o, p, align, line, 'read')
        if st.dead:
            return UNDEF
        cells = self.read_cells(st, o, p.off, n)
        r = self.load_cells(cells, t, st, line)
        if r is None:
            if self.uninit_ok or (isinstance(o.name, str) and o.name.startswith('agg.tmp') and all(c is None for c in cells)):
                return UNDEF                   # (an empty class passed by value in a register)
            self.fail(st, 'memory-safety: read of uninitialised memory in %s' % o.name, line)
            return UNDEF
        return r

    def alignchk(self, st, o, p, align, line, what):
        if align <= 1:
            return
        if o.align < align:
            self.fail(st, 'undefined-behaviour: misaligned %s of %s' % (what, o.name), line)
            return
        if p.off.k == 'const':
            if p.off.a % align:
                self.fail(st, 'undefined-behaviour: misaligned %s of %s' % (what, o.name), line)
            return
        g = T.eq(T.and_(p.off, const(self.pw, align - 1)), const(self.pw, 0))
        self.oblige(st, 'undefined-behaviour: alignment of %s of %s' % (what, o.name), g, line)

    def read_cells(self, st, o, off, n):
        if o.fn is not None:
            out = []
            for i in range(n):
                out.append(o.fn(T.add(off, const(self.pw, i))))
            return [(c, 0) if isinstance(c, T.T) else c for c in out]
        if off.k == 'const':
            return o.cells[off.a:off.a + n]
        # symbolic offset in a concrete-size object
        out = []
        for i in range(n):
            r = None
            any_none = False
            for j in range(o.size - 1, -1, -1):
                c = o.cells[j]
                if c is None:
                    q = T.eq(off, const(self.pw, j - i))
                    if q is FALSE:
                        continue
                    if self._possible(st, q):
                        any_none = True
                        break
                    continue
                b = self.byte(c)
                q = T.eq(off, const(self.pw, j - i))
                if q is FALSE:
                    continue
                r = b if r is None else T.ite(q, b, r)
            if any_none or r is None:
                return [None] * n
            out.append((r, 0))
        return out

    def _possible(self, st, q):
        return smt.feasible(st.pc + [q])

    def write_cells(self, st, oid, o, off, new, cond=None):
        """write list of cells at offset (memory order)"""
        if o.ro or o.cells is None:
            self.fail(st, 'memory-safety: write to read-only %s' % o.name)
            return
        o = st.wr(oid)
        if off.k == 'const':
            a = off.a
            if cond is None:
                o.cells[a:a + len(new)] = new
            else:
                for i, c in enumerate(new):
                    old = o.cells[a + i]
                    o.cells[a + i] = self.cell_ite(cond, c, old)
            return
        for j in range(o.size):
            for i, c in enumerate(new):
                q = T.eq(off, const(self.pw, j - i))
                if q is FALSE:
                    continue
                if cond is not None:
                    q = T.and_(q, cond)
                    if q is FALSE:
                        continue
                o.cells[j] = self.cell_ite(q, c, o.cells[j])

    def cell_ite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is None and b is None:
            return None
        if a is None or b is None:
            # uninitialised on one side: value is arbitrary there, keep as uninit unless the condition is later decided
            return ('maybe', c, a, b) if False else None
        if a == b:
            return a
        return (T.ite(c, self.byte(a), self.byte(b)), 0)

    def store(self, st, p, v, t, line, align=1):
        t = self.mod.resolve(t)
        if isinstance(v, Agg):
            if t.k == 'struct':
                offs, _ = self.mod.offsets(t)
                for o, e, x in zip(offs, t.el, v.el):
                    self.store(st, Ptr(p.obj, T.add(p.off, const(self.pw, o))), x, e, line)
                    if st.dead:
                        return
            else:
                es = self.mod.size(t.el)
                for i, x in enumerate(v.el):
                    self.store(st, Ptr(p.obj, T.add(p.off, const(self.pw, i * es))), x, t.el, line)
                    if st.dead:
                        return
            return
        n = (t.w + 7) // 8 if t.k != 'ptr' else self.pw // 8
        o = self.bounds(st, p, n, line, 'write')
        if o is None:
            st.dead = True
            return
        self.alignchk(st, o, p, align, line, 'write')
        if st.dead:
            return
        cells = [None] * n
        self._put(cells, 0, v, n, t)
        self.write_cells(st, p.obj, o, p.off, cells)

    def memcpy(self, st, d, s, n, line, what='memcpy', same_ok=False):
        """n: T"""
        if n.k == 'const' and n.a == 0 and what == 'intrinsic':
            return
        for p, nm in ((d, 'destination'), (s, 'source')):
            if p.obj == 0:
                if p.off.k == 'const' and p.off.a == 0:
                    self.fail(st, 'undefined-behaviour: null %s passed to %s' % (nm, what), line)
                    return
        do = self.bounds(st, d, n, line, what + ' write')
        if st.dead or do is None:
            st.dead = True
            return
        so = self.bounds(st, s, n, line, what + ' read')
        if st.dead or so is None:
            st.dead = True
            return
        if d.obj == s.obj:
            if d.off is s.off:
                return
            if what != 'memmove':
                g = T.or_(T.ule(T.add(d.off, n), s.off), T.ule(T.add(s.off, n), d.off))
                self.oblige(st, 'undefined-behaviour: %s regions do not overlap' % what, g, line)
                if st.dead:
                    return
        if n.k == 'const':
            cells = self.read_cells(st, so, s.off, n.a)
            self.write_cells(st, d.obj, do, d.off, list(cells))
            return
        if do.cells is None:
            self.fail(st, 'memory-safety: write to read-only %s' % do.name, line)
            return
        # symbolic length into a concrete-size object: cell-wise
        new = []
        src = do
        lo, hi = self.narrow(st, do, d.off, n, line)
        if st.dead:
            return
        for j in range(do.size):
            J = const(self.pw, j)
            if j < lo or j >= hi:
                new.append(do.cells[j])
                continue
            rel = T.sub(J, d.off)
            q = T.ult(rel, n)
            if q is FALSE:
                new.append(do.cells[j])
                continue
            # j - d.off < n, d.off <= j
            if d.off.k == 'const':
                if j < d.off.a:
                    new.append(do.cells[j])
                    continue
                cnd = T.ult(const(self.pw, j - d.off.a), n)
            else:
                cnd = T.and_(T.ule(d.off, J), T.ult(J, T.add(d.off, n)))
            if cnd is FALSE:
                new.append(do.cells[j])
                continue
            soff = T.add(s.off, rel)
            if so.fn is not None:
                c = so.fn(soff)
                c = (c, 0) if isinstance(c, T.T) else c
            elif soff.k == 'const':
                c = so.cells[soff.a] if 0 <= soff.a < so.size else None
                if c is None and not (0 <= soff.a < so.size):
                    new.append(do.cells[j])
                    continue
            else:
                c = self.read_cells(st, so, soff, 1)[0]
            new.append(self.cell_ite(cnd, c, do.cells[j]) if not (c is None or do.cells[j] is None) else self.cell_partial(st, cnd, c, do.cells[j]))
        o = st.wr(d.obj)
        o.cells = new

    def cell_partial(self, st, cnd, c, old):
        """one side uninitialised: decide cnd under pc if possible"""
        if c is None and old is None:
            return None
        if smt.prove(st.pc, cnd, want_model=False).ok:
            return c
        if smt.prove(st.pc, T.not_(cnd), want_model=False).ok:
            return old
        return None

    def narrow(self, st, o, off, n, line):
        """byte range of o that [off, off+n) can touch.  A write that starts in one
        member must stay in it (obligation)."""
        lo = T.umin(off)
        hi = o.size
        if o.fields:
            for fo, fs in o.fields:
                if fo <= lo < fo + fs:
                    g = T.conj([T.ule(const(self.pw, fo), off), T.ule(T.add(T.sub(off, const(self.pw, fo)), n), const(self.pw, fs))])
                    if self.oblige(st, 'memory-safety: block write stays inside one member of %s' % o.name, g, line):
                        return fo, fo + fs
        return lo, hi

    def memset(self, st, d, v, n, line):
        if n.k == 'const' and n.a == 0 and d.obj == 0:
            if d.off is const(self.pw, 0):
                self.fail(st, 'undefined-behaviour: null passed to memset', line)
            return
        do = self.bounds(st, d, n, line, 'memset')
        if st.dead or do is None:
            st.dead = True
            return
        c = (v, 0)
        if do.cells is None or do.ro:
            self.fail(st, 'memory-safety: write to read-only %s' % do.name, line)
            return
        if n.k == 'const':
            self.write_cells(st, d.obj, do, d.off, [c] * n.a)
            return
        new = []
        lo, hi = self.narrow(st, do, d.off, n, line)
        if st.dead:
            return
        for j in range(do.size):
            J = const(self.pw, j)
            if j < lo or j >= hi:
                new.append(do.cells[j])
                continue
            if d.off.k == 'const':
                if j < d.off.a:
                    new.append(do.cells[j])
                    continue
                cnd = T.ult(const(self.pw, j - d.off.a), n)
            else:
                cnd = T.and_(T.ule(d.off, J), T.ult(J, T.add(d.off, n)))
            new.append(self.cell_ite(cnd, c, do.cells[j]) if do.cells[j] is not None else self.cell_partial(st, cnd, c, None))
        o = st.wr(d.obj)
        o.cells = new

    # ------------------------------------------------------------ running
    def call_function(self, st, fn, args, dest=None):
        f = Frame(fn)
        for (t, nm, a), v in zip(fn.params, args):
            if 'byval' in a:
                sz = self.mod.size(a['byval'])
                oid = self.alloc(st, nm + '.byval', sz)
                f.allocas.append(oid)
                so = self.bounds(st, v, sz, 0, 'byval copy')
                if so is None:
                    return
                cells = self.read_cells(st, so, v.off, sz)
                st.mem[oid].cells = list(cells)
                v = Ptr(oid, const(self.pw, 0))
            f.regs[nm] = v
        f.dest = dest
        st.frames.append(f)
        k = fn.dem or fn.name
        self.called[k] = self.called.get(k, 0) + 1

    def run_fn(self, st, name, args):
        """run named function to completion from st; returns list of final states (st.ret)"""
        fn = self.mod.fns[name]
        base = len(st.frames)
        self.call_function(st, fn, args)
        res = self.run(st, None, base)
        return [s for k, s in res if k == 'ret' and not s.dead]

    def arrive(self, st, B):
        fr = st.frames[-1]
        fr.prev = fr.block
        fr.block = B
        fr.idx = 0
        # phis
        code = fr.fn.blocks[B]
        vals = []
        i = 0
        while i < len(code):
            d = self.deco(fr.fn, B, i)
            if d[0] == 'nop':
                i += 1
                continue
            if d[0] != 'phi':
                break
            for v, lb in d[4]:
                if lb == fr.prev:
                    vals.append((d[1], self.val(fr, v, d[3])))
                    break
            else:
                raise EngineError('phi without incoming')
            i += 1
        for n, v in vals:
            fr.regs[n] = v
        fr.idx = i

    def deco(self, fn, B, i):
        k = (fn.name, B, i)
        d = self.dec.get(k)
        if d is None:
            d = ir.decode(fn.blocks[B][i], self.mod)
            self.dec[k] = d
        return d

    def run(self, st, ctx, base):
        """ctx None: run until frames depth == base -> ('ret', st)
           ctx (depth, header, blocks): -> ('back'|'exit'|'ret', st)"""
        res = []
        work = [st]
        while work:
            s = work.pop()
            while not s.dead:
                r = self.step(s, ctx, base, work)
                if r is None:
                    continue
                if isinstance(r, list):
                    res.extend(r)
                    break
                res.append((r, s))
                break
        return res

    def goto(self, s, B, ctx, base, work):
        """transfer control of s to block B; returns result tag, list or None"""
        fr = s.frames[-1]
        depth = len(s.frames)
        self.arrive(s, B)
        if ctx and depth == ctx[0]:
            if B == ctx[1]:
                return 'back'
            if B not in ctx[2]:
                return 'exit'
        loops = fr.fn.loops()
        if B in loops:
            exits = self.do_loop(s, B, loops[B], base)
            out = []
            for e in exits:
                if len(e.frames) < depth:
                    # returned out of the loop
                    if ctx and len(e.frames) < ctx[0]:
                        out.append(('exit', e))
                    elif len(e.frames) == base:
                        out.append(('ret', e))
                    else:
                        work.append(e)
                    continue
                b = e.frames[-1].block
                if ctx and depth == ctx[0] and b == ctx[1]:
                    out.append(('back', e))
                elif ctx and depth == ctx[0] and b not in ctx[2]:
                    out.append(('exit', e))
                elif b in loops and e.frames[-1].fn is fr.fn and e.frames[-1].idx == self._phiend(fr.fn, b):
                    # lands on another loop header (sequential loops sharing an edge)
                    e2 = self.do_loop(e, b, loops[b], base) if b != B else [e]
                    for x in e2:
                        if len(x.frames) == depth and ctx and depth == ctx[0]:
                            bb = x.frames[-1].block
                            if bb == ctx[1]:
                                out.append(('back', x))
                                continue
                            if bb not in ctx[2]:
                                out.append(('exit', x))
                                continue
                        if len(x.frames) == base:
                            out.append(('ret', x))
                        elif ctx and len(x.frames) < ctx[0]:
                            out.append(('exit', x))
                        else:
                            work.append(x)
                else:
                    work.append(e)
            return out
        return None

    def _phiend(self, fn, B):
        i = 0
        code = fn.blocks[B]
        while i < len(code) and self.deco(fn, B, i)[0] in ('phi', 'nop'):
            if self.deco(fn, B, i)[0] == 'nop':
                j = i
                while j < len(code) and self.deco(fn, B, j)[0] == 'nop':
                    j += 1
                if self.deco(fn, B, j)[0] != 'phi':
                    return i
            i += 1
        return i

    def decide(self, s, c):
        """truth of 1-bit term under s.pc: True/False/None"""
        if c.k == 'const':
            return bool(c.a)
        if c in s.pc:
            return True
        n = T.not_(c)
        if n in s.pc:
            return False
        if not smt.feasible(s.pc + [c]):
            return False
        if not smt.feasible(s.pc + [n]):
            return True
        return None

    def step(self, s, ctx, base, work):
        fr = s.frames[-1]
        d = self.deco(fr.fn, fr.block, fr.idx)
        self.steps += 1
        if self.steps & 1023 == 0 and self.tlimit and time.time() - self.tstart > self.tlimit:
            raise EngineError('time limit')
        if self.steps > self.maxsteps:
            raise EngineError('step limit')
        op = d[0]
        if op == 'br':
            return self.goto(s, d[3], ctx, base, work)
        if op == 'cbr':
            c = self.val(fr, d[3], ir.INT(1))
            if c is UNDEF:
                self.fail(s, 'memory-safety: branch on uninitialised value', d[2])
                return None
            r = self.decide(s, c)
            if r is True:
                if c.k != 'const':
                    s.assume(c)
                return self.goto(s, d[4], ctx, base, work)
            if r is False:
                if c.k != 'const':
                    s.assume(T.not_(c))
                return self.goto(s, d[5], ctx, base, work)
            return self._split(s, [(c, d[4]), (T.not_(c), d[5])], ctx, base, work)
        if op == 'switch':
            v = self.val(fr, d[4], d[3])
            alts = []
            rest = TRUE
            for cv, lb in d[6]:
                q = T.eq(v, self.cval(cv, d[3]))
                alts.append((T.and_(rest, q), lb))
                rest = T.and_(rest, T.not_(q))
            alts.append((rest, d[5]))
            alts = [(c, l) for c, l in alts if self.decide(s, c) is not False]
            return self._split(s, alts, ctx, base, work)
        if op == 'ret':
            v = self.val(fr, d[4], d[3]) if d[3] is not None else None
            for a in fr.allocas:
                s.mem.pop(a, None)
            s.frames.pop()
            for f in self.folds:
                f.refold(self, s, False)
            if len(s.frames) == base:
                s.ret = v
                return 'ret' if not ctx else 'exit'
            if fr.dest is not None:
                s.frames[-1].regs[fr.dest] = v
            if ctx and len(s.frames) < ctx[0]:
                return 'exit'
            return None
        if op == 'call':
            fr.idx += 1
            r = self.docall(s, fr, d)
            if isinstance(r, list):
                work.extend(r)
                return []
            return None
        if op == 'unreachable':
            self.fail(s, 'undefined-behaviour: unreachable point reached', d[2])
            return None
        fr.idx += 1
        self.simple(s, fr, d)
        return None

    def _split(self, s, alts, ctx, base, work):
        out = []
        alts = [a for a in alts if a[0] is not FALSE]
        st = [(s if i == len(alts) - 1 else s.copy(), c, l) for i, (c, l) in enumerate(alts)]
        for x, c, l in st:
            x.assume(c)
            if x.dead:
                continue
            r = self.goto(x, l, ctx, base, work)
            if r is None:
                work.append(x)
            elif isinstance(r, list):
                out.extend(r)
            else:
                out.append((r, x))
        return out

    # ------------------------------------------------------------ simple instructions
    def simple(self, s, fr, d):
        op = d[0]
        line = d[2]
        regs = fr.regs
        if op == 'nop':
            return
        if op == 'load':
            p = self.val(fr, d[4], ir.PTR)
            regs[d[1]] = self.load(s, p, d[3], line, d[5])
            return
        if op == 'store':
            v = self.val(fr, d[4], d[3])
            p = self.val(fr, d[5], ir.PTR)
            self.store(s, p, v, d[3], line, d[6])
            return
        if op == 'gep':
            b = self.val(fr, d[4], ir.PTR)
            r = self.gep(b, d[3], [(it, self.val(fr, iv, it)) for it, iv in d[5]])
            if d[6] and r.off is not b.off:
                self.chk_inbounds(s, r, b, line)
            regs[d[1]] = r
            return
        if op == 'alloca':
            n = self.mod.size(d[3])
            if d[4] is not None:
                c = self.val(fr, d[4], ir.INT(64))
                if c.k != 'const':
                    raise EngineError('vla')
                n *= c.a
            if d[1] in regs and isinstance(regs[d[1]], Ptr) and regs[d[1]].obj in s.mem:
                pass
            oid = self.alloc(s, '%s' % d[1], n)
            fr.allocas.append(oid)
            regs[d[1]] = Ptr(oid, const(self.pw, 0))
            return
        if op == 'bin':
            t = self.mod.resolve(d[4])
            a = self.val(fr, d[5], t)
            b = self.val(fr, d[6], t)
            regs[d[1]] = self.binop(s, d[3], a, b, d[7], line, t)
            return
        if op == 'cast':
            t = self.mod.resolve(d[4])
            v = self.val(fr, d[5], t)
            t2 = self.mod.resolve(d[6])
            o = d[3]
            if v is UNDEF:
                regs[d[1]] = UNDEF
                return
            if o == 'zext':
                r = T.zext(v, t2.w)
            elif o == 'sext':
                r = T.sext(v, t2.w)
            elif o == 'trunc':
                r = T.trunc(v, t2.w)
            elif o == 'bitcast':
                r = v
            elif o == 'ptrtoint':
                a = self.addr_of(v)
                r = T.trunc(a, t2.w) if t2.w < a.w else T.zext(a, t2.w)
            elif o == 'inttoptr':
                r = self.to_ptr(T.zext(v, self.pw) if v.w < self.pw else T.trunc(v, self.pw))
            elif o == 'fpext':
                r = T.fop(('fpext', 32), t2.w, v)
            elif o == 'fptrunc':
                r = T.fop(('fptrunc', 64), t2.w, v)
            else:
                raise EngineError('cast ' + o)
            regs[d[1]] = r
            return
        if op == 'icmp':
            regs[d[1]] = self.icmp(s, d[3], self.val(fr, d[5], d[4]), self.val(fr, d[6], d[4]), line)
            return
        if op == 'fcmp':
            a = self.val(fr, d[5], d[4])
            b = self.val(fr, d[6], d[4])
            w = a.w
            c = d[3]
            f = lambda n, x, y: T.fop((n, w), 1, x, y)
            if c == 'oeq':
                r = f('oeq', a, b)
            elif c == 'une':
                r = f('une', a, b)
            elif c == 'olt':
                r = f('olt', a, b)
            elif c == 'ogt':
                r = f('olt', b, a)
            else:
                raise EngineError('fcmp ' + c)
            regs[d[1]] = r
            return
        if op == 'fneg':
            v = self.val(fr, d[4], d[3])
            regs[d[1]] = T.xor(v, const(v.w, 1 << (v.w - 1)))
            return
        if op == 'select':
            c = self.val(fr, d[3], ir.INT(1))
            a = self.val(fr, d[5], d[4])
            b = self.val(fr, d[6], d[4])
            regs[d[1]] = self.val_ite(s, c, a, b)
            return
        if op == 'extractvalue':
            v = self.val(fr, d[4], d[3])
            for i in d[5]:
                v = v.el[i]
            regs[d[1]] = v
            return
        if op == 'insertvalue':
            v = self.val(fr, d[4], d[3])
            e = self.val(fr, d[6], d[5])

            def ins(a, idx):
                el = list(a.el)
                el[idx[0]] = e if len(idx) == 1 else ins(el[idx[0]], idx[1:])
                return Agg(el)
            regs[d[1]] = ins(v, d[7])
            return
        if op == 'freeze':
            regs[d[1]] = self.val(fr, d[4], d[3])
            return
        raise EngineError('instruction ' + op)

    def val_ite(self, s, c, a, b):
        if c.k == 'const':
            return a if c.a else b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                return Ptr(a.obj, T.ite(c, a.off, b.off))
            r = self.decide(s, c)
            if r is True:
                return a
            if r is False:
                return b
            raise EngineError('select between different objects')
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Agg):
            return Agg([self.val_ite(s, c, x, y) for x, y in zip(a.el, b.el)])
        return T.ite(c, a, b)

    def chk_inbounds(self, s, r, b, line):
        if not self.ub:
            return
        if r.obj == 0:
            if r.off is b.off:
                return
            self.fail(s, 'undefined-behaviour: arithmetic on null or foreign pointer', line, repr(r))
            return
        o = self.getobj(s, r.obj)
        if o is None:
            if isinstance(r.obj, str):
                return
            self.fail(s, 'undefined-behaviour: arithmetic on dangling pointer', line)
            return
        if isinstance(o.size, int) and r.off.k == 'const':
            if r.off.a > o.size:
                self.fail(s, 'undefined-behaviour: pointer arithmetic leaves %s' % o.name, line)
            return
        if self.extent(s, r, 0, o, line):
            return
        self.oblige(s, 'undefined-behaviour: pointer arithmetic stays in %s' % o.name, T.ule(r.off, self.sizeT(o)), line)

    def binop(self, s, op, a, b, fl, line, t):
        if t.k in ('float', 'double'):
            if op in ('fadd', 'fsub', 'fmul'):
                return T.fop((op, t.w), t.w, a, b)
            raise EngineError(op)
        if a is UNDEF or b is UNDEF:
            self.fail(s, 'memory-safety: arithmetic on uninitialised value', line)
            return UNDEF
        w = a.w
        if op in ('add', 'sub', 'mul'):
            r = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[op](a, b)
            if self.ub and ('nsw' in fl or 'nuw' in fl):
                self.ovf(s, op, a, b, r, fl, line)
            return r
        if op == 'and':
            return T.and_(a, b)
        if op == 'or':
            return T.or_(a, b)
        if op == 'xor':
            return T.xor(a, b)
        if op in ('shl', 'lshr', 'ashr'):
            if b.k == 'const':
                if b.a >= w:
                    self.fail(s, 'undefined-behaviour: shift amount %d >= %d' % (b.a, w), line)
                    return const(w, 0)
            else:
                self.oblige(s, 'undefined-behaviour: shift amount in range', T.ult(b, const(w, w)), line)
            return {'shl': T.shlv, 'lshr': T.lshrv, 'ashr': T.ashrv}[op](a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige(s, 'undefined-behaviour: division by non-zero', T.ne(b, const(w, 0)), line)
            r = {'udiv': T.udiv, 'urem': T.urem, 'sdiv': T.sdiv, 'srem': T.srem}[op](a, b)
            if 'exact' in fl and self.ub:
                self.oblige(s, 'undefined-behaviour: exact division (pointer difference of whole elements)', T.eq(T.mul(r, b), a), line)
            return r
        raise EngineError('bin ' + op)

    def ovf(self, s, op, a, b, r, fl, line):
        w = a.w
        if a.k == 'const' and b.k == 'const':
            if 'nsw' in fl:
                x, y = T.tosigned(a.a, w), T.tosigned(b.a, w)
                z = x + y if op == 'add' else x - y if op == 'sub' else x * y
                if not -(1 << (w - 1)) <= z < (1 << (w - 1)):
                    self.fail(s, 'undefined-behaviour: signed overflow in %s' % op, line)
            if 'nuw' in fl:
                z = a.a + b.a if op == 'add' else a.a - b.a if op == 'sub' else a.a * b.a
                if not 0 <= z < (1 << w):
                    self.fail(s, 'undefined-behaviour: unsigned wrap in %s' % op, line)
            return
        W = w + 1 if op != 'mul' else 2 * w
        for f, ext in (('nsw', T.sext), ('nuw', T.zext)):
            if f in fl:
                A, B = ext(a, W), ext(b, W)
                R = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[op](A, B)
                if T.support(A) + T.support(B) < (1 << (w - 1)) and op == 'add':
                    g = TRUE
                else:
                    g = T.eq(R, ext(r, W))
                self.oblige(s, 'undefined-behaviour: no %s overflow in %s' % ('signed' if f == 'nsw' else 'unsigned', op), g, line)

    def icmp(self, s, c, a, b, line):
        if a is UNDEF or b is UNDEF:
            self.fail(s, 'memory-safety: comparison of uninitialised value', line)
            return FALSE
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a.obj == b.obj:
                a, b = a.off, b.off
                if c in ('eq', 'ne'):
                    r = T.eq(a, b)
                    return r if c == 'eq' else T.not_(r)
                # offsets inside one object compare like addresses
            else:
                if c in ('eq', 'ne'):
                    # distinct live objects / null
                    za = a.obj == 0 and a.off is const(self.pw, 0)
                    zb = b.obj == 0 and b.off is const(self.pw, 0)
                    if za or zb or (a.obj != 0 and b.obj != 0):
                        return FALSE if c == 'eq' else TRUE
                a, b = self.addr_of(a), self.addr_of(b)
        f = {'eq': T.eq, 'ne': T.ne, 'ult': T.ult, 'ule': T.ule, 'slt': T.slt, 'sle': T.sle,
             'ugt': lambda x, y: T.ult(y, x), 'uge': lambda x, y: T.ule(y, x),
             'sgt': lambda x, y: T.slt(y, x), 'sge': lambda x, y: T.sle(y, x)}[c]
        return f(a, b)

    # ------------------------------------------------------------ calls
    def docall(self, s, fr, d):
        line = d[2]
        callee = d[4]
        args = [self.val(fr, v, t) for t, v, a in d[5]]
        if callee[0] == 'g':
            name = callee[1]
        else:
            p = self.val(fr, callee, ir.PTR)
            if isinstance(p.obj, str) and p.obj.startswith('@') and p.obj[1:] in self.mod.fns:
                name = p.obj[1:]
            else:
                raise EngineError('indirect call')
        dest = d[1]
        if name.startswith('llvm.'):
            return self.intrinsic(s, fr, name, args, dest, line)
        fn = self.mod.fns.get(name)
        if fn is None:
            raise EngineError('unknown function ' + name)
        for pred, h in self.contracts:
            if pred(fn):
                r = h(self, s, fr, fn, args, dest, line)
                if r is not NotImplemented:
                    k = fn.dem or fn.name
                    self.contracted[k] = self.contracted.get(k, 0) + 1
                    return r
        if fn.decl:
            return self.extern(s, fr, fn, args, dest, line)
        # nonnull / byval handled
        if d[6] is not None:
            pass
        if len(s.frames) > 120:
            raise EngineError('call depth')
        if d[6] is not None:
            # invoke: normal destination
            raise EngineError('invoke')
        self.call_function(s, fn, args, dest)
        return None

    def extern(self, s, fr, fn, args, dest, line):
        n = fn.name
        if n == '__assert_fail':
            msg = self.cstring(s, args[0])
            self.fail(s, 'assertion: ' + (msg or '?'), line)
            return None
        if n in ('abort', '_ZSt9terminatev', '__cxa_pure_virtual', 'exit', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv') or '__throw_' in n or n == '_ZSt21__glibcxx_assert_failPKciS0_S0_':
            self.fail(s, 'abnormal termination: call to %s' % (fn.dem or n), line)
            return None
        if n in ('memcpy', 'memmove'):
            self.memcpy(s, args[0], args[1], args[2], line, n)
            if dest:
                fr.regs[dest] = args[0]
            return None
        if n == 'memset':
            self.memset(s, args[0], T.trunc(args[1], 8), args[2], line)
            if dest:
                fr.regs[dest] = args[0]
            return None
        if n == 'memcmp' or n == 'bcmp':
            return self.memcmp(s, fr, args, dest, line)
        if n == 'strlen':
            return self.strlen(s, fr, args, dest, line)
        raise EngineError('external function ' + (fn.dem or n))

    def strlen(self, s, fr, args, dest, line):
        p = args[0]
        o = self.getobj(s, p.obj)
        if o is None or o.cells is None or p.off.k != 'const':
            raise EngineError('strlen')
        i = p.off.a
        n = 0
        while True:
            b = self.byte(o.cells[i + n])
            if b.k != 'const':
                raise EngineError('strlen symbolic')
            if b.a == 0:
                break
            n += 1
        fr.regs[dest] = const(self.pw, n)

    def memcmp(self, s, fr, args, dest, line):
        a, b, n = args
        if n.k != 'const':
            raise EngineError('memcmp symbolic length')
        ao = self.bounds(s, a, n.a, line, 'memcmp read')
        if ao is None:
            return None
        bo = self.bounds(s, b, n.a, line, 'memcmp read')
        if bo is None:
            return None
        ca = self.read_cells(s, ao, a.off, n.a)
        cb = self.read_cells(s, bo, b.off, n.a)
        if any(x is None for x in ca + cb):
            self.fail(s, 'memory-safety: memcmp of uninitialised memory', line)
            return None
        # contract of memcmp: sign of the first difference
        r = T.fresh(32, 'memcmp')
        eqs = T.conj([T.eq(self.byte(x), self.byte(y)) for x, y in zip(ca, cb)])
        s.assume(T.eq(T.eq(r, const(32, 0)), eqs))
        less = FALSE
        for x, y in reversed(list(zip(ca, cb))):
            X, Y = self.byte(x), self.byte(y)
            less = T.or_(T.ult(X, Y), T.and_(T.eq(X, Y), less))
        s.assume(T.eq(T.slt(r, const(32, 0)), less))
        fr.regs[dest] = r
        return None

    def cstring(self, s, p):
        try:
            o = self.getobj(s, p.obj)
            out = bytearray()
            i = p.off.a
            while True:
                b = self.byte(o.cells[i]).a
                if b == 0:
                    break
                out.append(b)
                i += 1
            return out.decode('latin1')
        except Exception:
            return None

    def intrinsic(self, s, fr, name, args, dest, line):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(s, args[0], args[1], args[2], line, 'memmove' if 'memmove' in name else 'memcpy')
            return None
        if name.startswith('llvm.memset'):
            self.memset(s, args[0], args[1], args[2], line)
            return None
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.experimental.noalias')):
            if dest:
                fr.regs[dest] = self.null()
            return None
        if name.startswith('llvm.assume'):
            return None
        if name.startswith('llvm.expect'):
            fr.regs[dest] = args[0]
            return None
        if name.startswith('llvm.bswap'):
            v = args[0]
            n = v.w // 8
            fr.regs[dest] = T.concat_bytes([T.extract(v, 8 * i, 8) for i in range(n)][::-1])
            return None
        if name.startswith(('llvm.fshl', 'llvm.fshr')):
            a, b, c = args
            w = a.w
            if c.k != 'const':
                raise EngineError('fsh symbolic')
            k = c.a % w
            if 'fshr' in name:
                k = (w - k) % w if k else 0
                fr.regs[dest] = T.or_(T.shl(a, k), T.lshr(b, w - k)) if k else b
            else:
                fr.regs[dest] = T.xor(T._shl_bits(a, k), T.lshr(b, w - k)) if k else a
            return None
        if name.startswith('llvm.is.constant'):
            fr.regs[dest] = FALSE
            return None
        if name.startswith(('llvm.umin', 'llvm.umax')):
            a, b = args
            c = T.ult(a, b)
            fr.regs[dest] = T.ite(c, a, b) if 'umin' in name else T.ite(c, b, a)
            return None
        if '.with.overflow' in name:
            a, b = args
            w = a.w
            op = name.split('.')[1]
            ext = T.sext if op[0] == 's' else T.zext
            W = 2 * w
            f = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[op[1:]]
            r = f(a, b)
            R = f(ext(a, W), ext(b, W))
            fr.regs[dest] = Agg([r, T.ne(R, ext(r, W))])
            return None
        if name.startswith(('llvm.trap', 'llvm.ubsantrap')):
            self.fail(s, 'undefined-behaviour: trap reached', line)
            return None
        if name.startswith('llvm.objectsize'):
            fr.regs[dest] = const(64, -1)
            return None
        raise EngineError('intrinsic ' + name)

    # ------------------------------------------------------------ loops
    def do_loop(self, s, header, blocks, base):
        """s is at header (phis done). Returns list of states outside the loop."""
        fn = s.frames[-1].fn
        depth = len(s.frames)
        ctx = (depth, header, blocks)
        exits = []
        cur = [s]
        it = 0
        symit = 0
        tried = set()
        while cur:
            it += 1
            if it > MAXITER:
                raise EngineError('loop in %s not bounded' % (fn.dem or fn.name))
            nxt = []
            for x in cur:
                pre = x.copy()
                mark = len(self.obls)
                r = self.run(x, ctx, base)
                backs = [y for k, y in r if k == 'back' and not y.dead]
                exs = [y for k, y in r if k != 'back' and not y.dead]
                if backs and exs:
                    symit += 1
                    key = (fn.name, header)
                    if symit in (1, 2, 3) and len(cur) == 1:
                        sm = self.summarize(pre, ctx, base)
                        if sm is not None:
                            del self.obls[mark:]
                            self.obls.extend(sm[1])
                            exits.extend(sm[0])
                            continue
                    if symit > self.max_unroll_sym:
                        raise EngineError('loop in %s: no invariant found and more than %d iterations' % (fn.dem or fn.name, self.max_unroll_sym))
                exits.extend(exs)
                nxt.extend(backs)
            cur = self.merge(nxt)
        k = '%s/%s' % (fn.dem or fn.name, header)
        self.loops_unrolled[k] = max(self.loops_unrolled.get(k, 0), it)
        return self.merge(exits)

    def merge(self, sts):
        sts = [s for s in sts if not s.dead]
        if len(sts) <= 1:
            return sts
        out = []
        for s in sts:
            for i, o in enumerate(out):
                m = self.merge2(o, s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def merge2(self, a, b):
        if len(a.frames) != len(b.frames):
            return None
        for f, g in zip(a.frames, b.frames):
            if f.fn is not g.fn or f.block != g.block or f.idx != g.idx:
                return None
        if (a.ret is None) != (b.ret is None):
            return None
        if a.ghost.get('nomerge') or a.ghost != b.ghost:
            return None
        pcb = set(b.pc)
        common = [p for p in a.pc if p in pcb]
        cs = set(common)
        ca = T.conj([p for p in a.pc if p not in cs])
        cb = T.conj([p for p in b.pc if p not in cs])
        c = ca
        m = a.copy()
        try:
            for oid in set(a.mem) | set(b.mem):
                if oid not in a.mem or oid not in b.mem:
                    if isinstance(oid, str):
                        if oid not in m.mem:
                            m.mem[oid] = b.mem[oid]
                        continue
                    return None
                oa, ob = a.mem[oid], b.mem[oid]
                if oa is ob or oa.cells is None:
                    continue
                if oa.cells == ob.cells:
                    continue
                o = m.wr(oid)
                n = []
                i = 0
                L = len(oa.cells)
                while i < L:
                    x, y = oa.cells[i], ob.cells[i]
                    if x == y:
                        n.append(x)
                        i += 1
                        continue
                    if x is None or y is None:
                        n.append(None)
                        i += 1
                        continue
                    if isinstance(x[0], Ptr) or isinstance(y[0], Ptr):
                        if isinstance(x[0], Ptr) and isinstance(y[0], Ptr) and x[0].obj == y[0].obj and x[1] == 0 and y[1] == 0:
                            v = Ptr(x[0].obj, T.ite(c, x[0].off, y[0].off))
                            for k in range(self.pw // 8):
                                n.append((v, k))
                            i += self.pw // 8
                            continue
                        return None
                    # whole values
                    if x[0].w == y[0].w and x[0].w > 8 and x[1] == y[1]:
                        W = x[0].w // 8
                        ks = range(W - 1, -1, -1) if self.mod.big else range(W)
                        if i + W <= L and all(oa.cells[i + j] == (x[0], k) and ob.cells[i + j] == (y[0], k) for j, k in enumerate(ks)):
                            v = T.ite(c, x[0], y[0])
                            n.extend((v, k) for k in ks)
                            i += W
                            continue
                    n.append((T.ite(c, self.byte(x), self.byte(y)), 0))
                    i += 1
                o.cells = n
            for fm, fa, fb in zip(m.frames, a.frames, b.frames):
                r = {}
                for k, x in fa.regs.items():
                    if k in fb.regs:
                        y = fb.regs[k]
                        v = self.same(x, y)
                        if v:
                            r[k] = x
                        else:
                            try:
                                r[k] = self.val_ite(a, c, x, y) if not (isinstance(x, Ptr) and x.obj != y.obj) else None
                            except Exception:
                                r[k] = None
                            if r[k] is None:
                                del r[k]
                fm.regs = r
            if a.ret is not None:
                m.ret = self.val_ite(a, c, a.ret, b.ret)
        except EngineError:
            return None
        m.pc = common
        m.assume(T.disj([ca, cb]))
        return m

    def same(self, x, y):
        if x is y:
            return True
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            return x.obj == y.obj and x.off is y.off
        if isinstance(x, Agg) and isinstance(y, Agg):
            return all(self.same(p, q) for p, q in zip(x.el, y.el))
        return False

    # ---- inductive summaries
    def locs(self, a, b):
        """locations whose value differs between states a and b (same shape):
           list of (oid, off, nbytes, va, vb) ; values None when uninit"""
        out = []
        for oid in a.mem:
            if oid not in b.mem:
                continue
            oa, ob = a.mem[oid], b.mem[oid]
            if oa is ob or oa.cells is None:
                continue
            i = 0
            L = len(oa.cells)
            while i < L:
                x, y = oa.cells[i], ob.cells[i]
                if x == y or (x and y and x[1] == y[1] and self.same(x[0], y[0])):
                    i += 1
                    continue
                n = 1
                z = y if y is not None else x
                if z is not None:
                    W = self.pw // 8 if isinstance(z[0], Ptr) else z[0].w // 8
                    ks = range(W) if isinstance(z[0], Ptr) or not self.mod.big else range(W - 1, -1, -1)
                    if W > 1 and y is not None and i + W <= L and all(ob.cells[i + j] == (z[0], k) for j, k in enumerate(ks)):
                        xs = oa.cells[i:i + W]
                        if all(c is None for c in xs):
                            out.append((oid, i, W, None, z[0]))
                            i += W
                            continue
                        if xs[0] is not None and all(c is not None and c == (xs[0][0], k) for k, c in zip(ks, xs)):
                            out.append((oid, i, W, xs[0][0], z[0]))
                            i += W
                            continue
                        if not isinstance(z[0], Ptr) and all(c is not None and not isinstance(c[0], Ptr) for c in xs):
                            bs = [self.byte(c) for c in (xs[::-1] if self.mod.big else xs)]
                            out.append((oid, i, W, T.concat_bytes(bs), z[0]))
                            i += W
                            continue
                out.append((oid, i, 1, None if x is None else (x[0] if isinstance(x[0], Ptr) else self.byte(x)), None if y is None else (y[0] if isinstance(y[0], Ptr) else self.byte(y))))
                i += 1
        return out

    def readloc(self, st, oid, off, n):
        cs = st.mem[oid].cells[off:off + n]
        if any(c is None for c in cs):
            return None
        if isinstance(cs[0][0], Ptr):
            return cs[0][0]
        if self.mod.big:
            cs = cs[::-1]
        if cs[0][1] == 0 and cs[0][0].w == 8 * n and all(c == (cs[0][0], k) for k, c in enumerate(cs)):
            return cs[0][0]
        return T.concat_bytes([self.byte(c) for c in cs])

    def writeloc(self, st, oid, off, n, v):
        o = st.wr(oid)
        if v is None:
            o.cells[off:off + n] = [None] * n
            return
        if isinstance(v, Ptr) and n == 1:
            raise EngineError('pointer byte')
        cells = [None] * n
        self._put(cells, 0, v, n, None)
        o.cells[off:off + n] = cells

    def gen(self, a, b, t, depth=0):
        """anti-unify: expression e(t) with e(0)=a, e(1)=b, or None"""
        if a is b:
            return a
        if a is None or b is None:
            return None
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                o = self.gen(a.off, b.off, t)
                return None if o is None else Ptr(a.obj, o)
            return None
        if a.w != b.w:
            return None
        if depth > 40:
            return None
        d = T.sub(b, a)
        tt = T.zext(t, a.w) if a.w > t.w else T.trunc(t, a.w)
        if d.k == 'const' and (a.w > 8):
            return T.add(a, T.mulc(tt, d.a))
        if d.k == 'var' and a.w > 8:
            return T.add(a, T.mul(tt, d))
        if a.k == 'uf' and b.k == 'uf' and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            args = []
            for x, y in zip(a.a[1:], b.a[1:]):
                g = self.gen(x, y, t, depth + 1)
                if g is None:
                    return None
                args.append(g)
            return T.uf(a.a[0], a.w, *args)
        if a.k == 'sum' and b.k == 'sum' and len(a.a[1]) == len(b.a[1]):
            # sums whose terms pair up by coefficient
            r = self.gen_const(a.a[0], b.a[0], a.w, t)
            ua, ub = list(a.a[1]), list(b.a[1])
            for x, c in list(ua):
                if (x, c) in ub:
                    r = T.add(r, T.mulc(x, c))
                    ua.remove((x, c))
                    ub.remove((x, c))
            for x, c in ua:
                for q in ub:
                    if q[1] == c:
                        g = self.gen(x, q[0], t, depth + 1)
                        if g is not None:
                            r = T.add(r, T.mulc(g, c))
                            ub.remove(q)
                            break
                else:
                    return None
            return r
        if a.k == 'anf' and b.k == 'anf' and len(a.d) == len(b.d) and len(a.d) <= 64:
            r = const(a.w, 0)
            da, db = dict(a.d), dict(b.d)
            for ls in list(da):
                if ls in db and da[ls] == db[ls]:
                    r = T.xor(r, T.mk_anf(a.w, {ls: da[ls]}))
                    del da[ls], db[ls]
            for ls, m in da.items():
                done = False
                for lt, n in list(db.items()):
                    if n != m or len(ls) != len(lt):
                        continue
                    l1 = sorted(ls, key=lambda q: (q[1], q[0].id))
                    l2 = sorted(lt, key=lambda q: (q[1], q[0].id))
                    if [s for _, s in l1] != [s for _, s in l2]:
                        continue
                    p = const(a.w, m)
                    for (x, s), (y, _) in zip(l1, l2):
                        g = self.gen(x, y, t, depth + 1)
                        if g is None:
                            p = None
                            break
                        W = max(a.w, g.w)
                        g = T.zext(g, W)
                        g = T._shl_bits(g, s) if s > 0 else T.lshr(g, -s)
                        p = T.and_(p, T.trunc8safe(g, a.w))
                    if p is not None:
                        r = T.xor(r, p)
                        del db[lt]
                        done = True
                        break
                if not done:
                    return None
            return r
        if a.k == b.k and a.k in ('ite', 'mul', 'udiv', 'urem', 'ult', 'eq0') and len(a.a) == len(b.a):
            args = []
            for x, y in zip(a.a, b.a):
                g = self.gen(x, y, t, depth + 1)
                if g is None:
                    return None
                args.append(g)
            return T._BUILD[a.k](*args)
        return None

    def gen_const(self, c0, c1, w, t):
        tt = T.zext(t, w) if w > t.w else T.trunc(t, w)
        return T.add(const(w, c0), T.mulc(tt, c1 - c0))

    def refold(self, st):
        """replace values that are fold steps by their folded names"""
        for f in self.folds:
            f.refold(self, st)

    def summarize(self, s0, ctx, base):
        """Try to summarise the loop at ctx from s0. Returns (exit states, obligations) or None"""
        save = self.rec, self.obls
        try:
            return self._summarize(s0, ctx, base)
        except EngineError as e:
            if os.environ.get('DV_DEBUG'):
                print('   summarize failed:', e)
            return None
        finally:
            self.rec, self.obls = save

    def _iter(self, s, ctx, base):
        r = self.run(s, ctx, base)
        backs = self.merge([y for k, y in r if k == 'back' and not y.dead])
        exs = [y for k, y in r if k != 'back' and not y.dead]
        return backs, exs

    def _summarize(self, s0, ctx, base):
        dbg = os.environ.get('DV_DEBUG')
        fn = s0.frames[-1].fn
        header = ctx[1]
        self.rec = False
        self.obls = []
        s0 = s0.copy()
        self.refold(s0)
        b1, _ = self._iter(s0.copy(), ctx, base)
        if len(b1) != 1:
            if dbg:
                print('   no single back state', len(b1))
            return None
        s1 = b1[0]
        self.refold(s1)
        b2, _ = self._iter(s1.copy(), ctx, base)
        s2 = None
        if len(b2) == 1:
            s2 = b2[0]
            self.refold(s2)
        t = T.fresh(self.pw, 'iter')
        # phis of the header
        phis = [self.deco(fn, header, i)[1] for i in range(len(fn.blocks[header])) if self.deco(fn, header, i)[0] == 'phi']
        cand = {}
        vals0 = {}
        diffs = self.locs(s0, s1)
        if s2 is not None:
            have = {(o, f, n) for o, f, n, _, _ in diffs}
            for o, f, n, x, y in self.locs(s1, s2):
                if (o, f, n) not in have:
                    diffs.append((o, f, n, self.readloc(s0, o, f, n), self.readloc(s1, o, f, n)))
        wild = 0
        for o, f, n, x, y in diffs:
            key = ('m', o, f, n)
            vals0[key] = x
            cs = []
            g = self.gen(x, y, t)
            if g is not None and s2 is not None and x is not y:
                z = self.readloc(s2, o, f, n)
                if not self._eqv(self._at(g, t, 2), z):
                    g = None
            if g is not None:
                cs.append(g)
            if x is not None and isinstance(x, T.T):
                for fo in self.folds:
                    cs.extend(fo.guess(self, x, y, t))
            cand[key] = cs
        # bounded? decide before anything else: is the trip count small?
        for p in phis:
            x = s0.frames[-1].regs[p]
            y = s1.frames[-1].regs[p]
            key = ('p', p)
            vals0[key] = x
            g = self.gen(x, y, t)
            cand[key] = [g] if g is not None else []
        choice = {k: (c[0] if c else None) for k, c in cand.items()}
        inv = None
        for rnd in range(12):
            sg = s0.copy()
            self._install(sg, choice, vals0)
            havoc_vars = [v for v in self._havocs]
            hyps_base = list(sg.pc)
            # candidate numeric invariants
            if inv is None:
                inv = self._invcands(s0, choice, vals0, t, ctx, base)
            for h in inv:
                sg.pc.append(h)
            mark = sg.copy()
            backs, exs = self._iter(sg.copy(), ctx, base)
            if len(backs) != 1:
                if dbg:
                    print('   generic iteration: %d back states' % len(backs))
                return None
            sb = backs[0]
            self.refold(sb)
            bad = []
            sub1 = {t: T.add(t, const(t.w, 1))}
            # all locations must be covered: anything changed now but not in choice is a new location
            newloc = False
            for o, f, n, x, y in self.locs(mark, sb):
                key = ('m', o, f, n)
                cov = key in choice or any(k[0] == 'm' and k[1] == o and k[2] <= f and f + n <= k[2] + k[3] for k in choice)
                if not cov:
                    # drop overlapping narrower keys
                    for k in [k for k in choice if k[0] == 'm' and k[1] == o and not (k[2] + k[3] <= f or f + n <= k[2])]:
                        del choice[k]
                        cand.pop(k, None)
                    vals0[key] = self.readloc(s0, o, f, n)
                    g = self.gen(vals0[key], self.readloc(s1, o, f, n), t)
                    cand[key] = [g] if g is not None else []
                    choice[key] = g
                    newloc = True
            if newloc:
                continue
            for key, e in list(choice.items()):
                if e is None or e == 'uninit':
                    continue
                e1 = self._subst(e, sub1)
                if key[0] == 'm':
                    v = self.readloc(sb, key[1], key[2], key[3])
                else:
                    v = sb.frames[-1].regs.get(key[1])
                if not self._eqv(v, e1, sb.pc):
                    bad.append(key)
            badinv = []
            for h in inv:
                h1 = T.subst([h], sub1)[0]
                if not smt.prove(sb.pc, h1, want_model=False).ok:
                    badinv.append(h)
            if not bad and not badinv:
                break
            if dbg:
                print('   round', rnd, 'bad', [(k, choice[k]) for k in bad][:6], 'badinv', badinv)
            for k in bad:
                cs = cand[k]
                i = cs.index(choice[k]) if choice[k] in cs else -1
                choice[k] = cs[i + 1] if 0 <= i < len(cs) - 1 else None
            inv = [h for h in inv if h not in badinv]
        else:
            return None
        # is the loop bounded small?  then prefer plain unrolling
        limit = 260
        far = s0.copy()
        self._install(far, choice, vals0)
        for h in inv:
            far.pc.append(h)
        farpc = far.pc + [T.ule(const(t.w, limit), t)]
        # stay condition at the generic iteration
        stay = [p for p in sb.pc if p not in set(mark.pc)]
        C = T.conj(stay)
        hv = set(self._havocs)
        usable = not any(x in hv for x in T.topo([C]))
        Cprev = T.subst([C], {t: T.sub(t, const(t.w, 1))})[0] if usable else TRUE
        prevfact = T.disj([T.eq(t, const(t.w, 0)), Cprev])
        if not smt.feasible(farpc + [prevfact]) and not self._prefer_summary(choice, s0):
            if dbg:
                print('   small bound, unrolling')
            return None
        if any(k[0] == 'm' and e is None and vals0[k] is not None for k, e in choice.items()) and dbg:
            print('   havoced:', [k for k, e in choice.items() if e is None])
        # final recorded run: obligations of the body for an arbitrary iteration, and the exits
        self.rec = True
        self.obls = []
        sg = mark.copy()
        # the iteration counter is bounded by an invariant: say so in its width
        tb = None
        for h in inv:
            q = self._bounds.get(h)
            if q is None:
                continue
            b = T.umax(q)
            if b >= 1 << (t.w - 1):
                c0, l0 = T._lin(q)
                up = sum(m * T.umax(a) for a, m in l0.items() if m < 1 << (t.w - 1)) + (c0 if c0 < 1 << (t.w - 1) else 0)
                b = (1 << up.bit_length()) - 1
                if b >= 1 << (t.w - 1) or not smt.prove(s0.pc, T.ule(q, const(t.w, b)), want_model=False).ok:
                    continue
            tb = b if tb is None else min(tb, b)
        if tb is not None and tb < 1 << (t.w - 1):
            m = {t: T.zext(T.fresh(max(1, tb.bit_length()), 'iter'), t.w)}
            ch = {k: (self._subst(e, m) if e is not None and e != 'uninit' else e) for k, e in choice.items()}
            sg = s0.copy()
            self._install(sg, ch, vals0)
            for h in T.subst(list(inv), m):
                sg.assume(h)
            prevfact = T.subst([prevfact], m)[0]
        sg.assume(prevfact)
        ob = Obligation('loop-invariant: established and preserved', self.loc(s0) + '/' + header, True, 'induction', detail='%d locations, %d relations' % (len(choice), len(inv)))
        self.obls.append(ob)
        backs, exs = self._iter(sg, ctx, base)
        self.loops_sum.append((fn.dem or fn.name, header, len(choice), [str(h) for h in inv]))
        res = self.obls
        return self.merge(exs), res

    def _prefer_summary(self, choice, s0):
        return False

    def _at(self, g, t, k):
        return self._subst(g, {t: const(t.w, k)})

    def _subst(self, e, m):
        if isinstance(e, Ptr):
            return Ptr(e.obj, T.subst([e.off], m)[0])
        return T.subst([e], m)[0]

    def _eqv(self, a, b, pc=None):
        if a is None or b is None or a is UNDEF or b is UNDEF:
            return False
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.obj != b.obj:
                return False
            return self._eqv(a.off, b.off, pc)
        if a is b:
            return True
        if a.w != b.w:
            return False
        e = T.eq(a, b)
        if e.k == 'const':
            return bool(e.a)
        for f in self.folds:
            a2, b2 = f.unfold(a, b)
            if a2 is b2:
                return True
            if a2 is not a or b2 is not b:
                a, b = a2, b2
                if f.equal(a, b, pc or []):
                    return True
                return False
        if pc is None:
            return False
        return smt.prove(pc, T.eq(a, b), want_model=False).ok

    def _install(self, st, choice, vals0):
        self._havocs = []
        for k, e in choice.items():
            if k[0] == 'm':
                if e is None:
                    x = vals0[k]
                    if x is None or isinstance(x, Ptr):
                        self.writeloc(st, k[1], k[2], k[3], None)
                        continue
                    e = T.fresh(8 * k[3], 'havoc')
                    self._havocs.append(e)
                self.writeloc(st, k[1], k[2], k[3], e)
            else:
                x = vals0[k]
                if e is None:
                    if isinstance(x, T.T):
                        e = T.fresh(x.w, 'havoc')
                        self._havocs.append(e)
                    else:
                        raise EngineError('phi pointer')
                st.frames[-1].regs[k[1]] = e

    def _invcands(self, s0, choice, vals0, t, ctx, base):
        """numeric candidate invariants bounding t"""
        sg = s0.copy()
        self._install(sg, choice, vals0)
        backs, exs = self._iter(sg.copy(), ctx, base)
        if len(backs) != 1:
            return []
        extra = [p for p in backs[0].pc if p not in set(s0.pc)]
        cands = []
        self._bounds = {}
        seen = set()

        def at0(x):
            return T.subst([x], {t: const(t.w, 0)})[0]

        def at1(x):
            return T.subst([x], {t: const(t.w, 1)})[0]

        def bound(d):
            # d(t) = d0 + c*t reaching 0: t <= |d0|/|c|
            d0 = at0(d)
            dd = T.sub(at1(d), d0)
            if dd.k != 'const' or dd.a == 0:
                return
            c = T.tosigned(dd.a, d.w)
            num = T.neg(d0) if c > 0 else d0
            c = abs(c)
            num = T.zext(num, t.w) if num.w < t.w else num
            if num.w != t.w:
                return
            cc, ll = T._lin(num)
            half = 1 << (t.w - 1)
            sg = lambda v: v - (1 << t.w) if v >= half else v
            qs = []
            if c > 1 and ll and not any(sg(m) % c for m in ll.values()) and sg(cc) % c == 0:
                q = const(t.w, sg(cc) // c)
                for a, m in ll.items():
                    q = T.add(q, T.mulc(a, sg(m) // c))
                h = T.ule(t, q)
                self._bounds[h] = q
                if h not in seen and h.k != 'const':
                    seen.add(h)
                    cands.append(h)
                return
            for q in (T.udiv(num, const(t.w, c)),):
                h = T.ule(t, q)
                self._bounds[h] = q
                if h not in seen and h.k != 'const':
                    seen.add(h)
                    cands.append(h)
            if T.exact_quotient(num, c) is None:
                q = T.add(T.udiv(T.sub(num, const(t.w, 1)), const(t.w, c)), const(t.w, 1))
                h = T.ule(t, q)
                self._bounds[h] = q
                if h not in seen and h.k != 'const':
                    seen.add(h)
                    cands.append(h)
        for p in T.topo(extra):
            if p.k == 'ult':
                bound(T.sub(p.a[0], p.a[1]))
                if p.a[0].k == 'const':
                    bound(p.a[1])
                if p.a[1].k == 'const':
                    bound(p.a[0])
            elif p.k == 'slt':
                bound(T.sub(p.a[0], p.a[1]))
            elif p.k == 'eq0':
                bound(p.a[0])
        # every location counted down / up
        for k, e in choice.items():
            if isinstance(e, Ptr):
                e = e.off
                oid = vals0[k].obj
                o = s0.mem.get(oid)
                if o is not None:
                    bound(T.sub(e, self.sizeT(o)))
            if isinstance(e, T.T) and e.w == t.w:
                bound(e)
        # keep those true at t=0, drop those implied by the ones kept
        out = []
        for h in cands:
            if any(T.umax(x) < (1 << 40) and x.k == 'const' for x in ()):
                continue
            h0 = at0(h)
            if not smt.prove(s0.pc, h0, want_model=False).ok:
                continue
            if out and smt.prove(s0.pc + out, h, timeout=3000, want_model=False).ok:
                continue
            out.append(h)
        return out
