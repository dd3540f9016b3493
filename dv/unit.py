"""A verification unit: one function of the real code against its contract."""
import os, random, re, time, traceback
import term as T, sym, smt, sweep, ir, lineq
from term import const

DEADLINE = [None]          # absolute time after which no new obligation is attempted


class Layout(Exception):
    pass


class Rep:
    """where the abstract state lives in the object (from DWARF)"""
    def __init__(self):
        self.words, self.buf, self.m, self.n = [], None, None, None
        self.size, self.align, self.fields = 0, 8, []
        self.be = False

    def put_word(self, ex, st, oid, i, v):
        o, s = self.words[i]
        ex.writeloc(st, oid, o, s, v)

    def word(self, ex, st, oid, i, base=0):
        o, s = self.words[i]
        return need(ex.readloc(st, oid, base + o, s), 8 * s)

    def put_buf(self, ex, st, oid, j, v):
        ex.writeloc(st, oid, self.buf[0] + j, 1, v)

    def getbuf(self, ex, st, oid, j, base=0):
        return need(ex.readloc(st, oid, base + self.buf[0] + j, 1), 8)

    def _fit(self, v, s):
        return T.trunc(v, 8 * s) if v.w > 8 * s else T.zext(v, 8 * s) if v.w < 8 * s else v

    def put_m(self, ex, st, oid, v):
        if self.m:
            ex.writeloc(st, oid, self.m[0], self.m[1], self._fit(v, self.m[1]))

    def put_n(self, ex, st, oid, v):
        if self.n:
            ex.writeloc(st, oid, self.n[0], self.n[1], self._fit(v, self.n[1]))

    def getm(self, ex, st, oid, base=0):
        v = need(ex.readloc(st, oid, base + self.m[0], self.m[1]), 8 * self.m[1])
        return T.zext(v, 64) if v.w < 64 else v

    def getn(self, ex, st, oid, base=0):
        return need(ex.readloc(st, oid, base + self.n[0], self.n[1]), 8 * self.n[1])


_un = [0]


def need(v, w):
    """a cell value that is not initialised becomes an arbitrary fresh value (so any claim about it fails)"""
    if isinstance(v, T.T):
        return v
    _un[0] += 1
    return T.var(w, 'uninit!%d' % _un[0])


def global_int(mod, name, i):
    t, init, _ = mod.globals[name]
    return init[1][i][1][1]


def count_roles(mc, mod, r, rest):
    """which member counts the pending bytes and which all bytes: by what a concrete run
    (default construction, then an update of one block and three bytes) leaves there"""
    want = {3: [], mc.N + 3: []}
    try:
        ex = sym.Exec(mod, [], [])
        ex.tlimit = 60
        st = sym.State()
        z = const(mod.ptrw, 0)
        oid = ex.alloc(st, 'this', r.size, align=8)
        st = ex.run_fn(st, 'h_default', [sym.Ptr(oid, z)])[0]
        b = ex.alloc(st, 'in', mc.N + 3, [(const(8, 7 * i & 255), 0) for i in range(mc.N + 3)], align=1, ro=True)
        st = ex.run_fn(st, 'h_update', [sym.Ptr(oid, z), sym.Ptr(b, z), const(mod.ptrw, mc.N + 3)])[0]
        for f in rest:
            v = ex.readloc(st, oid, f[1], f[2])
            if isinstance(v, T.T) and v.k == 'const' and v.a in want:
                want[v.a].append(f)
    except Exception:
        pass
    nm, nn = want[3], want[mc.N + 3]
    if len(nm) + len(nn) == len(rest) and len(nm) <= 1 and len(nn) <= 1:
        return nm, nn
    nm = [f for f in rest if re.match(r'^_?m_?$', f[0])]
    nn = [f for f in rest if re.match(r'^_?n_?$', f[0])]
    return nm, nn


def find_layout(mc, mod):
    c = getattr(mod, '_lay', None)
    if c is None:
        c = mod._lay = _find_layout(mc, mod)
    return c


def _find_layout(mc, mod):
    fs = mod.fields(mc.dwarf)
    if not fs:
        raise Layout('class layout of %s not found in the debug information' % mc.cls)
    r = Rep()
    r.fields = fs
    r.size = global_int(mod, 'h_sizes', 0)
    r.align = max((mod.align(ir.Ty('int', 64)) if '64' in t else 4 if '32' in t else 1) for _, o, s, t in fs)
    wb = mc.w // 8
    cand = []
    bufs = [f for f in fs if f[3].startswith('u8[') and f[2] == mc.N]
    if mc.kind == 'fnv':
        bufs = []
    rest = []
    nwords = 0
    for f in sorted(fs, key=lambda f: f[1]):
        name, o, s, t = f
        if bufs and f is bufs[0]:
            r.buf = (o, s)
            continue
        if nwords < mc.k and t.startswith('u%d' % mc.w):
            cnt = s // wb
            if t.endswith('[]') or s == wb:
                for i in range(cnt):
                    r.words.append((o + i * wb, wb))
                nwords += cnt
                continue
        rest.append(f)
    if len(r.words) != mc.k:
        raise Layout('chaining words of %s not identified: %s' % (mc.cls, fs))
    if mc.kind != 'fnv':
        if not r.buf:
            raise Layout('block buffer of %s not identified: %s' % (mc.cls, fs))
        nm, nn = count_roles(mc, mod, r, rest)
        if nm:
            r.m = (nm[0][1], nm[0][2])
        if nn:
            r.n = (nn[0][1], nn[0][2])
        left = [f for f in rest if f not in nm[:1] + nn[:1]]
        if left or not (r.m or r.n):
            raise Layout('unknown members of %s: %s' % (mc.cls, left))
    elif rest:
        raise Layout('unknown members of %s: %s' % (mc.cls, rest))
    r.bigend = getattr(mod, 'be', False)
    return r


class Unit:
    def __init__(self, name, mod, contracts=()):
        self.name, self.mod, self.contracts = name, mod, list(contracts)
        self.obls = []
        self.inputs = {}
        self.ex = None
        self.st = None
        self.covered = 0
        self.precond = 0
        self.called = {}
        self.contracted = {}
        self.loops = []
        self.assumed = []
        self.unroll = {}
        self.t0 = time.time()
        self.labels = {}
        self.models = []

    def exec(self, folds=(), contracts=None):
        self._absorb()
        self.ex = sym.Exec(self.mod, list(self.contracts if contracts is None else contracts), list(folds))
        self.ex.tlimit = None if DEADLINE[0] is None else DEADLINE[0] - time.time()
        self.st = sym.State()
        return self.ex

    def _absorb(self):
        ex = self.ex
        if ex is None:
            return
        for o in ex.obls:
            self.obls.append((o.kind, o.loc, o.ok, o.how, o.status, self._model(o), o.detail))
        ex.obls = []
        for k, v in ex.called.items():
            self.called[k] = self.called.get(k, 0) + v
        for k, v in ex.contracted.items():
            self.contracted[k] = self.contracted.get(k, 0) + v
        self.loops += ex.loops_sum
        self.unroll.update(ex.loops_unrolled)

    def _model(self, o):
        if o.ok or o.model is None:
            return None
        return self.eval_inputs(o.model)

    def eval_inputs(self, m):
        r = {}
        for k, t in self.inputs.items():
            try:
                if callable(t):
                    r[k] = t(lambda x: smt.model_eval(m, x))
                elif isinstance(t, list):
                    r[k] = [smt.model_eval(m, x) for x in t]
                else:
                    r[k] = smt.model_eval(m, t)
            except Exception as e:
                r[k] = None
        return r

    def run(self, fn, args):
        self.precond += 1
        r = smt.feasible(self.st.pc)
        if not r:
            self.obls.append(('vacuity: precondition satisfiable', self.name, False, 'z3', 'contradictory precondition', None, ''))
        return self.ex.run_fn(self.st, fn, args)

    def cover(self, outs):
        """vacuity guard: some final state is reachable, so that 'false' is not provable there"""
        ok = any(smt.feasible(o.pc) for o in outs)
        self.obls.append(('vacuity: a final state is reachable (the assertion false fails there)', self.name, ok, 'z3', '' if ok else 'no reachable final state', None, ''))
        self.covered += len(outs)

    def byte(self, o, oid, i):
        return need(self.ex.readloc(o, oid, i, 1), 8)

    def add(self, kind, ok, how, status='', model=None, detail=''):
        self.obls.append((kind, self.name, ok, how, status, model, detail))

    def late(self):
        return DEADLINE[0] is not None and time.time() > DEADLINE[0]

    def prove(self, o, label, goal):
        kind = 'postcondition: ' + label
        if goal.k == 'const' and goal.a:
            self.add(kind, True, 'canonical')
            return True
        if self.late():
            self.add(kind, False, 'undecided', 'time limit')
            return False
        r = smt.prove(o.pc, goal)
        self.add(kind, r.ok, r.how, r.status, self.eval_inputs(r.model) if r.model is not None else None, T.show(goal)[:400] if not r.ok else '')
        return r.ok

    def prove_all(self, o, label, goals):
        kind = 'postcondition: ' + label
        todo = []
        for g in goals:
            if g.k == 'const' and g.a:
                self.add(kind, True, 'canonical')
            else:
                todo.append(g)
        if todo:
            rest = []
            for g in lineq.simplify(o.pc, todo):
                if g.k == 'const' and g.a:
                    self.add(kind, True, 'canonical modulo path equalities')
                else:
                    rest.append(g)
            todo = rest
        if not todo:
            return True
        if self.late():
            self.add(kind, False, 'undecided', 'time limit')
            return False
        r = smt.prove(o.pc, T.conj(todo), timeout=40000)
        if r.ok:
            for g in todo:
                self.add(kind, True, r.how)
            return True
        if r.status == 'solver: unknown':
            bad = 0
            for g in todo:
                q = smt.prove(o.pc, g)
                bad += not q.ok
                self.add(kind, q.ok, q.how, q.status, self.eval_inputs(q.model) if q.model is not None else None)
                if bad or self.late():
                    break
            return not bad
        self.add(kind, False, r.how, r.status, self.eval_inputs(r.model) if r.model is not None else None, '')
        return False

    def prove_eqs(self, o, label, got, want, kind=None):
        """got[i] == want[i] for word/byte terms: canonical identity, SAT sweeping, then the solver"""
        k = 'postcondition: ' + label
        todo = []
        for i, (a, b) in enumerate(zip(got, want)):
            if a is b:
                self.add('%s[%d]' % (k, i), True, 'canonical')
            else:
                todo.append((i, a, b))
        if len(got) != len(want):
            self.add(k, False, 'shape', 'lengths differ')
            return False
        if not todo:
            return True
        if self.late():
            self.add(k, False, 'undecided', 'time limit')
            return False
        cex = self.simulate(o, [a for _, a, _ in todo], [b for _, _, b in todo])
        if cex is not None:
            self.add('%s[%d]' % (k, todo[0][0]), False, 'evaluation', 'countermodel', cex, 'differs')
            return False
        small = all(len(T.topo([a, b])) < 60 for _, a, b in todo)
        if small or not sweep.equal([a for _, a, _ in todo], [b for _, _, b in todo], o.pc, budget=90):
            ok = True
            for i, a, b in todo:
                if small:
                    if smt.check_sat(list(o.pc) + [T.not_(T.eq(a, b))], 1500)[0] == 'unknown' and sweep.equal([a], [b], o.pc, budget=60):
                        self.add('%s[%d]' % (k, i), True, 'sweep')
                        continue
                r = smt.prove(o.pc, T.eq(a, b), timeout=30000 if ok else 3000)
                ok = ok and r.ok
                self.add('%s[%d]' % (k, i), r.ok, r.how, r.status, self.eval_inputs(r.model) if r.model is not None else None, '')
                if not r.ok:
                    break
            return ok
        for i, a, b in todo:
            self.add('%s[%d]' % (k, i), True, 'sweep')
        return True

    def simulate(self, o, xs, ys, tries=12):
        """random valuations satisfying the path condition; a differing one is a countermodel"""
        roots = list(xs) + list(ys)
        extra = list(self.inputs.values())
        ins = []
        for t in extra:
            if isinstance(t, T.T):
                ins.append(t)
            elif isinstance(t, list):
                ins += [x for x in t if isinstance(x, T.T)]
        rng = random.Random(7)
        for _ in range(tries):
            env = Env(rng.getrandbits(64))
            try:
                pv = T.evaluate(list(o.pc), env, {'__uf__': env.uf})
                if not all(pv):
                    continue
                v = T.evaluate(roots, env, {'__uf__': env.uf})
            except Exception:
                return None
            n = len(xs)
            if any(v[i] != v[n + i] for i in range(n)):
                try:
                    iv = dict(zip(ins, T.evaluate(ins, env, {'__uf__': env.uf}))) if ins else {}
                except Exception:
                    iv = {}
                r = {}
                for k, t in self.inputs.items():
                    if isinstance(t, T.T):
                        r[k] = iv.get(t)
                    elif isinstance(t, list):
                        r[k] = [iv.get(x) for x in t]
                return r
        return None

    def done(self):
        self._absorb()
        fails = [dict(obligation=k, where=w, how=h, status=s, model=m, detail=d) for k, w, ok, h, s, m, d in self.obls if not ok]
        hows = {}
        kinds = {}
        for k, w, ok, h, s, m, d in self.obls:
            if ok:
                hows[h] = hows.get(h, 0) + 1
            kk = k.split(':')[0]
            kinds[kk] = kinds.get(kk, 0) + 1
        return dict(unit=self.name, obligations=len(self.obls), discharged=sum(1 for o in self.obls if o[2]), by=hows, kinds=kinds,
                    failures=fails[:12], nfail=len(fails), called=self.called, contracted=self.contracted, loops=[str(x) for x in self.loops][:40],
                    unrolled={str(k): v for k, v in self.unroll.items()} if isinstance(self.unroll, dict) else {}, covered=self.covered,
                    assumed=self.assumed, wall=time.time() - self.t0)


class Env(dict):
    def __init__(self, seed):
        self.seed = seed

    def __contains__(self, k):
        return True

    def __missing__(self, k):
        return random.Random('%d/%s' % (self.seed, k.a if isinstance(k, T.T) else k)).getrandbits(64)

    def get(self, k, d=None):
        return self[k]

    def uf(self, name, w, *args):
        return random.Random('%d/%s/%s' % (self.seed, name, args)).getrandbits(w)


def run_unit(f, *args, **kw):
    """never raises: an engine limit is an undischarged obligation"""
    t0 = time.time()
    s0 = dict(smt.stats.__dict__)
    name = '%s%s' % (f.__name__, tuple(str(getattr(a, 'name', a))[:40] for a in args if not hasattr(a, 'fns')))
    try:
        r = f(*args, **kw)
    except RecursionError as e:
        r = None
        err = 'recursion limit'
    except Exception as e:
        r = None
        tb = traceback.format_exc().strip().split('\n')
        err = '%s: %s @ %s' % (type(e).__name__, str(e)[:300], tb[-3].strip() if len(tb) > 3 else '')
    if r is None:
        r = dict(unit=name, obligations=1, discharged=0, by={}, kinds={}, nfail=1, called={}, contracted={}, loops=[], unrolled={}, covered=0, assumed=[], wall=time.time() - t0,
                 failures=[dict(obligation='unit could not be completed', where=name, how='undecided', status=err, model=None, detail='')])
    r['smt'] = {k: v - s0.get(k, 0) if isinstance(v, (int, float)) else v for k, v in smt.stats.__dict__.items()}
    return r
