"""Contract of the block function (transform).

   transform(words, block)   requires  block readable for N bytes, words readable and writable
                             ensures   words' == STEP(words, block), nothing else written

The block function is recognised by what it does, not by its name: a function with two pointer
parameters, reachable from update, that (in one of the possible roles of its parameters)
turns the chaining words into something that depends on both the words and the block.  STEP is
an uninterpreted function in the callers' proofs; u_step discharges the contract for the
body, and at level 'std' also proves that STEP is the published compression function."""
import copy, random
import term as T, ir, sym, smt, build
from term import const
from specs.alg import IntAlg, TermAlg
from unit import Unit, find_layout, need

V = T.var
ROLES = [('this', 'block'), ('block', 'words'), ('words', 'block'), ('block', 'this')]


def abstract(mc):
    """the machine with an uninterpreted compression function"""
    a = copy.copy(mc)
    base = mc.name.replace('sha2_512_224', 'sha2_512').replace('sha2_512_256', 'sha2_512').replace('sha2_384', 'sha2_512').replace('sha2_224', 'sha2_256')

    def step(A, words, block):
        return [T.uf('STEP!%s!%d' % (base, i), mc.w, *(list(words) + list(block))) for i in range(mc.k)]
    a.step = step
    a.abstracted = True
    return a


def setup(mc, rep, ex, st, role, ws, blk):
    """-> (args, base object, [word offsets], oid of block)"""
    z = const(ex.pw, 0)
    if 'this' in role:
        oid = ex.alloc(st, 'this', rep.size, align=rep.align)
        st.mem[oid].fields = [(o, s) for _, o, s, _ in rep.fields]
        for i in range(rep.size):
            st.mem[oid].cells[i] = (V(8, 'rest%d' % i), 0)
        offs = [o for o, _ in rep.words]
        p = sym.Ptr(oid, z)
    else:
        wb = mc.w // 8
        oid = ex.alloc(st, 'words', wb * mc.k, align=wb)
        offs = [i * wb for i in range(mc.k)]
        p = sym.Ptr(oid, z)
    for o, w in zip(offs, ws):
        ex.writeloc(st, oid, o, mc.w // 8, w)
    b = ex.alloc(st, 'block', mc.N, [(x, 0) for x in blk], align=1, ro=True)
    args = [sym.Ptr(b, z) if r == 'block' else p for r in role]
    return args, oid, offs, b


def trial(mc, mod, rep, fname, role):
    """concrete runs: does it look like a block function in this role?"""
    rng = random.Random(5)
    res = []
    w0 = [rng.getrandbits(mc.w) for _ in range(mc.k)]
    b0 = [rng.getrandbits(8) for _ in range(mc.N)]
    w1 = [rng.getrandbits(mc.w) for _ in range(mc.k)]
    b1 = [rng.getrandbits(8) for _ in range(mc.N)]
    for w, b in ((w0, b0), (w1, b0), (w0, b1)):
        ex = sym.Exec(mod, [], [])
        ex.tlimit = 20
        st = sym.State()
        args, oid, offs, bo = setup(mc, rep, ex, st, role, [const(mc.w, x) for x in w], [const(8, x) for x in b])
        try:
            outs = ex.run_fn(st, fname, args)
        except Exception:
            return False
        if len(outs) != 1 or any(not o.ok for o in ex.obls):
            return False
        got = [ex.readloc(outs[0], oid, o, mc.w // 8) for o in offs]
        if any(not isinstance(g, T.T) or g.k != 'const' for g in got):
            return False
        got = [g.a for g in got]
        if any(g == x for g, x in zip(got, w)):
            return False
        res.append(got)
    return all(x != y for x, y in zip(res[0], res[1])) and all(x != y for x, y in zip(res[0], res[2]))


def find_steps(mc, mod, root='h_update'):
    """[(function name, role)]"""
    rep = find_layout(mc, mod)
    seen, todo = [], [root]
    import re
    while todo:
        f = todo.pop()
        if f in seen or f not in mod.fns:
            continue
        seen.append(f)
        for b in (mod.fns[f].blocks or {}).values():
            for l in b:
                if 'call' in l:
                    for g in re.findall(r'@"?([A-Za-z0-9_.$]+)', l):
                        if g in mod.fns and g not in seen:
                            todo.append(g)
    out = []
    for f in seen:
        F = mod.fns[f]
        if F.decl or f.startswith('h_') or f.startswith('llvm.'):
            continue
        if len(F.params) != 2 or any(ir_ptr(t) is False for t, _, _ in F.params) or str(F.ret) != 'void':
            continue
        for role in ROLES:
            if trial(mc, mod, rep, f, role):
                out.append((f, role))
                break
    return out


def ir_ptr(t):
    return str(t) == 'ptr'


def contracts(mc, mod, steps):
    """the contract handlers used while verifying the callers"""
    amc = abstract(mc)
    rep = find_layout(mc, mod)
    wb = mc.w // 8
    out = []
    for fname, role in steps:
        def h(ex, st, fr, fn, args, dest, line, role=role):
            bi = role.index('block')
            pb, pw = args[bi], args[1 - bi]
            o = ex.bounds(st, pb, mc.N, line, 'block function reads')
            if o is None:
                return None
            cs = ex.read_cells(st, o, pb.off, mc.N)
            if any(c is None for c in cs):
                ex.fail(st, 'memory-safety: block function reads uninitialised memory', line)
                return None
            blk = [ex.byte(c) for c in cs]
            if pw.off.k != 'const':
                raise sym.EngineError('block function on an object at a symbolic address')
            base = pw.off.a
            need_ = rep.size if role[1 - bi] == 'this' else wb * mc.k
            if ex.bounds(st, pw, need_, line, 'block function updates') is None:
                return None
            offs = [base + (rep.words[i][0] if role[1 - bi] == 'this' else wb * i) for i in range(mc.k)]
            ws = [ex.readloc(st, pw.obj, q, wb) for q in offs]
            if any(w is None for w in ws):
                ex.fail(st, 'memory-safety: block function reads uninitialised chaining words', line)
                return None
            for q, v in zip(offs, amc.step(None, ws, blk)):
                ex.writeloc(st, pw.obj, q, wb, v)
            return None
        out.append(((lambda f, n=fname: f.name == n), h))
    return out


def u_step(mc, mod, fname, role, std):
    F = mod.fns[fname]
    u = Unit('%s [block function]' % (F.dem or fname), mod)
    rep = find_layout(mc, mod)
    ex = u.exec([])
    st = u.st
    ws = [V(mc.w, 's%d' % i) for i in range(mc.k)]
    blk = [V(8, 'x%d' % j) for j in range(mc.N)]
    u.inputs.update(words=ws, block=blk)
    args, oid, offs, b = setup(mc, rep, ex, st, role, ws, blk)
    before = list(st.mem[oid].cells)
    outs = u.run(fname, args)
    wb = mc.w // 8
    mine = set(q + j for q in offs for j in range(wb))
    names = set(t.a for t in ws + blk)
    for o in outs:
        got = [need(ex.readloc(o, oid, q, wb), mc.w) for q in offs]
        dep = [t.a for t in T.topo(got) if t.k == 'var' and t.a not in names]
        u.add('postcondition: new words are a function of old words and block', not dep, 'canonical', 'depends on %s' % dep[:3])
        u.add('frame: nothing but the chaining words is written', all(o.mem[oid].cells[i] == before[i] for i in range(len(before)) if i not in mine), 'canonical', 'other members changed')
        if std:
            u.prove_eqs(o, 'compression function', got, mc.step(TermAlg(mc.w), ws, blk))
    u.cover(outs)
    return u.done()
