"""Lemmas over the contracts, proved in Lean and re-checked on every run; the definitions they are
about are compared with those of the contracts on sample values."""
import os, random, re, subprocess, time
import append, build, term as T, unit, sym
from term import const

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}
THEOREMS = {'Decode': ['decodable', 'injective', 'no_shift', 'nonempty'], 'Order': ['order']}


class Mod:
    """a module of its own is not needed"""
    triple = layout = ''
    big = False
    ptrw = 64


def shape(d):
    """the Lean shape of a type descriptor"""
    if isinstance(d, append.Float):
        return '(.float %d)' % d.size
    if isinstance(d, append.Parts):
        if not d.parts:
            return '.unit'
        r = shape(d.parts[-1][1])
        for e, p in reversed(d.parts[:-1]):
            r = '(.prod %s %s)' % (shape(p), r)
        return r
    return '(.scalar %d)' % d.size


def value(d, bs):
    """the Lean value with these little-endian object bytes"""
    n = int.from_bytes(bytes(bs), 'little')
    if isinstance(d, append.Float):
        if n == 1 << (8 * d.size - 1):
            n = 0
        return '⟨%d, by decide⟩' % n
    if isinstance(d, append.Parts):
        if not d.parts:
            return '()'
        vs = [value(p, bs[o:o + p.size]) for (e, p), o in zip(d.parts, d.offs)]
        r = vs[-1]
        for v in reversed(vs[:-1]):
            r = '(%s, %s)' % (v, r)
        return r
    return '⟨%d, by decide⟩' % n


def cases(seed=7, n=60):
    """(Lean term, bytes according to the contracts)"""
    rng = random.Random(seed)
    A = append

    def lay(p):
        o = 0
        p.offs = []
        for e, x in p.parts:
            if isinstance(x, A.Parts):
                lay(x)
            p.offs.append(o)
            o += x.size
        p.size = max(o, 1)
        return p
    mk = [A.u8, A.u16, A.u32, A.u64, A.f32, A.f64, lambda: lay(A.Parts('x', 'X', [])), lambda: lay(A.Parts('x', 'X', [('', A.u16()), ('', A.u8())])),
          lambda: lay(A.Parts('x', 'X', [('', A.u8()), ('', lay(A.Parts('y', 'Y', [('', A.u32()), ('', A.f32())]))), ('', lay(A.Parts('z', 'Z', [])))]))]
    out = []
    for i in range(n):
        d = mk[i % len(mk)]()
        fl = rng.choice(['l', 'b', 'x'])
        be = A.FLAV[fl][1]
        S = A.FLAV[fl][2]

        def rv():
            k = rng.randrange(5)
            bs = [rng.choice([0, 255, 128, rng.getrandbits(8)]) for _ in range(d.size)]
            if k == 0:
                bs = [0] * (d.size - 1) + [128]
            return bs
        kind = rng.choice(['one', 'range', 'array'])
        if kind == 'one':
            bs = rv()
            msg = d.msg(lambda j: const(8, bs[j]), const(64, 0), fl, False)
            lean = 'enc %d %s %s %s' % (S, str(be).lower(), shape(d), value(d, bs))
        elif kind == 'array':
            k = rng.randrange(0, 4)
            vs = [rv() for _ in range(k)]
            p = A.Parts('a', 'A', [('', d)] * k)
            p.offs = [d.size * q for q in range(k)]
            p.size = max(1, d.size * k)
            fb = [b for v in vs for b in v]
            msg = p.msg(lambda j: const(8, fb[j]), const(64, 0), fl, False)
            lean = 'enc %d %s (.array %d %s) ⟨[%s], by decide⟩' % (S, str(be).lower(), k, shape(d), ', '.join(value(d, v) for v in vs))
        else:
            k = rng.randrange(0, 4)
            vs = [rv() for _ in range(k)]
            msg = []
            for v in vs:
                msg += d.msg(lambda j: const(8, v[j]), const(64, 0), fl, False)
            msg += A.sizebytes(const(64, k), fl, False)
            lean = 'enc %d %s (.range %s) ⟨[%s], by decide⟩' % (S, str(be).lower(), shape(d), ', '.join(value(d, v) for v in vs))
        out.append((lean, [m.a for m in msg]))
    return out


def run(name):
    t0 = time.time()
    src = open(os.path.join(HERE, 'lemmas', name + '.lean')).read()
    res = []          # (label, ok, detail)
    cs = cases() if name == 'Decode' else []
    body = src + '\n' + '\n'.join('#eval IO.println s!"EV %d {%s}"' % (i, l) for i, (l, m) in enumerate(cs)) + '\n'
    p = os.path.join(build.workdir(), '%s_%d.lean' % (name, os.getpid()))
    with open(p, 'w') as f:
        f.write(body)
    try:
        r = subprocess.run(['lean', p], capture_output=True, text=True, timeout=300)
        out = r.stdout + r.stderr
        rc = r.returncode
    except subprocess.TimeoutExpired:
        out, rc = 'timeout', 1
    res.append(('the file is accepted by lean', rc == 0 and 'error' not in out and not re.search(r'\b(sorry|admit|native_decide)\b|^axiom ', src, re.M), out[-600:]))
    for th in THEOREMS[name]:
        m = re.search(r"'%s' depends on axioms: \[(.*?)\]" % th, out)
        if m:
            ax = set(x.strip() for x in m.group(1).split(','))
            res.append(('theorem %s is proved without further axioms' % th, ax <= AXIOMS, str(ax)))
        elif "'%s' does not depend on any axioms" % th in out:
            res.append(('theorem %s is proved without further axioms' % th, True, ''))
        elif 'theorem %s ' % th in src and th == 'decodable':
            res.append(('theorem %s is proved' % th, rc == 0, ''))
        else:
            res.append(('theorem %s is proved' % th, False, 'not reported'))
    got = dict((int(a), [int(x) for x in b.split(',') if x.strip()]) for a, b in re.findall(r'EV (\d+) \[(.*?)\]', out))
    for i, (l, m) in enumerate(cs):
        if i in got:
            res.append(('the lemma is about the message of the contracts: %s' % l, got[i] == m, '%s / %s' % (got[i], m)))
        else:
            res.append(('the lemma is about the message of the contracts: %s' % l, False, 'not evaluated'))
    bad = [x for x in res if not x[1]]
    return dict(unit='lemma %s' % name, obligations=len(res), discharged=len(res) - len(bad), by={'lean': len(res) - len(bad)}, kinds={'lemma': len(res)}, nfail=len(bad), called={}, contracted={}, loops=[], unrolled={},
                covered=1, assumed=['lean 4 kernel; the message of the contracts and of the lemma are compared on %d sample values' % len(cs)] if cs else ['lean 4 kernel'], wall=time.time() - t0,
                failures=[dict(obligation=a, where='lemmas/%s.lean' % name, how='lean', status=c, model=None, detail='') for a, b, c in bad[:5]], smt={})
