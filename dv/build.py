"""Building LLVM IR (and native code) from /repo's current sources for the harness wrappers."""
import os, subprocess, hashlib, tempfile, sys
import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = None


def workdir():
    global WORK
    if WORK is None:
        WORK = os.environ.get('DV_WORK')
        if not WORK:
            WORK = tempfile.mkdtemp(prefix='dvwork.', dir=os.environ.get('TMPDIR', '/tmp'))
            os.environ['DV_WORK'] = WORK
    return WORK


class BuildError(Exception):
    pass


HERE = os.path.dirname(os.path.abspath(__file__))
CROSS = ['-isystem', HERE + '/stubinc', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include/c++/13']
CE = ['-D__builtin_is_constant_evaluated()=1']
# configurations of the same sources under which the contracts are discharged
CFGS = {
    'std17': dict(std='c++17'),
    'std11': dict(std='c++11'),
    'std14': dict(std='c++14'),
    'std20': dict(std='c++20'),
    'ce': dict(std='c++17', defs=CE),
    'be64': dict(std='c++17', defs=CROSS, target='powerpc64-linux-gnu'),
    'be32': dict(std='c++17', defs=CROSS, target='powerpc-linux-gnu'),
    'le32': dict(std='c++17', defs=CROSS, target='i386-linux-gnu'),
}

IRFLAGS = ['-O0', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-fno-exceptions', '-g', '-S', '-emit-llvm']


def compile_ir(src, std='c++17', defs=(), target=None, tag=''):
    """src: C++ text.  Returns an ir.Module for it."""
    key = hashlib.sha1(repr((src, std, tuple(defs), target, tag)).encode()).hexdigest()[:16]
    d = workdir()
    cpp = os.path.join(d, key + '.cpp')
    ll = os.path.join(d, key + '.ll')
    if not os.path.exists(ll):
        tmp = '%s.%d' % (cpp, os.getpid())
        with open(tmp + '.cpp', 'w') as f:
            f.write(src)
        cmd = ['clang++-18', '-std=' + std] + IRFLAGS + list(defs)
        if target:
            cmd += ['--target=' + target]
        cmd += ['-I', REPO + '/include', tmp + '.cpp', '-o', tmp + '.ll']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('harness does not compile: %s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
        os.replace(tmp + '.ll', ll)
        os.replace(tmp + '.cpp', cpp)
    m = ir.Module(open(ll).read())
    m.path = ll
    return m


HASHER_SRC = r'''
#include <boost/hash2/%(hdr)s>
#include <new>
#include <cstdint>
#include <cstddef>
using namespace boost::hash2;
typedef %(cls)s X;
extern "C" {
std::size_t h_sizes[2] = { sizeof(X), sizeof(X::result_type) };
void h_default(X* s){ ::new(static_cast<void*>(s)) X(); }
void h_seed(X* s, std::uint64_t n){ ::new(static_cast<void*>(s)) X(n); }
void h_key(X* s, unsigned char const* p, std::size_t n){ ::new(static_cast<void*>(s)) X(p, n); }
void h_update(X* s, void const* p, std::size_t n){ s->update(p, n); }
%(updatec)s
%(seed2)s
void h_result(X* s, X::result_type* r){ ::new(static_cast<void*>(r)) X::result_type(s->result()); }
void h_copy(X* d, X const* s){ ::new(static_cast<void*>(d)) X(*s); }
void h_assign(X* d, X const* s){ *d = *s; }
}
'''
SEED2 = 'void h_seed2(X* s, std::uint64_t a, std::uint64_t b){ ::new(static_cast<void*>(s)) X(a, b); }'
UPDC = 'void h_updatec(X* s, unsigned char const* p, std::size_t n){ s->update(p, n); }'


def hasher_ir(hdr, cls, std='c++17', defs=(), target=None, updc=True, seed2=False):
    return compile_ir(HASHER_SRC % dict(hdr=hdr, cls=cls, seed2=SEED2 if seed2 else '', updatec=UPDC if updc else ''), std, defs, target)


_mods = {}


def hasher(mc, cfg='std17'):
    """module of the harness for one algorithm under a configuration (cached per process)"""
    k = (mc.cls, cfg)
    if k not in _mods:
        c = CFGS[cfg]
        _mods[k] = hasher_ir(mc.hdr, mc.cls, c.get('std', 'c++17'), c.get('defs', ()), c.get('target'), seed2=getattr(mc, 'seed2', False))
        _mods[k].ce = c.get('defs') is CE
    return _mods[k]


def closure(mod, fn):
    """normalised text of everything reachable from fn (for recognising identical code)"""
    import re
    seen, todo = [], [fn]
    while todo:
        f = todo.pop()
        if f in seen or f not in mod.fns:
            continue
        seen.append(f)
        F = mod.fns[f]
        for b in (F.blocks or {}).values():
            for l in b:
                for g in re.findall(r'@"?([A-Za-z0-9_.$]+)', l):
                    if g in mod.fns and g not in seen:
                        todo.append(g)
    out = [mod.triple, mod.layout]
    gl = set()
    for f in sorted(seen):
        if f.startswith('llvm.dbg'):
            continue
        F = mod.fns[f]
        out.append(f if f != fn else '<root>')
        for k, b in (F.blocks or {}).items():
            out.append(str(k) + ':')
            for l in b:
                if 'llvm.dbg' in l or '#dbg_' in l:
                    continue
                l = re.sub(r',? ![a-zA-Z0-9._]+(?=[ ,]|$)', '', l)
                for g in re.findall(r'@"?([A-Za-z0-9_.$]+)', l):
                    if g in mod.globals and g not in gl:
                        gl.add(g)
                        out.append(g + '=' + repr(mod.globals[g]))
                l = re.sub(r'%"?(class|struct)\.boost::hash2::[a-z0-9_]*(\.[0-9]+)?"?', '%cls', l)
                out.append(l.strip())
    return hashlib.sha1('\n'.join(out).encode()).hexdigest()[:16]
