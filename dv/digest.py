"""boost::hash2::digest under contract: construction, access, comparison, hexadecimal forms."""
import re
import term as T, build, unit, sym, smt
from term import const
from unit import Unit, need
from sym import Ptr

import append
V = append.V
NS = [1, 2, 7, 8, 16, 20, 28, 32, 48, 64]

SRC = r'''
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <boost/hash2/digest.hpp>
#include <new>
#include <string>
#include <ostream>
using namespace boost::hash2;
extern "C" {
void str_get( std::string const* s, char const** p, std::size_t* n ) { *p = s->data(); *n = s->size(); }
%s
}
'''
PER = r'''
extern std::size_t const sz_%(N)d; std::size_t const sz_%(N)d = sizeof( digest<%(N)d> );
void default_%(N)d( digest<%(N)d>* d ) { ::new( static_cast<void*>( d ) ) digest<%(N)d>(); }
void value_%(N)d( digest<%(N)d>* d ) { ::new( static_cast<void*>( d ) ) digest<%(N)d>{}; }
void plain_%(N)d( digest<%(N)d>* d ) { ::new( static_cast<void*>( d ) ) digest<%(N)d>; }
void array_%(N)d( digest<%(N)d>* d, unsigned char const* p ) { ::new( static_cast<void*>( d ) ) digest<%(N)d>( reinterpret_cast<unsigned char const (&)[ %(N)d ]>( *p ) ); }
void copy_%(N)d( digest<%(N)d>* d, digest<%(N)d> const* s ) { ::new( static_cast<void*>( d ) ) digest<%(N)d>( *s ); }
void assign_%(N)d( digest<%(N)d>* d, digest<%(N)d> const* s ) { *d = *s; }
bool eq_%(N)d( digest<%(N)d> const* a, digest<%(N)d> const* b ) { return *a == *b; }
bool ne_%(N)d( digest<%(N)d> const* a, digest<%(N)d> const* b ) { return *a != *b; }
unsigned char const* cdata_%(N)d( digest<%(N)d> const* d ) { return d->data(); }
unsigned char const* cbegin_%(N)d( digest<%(N)d> const* d ) { return d->begin(); }
unsigned char const* cend_%(N)d( digest<%(N)d> const* d ) { return d->end(); }
unsigned char const* cfront_%(N)d( digest<%(N)d> const* d ) { return &d->front(); }
unsigned char const* cback_%(N)d( digest<%(N)d> const* d ) { return &d->back(); }
unsigned char const* cindex_%(N)d( digest<%(N)d> const* d, std::size_t i ) { return &(*d)[ i ]; }
unsigned char* data_%(N)d( digest<%(N)d>* d ) { return d->data(); }
unsigned char* begin_%(N)d( digest<%(N)d>* d ) { return d->begin(); }
unsigned char* end_%(N)d( digest<%(N)d>* d ) { return d->end(); }
unsigned char* front_%(N)d( digest<%(N)d>* d ) { return &d->front(); }
unsigned char* back_%(N)d( digest<%(N)d>* d ) { return &d->back(); }
unsigned char* index_%(N)d( digest<%(N)d>* d, std::size_t i ) { return &(*d)[ i ]; }
std::size_t size_%(N)d( digest<%(N)d> const* d ) { return d->size(); }
std::size_t max_%(N)d( digest<%(N)d> const* d ) { return d->max_size(); }
char* chars_%(N)d( digest<%(N)d> const* d, char* first, char* last ) { return to_chars( *d, first, last ); }
void charsm_%(N)d( digest<%(N)d> const* d, char* w ) { to_chars( *d, reinterpret_cast<char (&)[ 2 * %(N)d + 1 ]>( *w ) ); }
void charsm5_%(N)d( digest<%(N)d> const* d, char* w ) { to_chars( *d, reinterpret_cast<char (&)[ 2 * %(N)d + 5 ]>( *w ) ); }
void string_%(N)d( digest<%(N)d> const* d, std::string* s ) { ::new( static_cast<void*>( s ) ) std::string( to_string( *d ) ); }
void stream_%(N)d( digest<%(N)d> const* d, std::ostream* s, std::ostream** r ) { *r = &( *s << *d ); }
'''


_mod = {}


def module(cfg):
    if cfg not in _mod:
        _mod[cfg] = module_(cfg)
    return _mod[cfg]


def module_(cfg):
    c = build.CFGS[cfg]
    m = build.compile_ir(SRC % '\n'.join(PER % dict(N=n) for n in NS), c.get('std', 'c++17'), c.get('defs', ()), c.get('target'))
    m.ce = c.get('defs') is build.CE
    return m


class Dig:
    def __init__(self, ex, st, mod, N, name, uninit=False, ro=False):
        self.size = mod.globals['sz_%d' % N][1][1]
        self.N = N
        self.off = base(mod, N)
        self.bs = [V(8, '%s%d' % (name, i)) for i in range(N)]
        cells = [None] * self.size
        if not uninit:
            for i in range(self.size):
                cells[i] = (V(8, '%s_rest%d' % (name, i)), 0)
            for i in range(N):
                cells[self.off + i] = (self.bs[i], 0)
        self.oid = ex.alloc(st, name, self.size, cells, align=16, ro=ro)

    def p(self, ex):
        return Ptr(self.oid, const(ex.pw, 0))


_b = {}


def base(mod, N):
    """where data() points inside the object"""
    k = (id(mod), N)
    if k not in _b:
        ex = sym.Exec(mod, [], [])
        st = sym.State()
        oid = ex.alloc(st, 'd', mod.globals['sz_%d' % N][1][1], align=16)
        r = ex.run_fn(st, 'cdata_%d' % N, [Ptr(oid, const(ex.pw, 0))])
        _b[k] = r[0].ret.off.a
    return _b[k]


def hexdigit(x):
    """ASCII code of the lowercase hexadecimal digit of the 4-bit value x (8-bit term)"""
    return T.ite(T.ult(x, const(8, 10)), T.add(x, const(8, 48)), T.add(x, const(8, 87)))


def digits(bs):
    out = []
    for b in bs:
        out.append(hexdigit(T.lshr(b, 4)))
        out.append(hexdigit(T.and_(b, const(8, 15))))
    return out


def contracts(mod):
    import units_hash as U
    return U.ce_contracts(mod)


def u_digest(what, N, mod, cfg):
    u = Unit('digest<%d> %s [%s]' % (N, what, cfg), mod, [])
    ex = u.exec([], [])
    ex.contracts[:] = contracts(mod)
    st = u.st
    pw = ex.pw
    z = const(pw, 0)
    f = lambda n: '%s_%d' % (n, N)
    if what in ('default', 'value', 'plain', 'array', 'copy', 'assign'):
        d = Dig(ex, st, mod, N, 'd', uninit=what != 'assign')
        args = [d.p(ex)]
        want = [const(8, 0)] * N
        if what == 'array':
            src = [V(8, 's%d' % i) for i in range(N)]
            so = ex.alloc(st, 'source', N, [(b, 0) for b in src], align=1, ro=True)
            args.append(Ptr(so, z))
            want = src
        if what in ('copy', 'assign'):
            s = Dig(ex, st, mod, N, 's', ro=True)
            args.append(s.p(ex))
            want = s.bs
        u.inputs['source'] = want
        outs = u.run(f(what), args)
        for o in outs:
            got = [need(ex.readloc(o, d.oid, d.off + i, 1), 8) for i in range(N)]
            u.prove_all(o, 'the digest holds the %d given bytes' % N, [T.eq(a, b) for a, b in zip(got, want)])
    elif what in ('eq', 'ne'):
        a = Dig(ex, st, mod, N, 'a', ro=True)
        b = Dig(ex, st, mod, N, 'b', ro=True)
        u.inputs.update(a=a.bs, b=b.bs)
        outs = u.run(f(what), [a.p(ex), b.p(ex)])
        same = T.conj([T.eq(x, y) for x, y in zip(a.bs, b.bs)])
        for o in outs:
            r = o.ret
            r = T.trunc(r, 1) if r.w > 1 else r
            u.prove(o, 'the comparison is by content', T.eq(r, same if what == 'eq' else T.not_(same)))
        # comparing an object with itself
        ex = u.exec([], contracts(mod))
        a = Dig(ex, u.st, mod, N, 'a', ro=True)
        for o in u.run(f(what), [a.p(ex), a.p(ex)]):
            r = T.trunc(o.ret, 1) if o.ret.w > 1 else o.ret
            u.prove(o, 'a digest equals itself', T.eq(r, const(1, 1 if what == 'eq' else 0)))
    elif what == 'access':
        outs = []
        i = V(pw, 'i')
        for n, off in (('data', 0), ('begin', 0), ('end', N), ('front', 0), ('back', N - 1), ('index', None)):
            for c in ('', 'c'):
                ex = u.exec([], contracts(mod))
                st = u.st
                d = Dig(ex, st, mod, N, 'd', ro=c == 'c')
                args = [d.p(ex)]
                w = const(pw, d.off + (off or 0))
                if off is None:
                    st.assume(T.ult(i, const(pw, N)))
                    args.append(i)
                    w = T.add(i, const(pw, d.off))
                    u.inputs['i'] = i
                os_ = u.run(f(c + n), args)
                for o in os_:
                    ok = isinstance(o.ret, Ptr) and o.ret.obj == d.oid
                    u.prove(o, '%s() addresses the byte it names' % n, T.eq(o.ret.off, w) if ok else T.FALSE)
                    got = [need(ex.readloc(o, d.oid, d.off + k, 1), 8) for k in range(N)]
                    u.prove_all(o, '%s() changes nothing' % n, [T.eq(x, y) for x, y in zip(got, d.bs)])
                outs += os_
        for n in ('size', 'max'):
            ex = u.exec([], contracts(mod))
            d = Dig(ex, u.st, mod, N, 'd', ro=True)
            for o in u.run(f(n), [d.p(ex)]):
                u.prove(o, '%s is %d' % (n, N), T.eq(o.ret, const(pw, N)))
    elif what in ('chars', 'chars null'):
        d = Dig(ex, st, mod, N, 'd', ro=True)
        u.inputs['digest'] = d.bs
        old = [V(8, 'old%d' % i) for i in range(2 * N)]
        b = ex.alloc(st, 'output', 2 * N, [(x, 0) for x in old], align=1)
        if what == 'chars':
            L = V(pw, 'L')
            st.assume(T.ult(L, const(pw, 1 << (pw - 1))))
            u.inputs['length'] = L
            first, last = Ptr(b, z), Ptr(b, L)
        else:
            L = z
            first = last = ex.null()
        outs = u.run(f('chars'), [d.p(ex), first, last])
        hx = digits(d.bs)
        short = T.ult(L, const(pw, 2 * N))
        for o in outs:
            isnull = isinstance(o.ret, Ptr) and o.ret.obj == 0
            if isnull:
                u.prove(o, 'null is returned only for a range that is too short', T.conj([short, T.eq(o.ret.off, z)]))
                want = old
            else:
                u.prove(o, 'the end of the digits is returned, and the range is long enough', T.conj([T.not_(short), T.eq(o.ret.off, const(pw, 2 * N)) if isinstance(o.ret, Ptr) and o.ret.obj == b else T.FALSE]))
                want = hx
            got = [need(ex.readloc(o, b, i, 1), 8) for i in range(2 * N)]
            u.prove_all(o, 'the output is exactly the %d lowercase hexadecimal digits, or untouched' % (2 * N), [T.eq(x, y) for x, y in zip(got, want)])
    elif what in ('charsm', 'charsm5'):
        d = Dig(ex, st, mod, N, 'd', ro=True)
        u.inputs['digest'] = d.bs
        M = 2 * N + (1 if what == 'charsm' else 5)
        old = [V(8, 'old%d' % i) for i in range(M)]
        b = ex.alloc(st, 'output', M, [(x, 0) for x in old], align=1)
        outs = u.run(f(what), [d.p(ex), Ptr(b, z)])
        want = digits(d.bs) + [const(8, 0)] + old[2 * N + 1:]
        for o in outs:
            got = [need(ex.readloc(o, b, i, 1), 8) for i in range(M)]
            u.prove_all(o, 'the array holds the digits and a terminating zero', [T.eq(x, y) for x, y in zip(got, want)])
    elif what == 'string':
        d = Dig(ex, st, mod, N, 'd', ro=True)
        u.inputs['digest'] = d.bs
        s = ex.alloc(st, 'string', 32, align=16)
        ex.contracts[:] = contracts(mod) + heap()
        outs = u.run(f('string'), [d.p(ex), Ptr(s, z)])
        want = digits(d.bs)
        for o in outs:
            pp = ex.alloc(o, 'pp', pw // 8, align=8)
            pn = ex.alloc(o, 'pn', pw // 8, align=8)
            for q in ex.run_fn(o, 'str_get', [Ptr(s, z), Ptr(pp, z), Ptr(pn, z)]):
                n = need(ex.readloc(q, pn, 0, pw // 8), pw)
                p = ex.readloc(q, pp, 0, pw // 8)
                u.prove(q, 'the string has %d characters' % (2 * N), T.eq(n, const(pw, 2 * N)))
                ok = isinstance(p, Ptr) and p.off.k == 'const' and p.obj in q.mem
                got = [need(ex.readloc(q, p.obj, p.off.a + i, 1), 8) for i in range(2 * N)] if ok else []
                u.prove_all(q, 'the string is the hexadecimal digits', [T.eq(x, y) for x, y in zip(got, want)] if ok else [T.FALSE])
    elif what == 'stream':
        d = Dig(ex, st, mod, N, 'd', ro=True)
        u.inputs['digest'] = d.bs
        s = ex.alloc(st, 'ostream', 512, align=16)
        ex.writeloc(st, s, 256, 8, const(64, 0))     # ghost: characters written
        rr = ex.alloc(st, 'ret', pw // 8, align=8)
        want = digits(d.bs)
        ex.contracts[:] = contracts(mod) + heap() + stream(s, want)
        outs = u.run(f('stream'), [d.p(ex), Ptr(s, z), Ptr(rr, z)])
        for o in outs:
            u.prove(o, 'exactly %d characters are written' % (2 * N), T.eq(ex.readloc(o, s, 256, 8), const(64, 2 * N)))
            q = ex.readloc(o, rr, 0, pw // 8)
            u.prove(o, 'the stream is returned', T.TRUE if isinstance(q, Ptr) and q.obj == s and q.off is z else T.FALSE)
    else:
        raise KeyError(what)
    u.cover(outs)
    return u.done()


WHAT = ['default', 'value', 'plain', 'array', 'copy', 'assign', 'eq', 'ne', 'access', 'chars', 'chars null', 'charsm', 'charsm5', 'string', 'stream']


def heap():
    """operator new returns fresh storage of the requested (constant) size; operator delete releases it"""
    def new(ex, s, fr, fn, args, dest, line):
        n = args[0]
        if n.k != 'const' or n.a > 1 << 16:
            raise sym.EngineError('allocation of unknown size')
        fr.regs[dest] = Ptr(ex.alloc(s, 'heap', n.a, align=16), const(ex.pw, 0))

    def delete(ex, s, fr, fn, args, dest, line):
        return None
    d = lambda pat: (lambda fn: bool(re.match(pat, fn.dem or fn.name)))
    return [(d(r'operator new\('), new), (d(r'operator delete\('), delete)]


def stream(oid, want):
    """ostream insertion appends the characters to the output sequence"""
    def emit(ex, s, got, line):
        n = ex.readloc(s, oid, 256, 8)
        if n.k != 'const':
            raise sym.EngineError('stream position')
        for i, c in enumerate(got):
            k = n.a + i
            ex.oblige(s, 'stream: the character written is the expected digit', T.eq(c, want[k]) if k < len(want) else T.FALSE, line)
            if s.dead:
                return
        ex.writeloc(s, oid, 256, 8, const(64, n.a + len(got)))

    def cells(ex, s, p, n, line):
        o = ex.bounds(s, p, n, line, 'characters to write')
        if o is None:
            s.dead = True
            return None
        cs = ex.read_cells(s, o, p.off, n)
        if any(c is None for c in cs):
            ex.fail(s, 'memory-safety: uninitialised character written', line)
            return None
        return [ex.byte(c) for c in cs]

    def cstr(ex, s, fr, fn, args, dest, line):
        p = args[1]
        o = ex.getobj(s, p.obj)
        if o is None or o.cells is None or p.off.k != 'const':
            raise sym.EngineError('string written to a stream')
        got, i = [], p.off.a
        while True:
            c = cells(ex, s, Ptr(p.obj, const(ex.pw, i)), 1, line)
            if c is None:
                return None
            if c[0].k == 'const' and c[0].a == 0:
                break
            # the terminating zero must be the first zero
            ex.oblige(s, 'stream: no earlier zero character', T.ne(c[0], const(8, 0)), line)
            if s.dead:
                return None
            got.append(c[0])
            i += 1
        emit(ex, s, got, line)
        if dest:
            fr.regs[dest] = args[0]

    def sized(ex, s, fr, fn, args, dest, line):
        n = args[2]
        if n.k != 'const':
            raise sym.EngineError('stream write of unknown length')
        got = cells(ex, s, args[1], n.a, line)
        if got is not None:
            emit(ex, s, got, line)
        if dest:
            fr.regs[dest] = args[0]

    def one(ex, s, fr, fn, args, dest, line):
        emit(ex, s, [T.trunc(args[1], 8)], line)
        if dest:
            fr.regs[dest] = args[0]

    def strg(ex, s, fr, fn, args, dest, line):
        p = ex.readloc(s, args[1].obj, args[1].off.a, ex.pw // 8)
        n = ex.readloc(s, args[1].obj, args[1].off.a + ex.pw // 8, ex.pw // 8)
        return sized(ex, s, fr, fn, [args[0], p, n], dest, line)
    d = lambda pat: (lambda fn: bool(re.search(pat, fn.dem or fn.name)))
    return [(d(r'operator<<.*\(std::(basic_)?ostream.*&, char const\*\)$'), cstr),
            (d(r'operator<<.*\(std::(basic_)?ostream.*&, (std::__cxx11::basic_string|std::string|std::basic_string_view).*\)$'), strg),
            (d(r'operator<<.*\(std::(basic_)?ostream.*&, char\)$'), one),
            (d(r'ostream.*::put\(char\)$'), one),
            (d(r'__ostream_insert'), sized),
            (d(r'ostream.*::write\(char const\*, long( long)?\)$'), sized)]
