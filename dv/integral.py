"""get_integral_result under contract: identity, multiplicative mixing with the fixed odd
constants, low eight bytes of an array-like value."""
import term as T, build, unit, sym, smt
from term import const
from unit import Unit
from sym import Ptr

import append
V = append.V
# bytes of the value -> bytes of the result -> multiplier (of the wider width)
MULT = {(2, 1): 0xBF01, (4, 1): 0x7F7F7F7F, (8, 1): 0x7F7F7F7F7F7F7F7F, (4, 2): 0xBFFF0001, (8, 2): 0xBFFFBFFFBFFFBFFF, (8, 4): 0xBFFFFFFF00000001,
        (1, 2): 0x7F7F, (1, 4): 0xBFBFBFBF, (1, 8): 0xDFDFDFDFDFDFDFDF, (2, 4): 0x7FFF7FFF, (2, 8): 0x7FFF7FFF7FFF7FFF, (4, 8): 0x7FFFFFFF7FFFFFFF}


def widen(r, w):
    """specification for an integral r"""
    if r.w == w:
        return r
    m = MULT[(r.w // 8, w // 8)]
    W = max(r.w, w)
    x = T.mulc(T.zext(r, W), m)
    return T.extract(x, W - w, w) if r.w > w else x


TS = [('char', 'char'), ('sc', 'signed char'), ('uc', 'unsigned char'), ('s', 'short'), ('us', 'unsigned short'), ('i', 'int'), ('u', 'unsigned'), ('l', 'long'), ('ul', 'unsigned long'),
      ('ll', 'long long'), ('ull', 'unsigned long long'), ('wc', 'wchar_t'), ('c16', 'char16_t'), ('c32', 'char32_t'), ('zu', 'std::size_t'), ('i8', 'std::int8_t'), ('i16', 'std::int16_t'), ('i32', 'std::int32_t'), ('i64', 'std::int64_t')]
RS = [('uc', 'unsigned char'), ('us', 'unsigned short'), ('u', 'unsigned'), ('ul', 'unsigned long'), ('ull', 'unsigned long long'), ('c16', 'char16_t'), ('c32', 'char32_t')]
AS = [('d%d' % n, 'digest<%d>' % n, n) for n in (8, 16, 20, 28, 32, 48, 64)] + [('a8', 'Arr8', 8), ('a9', 'Arr9', 9), ('b12', 'BArr12', 12)]

SRC = r'''
#include <boost/hash2/get_integral_result.hpp>
#include <boost/hash2/digest.hpp>
#include <boost/array.hpp>
#include <array>
#include <cstdint>
#include <cstddef>
using namespace boost::hash2;
typedef std::array<unsigned char, 8> Arr8; typedef std::array<unsigned char, 9> Arr9; typedef boost::array<unsigned char, 12> BArr12;
template<class T> struct Bits { T v; };
extern "C" {
%s
}
'''


_mod = {}


def module(cfg):
    if cfg not in _mod:
        _mod[cfg] = module_(cfg)
    return _mod[cfg]


def module_(cfg):
    body = []
    for n, t in TS:
        body.append('extern std::size_t const st_%s; std::size_t const st_%s = sizeof( %s );' % (n, n, t))
    for n, t in RS:
        body.append('extern std::size_t const sr_%s; std::size_t const sr_%s = sizeof( %s );' % (n, n, t))
    for tn, t in TS:
        for rn, r in RS:
            body.append('void g_%s_%s( %s* o, %s const* r ) { *o = get_integral_result<%s>( *r ); }' % (tn, rn, t, r, t))
        for an, a, k in AS:
            body.append('void g_%s_%s( %s* o, %s const* r ) { *o = get_integral_result<%s>( *r ); }' % (tn, an, t, a, t))
    c = build.CFGS[cfg]
    m = build.compile_ir(SRC % '\n'.join(body), c.get('std', 'c++17'), c.get('defs', ()), c.get('target'))
    m.ce = c.get('defs') is build.CE
    return m


def gi(mod, n):
    return mod.globals[n][1][1]


def u_integral(tn, rn, mod, cfg):
    t = dict(TS)[tn]
    r = dict(RS)[rn]
    u = Unit('get_integral_result<%s>(%s) [%s]' % (t, r, cfg), mod, [])
    ts, rs = gi(mod, 'st_' + tn), gi(mod, 'sr_' + rn)
    ex = u.exec([], [])
    st = u.st
    x = V(8 * rs, 'r')
    u.inputs['r'] = x
    ro = ex.alloc(st, 'r', rs, align=8)
    ex.writeloc(st, ro, 0, rs, x)
    o = ex.alloc(st, 'out', ts, align=8)
    z = const(ex.pw, 0)
    outs = u.run('g_%s_%s' % (tn, rn), [Ptr(o, z), Ptr(ro, z)])
    want = widen(x, 8 * ts)
    for q in outs:
        got = unit.need(ex.readloc(q, o, 0, ts), 8 * ts)
        u.prove(q, 'the result is the documented function of the value', T.eq(got, want))
        if rs <= ts:
            # injective: the low bits of the product determine the value (odd multiplier)
            m = MULT.get((rs, ts), 1)
            inv = pow(m, -1, 1 << (8 * rs))
            lo = T.trunc(got, 8 * rs)
            u.prove(q, 'identity and widening: different values give different results (a left inverse exists)', T.eq(T.mulc(lo, inv), x))
        else:
            # uniform: the product is a bijection and the result is its top bits
            m = MULT[(rs, ts)]
            inv = pow(m, -1, 1 << (8 * rs))
            y = V(8 * rs, 'y')
            u.prove(q, 'narrowing: multiplication by the constant is a bijection', T.eq(T.mulc(T.mulc(y, m), inv), y))
    u.cover(outs)
    return u.done()


def u_array(tn, an, mod, cfg):
    t = dict(TS)[tn]
    a, k = [(x, k) for n, x, k in AS if n == an][0]
    u = Unit('get_integral_result<%s>(%s) [%s]' % (t, a, cfg), mod, [])
    ts = gi(mod, 'st_' + tn)
    ex = u.exec([], [])
    st = u.st
    bs = [V(8, 'b%d' % i) for i in range(k)]
    u.inputs['r'] = bs
    ro = ex.alloc(st, 'r', k, [(b, 0) for b in bs], align=16)
    o = ex.alloc(st, 'out', ts, align=8)
    z = const(ex.pw, 0)
    import units_hash as U
    ex.contracts[:] = U.ce_contracts(mod)
    outs = u.run('g_%s_%s' % (tn, an), [Ptr(o, z), Ptr(ro, z)])
    for q in outs:
        u.prove(q, 'the result is the first bytes, little-endian', T.eq(unit.need(ex.readloc(q, o, 0, ts), 8 * ts), T.trunc(T.concat_bytes(bs[:8]), 8 * ts) if ts < 8 else T.concat_bytes(bs[:8])))
    u.cover(outs)
    return u.done()
