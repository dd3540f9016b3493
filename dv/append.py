"""hash_append under contract: the hash algorithm is a declared-only class Rec whose update has a
contract (append n readable bytes to the message, which must be the expected ones), element classes
are declared-only hooks with a contract, and every overload of the real hash_append family is
executed symbolically against the message its argument must give, for every value and every length."""
import re, time
import term as T, build, unit, sym, smt
from term import const
from unit import Unit, need
from sym import Ptr

class Conc(__import__('random').Random):
    def __init__(self, seed):
        super().__init__(seed)
        self.salt, self.vals = seed, {}


CONC = [None]     # a random generator: values are concrete (used only to look for a failing input)


def V(w, name):
    r = CONC[0]
    if r is None:
        return T.var(w, name)
    if (w, name) not in r.vals:
        r.vals[w, name] = pick(r, w)
    return r.vals[w, name]


def pick(r, w):
    k = r.randrange(6)
    return const(w, 0 if k == 0 else (1 << w) - 1 if k == 1 else 1 << r.randrange(w) if k == 2 else r.getrandbits(w))


def INB(w, i, j):
    """byte j (or the value, for w = 1) of element i"""
    if CONC[0] is not None and i.k == 'const':
        import random
        r = random.Random('%s %d %s' % (CONC[0].salt, i.a, j))
        return const(w, r.choice([0, (1 << w) - 1, 1 << r.randrange(w), r.getrandbits(w), r.getrandbits(w)]))
    return None


def NB(nb):
    return T.var(nb, 'n') if CONC[0] is None else const(nb, CONC[0].randrange(5))


FLAV = {'d': ('default_flavor', None, 8), 'l': ('little_endian_flavor', False, 8), 'b': ('big_endian_flavor', True, 8), 'x': ('XFlavor', True, 4)}

PRE = r'''
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/digest.hpp>
%(inc)s
#include <cstdint>
#include <cstddef>
#include <new>
#include <iterator>
using namespace boost::hash2;
struct XFlavor { using size_type = std::uint32_t; static constexpr auto byte_order = endian::big; };
template<class R> struct RecT
{
    using result_type = R;
    alignas(8) std::size_t pos; alignas(8) std::uint64_t st;
    RecT(); explicit RecT( std::uint64_t ); RecT( unsigned char const*, std::size_t );
    void update( void const*, std::size_t );
    result_type result();
};
using Rec = RecT<std::uint64_t>;
struct Elem { std::uint32_t id; };
template<class H, class F> void tag_invoke( hash_append_tag const&, H&, F const&, Elem const& );
%(decl)s
extern "C" {
%(body)s
}
'''


def flavor_be(fl, be):
    f = FLAV[fl][1]
    return be if f is None else f


# ------------------------------------------------------------ types and their messages
class D:
    name = cpp = ''
    size = 1
    decl = ''
    need = 'c++11'

    def pre(self, g):
        return T.TRUE

    def mem(self, pfx):
        return [V(8, '%s_%d' % (pfx, j)) for j in range(self.size)]

    def smem(self, i, j):
        return INB(8, i, j) or T.uf('IN', 8, T.add(T.mulc(i, self.size), const(i.w, j)))


def order(bs, be, want_be):
    return bs if be == want_be else bs[::-1]


class Scalar(D):
    def __init__(self, name, cpp, size, need='c++11', decl=''):
        self.name, self.cpp, self.size, self.need, self.decl = name, cpp, size, need, decl

    def msg(self, g, addr, fl, be):
        return order([g(j) for j in range(self.size)], be, flavor_be(fl, be))


class Bool(Scalar):
    def mem(self, pfx):
        return [T.zext(V(1, pfx), 8)]

    def smem(self, i, j):
        return T.zext(INB(1, i, 0) or T.uf('INb', 1, i), 8)


class Null(D):
    """std::nullptr_t: the message of a null pointer; its own bytes are not read"""
    name, cpp = 'nullptr', 'std::nullptr_t'

    def __init__(self, size):
        self.size = size

    def msg(self, g, addr, fl, be):
        return [const(8, 0)] * self.size


class Float(D):
    def __init__(self, name, cpp, size):
        self.name, self.cpp, self.size = name, cpp, size

    def bits(self, g, be):
        return T.concat_bytes(order([g(j) for j in range(self.size)], be, False))

    def msg(self, g, addr, fl, be):
        w = 8 * self.size
        b = self.bits(g, be)
        v = T.ite(T.eq(b, const(w, 1 << (w - 1))), const(w, 0), b)
        bs = [T.extract(v, 8 * i, 8) for i in range(self.size)]
        return order(bs, False, flavor_be(fl, be))

    def notnan(self, g, be):
        w = 8 * self.size
        b = self.bits(g, be)
        e, m = (8, 23) if w == 32 else (11, 52)
        return T.not_(T.ult(const(w, ((1 << e) - 1) << m), T.and_(b, const(w, (1 << (w - 1)) - 1))))

    be_ = False

    def pre(self, g):
        return self.notnan(g, self.be_)


class ElemD(D):
    name, cpp, size = 'elem', 'Elem', 4

    def msg(self, g, addr, fl, be):
        v = T.concat_bytes(order([g(j) for j in range(4)], be, False))
        return [T.uf('EL%s%d' % (fl, k), 8, v) for k in range(3)]


class Tok(D):
    """a type whose own hash_append is verified elsewhere and is taken by contract here"""
    def __init__(self, name, cpp, size, decl='', need='c++11'):
        self.name, self.cpp, self.size, self.decl, self.need = name, cpp, size, decl, need

    def msg(self, g, addr, fl, be):
        return [T.uf('TK_%s_%s%d' % (self.name, fl, k), 8, addr) for k in range(3)]


class Parts(D):
    """message = messages of the parts in this order (one zero byte if there are none)"""
    def __init__(self, name, cpp, parts, decl='', need='c++11', inc=''):
        self.name, self.cpp, self.parts, self.decl, self.need, self.inc = name, cpp, parts, decl, need, inc
        self.offs = None
        self.size = None

    def msg(self, g, addr, fl, be):
        out = []
        for (e, d), o in zip(self.parts, self.offs):
            out += d.msg(lambda j: g(o + j), T.add(addr, const(addr.w, o)) if addr is not None else None, fl, be)
        return out or [const(8, 0)]

    def pre(self, g):
        return T.conj([d.pre(lambda j: g(o + j)) for (e, d), o in zip(self.parts, self.offs)])

    def mem(self, pfx):
        out = [V(8, '%s_%d' % (pfx, j)) for j in range(self.size)]
        for k, ((e, d), o) in enumerate(zip(self.parts, self.offs)):
            out[o:o + d.size] = d.mem('%s_p%d' % (pfx, k))
        return out

    def smem(self, i, j):
        for (e, d), o in zip(self.parts, self.offs):
            if o <= j < o + d.size and isinstance(d, (Bool, Parts)):
                if isinstance(d, Bool):
                    return T.zext(INB(1, i, o) or T.uf('INb%d' % o, 1, i), 8)
        return D.smem(self, i, j)

    def tokens(self):
        r = []
        for e, d in self.parts:
            if isinstance(d, Tok):
                r.append(d)
            if isinstance(d, Parts):
                r += d.tokens()
        return r


# ------------------------------------------------------------ expected message
class Seg:
    def __init__(self, count, sz, byte, guard=None):
        self.count, self.sz, self.byte, self.guard = count, sz, byte, guard


class Expect:
    """concatenation of segments: count (a term) times sz bytes, byte(q, k)"""
    def __init__(self, w, segs):
        self.w, self.segs = w, segs
        self.start = [const(w, 0)]
        for s in segs:
            self.start.append(T.add(self.start[-1], T.mulc(s.count, s.sz)))
        self.total = self.start[-1]

    def splitoff(self, d, sz):
        """d = sz*q + k syntactically"""
        if d.k == 'const':
            v = T.tosigned(d.a, d.w)
            return (const(d.w, v // sz), v % sz) if v >= 0 else None
        if sz == 1:
            return d, 0
        c, l = T._lin(d)
        if any(x % sz and (x - (1 << d.w)) % sz for x in l.values()):
            return None
        c = T.tosigned(c, d.w)
        if c < 0:
            return None
        q = const(d.w, c // sz)
        for a, x in l.items():
            q = T.add(q, T.mulc(a, T.tosigned(x, d.w) // sz))
        return q, c % sz

    def locate(self, pc, p):
        """-> (segment, q, k) with position p inside it under pc, or None"""
        for i in range(len(self.segs) - 1, -1, -1):
            s = self.segs[i]
            d = T.sub(p, self.start[i])
            if d.k == 'const' and T.tosigned(d.a, d.w) >= 0:
                q, k = self.splitoff(d, s.sz)
                g = T.ult(q, s.count)
                if g.k == 'const' and g.a:
                    return s, q, k
                if g.k != 'const' and smt.prove(pc, g, want_model=False).ok:
                    return s, q, k
        for i in range(len(self.segs)):
            s = self.segs[i]
            r = self.splitoff(T.sub(p, self.start[i]), s.sz)
            if r and s.count.k != 'const':
                if smt.prove(pc, T.ult(r[0], s.count), want_model=False).ok:
                    return s, r[0], r[1]
        return None

    def normal(self, pc, p):
        """the same position as an offset from a segment start, where that is provable"""
        if p.k == 'const' or any(T.sub(p, x).k == 'const' for x in self.start):
            return p
        for x in self.start[::-1]:
            if smt.prove(pc, T.eq(p, x), want_model=False).ok:
                return x
        return p


def putpos(ex, st, oid, v):
    ex.writeloc(st, oid, 0, 8, v)


def c_update(E):
    """contract of the algorithm's update: reads n bytes at p, appends them to the message"""
    def pred(fn):
        return bool(re.match(r'RecT<.*>::update\(', fn.dem or ''))

    def h(ex, s, fr, fn, args, dest, line):
        r, p, n = args
        ro = ex.bounds(s, r, 8, line, 'hash object')
        if ro is None:
            return None
        pos = ex.readloc(s, r.obj, r.off.a, ex.pw // 8)
        w = E.w
        pos = E.normal(s.pc, pos)
        n64 = n
        if n.k == 'const' and n.a == 0:
            return None
        if not (p.obj == 0 and n.k != 'const'):
            so = ex.bounds(s, p, n.a if n.k == 'const' else n, line, 'source of Rec::update')
            if so is None:
                s.dead = True
                return None
        else:
            # a null source is allowed for an empty piece only
            ex.oblige(s, 'precondition of update: source readable', T.eq(n, const(n.w, 0)), line)
            return None
        if ex.rec:
            if n.k == 'const':
                cells = ex.read_cells(s, so, p.off, n.a)
                if any(c is None for c in cells):
                    ex.fail(s, 'memory-safety: uninitialised byte appended to the message', line)
                    return None
                got = [ex.byte(c) for c in cells]
                i = 0
                while i < n.a:
                    loc = E.locate(s.pc, T.add(pos, const(w, i)))
                    if loc is None:
                        ex.oblige(s, 'message: byte %d of this update lies inside the expected message' % i, T.FALSE, line, 'position %s + %d' % (T.show(pos), i))
                        s.dead = True
                        return None
                    sg, q, k = loc
                    while i < n.a and k < sg.sz:
                        g = T.eq(got[i], sg.byte(q, k))
                        if sg.guard is not None and not (g.k == 'const' and g.a):
                            g = T.implies(sg.guard(q), g)
                        if not ex.oblige(s, 'message: byte appended is the expected one', g, line):
                            return None
                        i += 1
                        k += 1
            else:
                # n = sz * cnt bytes of whole elements
                loc = E.locate(s.pc + [T.ult(const(n.w, 0), n)], pos)
                if loc is None:
                    ex.oblige(s, 'message: this update starts inside the expected message', T.eq(n, const(n.w, 0)), line, T.show(pos))
                    return None
                sg, q, k = loc
                r_ = E.splitoff(n64, sg.sz)
                if r_ is None or k or r_[1]:
                    ex.oblige(s, 'message: block update of whole elements', T.FALSE, line, T.show(n64))
                    s.dead = True
                    return None
                cnt = r_[0]
                ex.oblige(s, 'message: block update stays inside the expected elements', T.conj([T.ule(q, sg.count), T.ule(cnt, T.sub(sg.count, q))]), line)
                i = T.fresh(w, 'elt')
                hyp = s.copy()
                hyp.pc.append(T.ult(i, cnt))
                for k in range(sg.sz):
                    off = T.add(T.mulc(i, sg.sz), const(w, k))
                    off = T.trunc(off, ex.pw) if ex.pw < w else off
                    c = ex.read_cells(hyp, so, T.add(p.off, off), 1)[0]
                    if c is None:
                        ex.fail(s, 'memory-safety: uninitialised byte appended to the message', line)
                        return None
                    g = T.eq(ex.byte(c), sg.byte(T.add(q, i), k))
                    if sg.guard is not None and not (g.k == 'const' and g.a):
                        g = T.implies(sg.guard(T.add(q, i)), g)
                    if not ex.oblige(hyp, 'message: every byte of a block update is the expected one', g, line):
                        return None
        s.wr(r.obj)
        ex.writeloc(s, r.obj, r.off.a, ex.pw // 8, T.add(pos, n64))
        return None
    return pred, h


def flav_of(dem):
    for k, (n, _, _) in FLAV.items():
        if n in dem:
            return k
    return '?'


def emit(ex, s, r, E, want, line, what):
    """append the given byte terms to the message (contract of a component)"""
    ro = ex.bounds(s, r, 8, line, 'hash object')
    if ro is None:
        return
    pos = E.normal(s.pc, ex.readloc(s, r.obj, r.off.a, ex.pw // 8))
    if ex.rec:
        i = 0
        while i < len(want):
            loc = E.locate(s.pc, T.add(pos, const(E.w, i)))
            if loc is None:
                ex.oblige(s, 'message: %s is expected here' % what, T.FALSE, line, T.show(pos))
                s.dead = True
                return
            sg, q, k = loc
            while i < len(want) and k < sg.sz:
                if not ex.oblige(s, 'message: %s is the expected component' % what, T.eq(want[i], sg.byte(q, k)), line):
                    return
                i += 1
                k += 1
    ex.writeloc(s, r.obj, r.off.a, ex.pw // 8, T.add(pos, const(E.w, len(want))))


def c_elem(E, be):
    def pred(fn):
        d = fn.dem or ''
        return 'tag_invoke<RecT<' in d and 'Elem const&' in d

    def h(ex, s, fr, fn, args, dest, line):
        r, v = args[1], args[3]
        o = ex.bounds(s, v, 4, line, 'element')
        if o is None:
            s.dead = True
            return None
        cs = ex.read_cells(s, o, v.off, 4)
        if any(c is None for c in cs):
            ex.fail(s, 'memory-safety: element not initialised', line)
            return None
        g = [ex.byte(c) for c in cs]
        fl = flav_of(fn.dem)
        emit(ex, s, r, E, ElemD().msg(lambda j: g[j], None, fl, be), line, 'the element hook')
        return None
    return pred, h


def c_tok(E, mod, toks):
    """contract of hash_append for component types verified elsewhere"""
    names = {}
    for d in toks:
        for fl in FLAV:
            gl = mod.globals.get('tok_%s_%s' % (d.name, fl))
            if gl is not None and gl[1] and gl[1][0] == 'g':
                names[gl[1][1]] = (d, fl)

    def pred(fn):
        return fn.name in names

    def h(ex, s, fr, fn, args, dest, line):
        d, fl = names[fn.name]
        r, v = args[0], args[2]
        o = ex.bounds(s, v, d.size, line, 'component object')
        if o is None:
            s.dead = True
            return None
        a = ex.addr_of(v)
        emit(ex, s, r, E, d.msg(None, a, fl, False), line, 'the component ' + d.cpp)
        return None
    return pred, h


# ------------------------------------------------------------ the types under contract
def scalars(std='c++17'):
    S = Scalar
    L = [Bool('bool', 'bool', 1), S('char', 'char', 1), S('schar', 'signed char', 1), S('uchar', 'unsigned char', 1), S('wchar', 'wchar_t', 4), S('c16', 'char16_t', 2), S('c32', 'char32_t', 4),
         S('short', 'short', 2), S('ushort', 'unsigned short', 2), S('int', 'int', 4), S('uint', 'unsigned', 4), S('long', 'long', 8), S('ulong', 'unsigned long', 8),
         S('llong', 'long long', 8), S('ullong', 'unsigned long long', 8), S('vptr', 'void*', 8), S('cptr', 'Elem const*', 8), S('fptr', 'FnPtr', 8, decl='typedef void (*FnPtr)( int );'),
         S('eint', 'EI', 4, decl='enum EI : int { EI0, EI1 };'), S('eu8', 'EU8', 1, decl='enum class EU8: unsigned char { a };'), S('es16', 'ES16', 2, decl='enum class ES16: short { a };'),
         S('eu32', 'EU32', 4, decl='enum class EU32: std::uint32_t { a };'), S('eu64', 'EU64', 8, decl='enum class EU64: std::uint64_t { a };'), S('ec', 'EC', 4, decl='enum class EC { a };'),
         S('eplain', 'EPl', 4, decl='enum EPl { EPl0 = -1, EPl1 = 1000 };')]
    if std == 'c++20':
        L.append(S('c8', 'char8_t', 1))
    return L


def floats():
    return [Float('f32', 'float', 4), Float('f64', 'double', 8)]


def u8(): return Scalar('u8', 'unsigned char', 1)
def u16(): return Scalar('u16', 'std::uint16_t', 2)
def u32(): return Scalar('u32', 'std::uint32_t', 4)
def u64(): return Scalar('u64', 'std::uint64_t', 8)
def bl(): return Bool('bool', 'bool', 1)
def f32(): return Float('f32', 'float', 4)
def f64(): return Float('f64', 'double', 8)
def el(): return ElemD()
def es16(): return Scalar('es16', 'ES16', 2, decl='enum class ES16: short { a };')
def vptr(): return Scalar('vptr', 'void*', 8)
def vecE(): return Tok('vecE', 'VecE', 24, decl='#include <vector>\ntypedef std::vector<Elem> VecE;')
def vec16(): return Tok('vec16', 'Vec16', 24, decl='#include <vector>\ntypedef std::vector<std::uint16_t> Vec16;')
def stdstr(): return Tok('stdstr', 'std::string', 32, decl='#include <string>')


def arr(name, mk, n, outer='%s', cpp=None, decl=''):
    d = mk()
    nm = 'A_' + name
    return Parts(name, nm, [('(*v)[%d]' % i, mk()) for i in range(n)], decl=(d.decl + '\n' + decl + '\n' + (cpp or 'typedef %s %s[%d];' % (d.cpp, nm, n))))


def arrays():
    L = [arr('elem1', el, 1), arr('elem3', el, 3), arr('u8x7', u8, 7), arr('u16x5', u16, 5), arr('u32x4', u32, 4), arr('u64x2', u64, 2), arr('boolx4', bl, 4), arr('f32x3', f32, 3), arr('f64x2', f64, 2),
         arr('es16x3', es16, 3), arr('vptrx2', vptr, 2)]
    two = lambda nm, mk, a, b: Parts(nm, 'A_' + nm, [('(*v)[%d][%d]' % (i, j), mk()) for i in range(a) for j in range(b)], decl=mk().decl + '\ntypedef %s A_%s[%d][%d];' % (mk().cpp, nm, a, b))
    L += [two('u16_2x3', u16, 2, 3), two('u32_2x2', u32, 2, 2), two('elem_2x2', el, 2, 2), two('f64_2x2', f64, 2, 2), two('u8_3x2', u8, 3, 2), two('vptr_2x2', vptr, 2, 2), two('bool_2x2', bl, 2, 2)]
    sa = lambda nm, mk, n: Parts(nm, 'A_' + nm, [('(*v)[%d]' % i, mk()) for i in range(n)], decl='#include <array>\n' + mk().decl + '\ntypedef std::array<%s, %d> A_%s;' % (mk().cpp, n, nm))
    ba = lambda nm, mk, n: Parts(nm, 'A_' + nm, [('(*v).elems[%d]' % i, mk()) for i in range(n)], decl='#include <boost/array.hpp>\n' + mk().decl + '\ntypedef boost::array<%s, %d> A_%s;' % (mk().cpp, n, nm))
    L += [sa('sa_elem3', el, 3), sa('sa_u32x4', u32, 4), sa('sa_u8x5', u8, 5), sa('sa_u16x3', u16, 3), sa('sa_u64x2', u64, 2), sa('sa_f64x2', f64, 2), sa('sa_boolx3', bl, 3), sa('sa_u8x0', u8, 0), sa('sa_elemx0', el, 0), sa('sa_u32x1', u32, 1),
          ba('ba_elem3', el, 3), ba('ba_u16x4', u16, 4), ba('ba_u8x3', u8, 3), ba('ba_f32x2', f32, 2), ba('ba_elemx0', el, 0), ba('ba_u32x0', u32, 0)]
    L.append(Parts('sa_nest', 'A_sa_nest', [('(*v)[%d][%d]' % (i, j), u16()) for i in range(2) for j in range(2)], decl='#include <array>\ntypedef std::array<std::array<std::uint16_t, 2>, 2> A_sa_nest;'))
    L.append(Parts('sa_carr', 'A_sa_carr', [('(*v)[%d][%d]' % (i, j), u32()) for i in range(2) for j in range(3)], decl='#include <array>\ntypedef std::array<std::uint32_t[3], 2> A_sa_carr;'))
    for n in (1, 8, 16, 20, 28, 32, 48, 64):
        L.append(Parts('dig%d' % n, 'digest<%d>' % n, [('(*v).data()[%d]' % i, u8()) for i in range(n)]))
    L.append(Parts('vec_arr2', 'A_vec_arr2', [('(*v)[%d]' % i, vecE()) for i in range(2)], decl=vecE().decl + '\ntypedef VecE A_vec_arr2[2];'))
    L.append(Parts('sa_str2', 'A_sa_str2', [('(*v)[%d]' % i, stdstr()) for i in range(2)], decl='#include <array>\n' + stdstr().decl + '\ntypedef std::array<std::string, 2> A_sa_str2;'))
    return L


def composites():
    def pr(nm, a, b):
        return Parts(nm, 'P_' + nm, [('v->first', a()), ('v->second', b())], decl='#include <utility>\n' + a().decl + '\n' + b().decl + '\ntypedef std::pair<%s, %s> P_%s;' % (a().cpp, b().cpp, nm))

    def tp(nm, *a):
        return Parts(nm, 'T_' + nm, [('std::get<%d>(*v)' % i, x()) for i, x in enumerate(a)], decl='#include <tuple>\n' + '\n'.join(x().decl for x in a) + '\ntypedef std::tuple<%s> T_%s;' % (', '.join(x().cpp for x in a), nm))

    p1 = lambda: pr('elem_u16', el, u16)
    L = [p1(), pr('u8_u32', u8, u32), pr('f32_bool', f32, bl), pr('es_ptr', es16, vptr), pr('vec_vec', vecE, vec16), pr('str_elem', stdstr, el), pr('nest', p1, u8), pr('u64_elem', u64, el), pr('u16_u16', u16, u16),
         tp('t0'), tp('t1', el), tp('t3', u32, el, u8), tp('t4', f64, bl, u16, el), tp('tnest', p1, lambda: tp('t0'), u16), tp('tvec', vecE, u8, stdstr)]
    hook = r'''struct TI1 { Elem a; std::uint16_t b; };
template<class H, class F> void tag_invoke( hash_append_tag const&, H& h, F const& f, TI1 const& v ) { boost::hash2::hash_append( h, f, v.b ); boost::hash2::hash_append( h, f, v.a ); }'''
    ti1 = lambda: Parts('ti1', 'TI1', [('v->b', u16()), ('v->a', el())], decl=hook)
    L += [ti1(), pr('ti_pair', ti1, u8), tp('ti_tuple', ti1, el), arr('ti_arr', ti1, 2)]
    fr = r'''class TIF { std::uint32_t x_; Elem y_; friend struct TIFp;
template<class H, class F> friend void tag_invoke( hash_append_tag const&, H& h, F const& f, TIF const& v ) { boost::hash2::hash_append( h, f, v.x_ ); boost::hash2::hash_append( h, f, v.y_ ); } };
struct TIFp { static std::uint32_t const& x( TIF const* v ) { return v->x_; } static Elem const& y( TIF const* v ) { return v->y_; } };'''
    L.append(Parts('tif', 'TIF', [('TIFp::x(v)', u32()), ('TIFp::y(v)', el())], decl=fr))
    # the provided hash hooks: the hash_append of a digest inside
    return L


DESC_DECL = r'''#include <boost/describe/class.hpp>
#include <vector>
#include <string>
#include <utility>
typedef std::vector<Elem> VecE;
struct DS0 {}; BOOST_DESCRIBE_STRUCT(DS0, (), ())
struct DS1 { Elem a; std::uint16_t b; }; BOOST_DESCRIBE_STRUCT(DS1, (), (a, b))
struct DS2 { unsigned char a; std::uint32_t b; float c; bool d; }; BOOST_DESCRIBE_STRUCT(DS2, (), (a, b, c, d))
struct DB1 { Elem x; }; BOOST_DESCRIBE_STRUCT(DB1, (), (x))
struct DB2 { std::uint32_t y; std::uint16_t z; }; BOOST_DESCRIBE_STRUCT(DB2, (), (y, z))
struct DS3: DB1, DB2 { Elem m; }; BOOST_DESCRIBE_STRUCT(DS3, (DB1, DB2), (m))
struct DS4: DS0 { Elem m; }; BOOST_DESCRIBE_STRUCT(DS4, (DS0), (m))
struct DS5: DS3 {}; BOOST_DESCRIBE_STRUCT(DS5, (DS3), ())
struct DS6 { VecE p; std::string q; VecE r; }; BOOST_DESCRIBE_STRUCT(DS6, (), (p, q, r))
struct DS7 { DS1 a; std::uint16_t b[ 3 ]; std::pair<unsigned char, Elem> c; DS0 d; }; BOOST_DESCRIBE_STRUCT(DS7, (), (a, b, c, d))
class DS8: DB2 { Elem a_; protected: std::uint16_t b_; public: std::uint32_t c_; private: unsigned char d_; BOOST_DESCRIBE_CLASS(DS8, (DB2), (c_), (b_), (a_, d_)) friend struct DS8p; };
struct DS8p { static DB2 const& b( DS8 const* v ) { return (DB2 const&)*v; } static Elem const& a( DS8 const* v ) { return v->a_; } static std::uint16_t const& bb( DS8 const* v ) { return v->b_; } static std::uint32_t const& c( DS8 const* v ) { return v->c_; } static unsigned char const& d( DS8 const* v ) { return v->d_; } };
class DS9: protected DB1, private DB2 { BOOST_DESCRIBE_CLASS(DS9, (DB1, DB2), (), (), ()) };
struct DS10 { std::uint64_t only; }; BOOST_DESCRIBE_STRUCT(DS10, (), (only))
struct DS11 { std::uint16_t a, b; }; BOOST_DESCRIBE_STRUCT(DS11, (), (a, b))
'''


def described():
    P = lambda nm, cpp, parts: Parts(nm, cpp, parts, decl=DESC_DECL, need='c++14')
    ds0 = lambda: P('ds0', 'DS0', [])
    ds1 = lambda: P('ds1', 'DS1', [('v->a', el()), ('v->b', u16())])
    db1 = lambda: P('db1', 'DB1', [('v->x', el())])
    db2 = lambda: P('db2', 'DB2', [('v->y', u32()), ('v->z', u16())])
    ds3 = lambda: P('ds3', 'DS3', [('(DB1 const&)*v', db1()), ('(DB2 const&)*v', db2()), ('v->m', el())])
    a3 = Parts('u16x3', 'std::uint16_t[3]', [('(*v)[%d]' % i, u16()) for i in range(3)], decl='typedef std::uint16_t A_u16x3[3];')
    a3.cpp = 'A_u16x3'
    pe = Parts('p_u8e', 'P_u8e', [('v->first', u8()), ('v->second', el())], decl='typedef std::pair<unsigned char, Elem> P_u8e;')
    ve, ss = Tok('vecE', 'VecE', 24), Tok('stdstr', 'std::string', 32)
    return [ds0(), ds1(), P('ds2', 'DS2', [('v->a', u8()), ('v->b', u32()), ('v->c', f32()), ('v->d', bl())]), db1(), db2(), ds3(),
            P('ds4', 'DS4', [('(DS0 const&)*v', ds0()), ('v->m', el())]), P('ds5', 'DS5', [('(DS3 const&)*v', ds3())]),
            P('ds6', 'DS6', [('v->p', ve), ('v->q', ss), ('v->r', ve)]),
            P('ds7', 'DS7', [('v->a', ds1()), ('v->b', a3), ('v->c', pe), ('v->d', ds0())]),
            P('ds8', 'DS8', [('DS8p::b(v)', db2()), ('DS8p::c(v)', u32()), ('DS8p::bb(v)', u16()), ('DS8p::a(v)', el()), ('DS8p::d(v)', u8())]),
            P('ds9', 'DS9', [('(DB1 const&)*v', db1()), ('(DB2 const&)*v', db2())]),
            P('ds10', 'DS10', [('v->only', u64())]), P('ds11', 'DS11', [('v->a', u16()), ('v->b', u16())]),
            P('ds_arr', 'A_dsarr', [('(*v)[%d]' % i, ds1()) for i in range(2)])]


TRAIT_DECL = r'''struct ER3 { unsigned char a, b, c; };
template<class H, class F> void tag_invoke( hash_append_tag const&, H& h, F const& f, ER3 const& v ) { boost::hash2::hash_append( h, f, v.a ); boost::hash2::hash_append( h, f, v.b ); boost::hash2::hash_append( h, f, v.c ); }
struct EN2 { std::uint16_t a, b; };
template<class H, class F> void tag_invoke( hash_append_tag const&, H& h, F const& f, EN2 const& v ) { boost::hash2::hash_append( h, f, v.a ); boost::hash2::hash_append( h, f, v.b ); }
struct EN8 { std::uint64_t a; };
template<class H, class F> void tag_invoke( hash_append_tag const&, H& h, F const& f, EN8 const& v ) { boost::hash2::hash_append( h, f, v.a ); }
struct EP { unsigned char a; std::uint32_t b; };
template<class H, class F> void tag_invoke( hash_append_tag const&, H& h, F const& f, EP const& v ) { boost::hash2::hash_append( h, f, v.a ); boost::hash2::hash_append( h, f, v.b ); }
struct EB { unsigned char a; };
template<class H, class F> void tag_invoke( hash_append_tag const&, H& h, F const& f, EB const& v ) { boost::hash2::hash_append( h, f, v.a ); boost::hash2::hash_append( h, f, '\x07' ); }
namespace boost { namespace hash2 {
template<> struct is_trivially_equality_comparable<ER3>: std::true_type {}; template<> struct is_endian_independent<ER3>: std::true_type {};
template<> struct is_trivially_equality_comparable<EN2>: std::true_type {};
template<> struct is_trivially_equality_comparable<EN8>: std::true_type {};
template<> struct is_endian_independent<EP>: std::true_type {};
}}
'''


def er3(): return Parts('er3', 'ER3', [('v->a', u8()), ('v->b', u8()), ('v->c', u8())], decl=TRAIT_DECL)
def en2(): return Parts('en2', 'EN2', [('v->a', u16()), ('v->b', u16())], decl=TRAIT_DECL)
def en8(): return Parts('en8', 'EN8', [('v->a', u64())], decl=TRAIT_DECL)
def ep(): return Parts('ep', 'EP', [('v->a', u8()), ('v->b', u32())], decl=TRAIT_DECL)


class EBD(D):
    name, cpp, size, decl = 'eb', 'EB', 1, TRAIT_DECL

    def msg(self, g, addr, fl, be):
        return [g(0), const(8, 7)]


def traits():
    """classes whose hashing traits the user specialises, as documented, and their arrays"""
    L = [er3(), en2(), en8(), ep(), EBD()]
    for mk in (er3, en2, en8, ep, EBD):
        d = mk()
        L.append(Parts('ta_' + d.name, 'TA_' + d.name, [('(*v)[%d]' % i, mk()) for i in range(3)], decl='typedef %s TA_%s[3];' % (d.cpp, d.name)))
        L.append(Parts('ts_' + d.name, 'TS_' + d.name, [('(*v)[%d]' % i, mk()) for i in range(2)], decl='#include <array>\ntypedef std::array<%s, 2> TS_%s;' % (d.cpp, d.name)))
    return L


FIXED = {'trait': traits, 'scalar': scalars, 'float': floats, 'array': arrays, 'composite': composites, 'described': described}


# ------------------------------------------------------------ building the harness
def uniq(lines):
    seen, out = set(), []
    for l in lines:
        for x in split_decl(l):
            if x not in seen:
                seen.add(x)
                out.append(x)
    return out


def split_decl(t):
    # whole blocks; single-line declarations are separated so that repeats are dropped
    if t.count('\n') > 6:
        return [t]
    out, cur = [], ''
    for l in t.split('\n'):
        if not l.strip():
            continue
        cur += l + '\n'
        if cur.count('{') == cur.count('}') and (l.rstrip().endswith((';', '>', '}'))):
            out.append(cur.strip('\n'))
            cur = ''
    if cur:
        out.append(cur)
    return out


def walk(d):
    yield d
    if isinstance(d, Parts):
        for e, p in d.parts:
            for x in walk(p):
                yield x


def key(d):
    return re.sub(r'\W', '_', d.name)


def fixed_src(fam, flavs, std):
    ds = FIXED[fam]() if fam != 'scalar' else scalars(std)
    return ds, typed_src(ds, flavs, ['void s_%(k)s_%(fl)s( Rec* h, %(cpp)s const* v ) { hash_append( *h, %(F)s(), *v ); }'])


def typed_src(ds, flavs, per, extra=''):
    allds = {}
    for d in ds:
        for x in walk(d):
            allds.setdefault((key(x), x.cpp), x)
    decl = [x.decl for d in ds for x in reversed(list(walk(d)))]
    if any(x.cpp == 'A_dsarr' for x in allds.values()):
        decl.append('typedef DS1 A_dsarr[2];')
    body = []
    for (k, cpp), x in allds.items():
        body.append('extern std::size_t const sz_%s; std::size_t const sz_%s = sizeof( %s );' % (k, k, cpp))
        for fl in flavs:
            body.append('extern int const ch_%s_%s; int const ch_%s_%s = is_contiguously_hashable< %s, %s::byte_order >::value;' % (k, fl, k, fl, cpp, FLAV[fl][0]))
        if isinstance(x, Parts):
            for i, (e, p) in enumerate(x.parts):
                body.append('void const* pa_%s_%d( %s const* v ) { return (void const*)&( %s ); }' % (k, i, cpp, e))
        if isinstance(x, Tok):
            for fl in flavs:
                body.append('extern void (*const tok_%s_%s)( Rec&, %s const&, %s const& ); void (*const tok_%s_%s)( Rec&, %s const&, %s const& ) = &boost::hash2::hash_append<Rec, %s, %s>;' % (
                    k, fl, FLAV[fl][0], cpp, k, fl, FLAV[fl][0], cpp, FLAV[fl][0], cpp))
    for d in ds:
        for fl in flavs:
            for p in per:
                body.append(p % dict(k=key(d), cpp=d.cpp, fl=fl, F=FLAV[fl][0]))
    inc = '\n'.join(dict.fromkeys(l.strip() for t in decl for l in t.split('\n') if l.startswith('#include')))
    dcl = '\n'.join(uniq(['\n'.join(l for l in t.split('\n') if not l.startswith('#include')) for t in decl]))
    return PRE % dict(inc=inc, decl=dcl, body='\n'.join(body) + extra)


def gint(mod, name):
    t, init, _ = mod.globals[name]
    return init[1]


def settle(mod, ds, be):
    """sizes and offsets of the types as laid out in this build"""
    done = {}

    def go(d):
        k = key(d)
        d.size = gint(mod, 'sz_' + k)
        d.be_ = be
        if isinstance(d, Parts):
            d.offs = []
            for i, (e, p) in enumerate(d.parts):
                go(p)
                if k not in done or i >= len(done[k]):
                    ex = sym.Exec(mod, [], [])
                    st = sym.State()
                    oid = ex.alloc(st, 'v', d.size + 0, [(const(8, 0), 0)] * d.size, align=16)
                    r = ex.run_fn(st, 'pa_%s_%d' % (k, i), [Ptr(oid, const(ex.pw, 0))])
                    done.setdefault(k, []).append(r[0].ret.off.a)
                d.offs.append(done[k][i])
    for d in ds:
        go(d)


_m = {}


def module(src, cfg):
    kk = (src, cfg)
    if kk not in _m:
        c = build.CFGS[cfg]
        _m[kk] = build.compile_ir(src, c.get('std', 'c++17'), c.get('defs', ()), c.get('target'))
        _m[kk].ce = c.get('defs') is build.CE
    return _m[kk]


def fixed(fam, cfg, flavs):
    std = build.CFGS[cfg].get('std', 'c++17')
    ds, src = fixed_src(fam, flavs, std)
    mod = module(src, cfg)
    settle(mod, ds, mod.big)
    return ds, mod


# ------------------------------------------------------------ units
def rec(ex, st):
    oid = ex.alloc(st, 'hash object', 16, align=8)
    ex.writeloc(st, oid, 0, ex.pw // 8, const(ex.pw, 0))
    ex.writeloc(st, oid, 8, 8, V(64, 'state'))
    return oid


def toks(ds):
    r = {}
    for d in ds:
        for x in walk(d):
            if isinstance(x, Tok):
                r[key(x)] = x
    return list(r.values())


def ce_contracts(mod):
    import units_hash as U
    return U.ce_contracts(mod)


def u_fixed(d, mod, fl, cfg):
    u = Unit('hash_append<%s>(%s) [%s]' % (d.cpp, FLAV[fl][0], cfg), mod, [])
    w = mod.ptrw
    vals = d.mem('v')
    ex = u.exec([], [])
    st = u.st
    r = rec(ex, st)
    oid = ex.alloc(st, 'object', max(1, d.size), [(b, 0) for b in vals] if vals else [(const(8, 0), 0)], align=16, ro=True)
    u.inputs['object'] = vals
    g = lambda j: vals[j]
    st.assume(d.pre(g))
    a = ex.addr_of(Ptr(oid, const(ex.pw, 0)))
    m = d.msg(g, a, fl, mod.big)
    E = Expect(w, [Seg(const(w, len(m)), 1, lambda q, k: m[q.a])])
    ex.contracts[:] = [c_update(E), c_elem(E, mod.big), c_tok(E, mod, toks([d]))] + ce_contracts(mod)
    outs = u.run('s_%s_%s' % (key(d), fl), [Ptr(r, const(ex.pw, 0)), Ptr(oid, const(ex.pw, 0))])
    for o in outs:
        p = ex.readloc(o, r, 0, ex.pw // 8)
        u.prove(o, 'the message is complete: %d bytes and nothing after them' % len(m), T.eq(p, E.total))
        u.prove(o, 'at least one byte is appended', T.ult(const(w, 0), p))
    trait(u, st, d, mod, fl, vals, m)
    u.cover(outs)
    return u.done()


def trait(u, st, d, mod, fl, storage, m):
    """where the library may pass the storage of an object, the storage is the message"""
    if ('ch_%s_%s' % (key(d), fl)) not in mod.globals:
        return
    if gint(mod, 'ch_%s_%s' % (key(d), fl)):
        same = len(storage) == len(m) == d.size
        u.prove_all(st, 'is_contiguously_hashable is true: the storage is the message', [T.eq(a, b) for a, b in zip(storage, m)] if same else [T.FALSE])
    else:
        u.add('is_contiguously_hashable is false: the storage is not passed', True, 'canonical')


# ------------------------------------------------------------ ranges of any length
ITERS = r'''
template<class T> struct IterBase { using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T const*; using reference = T const&; };
template<class T> struct FwdIt: IterBase<T> { using iterator_category = std::forward_iterator_tag; T const* p;
    constexpr FwdIt(): p( nullptr ) {} constexpr explicit FwdIt( T const* q ): p( q ) {}
    constexpr T const& operator*() const { return *p; } BOOST_CXX14_CONSTEXPR FwdIt& operator++() { ++p; return *this; } BOOST_CXX14_CONSTEXPR FwdIt operator++( int ) { FwdIt r( *this ); ++p; return r; }
    friend constexpr bool operator==( FwdIt a, FwdIt b ) { return a.p == b.p; } friend constexpr bool operator!=( FwdIt a, FwdIt b ) { return a.p != b.p; } };
template<class T> struct BiIt: FwdIt<T> { using iterator_category = std::bidirectional_iterator_tag; BiIt() {} constexpr explicit BiIt( T const* q ): FwdIt<T>( q ) {}
    BOOST_CXX14_CONSTEXPR BiIt& operator++() { ++this->p; return *this; } BOOST_CXX14_CONSTEXPR BiIt operator++( int ) { BiIt r( *this ); ++this->p; return r; }
    BOOST_CXX14_CONSTEXPR BiIt& operator--() { --this->p; return *this; } };
template<class T> struct RaIt: IterBase<T> { using iterator_category = std::random_access_iterator_tag; T const* p;
    RaIt(): p( nullptr ) {} constexpr explicit RaIt( T const* q ): p( q ) {}
    constexpr T const& operator*() const { return *p; } constexpr T const& operator[]( std::ptrdiff_t i ) const { return p[ i ]; }
    BOOST_CXX14_CONSTEXPR RaIt& operator++() { ++p; return *this; } BOOST_CXX14_CONSTEXPR RaIt operator++( int ) { RaIt r( *this ); ++p; return r; }
    BOOST_CXX14_CONSTEXPR RaIt& operator--() { --p; return *this; } BOOST_CXX14_CONSTEXPR RaIt operator--( int ) { RaIt r( *this ); --p; return r; }
    BOOST_CXX14_CONSTEXPR RaIt& operator+=( std::ptrdiff_t n ) { p += n; return *this; } BOOST_CXX14_CONSTEXPR RaIt& operator-=( std::ptrdiff_t n ) { p -= n; return *this; }
    friend constexpr RaIt operator+( RaIt a, std::ptrdiff_t n ) { return RaIt( a.p + n ); } friend constexpr RaIt operator+( std::ptrdiff_t n, RaIt a ) { return RaIt( a.p + n ); } friend constexpr RaIt operator-( RaIt a, std::ptrdiff_t n ) { return RaIt( a.p - n ); }
    friend constexpr std::ptrdiff_t operator-( RaIt a, RaIt b ) { return a.p - b.p; }
    friend constexpr bool operator==( RaIt a, RaIt b ) { return a.p == b.p; } friend constexpr bool operator!=( RaIt a, RaIt b ) { return a.p != b.p; }
    friend constexpr bool operator<( RaIt a, RaIt b ) { return a.p < b.p; } friend constexpr bool operator>( RaIt a, RaIt b ) { return a.p > b.p; }
    friend constexpr bool operator<=( RaIt a, RaIt b ) { return a.p <= b.p; } friend constexpr bool operator>=( RaIt a, RaIt b ) { return a.p >= b.p; } };
// random access over values returned by value
template<class T> struct ValIt: RaIt<T> { using reference = T; using pointer = void; ValIt() {} constexpr explicit ValIt( T const* q ): RaIt<T>( q ) {} constexpr T operator*() const { return *this->p; } };
// random access with a proxy reference
template<class T> struct Prox { T const* p; constexpr operator T() const { return *p; } };
template<class T> struct ProxIt: RaIt<T> { using reference = Prox<T>; using pointer = void; ProxIt() {} constexpr explicit ProxIt( T const* q ): RaIt<T>( q ) {} constexpr Prox<T> operator*() const { return Prox<T>{ this->p }; } };
// single pass: all copies share the source
template<class T> struct Src { T const* p; T const* e; };
template<class T> struct InIt: IterBase<T> { using iterator_category = std::input_iterator_tag; Src<T>* s;
    InIt(): s( nullptr ) {} constexpr explicit InIt( Src<T>* q ): s( q ) {}
    T const& operator*() const { return *s->p; } InIt& operator++() { ++s->p; return *this; } InIt operator++( int ) { InIt r( *this ); ++s->p; return r; }
    bool end() const { return s == nullptr || s->p == s->e; }
    friend bool operator==( InIt a, InIt b ) { return a.end() == b.end(); } friend bool operator!=( InIt a, InIt b ) { return a.end() != b.end(); } };
template<class T> struct PtrR { T const* p; std::size_t n; constexpr T const* begin() const { return p; } constexpr T const* end() const { return p + n; } };
template<class T> struct Contig { using value_type = T; T const* p; std::size_t n; constexpr T const* begin() const { return p; } constexpr T const* end() const { return p + n; } constexpr T const* data() const { return p; } constexpr std::size_t size() const { return n; } };
template<class T> struct ContigF { using value_type = T; T const* p; std::uint32_t n; constexpr RaIt<T> begin() const { return RaIt<T>( p ); } constexpr RaIt<T> end() const { return RaIt<T>( p + n ); } constexpr T const* data() const { return p; } constexpr std::uint32_t size() const { return n; } };
template<class T, template<class> class It> struct ItR { T const* p; std::size_t n; constexpr It<T> begin() const { return It<T>( p ); } constexpr It<T> end() const { return It<T>( p + n ); } };
template<class T> struct InR { Src<T>* s; InIt<T> begin() const { return InIt<T>( s ); } InIt<T> end() const { return InIt<T>(); } };
template<class T, template<class> class It> struct CsR { T const* p; std::size_t n; constexpr It<T> begin() const { return It<T>( p ); } constexpr It<T> end() const { return It<T>( p + n ); } };
template<class T> struct CsC { using value_type = T; T const* p; std::size_t n; constexpr T const* begin() const { return p; } constexpr T const* end() const { return p + n; } constexpr T const* data() const { return p; } constexpr std::size_t size() const { return n; } constexpr T const& front() const { return *p; } };
namespace boost { namespace hash2 {
template<class T, template<class> class It> struct has_constant_size< CsR<T, It> >: std::true_type {};
template<class T> struct has_constant_size< CsC<T> >: std::true_type {};
}}
template<class T> struct V3 { T const* b; T const* e; T const* c; };
struct Str { void const* p; std::size_t n; unsigned char sso[ 16 ]; };
'''

# name -> (statement, size appended?, one zero byte when empty?)
CONT = {
    'range_ptr': ('hash_append_range( *h, %(F)s(), p, p + n );', 0, 0),
    'range_mptr': ('hash_append_range( *h, %(F)s(), const_cast<%(cpp)s*>( p ), const_cast<%(cpp)s*>( p ) + n );', 0, 0),
    'range_fwd': ('hash_append_range( *h, %(F)s(), FwdIt<%(cpp)s>( p ), FwdIt<%(cpp)s>( p + n ) );', 0, 0),
    'range_ra': ('hash_append_range( *h, %(F)s(), RaIt<%(cpp)s>( p ), RaIt<%(cpp)s>( p + n ) );', 0, 0),
    'range_in': ('Src<%(cpp)s> s = { p, p + n }; hash_append_range( *h, %(F)s(), InIt<%(cpp)s>( &s ), InIt<%(cpp)s>() );', 0, 0),
    'sized_ptr': ('hash_append_sized_range( *h, %(F)s(), p, p + n );', 1, 0),
    'sized_ra': ('hash_append_sized_range( *h, %(F)s(), RaIt<%(cpp)s>( p ), RaIt<%(cpp)s>( p + n ) );', 1, 0),
    'sized_val': ('hash_append_sized_range( *h, %(F)s(), ValIt<%(cpp)s>( p ), ValIt<%(cpp)s>( p + n ) );', 1, 0),
    'sized_prox': ('hash_append_sized_range( *h, %(F)s(), ProxIt<%(cpp)s>( p ), ProxIt<%(cpp)s>( p + n ) );', 1, 0),
    'sized_fwd': ('hash_append_sized_range( *h, %(F)s(), FwdIt<%(cpp)s>( p ), FwdIt<%(cpp)s>( p + n ) );', 1, 0),
    'sized_in': ('Src<%(cpp)s> s = { p, p + n }; hash_append_sized_range( *h, %(F)s(), InIt<%(cpp)s>( &s ), InIt<%(cpp)s>() );', 1, 0),
    'contig': ('Contig<%(cpp)s> v = { p, n }; hash_append( *h, %(F)s(), v );', 1, 0),
    'contig_ra': ('ContigF<%(cpp)s> v = { p, (std::uint32_t)n }; hash_append( *h, %(F)s(), v );', 1, 0),
    'ptrr': ('PtrR<%(cpp)s> v = { p, n }; hash_append( *h, %(F)s(), v );', 1, 0),
    'rar': ('ItR<%(cpp)s, RaIt> v = { p, n }; hash_append( *h, %(F)s(), v );', 1, 0),
    'bir': ('ItR<%(cpp)s, BiIt> v = { p, n }; hash_append( *h, %(F)s(), v );', 1, 0),
    'fwdr': ('ItR<%(cpp)s, FwdIt> v = { p, n }; hash_append( *h, %(F)s(), v );', 1, 0),
    'inr': ('Src<%(cpp)s> s = { p, p + n }; InR<%(cpp)s> v = { &s }; hash_append( *h, %(F)s(), v );', 1, 0),
    'cs_fwd': ('CsR<%(cpp)s, FwdIt> v = { p, n }; hash_append( *h, %(F)s(), v );', 0, 1),
    'cs_ra': ('CsR<%(cpp)s, RaIt> v = { p, n }; hash_append( *h, %(F)s(), v );', 0, 1),
    'cs_ptr': ('CsC<%(cpp)s> v = { p, n }; hash_append( *h, %(F)s(), v );', 0, 1),
    'vector': ('V3<%(cpp)s> v = { p, p + n, p + n }; hash_append( *h, %(F)s(), reinterpret_cast<std::vector<%(cpp)s> const&>( v ) );', 1, 0),
    'ilist': ('struct IL { %(cpp)s const* p; std::size_t n; } v = { p, n }; hash_append( *h, %(F)s(), reinterpret_cast<std::initializer_list<%(cpp)s> const&>( v ) );', 1, 0),
    'string': ('Str v = { p, n, {} }; hash_append( *h, %(F)s(), reinterpret_cast<std::basic_string<%(cpp)s> const&>( v ) );', 1, 0),
    'sview': ('struct SV { std::size_t n; %(cpp)s const* p; } v = { n, p }; hash_append( *h, %(F)s(), reinterpret_cast<std::basic_string_view<%(cpp)s> const&>( v ) );', 1, 0),
}
STRINGS = ('char', 'wchar', 'c16', 'c32')


def elements(std):
    L = [u8(), Scalar('char', 'char', 1), Scalar('schar', 'signed char', 1), bl(), Scalar('eu8', 'EU8', 1, decl='enum class EU8: unsigned char { a };'), u16(), Scalar('int', 'int', 4), u32(), u64(), Scalar('wchar', 'wchar_t', 4),
         Scalar('c16', 'char16_t', 2), Scalar('c32', 'char32_t', 4), es16(), vptr(), Null(8), f32(), f64(), el(),
         Parts('p_elem_u16', 'P_elem_u16', [('v->first', el()), ('v->second', u16())], decl='#include <utility>\ntypedef std::pair<Elem, std::uint16_t> P_elem_u16;'),
         Parts('p_u8_bool', 'P_u8_bool', [('v->first', u8()), ('v->second', bl())], decl='#include <utility>\ntypedef std::pair<unsigned char, bool> P_u8_bool;'),
         Parts('t_u16_elem', 'T_u16_elem', [('std::get<0>(*v)', u16()), ('std::get<1>(*v)', el())], decl='#include <tuple>\ntypedef std::tuple<std::uint16_t, Elem> T_u16_elem;'),
         Parts('sa_u32x2', 'A_sa_u32x2', [('(*v)[%d]' % i, u32()) for i in range(2)], decl='#include <array>\ntypedef std::array<std::uint32_t, 2> A_sa_u32x2;'),
         Parts('dig20', 'digest<20>', [('(*v).data()[%d]' % i, u8()) for i in range(20)]), vecE()]
    if std != 'c++11':
        L.append(Parts('ds1', 'DS1', [('v->a', el()), ('v->b', u16())], decl=DESC_DECL, need='c++14'))
    return L + [er3(), en2(), EBD()]


def carrays():
    return [arr('u16x3', u16, 3), arr('elem2', el, 2), arr('f32x2', f32, 2), arr('u8x5', u8, 5)]


BODYR = 'void %(c)s_%(k)s_%(fl)s( Rec* h, %(cpp)s const* p, std::size_t n ) { %(st)s }'
NOARR = ('sized_val', 'sized_prox', 'cs_', 'vector', 'ilist', 'string', 'sview')


def conts_for(d, std):
    for c in CONT:
        if c in ('string', 'sview'):
            if d.name not in STRINGS or (c == 'sview' and std in ('c++11', 'c++14')):
                continue
        if (c == 'vector' and d.name == 'bool') or (c in ('sized_val', 'sized_prox') and isinstance(d, Tok)):
            continue
        if d.cpp.startswith('A_') and isinstance(d, Parts) and not d.cpp.startswith('A_sa') and c.startswith(NOARR):
            continue
        yield c


_rng = {}


def ranges(cfg, flavs):
    kk = (cfg, flavs)
    if kk in _rng:
        return _rng[kk]
    std = build.CFGS[cfg].get('std', 'c++17')
    ds = elements(std) + carrays()
    body = []
    for d in ds:
        for fl in flavs:
            for c in conts_for(d, std):
                m = dict(c=c, k=key(d), cpp=d.cpp, fl=fl, F=FLAV[fl][0])
                m['st'] = CONT[c][0] % m
                body.append(BODYR % m)
    for fl in flavs:
        for n, t in SIZES:
            body.append('void sz_%s_%s( Rec* h, %s const* v ) { hash_append_size( *h, %s(), *v ); }' % (n, fl, t, FLAV[fl][0]))
    src = typed_src(ds, flavs, [], '\n' + '\n'.join(body))
    src = src.replace('struct Elem {', ITERS + 'struct Elem {', 1).replace('#include <cstdint>', '#include <vector>\n#include <string>\n#include <initializer_list>\n%s#include <cstdint>' % ('#include <string_view>\n' if std in ('c++17', 'c++20') else ''), 1)
    mod = module(src, cfg)
    settle(mod, ds, mod.big)
    _rng[kk] = ds, mod
    return _rng[kk]


SIZES = [('u8', 'unsigned char'), ('u16', 'std::uint16_t'), ('u32', 'std::uint32_t'), ('u64', 'std::uint64_t'), ('i8', 'signed char'), ('i16', 'short'), ('i32', 'int'), ('i64', 'long long'), ('zu', 'std::size_t'), ('zd', 'std::ptrdiff_t')]


def sizebytes(n, fl, be):
    """the flavor's size_type holding n (as a 64-bit value), in the flavor's byte order"""
    s = FLAV[fl][2]
    bs = [T.extract(n, 8 * i, 8) for i in range(s)]
    return order(bs, False, flavor_be(fl, be))


def seg_of(d, fl, be, count, w, base):
    cache = {}

    def msg(q):
        r = cache.get(q)
        if r is None:
            a = T.add(base, T.mulc(q, d.size))
            r = cache[q] = d.msg(lambda j: d.smem(q, j), a, fl, be)
        return r
    m0 = len(msg(const(w, 0)))
    g = d.pre(lambda j: d.smem(const(w, 0), j))
    guard = None if (g.k == 'const' and g.a) else (lambda q: d.pre(lambda j: d.smem(q, j)))
    return Seg(count, m0, lambda q, k: msg(q)[k], guard)


def u_range(c, d, mod, fl, cfg, null=False):
    st_, sized, zero = CONT[c]
    u = Unit('%s of %s%s (%s) [%s]' % (c, d.cpp, ' (null, empty)' if null else '', FLAV[fl][0], cfg), mod, [])
    w = mod.ptrw
    ex = u.exec([], [])
    st = u.st
    r = rec(ex, st)
    nb = 48 if w == 64 else 20
    if null:
        n = const(w, 0)
        p = ex.null()
        base = const(w, 0)
    else:
        if c == 'contig_ra':
            nb = min(nb, 31)
        n = T.zext(NB(nb), w)

        def mem(off):
            q = Expect.splitoff(None, off, d.size)
            if q is None:
                raise sym.EngineError('element address not of the form i*size+j: %s' % T.show(off)[:200])
            return d.smem(*q)
        oid = ex.new_obj(st, 'elements', T.mulc(n, d.size), fn=mem, ro=True, align=16)
        p = Ptr(oid, const(w, 0))
        base = ex.addr_of(p)
        u.inputs['n'] = n
    segs = [seg_of(d, fl, mod.big, n, w, base)]
    if sized:
        sb = sizebytes(T.zext(n, 64), fl, mod.big)
        segs.append(Seg(const(w, len(sb)), 1, lambda q, k: sb[q.a]))
    if zero:
        segs.append(Seg(T.ite(T.eq(n, const(w, 0)), const(w, 1), const(w, 0)), 1, lambda q, k: const(8, 0)))
    E = Expect(w, segs)
    ex.contracts[:] = [c_update(E), c_elem(E, mod.big), c_tok(E, mod, toks([d]))] + ce_contracts(mod)
    outs = u.run('%s_%s_%s' % (c, key(d), fl), [Ptr(r, const(w, 0)), p, n])
    for o in outs:
        q = ex.readloc(o, r, 0, w // 8)
        u.prove(o, 'the message is complete: every element, then the size, and nothing else', T.eq(q, E.total))
        if sized or zero:
            u.prove(o, 'at least one byte is appended', T.ult(const(w, 0), q))
    u.cover(outs)
    return u.done()


def u_size(name, mod, fl, cfg):
    t = dict(SIZES)[name]
    u = Unit('hash_append_size<%s>(%s) [%s]' % (t, FLAV[fl][0], cfg), mod, [])
    w = mod.ptrw
    ex = u.exec([], [])
    st = u.st
    r = rec(ex, st)
    W = w if name in ('zu', 'zd') else int(name[1:])
    v = V(W, 'v')
    oid = ex.alloc(st, 'value', W // 8, align=8)
    ex.writeloc(st, oid, 0, W // 8, v)
    v64 = (T.sext if name[0] == 'i' or name == 'zd' else T.zext)(v, 64) if W < 64 else v
    sb = sizebytes(v64, fl, mod.big)
    E = Expect(w, [Seg(const(w, len(sb)), 1, lambda q, k: sb[q.a])])
    ex.contracts[:] = [c_update(E)] + ce_contracts(mod)
    outs = u.run('sz_%s_%s' % (name, fl), [Ptr(r, const(w, 0)), Ptr(oid, const(w, 0))])
    for o in outs:
        u.prove(o, 'the size is appended as the flavor size type', T.eq(ex.readloc(o, r, 0, w // 8), E.total))
    u.cover(outs)
    return u.done()


# ------------------------------------------------------------ unordered ranges
class SumFold:
    """SUM(0) = 0, SUM(i+1) = SUM(i) + term(i) modulo 2^64"""
    def __init__(self, term, w):
        self.term, self.w = term, w

    def S(self, i):
        if i.k == 'const' and i.a <= 4:
            r = const(64, 0)
            for j in range(i.a):
                r = T.add(r, self.term(const(self.w, j)))
            return r
        return T.uf('SUM', 64, i)

    def refold(self, ex, st, full=True):
        pass

    def guess(self, ex, x, y, t):
        if x.w != 64:
            return []
        tt = T.zext(t, self.w) if t.w < self.w else t
        d = T.sub(y, x)
        for k in range(4):
            if d is self.term(const(self.w, k)):
                return [T.add(T.sub(x, self.S(const(self.w, k))), self.S(T.add(tt, const(self.w, k))) if k else T.uf('SUM', 64, tt))]
        return []

    def unfold(self, a, b):
        us = [x for x in T.topo([a, b]) if x.k == 'uf' and x.a[0] == 'SUM']
        m = {}
        for x in us:
            if x.a[1].k == 'const':
                m[x] = self.S(x.a[1])
                continue
            best = None
            for y in us:
                d = T.sub(x.a[1], y.a[1])
                if d.k == 'const' and 1 <= d.a <= 4 and (best is None or d.a > best[0]):
                    best = (d.a, y)
            if best:
                r = best[1]
                for j in range(best[0]):
                    r = T.add(r, self.term(T.add(best[1].a[1], const(self.w, j))))
                m[x] = r
        if not m:
            return a, b
        return tuple(T.subst([a, b], m))

    def equal(self, a, b, pc):
        return a is b or smt.prove(pc, T.eq(a, b), want_model=False).ok


UCONT = {
    'un_ptr': 'hash_append_unordered_range( *h, %(F)s(), p, p + n );',
    'un_fwd': 'hash_append_unordered_range( *h, %(F)s(), FwdIt<%(cpp)s>( p ), FwdIt<%(cpp)s>( p + n ) );',
    'un_ra': 'hash_append_unordered_range( *h, %(F)s(), RaIt<%(cpp)s>( p ), RaIt<%(cpp)s>( p + n ) );',
    'un_val': 'hash_append_unordered_range( *h, %(F)s(), ValIt<%(cpp)s>( p ), ValIt<%(cpp)s>( p + n ) );',
    'un_in': 'Src<%(cpp)s> s = { p, p + n }; hash_append_unordered_range( *h, %(F)s(), InIt<%(cpp)s>( &s ), InIt<%(cpp)s>() );',
    'un_set': 'UnR<%(cpp)s> v = { p, n }; hash_append( *h, %(F)s(), v );',
}
RESULTS = {'u64': ('std::uint64_t', 8), 'u32': ('std::uint32_t', 4), 'u16': ('std::uint16_t', 2), 'u8': ('unsigned char', 1), 'd8': ('digest<8>', 8), 'd16': ('digest<16>', 16), 'd20': ('digest<20>', 20), 'd64': ('digest<64>', 64), 'a8': ('RArr8', 8)}


def uelements():
    return [el(), u32(), u64(), u8(), Parts('p_elem_u16', 'P_elem_u16', [('v->first', el()), ('v->second', u16())], decl='#include <utility>\ntypedef std::pair<Elem, std::uint16_t> P_elem_u16;'), vecE()]


_un = {}


def unordered(cfg, flavs):
    kk = (cfg, flavs)
    if kk in _un:
        return _un[kk]
    ds = uelements()
    body = []
    for d in ds:
        for rn, (rt, rs) in RESULTS.items():
            if rn != 'u64' and d.name != 'elem':
                continue
            for fl in flavs:
                H = 'RecT<%s>' % rt
                F = FLAV[fl][0]
                body.append('extern void (*const he_%(k)s_%(r)s_%(fl)s)( %(H)s&, %(F)s const&, %(cpp)s const& ); void (*const he_%(k)s_%(r)s_%(fl)s)( %(H)s&, %(F)s const&, %(cpp)s const& ) = &boost::hash2::hash_append<%(H)s, %(F)s, %(cpp)s>;' % dict(k=key(d), r=rn, fl=fl, H=H, F=F, cpp=d.cpp))
                for c, stt in UCONT.items():
                    if (c == 'un_val' and isinstance(d, Tok)) or (rn != 'u64' and c not in ('un_fwd', 'un_set')):
                        continue
                    body.append('void %s_%s_%s_%s( %s* h, %s const* p, std::size_t n ) { %s }' % (c, key(d), rn, fl, H, d.cpp, stt % dict(F=F, cpp=d.cpp)))
    src = typed_src(ds, flavs, [], '\n' + '\n'.join(body))
    extra = 'template<class T> struct UnR { using hasher = int; T const* p; std::size_t n; FwdIt<T> begin() const { return FwdIt<T>( p ); } FwdIt<T> end() const { return FwdIt<T>( p + n ); } };\nusing RArr8 = std::array<unsigned char, 8>;\n'
    src = src.replace('struct Elem {', ITERS + extra + 'struct Elem {', 1).replace('#include <cstdint>', '#include <vector>\n#include <array>\n#include <cstdint>', 1)
    mod = module(src, cfg)
    settle(mod, ds, mod.big)
    _un[kk] = ds, mod
    return _un[kk]


def unord_variants(d, rn):
    return [c for c in UCONT if not ((c == 'un_val' and isinstance(d, Tok)) or (rn != 'u64' and c not in ('un_fwd', 'un_set')))]


def res_bytes(rn, st):
    """bytes / value of the result of a hash object in state st"""
    rt, rs = RESULTS[rn]
    if rn[0] == 'u':
        return T.uf('RES', 8 * rs, st)
    return [T.uf('RES%d' % j, 8, st) for j in range(rs)]


def integral64(rn, st):
    """the 64-bit integral result (its definition is decided by the units for integral results)"""
    r = res_bytes(rn, st)
    if rn[0] != 'u':
        return T.concat_bytes(r[:8])
    from integral import widen
    return widen(r, 64)


def u_unord(c, d, rn, mod, fl, cfg):
    u = Unit('%s of %s, result %s (%s) [%s]' % (c, d.cpp, RESULTS[rn][0], FLAV[fl][0], cfg), mod, [])
    w = mod.ptrw
    be = mod.big
    n = T.zext(NB(48 if w == 64 else 20), w)
    ex = u.exec([], [])
    st = u.st
    r = rec(ex, st)
    s0 = V(64, 'state')
    sz = d.size

    def mem(off):
        q = Expect.splitoff(None, off, sz)
        if q is None:
            raise sym.EngineError('element address not of the form i*size+j: %s' % T.show(off)[:200])
        return d.smem(*q)
    oid = ex.new_obj(st, 'elements', T.mulc(n, sz), fn=mem, ro=True, align=16)
    p = Ptr(oid, const(w, 0))
    base = ex.addr_of(p)
    byaddr = isinstance(d, Tok)

    def he(s_, val):
        return T.uf('HE', 64, s_, val)

    def val(i):
        return T.add(base, T.mulc(i, sz)) if byaddr else T.concat_bytes([d.smem(i, j) for j in range(sz)])
    fold = SumFold(lambda i: integral64(rn, he(s0, val(i))), w)
    ex.folds[:] = [fold]
    total = fold.S(n)
    sumb = order([T.extract(total, 8 * i, 8) for i in range(8)], False, flavor_be(fl, be))
    szb = sizebytes(T.zext(n, 64), fl, be)
    m = sumb + szb
    E = Expect(w, [Seg(const(w, len(m)), 1, lambda q, k: m[q.a])])
    names = {}
    for fl2 in FLAV:
        gl = mod.globals.get('he_%s_%s_%s' % (key(d), rn, fl2))
        if gl is not None:
            names[gl[1][1]] = fl2
    up, uh = c_update(E)

    def h_update(ex, s, fr, fn, args, dest, line):
        if args[0].obj == r:
            return uh(ex, s, fr, fn, args, dest, line)
        ex.oblige(s, 'message: nothing but the element is appended to the copy', T.FALSE, line)
        s.dead = True

    def h_elem(ex, s, fr, fn, args, dest, line):
        q, v = args[0], args[2]
        o = ex.bounds(s, v, sz, line, 'element')
        if o is None:
            s.dead = True
            return None
        ex.oblige(s, 'the element is hashed under the flavor of the range', T.TRUE if names[fn.name] == fl else T.FALSE, line)
        if byaddr:
            x = ex.addr_of(v)
            g = None
        else:
            cs = ex.read_cells(s, o, v.off, sz)
            if any(y is None for y in cs):
                ex.fail(s, 'memory-safety: element not initialised', line)
                return None
            g = [ex.byte(y) for y in cs]
            x = T.concat_bytes(g)
        if q.obj == r:
            if g is None or not isinstance(d, Scalar):
                ex.oblige(s, 'message: the elements are not appended to the incoming state', T.FALSE, line)
                s.dead = True
                return None
            emit(ex, s, q, E, d.msg(lambda j: g[j], None, names[fn.name], be), line, 'an integer')
            return None
        if ex.bounds(s, q, 16, line, 'hash object') is None:
            s.dead = True
            return None
        ps = ex.readloc(s, q.obj, q.off.a, ex.pw // 8)
        s1 = ex.readloc(s, q.obj, q.off.a + 8, 8)
        if ps is None or s1 is None:
            ex.fail(s, 'memory-safety: hash object not initialised', line)
            return None
        s.wr(q.obj)
        ex.writeloc(s, q.obj, q.off.a + 8, 8, he(s1, x))
        return None

    def h_result(ex, s, fr, fn, args, dest, line):
        q = args[-1]
        if q.obj == r:
            ex.oblige(s, 'frame: the incoming hash object is not finalised', T.FALSE, line)
            s.dead = True
            return None
        s1 = need(ex.readloc(s, q.obj, q.off.a + 8, 8), 64)
        s.wr(q.obj)
        ex.writeloc(s, q.obj, q.off.a + 8, 8, T.fresh(64, 'after'))
        v = res_bytes(rn, s1)
        if isinstance(v, list):
            if len(args) == 2:
                o = ex.bounds(s, args[0], len(v), line, 'result')
                if o is None:
                    s.dead = True
                    return None
                ex.write_cells(s, args[0].obj, o, args[0].off, [(b, 0) for b in v])
                return None
            v = agg_of(ex, fn.ret, v)
        fr.regs[dest] = v
        return None

    def h_ctor(ex, s, fr, fn, args, dest, line):
        q = args[0]
        s.wr(q.obj)
        ex.writeloc(s, q.obj, q.off.a, ex.pw // 8, const(ex.pw, 0))
        ex.writeloc(s, q.obj, q.off.a + 8, 8, V(64, 'default_state'))
        return None
    dem = lambda pat: (lambda fn: bool(re.match(pat, fn.dem or '')))
    ex.contracts[:] = [(up, h_update), (lambda fn: fn.name in names, h_elem), (dem(r'RecT<.*>::result\(\)'), h_result), (dem(r'RecT<.*>::RecT\(\)'), h_ctor)] + ce_contracts(mod)
    outs = u.run('%s_%s_%s_%s' % (c, key(d), rn, fl), [Ptr(r, const(w, 0)), p, n])
    for o in outs:
        u.prove(o, 'the message is the sum of the element hashes, then the size, and nothing else', T.eq(ex.readloc(o, r, 0, w // 8), E.total))
        u.prove(o, 'the incoming state is otherwise unchanged', T.eq(need(ex.readloc(o, r, 8, 8), 64), s0))
    # the sum does not depend on the order: adjacent elements can be exchanged
    a, x, y = V(64, 'acc'), V(64, 'x'), V(64, 'y')
    u.prove(st, 'lemma: exchanging two neighbouring elements leaves the sum unchanged', T.eq(T.add(T.add(a, x), y), T.add(T.add(a, y), x)))
    u.cover(outs)
    return u.done()


def agg_of(ex, t, bs):
    """a value of type t (integer or aggregate of integers) made of these bytes in memory order"""
    t = ex.mod.resolve(t)
    if t.k == 'int':
        b = bs if not ex.mod.big else bs[::-1]
        return T.concat_bytes(b)
    out, i = [], 0
    es = t.el if t.k == 'struct' else [t.el] * t.n
    for e in es:
        k = ex.mod.size(e)
        out.append(agg_of(ex, e, bs[i:i + k]))
        i += k
    return sym.Agg(out)
