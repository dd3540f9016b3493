"""Parser for the subset of textual LLVM IR that clang emits at -O0."""
import re, subprocess


class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'name', 'packed')

    def __init__(self, k, w=0, el=None, n=0, name=None, packed=False):
        self.k, self.w, self.el, self.n, self.name, self.packed = k, w, el, n, name, packed

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.el))
        if self.k == 'named':
            return '%%%s' % self.name
        return self.k


VOID = Ty('void')
PTR = Ty('ptr')
_ints = {}


def INT(w):
    if w not in _ints:
        _ints[w] = Ty('int', w)
    return _ints[w]


F32 = Ty('float', 32)
F64 = Ty('double', 64)
F80 = Ty('x86_fp80', 80)

_tok = re.compile(r'''\s*(
   c"(?:[^"])*" | [%@]"(?:[^"\\]|\\.)*" | [%@][-a-zA-Z$._0-9]+ | \#\d+ | !"[^"]*" | ![-a-zA-Z._0-9]* |
   "(?:[^"])*" | 0x[KLMHR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ | [a-zA-Z_][-a-zA-Z0-9_.]* | \.\.\. | [\[\]{}()<>,=*:|]
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = _tok.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Exception('tokenize: ' + s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


_ATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext', 'inreg', 'returned',
         'immarg', 'nest', 'swiftself', 'noreturn', 'nofree', 'dead_on_unwind', 'writable', 'allocptr', 'inrange'}
_FATTR = {'fastcc', 'ccc', 'tail', 'musttail', 'notail', 'dso_local', 'linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'hidden',
          'external', 'available_externally', 'unnamed_addr', 'local_unnamed_addr', 'extern_weak', 'dso_preemptable', 'common', 'appending', 'linkonce',
          'protected', 'default', 'coldcc'}


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        y = self.next()
        if y != x:
            raise Exception('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        x = self.next()
        if x == 'void':
            return VOID
        if x == 'ptr':
            if self.acc('addrspace'):
                self.exp('(')
                self.next()
                self.exp(')')
            return PTR
        if x[0] == 'i' and x[1:].isdigit():
            return INT(int(x[1:]))
        if x == 'float':
            return F32
        if x == 'double':
            return F64
        if x in ('x86_fp80', 'fp128', 'ppc_fp128'):
            return F80
        if x in ('label', 'metadata', 'token', 'half'):
            return Ty(x)
        if x == '[':
            n = int(self.next())
            self.exp('x')
            e = self.type()
            self.exp(']')
            return Ty('arr', 0, e, n)
        if x == '{':
            el = []
            while not self.acc('}'):
                el.append(self.type())
                self.acc(',')
            return Ty('struct', 0, el)
        if x == '<':
            if self.peek() == '{':
                self.next()
                el = []
                while not self.acc('}'):
                    el.append(self.type())
                    self.acc(',')
                self.exp('>')
                return Ty('struct', 0, el, packed=True)
            n = int(self.next())
            self.exp('x')
            e = self.type()
            self.exp('>')
            return Ty('vec', 0, e, n)
        if x[0] == '%':
            return Ty('named', name=unq(x[1:]))
        raise Exception('type? ' + x + ' in ' + ' '.join(self.t))

    def attrs(self):
        """skip parameter attributes; returns dict of interesting ones"""
        d = {}
        while True:
            x = self.peek()
            if x in _ATTR:
                self.next()
            elif x == 'align':
                self.next()
                if self.acc('('):
                    self.next()
                    self.exp(')')
                else:
                    self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
                self.next()
                self.paren()
            elif x in ('sret', 'byval', 'byref', 'inalloca', 'elementtype', 'preallocated'):
                self.next()
                self.exp('(')
                d[x] = self.type()
                self.exp(')')
            elif x == 'captures' or x == 'initializes' or x == 'memory':
                self.next()
                self.paren()
            else:
                return d

    def paren(self):
        self.exp('(')
        n = 1
        while n:
            x = self.next()
            n += (x == '(') - (x == ')')

    def value(self, ty):
        """operand of known type -> tuple"""
        x = self.next()
        c = x[0]
        if c == '%':
            return ('r', unq(x[1:]))
        if c == '@':
            return ('g', unq(x[1:]))
        if x in ('null', 'zeroinitializer'):
            return ('zero', ty)
        if x in ('undef', 'poison'):
            return ('undef', ty)
        if x == 'true':
            return ('int', 1)
        if x == 'false':
            return ('int', 0)
        if ty.k in ('float', 'double') and (c in '0123456789-'):
            return ('fp', fpbits(x, ty))
        if ty.k == 'x86_fp80':
            return ('fp', int(x[3:], 16) if x.startswith('0x') else 0)
        if c == '-' or c.isdigit():
            return ('int', int(x))
        if x.startswith('c"'):
            return ('bytes', cstr(x[2:-1]))
        if x == '[':
            el = []
            while not self.acc(']'):
                t = self.type()
                el.append((t, self.value(t)))
                self.acc(',')
            return ('agg', el)
        if x == '{':
            el = []
            while not self.acc('}'):
                t = self.type()
                el.append((t, self.value(t)))
                self.acc(',')
            return ('agg', el)
        if x == '<':
            el = []
            if self.acc('{'):
                while not self.acc('}'):
                    t = self.type()
                    el.append((t, self.value(t)))
                    self.acc(',')
                self.exp('>')
                return ('agg', el)
            while not self.acc('>'):
                t = self.type()
                el.append((t, self.value(t)))
                self.acc(',')
            return ('agg', el)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            if self.peek() == 'inrange':
                self.next()
                self.paren()
            self.exp('(')
            t = self.type()
            self.exp(',')
            bt = self.type()
            b = self.value(bt)
            idx = []
            while self.acc(','):
                self.attrs()
                it = self.type()
                idx.append((it, self.value(it)))
            self.exp(')')
            return ('cgep', t, b, idx)
        if x in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext'):
            self.exp('(')
            t = self.type()
            v = self.value(t)
            self.exp('to')
            t2 = self.type()
            self.exp(')')
            return ('ccast', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.exp('(')
            t = self.type()
            a = self.value(t)
            self.exp(',')
            t2 = self.type()
            b = self.value(t2)
            self.exp(')')
            return ('cbin', x, t, a, b)
        if x == 'dso_local_equivalent' or x == 'no_cfi':
            return self.value(ty)
        if c == '!':
            return ('md', x)
        raise Exception('value? %s in %s' % (x, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))


def unq(s):
    if s and s[0] == '"':
        return s[1:-1]
    return s


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def fpbits(x, ty):
    import struct
    if x.startswith('0x'):
        v = int(x[2:], 16)
        if ty.k == 'float':
            d = struct.unpack('<d', struct.pack('<Q', v))[0]
            return struct.unpack('<I', struct.pack('<f', d))[0]
        return v
    d = float(x)
    if ty.k == 'float':
        return struct.unpack('<I', struct.pack('<f', d))[0]
    return struct.unpack('<Q', struct.pack('<d', d))[0]


class Fn:
    def __init__(self):
        self.name = None
        self.params = []     # (type, name, attrs)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.decl = True
        self._loops = None
        self.raw = None
        self.dem = None
        self.dbg = None

    def loops(self):
        """header -> set(blocks) natural loops"""
        if self._loops is None:
            self._loops = _find_loops(self)
        return self._loops


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.md = {}
        self.layout = ''
        self.triple = ''
        self._line = {}
        self._parse(text)
        self.big = self.layout.startswith('E')
        m = re.search(r'(?:^|-)p:(\d+)', self.layout)
        self.ptrw = int(m.group(1)) if m else 64
        self.sizes = {}

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] == ';':
                i += 1
                continue
            if l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                self._fn(l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare'):
                self._fn(l, None)
            elif l[0] == '%' and ' = type ' in l:
                nm, b = l.split(' = type ', 1)
                nm = unq(nm[1:])
                if b.strip() == 'opaque':
                    self.types[nm] = None
                else:
                    self.types[nm] = P(tokenize(b), self).type()
            elif l[0] == '@':
                self._global(l)
            elif l.startswith('target datalayout'):
                self.layout = l.split('"')[1]
            elif l.startswith('target triple'):
                self.triple = l.split('"')[1]
            elif l[0] == '!':
                k = l.find(' = ')
                if k > 0:
                    self.md[l[:k]] = l[k + 3:]
            i += 1
        names = [f for f in self.fns]
        p = subprocess.run(['llvm-cxxfilt'] if _have('llvm-cxxfilt') else ['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        for a, b in zip(names, p.stdout.split('\n')):
            self.fns[a].dem = b

    def _global(self, l):
        nm, b = l.split(' = ', 1)
        nm = unq(nm[1:])
        b = re.sub(r', !dbg ![0-9]+', '', b)
        ext = re.match(r'(?:[a-z_]+ )*external ', b) is not None or b.startswith('external ')
        toks = tokenize(b)
        p = P(toks, self)
        isconst = False
        while True:
            x = p.peek()
            if x in _FATTR:
                p.next()
            elif x == 'thread_local':
                p.next()
            elif x == 'constant':
                isconst = True
                p.next()
                break
            elif x == 'global':
                p.next()
                break
            elif x in ('alias', 'ifunc'):
                return
            else:
                p.next()
        t = p.type()
        init = None
        if not ext and p.peek() not in (None, ','):
            init = p.value(t)
        self.globals[nm] = (t, init, isconst)

    def _fn(self, head, body):
        f = Fn()
        m = re.search(r'!dbg (![0-9]+)', head)
        if m:
            f.dbg = m.group(1)
        head = re.sub(r' !dbg ![0-9]+', '', head)
        toks = tokenize(head)
        p = P(toks, self)
        p.next()
        while p.peek() in _FATTR:
            p.next()
        p.attrs()
        while p.peek() in _FATTR:
            p.next()
        f.ret = p.type()
        f.name = unq(p.next()[1:])
        p.exp('(')
        k = 0
        while not p.acc(')'):
            if p.acc('...'):
                continue
            t = p.type()
            a = p.attrs()
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = unq(p.next()[1:])
            else:
                nm = str(k)
            if t.k == 'metadata' and p.peek() not in (',', ')'):
                p.next()
            k += 1
            f.params.append((t, nm, a))
            p.acc(',')
        if body is not None:
            f.decl = False
            cur = None
            np = sum(1 for t, nm, a in f.params if nm.isdigit())
            for l in body:
                if not l:
                    continue
                if l[0] != ' ':
                    mm = re.match(r'("(?:[^"])*"|[-a-zA-Z$._0-9]+):', l)
                    if mm:
                        cur = unq(mm.group(1))
                        f.blocks[cur] = []
                        f.order.append(cur)
                    continue
                if cur is None:
                    cur = str(np)
                    f.blocks[cur] = []
                    f.order.append(cur)
                s = l.strip()
                if s.startswith(';') or s.startswith('#dbg'):
                    continue
                if f.blocks[cur] and getattr(f, '_insw', False):
                    f.blocks[cur][-1] += ' ' + s
                    if s.startswith(']'):
                        f._insw = False
                    continue
                if s.startswith('switch') and s.endswith('['):
                    f._insw = True
                f.blocks[cur].append(s)
        old = self.fns.get(f.name)
        if old is None or old.decl:
            self.fns[f.name] = f

    # ------------------------------------------------------------ layout
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.name]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            b = (t.w + 7) // 8
            a = 1
            while a < b:
                a *= 2
            if a > 8:
                a = 16
            if self.ptrw == 32 and a == 8 and 'i64:64' not in self.layout and self.layout.find('f64:32:64') >= 0:
                a = 4
            return a
        if t.k == 'ptr':
            return self.ptrw // 8
        if t.k == 'float':
            return 4
        if t.k == 'double':
            return 4 if 'f64:32:64' in self.layout else 8
        if t.k == 'x86_fp80':
            return 4 if 'f80:32' in self.layout else 16
        if t.k == 'arr':
            return self.align(t.el)
        if t.k == 'struct':
            if t.packed:
                return 1
            return max([self.align(e) for e in t.el] or [1])
        if t.k == 'vec':
            return self.size(t)
        raise Exception('align %r' % t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            b = (t.w + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if t.k == 'ptr':
            return self.ptrw // 8
        if t.k == 'float':
            return 4
        if t.k == 'double':
            return 8
        if t.k == 'x86_fp80':
            return 12 if 'f80:32' in self.layout else 16
        if t.k == 'arr':
            return t.n * self.size(t.el)
        if t.k == 'vec':
            return t.n * self.size(t.el)
        if t.k == 'struct':
            return self.offsets(t)[1]
        raise Exception('size %r' % t)

    def offsets(self, t):
        t = self.resolve(t)
        o = 0
        offs = []
        for e in t.el:
            a = 1 if t.packed else self.align(e)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(e)
        a = self.align(t)
        return offs, (o + a - 1) // a * a

    # ------------------------------------------------------------ debug info
    def line(self, md):
        r = self._line.get(md)
        if r is None:
            s = self.md.get(md, '')
            m = re.search(r'line: (\d+)', s)
            r = int(m.group(1)) if m else 0
            self._line[md] = r
        return r

    def fields(self, pat):
        """DWARF members of the class whose qualified identifier matches regex pat:
        list of (name, byte offset, byte size, type string)"""
        for k, s in self.md.items():
            if 'DICompositeType' in s and 'identifier: "' in s and 'elements: ' in s:
                ident = re.search(r'identifier: "([^"]*)"', s).group(1)
                if re.search(pat, ident):
                    return self._members(s)
        return None

    def _members(self, s, base=0):
        el = re.search(r'elements: (![0-9]+)', s)
        out = []
        if not el:
            return out
        for e in re.findall(r'![0-9]+', self.md[el.group(1)]):
            d = self.md.get(e, '')
            if 'DW_TAG_inheritance' in d:
                bt = re.search(r'baseType: (![0-9]+)', d).group(1)
                off = re.search(r'offset: (\d+)', d)
                off = int(off.group(1)) // 8 if off else 0
                out += self._members(self.md[bt], base + off)
            elif 'DW_TAG_member' in d and 'DIFlagStaticMember' not in d:
                nm = re.search(r'name: "([^"]*)"', d)
                off = re.search(r'offset: (\d+)', d)
                sz = int(re.search(r'size: (\d+)', d).group(1)) // 8
                off = int(off.group(1)) // 8 if off else 0
                bt = re.search(r'baseType: (![0-9]+)', d).group(1)
                out.append((nm.group(1) if nm else '', base + off, sz, self.tyname(bt)))
        return out

    def tyname(self, md):
        d = self.md.get(md, '')
        if 'DW_TAG_array_type' in d:
            bt = re.search(r'baseType: (![0-9]+)', d).group(1)
            return self.tyname(bt) + '[]'
        if 'DW_TAG_typedef' in d or 'DW_TAG_const_type' in d:
            bt = re.search(r'baseType: (![0-9]+)', d)
            return self.tyname(bt.group(1)) if bt else ''
        m = re.search(r'name: "([^"]*)"', d)
        sz = re.search(r'size: (\d+)', d)
        if 'DIBasicType' in d:
            enc = re.search(r'encoding: (\w+)', d).group(1)
            return ('u' if 'unsigned' in enc else 'i' if 'signed' in enc else 'x') + sz.group(1)
        return m.group(1) if m else ''


_haves = {}


def _have(x):
    import shutil
    if x not in _haves:
        _haves[x] = shutil.which(x) is not None
    return _haves[x]


def succs(ins):
    """labels of a terminator string"""
    return [unq(x) for x in re.findall(r'label %("(?:[^"])*"|[-a-zA-Z$._0-9]+)', ins)]


def _find_loops(f):
    if not f.order:
        return {}
    succ = {b: succs(f.blocks[b][-1]) if f.blocks[b] else [] for b in f.order}
    # reverse postorder
    seen = set()
    post = []
    st = [(f.order[0], iter(succ[f.order[0]]))]
    seen.add(f.order[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            n = None
            for p in pred[b]:
                if p in idom:
                    if n is None:
                        n = p
                    else:
                        x, y = p, n
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        n = x
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x in body:
                        continue
                    body.add(x)
                    wl.extend(pred[x])
    return loops


# ---------------------------------------------------------------- instructions
_flags = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'disjoint', 'nneg', 'nusw', 'samesign'}
_BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
_CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'addrspacecast'}


def decode(s, mod):
    """-> (op, dest, line, data...)"""
    dbg = 0
    m = re.search(r', !dbg (![0-9]+)', s)
    if m:
        dbg = mod.line(m.group(1))
    k = s.find(', !')
    if k > 0 and '"' not in s[k:]:
        s2 = s[:k]
    else:
        s2 = re.sub(r', ![a-zA-Z.]+ ![0-9]+', '', s)
    if 'metadata' in s2 and 'call' in s2:
        return ('nop', None, dbg)
    s2 = re.sub(r'\)\s*(#\d+\s*)+(\[.*\])?$', ')', s2)
    toks = tokenize(s2)
    p = P(toks, mod)
    dest = None
    if len(toks) > 1 and toks[1] == '=':
        dest = unq(p.next()[1:])
        p.next()
    op = p.next()
    fl = set()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    while p.peek() in _flags:
        fl.add(p.next())
    if op in _BIN:
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return ('bin', dest, dbg, op, t, a, b, fl)
    if op == 'fneg':
        t = p.type()
        return ('fneg', dest, dbg, t, p.value(t))
    if op in _CAST:
        t = p.type()
        v = p.value(t)
        p.exp('to')
        return ('cast', dest, dbg, op, t, v, p.type(), fl)
    if op == 'load':
        if p.acc('atomic'):
            pass
        while p.peek() in _flags:
            p.next()
        t = p.type()
        p.exp(',')
        pt = p.type()
        v = p.value(pt)
        al = 1
        if p.acc(','):
            if p.acc('align'):
                al = int(p.next())
        return ('load', dest, dbg, t, v, al)
    if op == 'store':
        while p.peek() in _flags or p.peek() == 'atomic':
            p.next()
        t = p.type()
        v = p.value(t)
        p.exp(',')
        pt = p.type()
        d = p.value(pt)
        al = 1
        if p.acc(','):
            if p.acc('align'):
                al = int(p.next())
        return ('store', None, dbg, t, v, d, al)
    if op == 'getelementptr':
        t = p.type()
        p.exp(',')
        bt = p.type()
        b = p.value(bt)
        idx = []
        while p.acc(','):
            it = p.type()
            idx.append((it, p.value(it)))
        return ('gep', dest, dbg, t, b, idx, 'inbounds' in fl)
    if op == 'alloca':
        t = p.type()
        n = None
        while p.acc(','):
            if p.peek() == 'align':
                p.next()
                p.next()
            elif p.peek() == 'addrspace':
                p.next()
                p.paren()
            else:
                nt = p.type()
                n = p.value(nt)
        return ('alloca', dest, dbg, t, n)
    if op == 'br':
        if p.acc('label'):
            return ('br', None, dbg, unq(p.next()[1:]))
        t = p.type()
        c = p.value(t)
        p.exp(',')
        p.exp('label')
        a = unq(p.next()[1:])
        p.exp(',')
        p.exp('label')
        b = unq(p.next()[1:])
        return ('cbr', None, dbg, c, a, b)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        p.exp('label')
        d = unq(p.next()[1:])
        p.exp('[')
        cases = []
        while not p.acc(']'):
            ct = p.type()
            cv = p.value(ct)
            p.exp(',')
            p.exp('label')
            cases.append((cv, unq(p.next()[1:])))
        return ('switch', None, dbg, t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t.k == 'void':
            return ('ret', None, dbg, None, None)
        return ('ret', None, dbg, t, p.value(t))
    if op == 'unreachable':
        return ('unreachable', None, dbg)
    if op in ('icmp', 'fcmp'):
        c = p.next()
        while c in _flags:
            c = p.next()
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return (op, dest, dbg, c, t, a, b)
    if op == 'select':
        ct = p.type()
        c = p.value(ct)
        p.exp(',')
        t = p.type()
        a = p.value(t)
        p.exp(',')
        t2 = p.type()
        b = p.value(t2)
        return ('select', dest, dbg, c, t, a, b)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.value(t)
            p.exp(',')
            inc.append((v, unq(p.next()[1:])))
            p.exp(']')
            if not p.acc(','):
                break
        return ('phi', dest, dbg, t, inc)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.acc(','):
            idx.append(int(p.next()))
        return ('extractvalue', dest, dbg, t, v, idx)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        et = p.type()
        e = p.value(et)
        idx = []
        while p.acc(','):
            idx.append(int(p.next()))
        return ('insertvalue', dest, dbg, t, v, et, e, idx)
    if op == 'freeze':
        t = p.type()
        return ('freeze', dest, dbg, t, p.value(t))
    if op in ('call', 'invoke'):
        while p.peek() in _FATTR or p.peek() in _flags:
            p.next()
        p.attrs()
        rt = p.type()
        # optional function type
        if p.peek() == '(':
            p.paren()
        callee = p.value(PTR)
        p.exp('(')
        args = []
        while not p.acc(')'):
            t = p.type()
            at = p.attrs()
            args.append((t, p.value(t), at))
            p.acc(',')
        tgt = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.exp('label')
            tgt = unq(p.next()[1:])
        return ('call', dest, dbg, rt, callee, args, tgt)
    if op in ('landingpad', 'resume'):
        return ('unreachable', None, dbg)
    if op == 'extractelement':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        it = p.type()
        return ('extractelement', dest, dbg, t, v, p.value(it))
    if op == 'insertelement':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        et = p.type()
        e = p.value(et)
        p.exp(',')
        it = p.type()
        return ('insertelement', dest, dbg, t, v, et, e, p.value(it))
    raise Exception('instr? ' + s)
