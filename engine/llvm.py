"""Symbolic executor for LLVM IR (clang -O1 text): parses a module and compiles
every function to a Python function over concrete ints / terms / pointers."""
import re
from . import term as tm, rt, mem
from .term import T, Unsupported
from .mem import Ptr, Region, LOAD, STORE, CSTORE, MEMCPY, MEMSET, padd, s64

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>!\w[\w.]*|!\{[^}]*\}|!)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 |(?P<word>[a-zA-Z_][\w.]*)
 |(?P<dots>\.\.\.)
 |(?P<punct>[()\[\]{}<>,=*:])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '': break
            raise Unsupported('llvm token: ' + s[i:i+40])
        out.append(m.group(m.lastgroup)); i = m.end()
    return out

ATTRWORDS = set('''noundef nonnull nocapture readonly writeonly readnone noalias signext zeroext inreg returned
 noreturn nounwind immarg local_unnamed_addr unnamed_addr dso_local internal private external global constant
 tail musttail notail nuw nsw exact inbounds nneg disjoint volatile fast nnan ninf nsz arcp contract afn reassoc
 hidden protected linkonce_odr weak common thread_local allocptr noundef writable dead_on_unwind mustprogress willreturn
 allocalign initializes captures'''.split())

class P:
    """token stream parser for types and constants"""
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.m = mod
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise Unsupported('llvm parse: expected %s got %s in %s' % (x, y, ' '.join(self.t)[:200]))
    def skipattrs(self):
        while True:
            x = self.peek()
            if x in ATTRWORDS: self.i += 1
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'elementtype', 'sret', 'byval', 'range', 'memory', 'addrspace', 'allocsize'):
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(': d += 1
                        if y == ')':
                            d -= 1
                            if d == 0: break
                elif x == 'align': self.i += 1
            else: return
    def type(self):
        x = self.next()
        if x == 'ptr': t = ('ptr',)
        elif x == 'void': t = ('void',)
        elif x == 'double': t = ('f', 64)
        elif x == 'float': t = ('f', 32)
        elif x == 'label': t = ('label',)
        elif x == 'metadata': t = ('metadata',)
        elif x == 'opaque': t = ('opaque',)
        elif x[0] == 'i' and x[1:].isdigit(): t = ('i', int(x[1:]))
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next(); t = ('struct', self._fields('}'), True); self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); t = ('vec', n, e)
        elif x == '{': t = ('struct', self._fields('}'), False)
        elif x[0] == '%': t = ('named', x)
        else: raise Unsupported('llvm type ' + x + ' in ' + ' '.join(self.t)[:200])
        # function types
        if self.peek() == '(' and t[0] != 'label':
            j = self.i; d = 0
            # only treat as function type if it closes and is followed by something type-like
            while True:
                y = self.t[j]
                if y == '(': d += 1
                if y == ')':
                    d -= 1
                    if d == 0: break
                j += 1
            inner = self.t[self.i+1:j]
            if all(not (z[0] in '%@' and not z.startswith('%struct')) for z in inner) and j + 1 < len(self.t) and self.t[j+1][0] in '@%':
                self.i = j + 1
                return t
        return t
    def _fields(self, end):
        fs = []
        if self.accept(end): return fs
        while True:
            fs.append(self.type())
            if self.accept(end): return fs
            self.expect(',')

class Module:
    def __init__(self, text, name, externs):
        self.name = name; self.externs = externs
        self.types = {}
        self.globals = {}
        self.env = {}
        self.K = []
        self.funcs = {}
        self.parse(text)

    # ---- types
    def res(self, t):
        while t[0] == 'named': t = self.types[t[1]]
        return t
    def size(self, t):
        t = self.res(t); k = t[0]
        if k == 'i': return 16 if t[1] == 128 else 1 << max(0, ((t[1] + 7) // 8 - 1).bit_length())
        if k == 'ptr': return 8
        if k == 'f': return t[1] // 8
        if k == 'arr': return t[1] * self.size(t[2])
        if k == 'vec': return (t[1] * self.bits(t[2]) + 7) // 8
        if k == 'struct': return self.layout(t)[1]
        raise Unsupported('sizeof %r' % (t,))
    def align(self, t):
        t = self.res(t); k = t[0]
        if k in ('i', 'ptr', 'f'): return self.size(t)
        if k == 'arr': return self.align(t[2])
        if k == 'vec': return self.size(t)
        if k == 'struct': return 1 if t[2] else max([self.align(f) for f in t[1]] + [1])
        return 1
    def layout(self, t):
        offs = []; o = 0
        for f in t[1]:
            if not t[2]:
                a = self.align(f); o = (o + a - 1) // a * a
            offs.append(o); o += self.size(f)
        if not t[2]:
            a = self.align(t); o = (o + a - 1) // a * a
        return offs, o
    def bits(self, t):
        t = self.res(t)
        if t[0] == 'i': return t[1]
        if t[0] == 'ptr': return 64
        if t[0] == 'f': return t[1]
        if t[0] == 'vec': return t[1] * self.bits(t[2])
        raise Unsupported('bits of %r' % (t,))

    # ---- module level
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        gl = []
        fns = []
        while i < len(lines):
            l = lines[i]
            if l.startswith('%'):
                toks = tokenize(l)
                p = P(toks, self); n = p.next(); p.expect('='); p.expect('type')
                self.types[n] = p.type()
            elif l.startswith('@'):
                gl.append(l)
            elif l.startswith('define'):
                body = [l]
                i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                fns.append(body)
            i += 1
        for l in gl:
            name = re.match(r'@("[^"]*"|[-\w$.]+)', l).group(0)
            if re.search(r'=\s*(?:\w+\s+)*external', l.split('{')[0][:200]) and ' external ' in l[:200]:
                self.globals[name] = ('ext', l)
            else:
                self.globals[name] = ('def', l)
        self.gptr = {}
        self.code = {}
        for body in fns:
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', body[0])
            self.code[m.group(1)] = body
        self._reg = {}

    def gregion(self, name):
        """pointer to a global (allocated and initialised on demand)"""
        if name in self.gptr: return self.gptr[name]
        n = name[1:]
        if n in self.code:
            p = FnPtr(self, n); self.gptr[name] = p; return p
        g = self.globals.get(name)
        if g is None:
            p = self.externs.data(n) if self.externs.has_data(n) else ExtFn(self, n)
            self.gptr[name] = p; return p
        if g[0] == 'ext':
            p = self.externs.data(n); self.gptr[name] = p; return p
        l = g[1]
        toks = tokenize(re.sub(r', !.*$', '', l))
        pz = P(toks, self)
        pz.next(); pz.expect('=')
        const = False
        while pz.peek() in ATTRWORDS:
            x = pz.next()
            if x == 'constant': const = True; break
            if x == 'global': break
        t = pz.type()
        r = Region([0] * self.size(t), self.name + ':' + n)
        p = Ptr(r, 0); self.gptr[name] = p
        self.initv(pz, t, r, 0)
        r.ro = const
        return p

    def initv(self, p, t, r, off):
        t0 = t; t = self.res(t)
        x = p.peek()
        if x in ('zeroinitializer', 'undef', 'poison', 'null'): p.next(); return
        k = t[0]
        if k == 'arr':
            if x[0] == 'c' and x[1] == '"':
                p.next(); b = cstr(x[2:-1])
                for i, c in enumerate(b): r.cells[off + i] = c
                return
            p.expect('['); es = self.size(t[2])
            for i in range(t[1]):
                et = p.type(); self.initv(p, et, r, off + i * es)
                if i < t[1] - 1: p.expect(',')
            p.expect(']'); return
        if k == 'struct':
            packed = p.accept('<'); p.expect('{')
            offs, _ = self.layout(t)
            for i, f in enumerate(t[1]):
                et = p.type(); self.initv(p, et, r, off + offs[i])
                if i < len(t[1]) - 1: p.expect(',')
            p.expect('}')
            if packed: p.expect('>')
            return
        v = self.constv(p, t)
        STORE(Ptr(r, off), self.size(t), v)

    def constv(self, p, t):
        """constant of type t -> runtime value"""
        t = self.res(t)
        x = p.next()
        if t[0] == 'i':
            if x == 'true': return 1
            if x == 'false': return 0
            if x in ('undef', 'poison', 'zeroinitializer'): return 0
            if x == 'ptrtoint':
                p.expect('('); ft = p.type(); v = self.constv(p, ft); p.expect('to'); p.type(); p.expect(')'); return v
            return int(x) & ((1 << t[1]) - 1)
        if t[0] == 'ptr':
            if x in ('null', 'undef', 'poison', 'zeroinitializer'): return 0
            if x[0] == '@': return self.gregion(x)
            if x == 'getelementptr':
                while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
                if p.peek() == 'inrange':
                    while p.next() != ')': pass
                p.expect('('); bt = p.type(); p.expect(',')
                pt = p.type(); base = self.constv(p, pt)
                idx = []
                while p.accept(','):
                    it = p.type(); idx.append(self.constv(p, it))
                p.expect(')')
                return padd(base, self.gepoff(bt, idx))
            if x == 'inttoptr':
                p.expect('('); ft = p.type(); v = self.constv(p, ft); p.expect('to'); p.type(); p.expect(')'); return v
            raise Unsupported('ptr const ' + x)
        if t[0] == 'vec':
            if x in ('zeroinitializer', 'undef', 'poison'): return 0
            if x == 'splat':
                p.expect('('); et = p.type(); v = self.constv(p, et); p.expect(')')
                w = self.bits(t[2]); r = 0
                for i in range(t[1]): r |= v << (i * w)
                return r
            if x != '<': raise Unsupported('vec const ' + x)
            w = self.bits(t[2]); r = 0
            for i in range(t[1]):
                et = p.type(); v = self.constv(p, et); r |= v << (i * w)
                if i < t[1] - 1: p.expect(',')
            p.expect('>')
            return r
        if t[0] == 'f':
            return 0
        raise Unsupported('const of %r' % (t,))

    def gepoff(self, bt, idx):
        off = s64(idx[0]) * self.size(bt)
        t = self.res(bt)
        for ix in idx[1:]:
            t = self.res(t)
            if t[0] == 'struct': off += self.layout(t)[0][ix]; t = t[1][ix]
            else: off += s64(ix) * self.size(t[2]); t = t[2]
        return off

    # ---- functions
    def get(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = FnCompiler(self, name, self.code[name]).compile()
            self.funcs[name] = f
        return f

class FnPtr:
    __slots__ = ('m', 'n')
    movable = False
    def __init__(self, m, n): self.m = m; self.n = n
    def __call__(self, *a): return self.m.get(self.n)(*a)
    @property
    def __name__(self): return self.n
class ExtFn:
    __slots__ = ('m', 'n')
    movable = False
    def __init__(self, m, n): self.m = m; self.n = n
    def __call__(self, *a): return self.m.externs.call(self.n, a)

def cstr(s):
    out = []; i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return out

# ------------------------------------------------------------------ slow paths
M64 = (1 << 64) - 1
def _isp(x): return type(x) is Ptr

def ADD(w, a, b):
    if type(a) is Ptr: return padd(a, b)
    if type(b) is Ptr: return padd(b, a)
    return tm.add(w, a, b)
def SUB(w, a, b):
    if type(a) is Ptr:
        if type(b) is Ptr:
            if a.obj is not b.obj: raise Unsupported('difference of unrelated pointers')
            return tm.sub(64, a.off & M64 if type(a.off) is int else a.off, b.off & M64 if type(b.off) is int else b.off)
        return padd(a, tm.neg(64, b))
    if type(b) is Ptr: raise Unsupported('int - ptr')
    return tm.sub(w, a, b)
class PLow:
    """an integer made from pointers of which only the low three bits are known"""
    def __init__(self, v): self.v = v
def _low(a):
    if type(a) is PLow: return a.v
    if type(a) is Ptr: a = a.off
    return a & 7 if type(a) is int else tm.and_(64, a, 7)
def AND(w, a, b):
    if type(b) in (Ptr, PLow): a, b = b, a
    if type(a) is PLow:
        if type(b) is int and b < 8: return a.v & b if type(a.v) is int else tm.and_(64, a.v, b)
        raise Unsupported('mask of a pointer')
    if type(a) is Ptr:
        # OCaml and malloc objects are 8-byte aligned (16 for allocas/globals, only 8 assumed)
        if type(b) is int and b < 8:
            o = a.off
            return (o & b) if type(o) is int else tm.and_(64, o, b)
        if type(b) is int and b == M64 ^ 7 and type(a.off) is int: return Ptr(a.obj, a.off & ~7, a.ep)
        raise Unsupported('mask of a pointer')
    return tm.and_(w, a, b)
def OR(w, a, b):
    if type(a) in (Ptr, PLow) or type(b) in (Ptr, PLow): return PLow(tm.or_(64, _low(a), _low(b)))
    return tm.or_(w, a, b)
def XOR(w, a, b):
    if type(a) in (Ptr, PLow) or type(b) in (Ptr, PLow): return PLow(tm.xor(64, _low(a), _low(b)))
    return tm.xor(w, a, b)
def MUL(w, a, b): _np(a, b); return tm.mul(w, a, b)
def _np(*a):
    for x in a:
        if type(x) not in (int, T): raise Unsupported('bit operation on a pointer')
def SHL(w, a, b):
    _np(a, b)
    if type(b) is int and b >= w: raise Unsupported('shift by %d of i%d' % (b, w))
    return tm.shl(w, a, b)
def LSHR(w, a, b):
    _np(a, b)
    if type(b) is int and b >= w: raise Unsupported('shift by %d of i%d' % (b, w))
    return tm.lshr(w, a, b)
def ASHR(w, a, b):
    _np(a, b)
    if type(b) is int and b >= w: raise Unsupported('shift by %d of i%d' % (b, w))
    return tm.ashr(w, a, b)
def _div(f):
    def g(w, a, b):
        _np(a, b)
        z = tm.eq(w, b, 0)
        if rt.branch(z): raise rt.CAbort('division by zero')
        return f(w, a, b)
    return g
UDIV = _div(tm.udiv); UREM = _div(tm.urem); SDIV = _div(tm.sdiv); SREM = _div(tm.srem)
def ZEXT(a, wf, wt):
    if type(a) not in (int, T): raise Unsupported('zext ptr')
    return tm.zext(a, wf, wt)
def SEXT(a, wf, wt): _np(a); return tm.sext(a, wf, wt)
def TRUNC(a, wf, wt):
    if type(a) is Ptr:
        if wt <= 3: return AND(64, a, (1 << wt) - 1)
        raise Unsupported('trunc of a pointer')
    return tm.extract(a, wf, wt - 1, 0)
def ICMP(pred, w, a, b):
    if type(a) not in (int, T) or type(b) not in (int, T): return _pcmp(pred, a, b)
    if pred == 'eq': return tm.eq(w, a, b)
    if pred == 'ne': return tm.ne(w, a, b)
    if pred == 'ult': return tm.ult(w, a, b)
    if pred == 'ule': return tm.ule(w, a, b)
    if pred == 'ugt': return tm.ult(w, b, a)
    if pred == 'uge': return tm.ule(w, b, a)
    if pred == 'slt': return tm.slt(w, a, b)
    if pred == 'sle': return tm.sle(w, a, b)
    if pred == 'sgt': return tm.slt(w, b, a)
    if pred == 'sge': return tm.sle(w, b, a)
    raise Unsupported(pred)
def _pcmp(pred, a, b):
    if type(a) is Ptr and type(b) is Ptr:
        if a.obj is b.obj:
            x = a.off & M64 if type(a.off) is int else a.off
            y = b.off & M64 if type(b.off) is int else b.off
            p = pred
            if p[0] == 'u': p = 's' + p[1:]
            return ICMP(p, 64, x, y)
        if pred == 'eq': return 0
        if pred == 'ne': return 1
        # unrelated objects: any order possible, both must be handled; pick by fresh choice
        raise Unsupported('order of unrelated pointers')
    if pred in ('eq', 'ne'):
        x, y = (a, b) if type(a) in (Ptr, FnPtr, ExtFn) else (b, a)
        if type(y) is int and y < 4096: return 0 if pred == 'eq' else 1
        if type(y) in (FnPtr, ExtFn): return int((x is y) == (pred == 'eq'))
    raise Unsupported('pointer comparison')
def SELECT(c, w, a, b):
    if type(c) is int: return a if c else b
    if type(a) in (int, T) and type(b) in (int, T): return tm.ite(w, c, a, b)
    if a is b: return a
    if type(a) is Ptr and type(b) is Ptr and a.obj is b.obj:
        x = a.off & M64 if type(a.off) is int else a.off
        y = b.off & M64 if type(b.off) is int else b.off
        o = tm.ite(64, c, x, y)
        return Ptr(a.obj, s64(o) if type(o) is int else o, a.ep)
    return a if rt.branch(c) else b
def GEPD(p, d):
    if type(p) is Ptr: return padd(p, d)
    if type(p) is int and type(d) is int: return (p + d) & M64
    if type(p) is T or type(p) is int: return tm.add(64, p, d & M64 if type(d) is int else d)
    raise Unsupported('gep')
def SCALE(i, k):
    if type(i) is int: return s64(i) * k
    return tm.mul(64, i, k)
def UNDEF(w):
    return tm.fresh('undef', w)
_ucnt = [0]

def VMAP(f, n, lw, a, b):
    """elementwise op on packed vectors"""
    parts = []
    for i in range(n - 1, -1, -1):
        parts.append((lw, f(lw, tm.extract(a, n * lw, i * lw + lw - 1, i * lw), tm.extract(b, n * lw, i * lw + lw - 1, i * lw))))
    return tm.concat(parts)
def LANE(a, n, lw, i): return tm.extract(a, n * lw, i * lw + lw - 1, i * lw)
def INSLANE(a, n, lw, i, v):
    return tm.concat([(lw, v if k == i else LANE(a, n, lw, k)) for k in range(n - 1, -1, -1)])
def SHUF(a, b, n, lw, mask):
    parts = []
    for k in reversed(mask):
        parts.append((lw, 0 if k is None else (LANE(a, n, lw, k) if k < n else LANE(b, n, lw, k - n))))
    return tm.concat(parts)
def FSHL(w, a, b, s):
    if type(s) is not int:
        s = tm.urem(w, s, w)
        if type(s) is not int: raise Unsupported('fshl by symbolic amount')
    s %= w
    if s == 0: return a
    if a is b: return tm.rotl(w, a, s)
    return tm.concat([(w - s, tm.extract(a, w, w - 1 - s, 0)), (s, tm.extract(b, w, w - 1, w - s))])
def BSWAP(w, a):
    return tm.concat([(8, tm.extract(a, w, 8 * i + 7, 8 * i)) for i in range(w // 8)])
def CTPOP(w, a):
    if type(a) is int: return bin(a).count('1')
    r = 0
    for i in range(w): r = tm.add(w, r, tm.zext(tm.extract(a, w, i, i), 1, w))
    return r
def CTLZ(w, a):
    if type(a) is int: return w - a.bit_length()
    r = w
    for i in range(w): r = tm.ite(w, tm.extract(a, w, i, i), w - 1 - i, r)
    return r
def CTTZ(w, a):
    if type(a) is int: return w if a == 0 else (a & -a).bit_length() - 1
    r = w
    for i in range(w - 1, -1, -1): r = tm.ite(w, tm.extract(a, w, i, i), i, r)
    return r

SLOW = {k: v for k, v in globals().items() if k.isupper() and callable(v)}

PURE = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'zext', 'sext', 'trunc', 'select',
        'getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'load', 'store', 'freeze', 'phi',
        'extractelement', 'insertelement', 'shufflevector'}

class FnCompiler:
    def __init__(self, m, name, body):
        self.m = m; self.name = name; self.body = body
        self.lines = []
        self.consts = {}
        self.k = 0
        self.types = {}

    def err(self, s): raise Unsupported('%s in %s' % (s, self.name))

    def compile(self):
        m = self.m
        hdr = self.body[0]
        toks = tokenize(hdr[len('define'):hdr.rindex('{')].split(' #')[0].split(' !')[0])
        p = P(toks, m)
        while p.peek() in ATTRWORDS or p.peek() in ('align', 'dereferenceable', 'range', 'noalias', 'fastcc', 'ccc'):
            if p.peek() in ('fastcc', 'ccc'): p.next()
            else: p.skipattrs()
        p.type()
        p.next(); p.expect('(')
        args = []
        if not p.accept(')'):
            n = 0
            while True:
                if p.accept('...'): break
                t = p.type(); p.skipattrs()
                if p.peek() and p.peek()[0] == '%': a = p.next()
                else: a = '%%%d' % n
                n += 1
                args.append(a); self.types[a] = t
                if p.accept(')'): break
                p.expect(',')
        # blocks
        blocks = {}; order = []
        # unnamed entry block label: number of args if numeric naming
        cur = None
        body = self.body[1:]
        first = True
        pend = None
        for l in body:
            if not l.strip() or l.lstrip().startswith(';'): continue
            mm = re.match(r'^("[^"]*"|[-\w$.]+):', l)
            if mm:
                cur = '%' + mm.group(1); blocks[cur] = []; order.append(cur); first = False; continue
            if first:
                cur = '%' + str(len(args)); blocks[cur] = []; order.append(cur); first = False
            s = l.strip()
            if pend is not None:
                pend += ' ' + s
                if ']' in s: blocks[cur].append(pend); pend = None
                continue
            if s.startswith('switch ') and not s.rstrip().endswith(']') and s.rstrip().endswith('['):
                pend = s; continue
            blocks[cur].append(s)
        self.blocks = {b: [self.pins(s) for s in ins] for b, ins in blocks.items()}
        self.order = order
        self.idx = {b: i for i, b in enumerate(order)}
        self.preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b): self.preds[s].append(b)
        src = self.gen(args)
        env = dict(SLOW)
        env.update(self.consts)
        env.update(Ptr=Ptr, LOAD=LOAD, STORE=STORE, CSTORE=CSTORE, BR=rt.branch, T=T, MOD=m, EXT=m.externs.call, Region=Region,
                   CONCR=rt.concretize, Unsupported=Unsupported, UNREACH=_unreach, MEMCPY=MEMCPY, MEMSET=MEMSET, tm=tm, NOT1=_not1)
        code = compile(src, '<llvm:%s>' % self.name, 'exec')
        exec(code, env)
        f = env['F']
        f.src = src
        return f

    # -------- instruction parsing into (dst, op, dict)
    def pins(self, s):
        s = re.sub(r',\s*!\w+(\.\w+)*\s*!\d+', '', s)
        s = re.sub(r',\s*!srcloc !\d+', '', s)
        s = re.sub(r'\s#\d+\s*$', '', s); s = re.sub(r'\s#\d+(?=,|$)', '', s)
        toks = tokenize(s)
        p = P(toks, self.m)
        dst = None
        if toks[0][0] == '%' and len(toks) > 1 and toks[1] == '=':
            dst = p.next(); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        return dst, op, p

    def succs(self, b):
        dst, op, p = self.blocks[b][-1]
        t = p.t
        if op in ('br', 'switch'):
            return ['%' + x[1:] for i, x in enumerate(t) if x[0] == '%' and t[i-1] == 'label']
        return []

    # -------- values
    def const(self, v):
        n = 'K%d' % self.k; self.k += 1
        self.consts[n] = v
        return n

    def val(self, p, t):
        """parse operand of type t, return python expression"""
        x = p.peek()
        if x[0] == '%':
            p.next(); return self.name_of(x)
        t = self.m.res(t)
        if x in ('undef', 'poison') and t[0] in ('i',):
            p.next(); return 'UNDEF(%d)' % t[1]
        if t[0] == 'struct':
            p.next(); return self.const(None)
        v = self.m.constv(p, t)
        if type(v) is int: return str(v)
        return self.const(v)

    def name_of(self, x): return 'v' + re.sub(r'\W', '_', x[1:].strip('"'))

    def typed(self, p):
        t = p.type(); p.skipattrs()
        return t, self.val(p, t)

    # -------- code generation
    def gen(self, args):
        out = []
        out.append('def F(%s):' % ', '.join(self.name_of(a) for a in args))
        order = self.order
        # local variables defined in some path only: fine in python
        if len(order) == 1:
            self.emit_block(order[0], out, 1)
        else:
            out.append(' bb = 0')
            out.append(' while True:')
            self.tree(order, 0, len(order), out, 2)
        return '\n'.join(out)

    def tree(self, order, lo, hi, out, ind):
        if hi - lo == 1:
            self.emit_block(order[lo], out, ind); return
        mid = (lo + hi) // 2
        out.append(' ' * ind + 'if bb < %d:' % mid)
        self.tree(order, lo, mid, out, ind + 1)
        out.append(' ' * ind + 'else:')
        self.tree(order, mid, hi, out, ind + 1)

    def emit_block(self, b, out, ind):
        for ins in self.blocks[b]:
            p = ins[2]; p.i = 0
            if p.t[0][0] == '%' and len(p.t) > 1 and p.t[1] == '=': p.i = 2
            while p.peek() in ('tail', 'musttail', 'notail'): p.next()
            p.next()
            self.emit(b, ins[0], ins[1], p, out, ind)

    def goto(self, frm, to, out, ind):
        asg = self.phis(frm, to)
        if asg:
            out.append(' ' * ind + ', '.join(d for d, v in asg) + ' = ' + ', '.join(v for d, v in asg))
        out.append(' ' * ind + 'bb = %d; continue' % self.idx[to])

    def phis(self, frm, to):
        asg = []
        for dst, op, p in self.blocks[to]:
            if op != 'phi': break
            p.i = 3
            t = p.type()
            while True:
                p.expect('['); v = self.val(p, t); p.expect(','); l = p.next(); p.expect(']')
                if l == frm: asg.append((self.name_of(dst), v, t)); break
                if not p.accept(','): self.err('phi')
        return [(d, v) for d, v, t in asg]

    def phitypes(self, to):
        r = []
        for dst, op, p in self.blocks[to]:
            if op != 'phi': break
            p.i = 3; r.append(p.type())
        return r

    def simple(self, b, frm):
        """block usable as the arm of an if-conversion: straight line, pure, single predecessor"""
        if len(self.preds[b]) != 1 or b == self.order[0]: return False
        ins = self.blocks[b]
        if len(ins) > 12 or ins[-1][1] != 'br' or len(self.succs(b)) != 1: return False
        for dst, op, p in ins[:-1]:
            if op == 'call':
                s = ' '.join(p.t)
                if '@llvm.fsh' in s or '@llvm.umin' in s or '@llvm.umax' in s or '@llvm.lifetime' in s: continue
                return False
            if op not in PURE: return False
        return True

    def emit_br(self, b, c, tl, fl, out, ind):
        I = ' ' * ind
        # if-conversion on symbolic conditions
        st = self.simple(tl, b); sf = self.simple(fl, b)
        J = None
        if tl != fl:
            if st and sf and self.succs(tl)[0] == self.succs(fl)[0]: J = self.succs(tl)[0]; arms = (tl, fl)
            elif st and self.succs(tl)[0] == fl: J = fl; arms = (tl, None)
            elif sf and self.succs(fl)[0] == tl: J = tl; arms = (None, fl)
        if J is not None and J != b and not c.isdigit():
            out.append(I + 'if type(%s) is not int:' % c)
            out.append(I + ' cnd = %s' % c)
            for arm, neg in ((arms[0], False), (arms[1], True)):
                if arm is None: continue
                cc = 'NOT1(cnd)' if neg else 'cnd'
                out.append(I + ' cc = %s' % cc)
                self.armcond = 'cc'
                for ins in self.blocks[arm][:-1]:
                    p = ins[2]; p.i = 0
                    if p.t[0][0] == '%' and len(p.t) > 1 and p.t[1] == '=': p.i = 2
                    while p.peek() in ('tail', 'musttail', 'notail'): p.next()
                    p.next()
                    self.emit(arm, ins[0], ins[1], p, out, ind + 1)
                self.armcond = None
            pt = self.phis(arms[0] or b, J); pf = self.phis(arms[1] or b, J)
            ts = self.phitypes(J)
            if pt:
                out.append(I + ' ' + ', '.join(d for d, v in pt) + ' = ' + ', '.join(
                    v if v == pf[i][1] else 'SELECT(cnd, %d, %s, %s)' % (self.m.bits(ts[i]), v, pf[i][1]) for i, (d, v) in enumerate(pt)))
            out.append(I + ' bb = %d; continue' % self.idx[J])
        out.append(I + 'if (%s if type(%s) is int else BR(%s)):' % (c, c, c))
        self.goto(b, tl, out, ind + 1)
        out.append(I + 'else:')
        self.goto(b, fl, out, ind + 1)
    armcond = None

    def emit(self, b, dst, op, p, out, ind):
        I = ' ' * ind
        m = self.m
        d = self.name_of(dst) if dst else None
        def E(s): out.append(I + s)
        if op == 'phi': return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            p.skipattrs()
            t = p.type(); a = self.val(p, t); p.expect(','); c = self.val(p, t)
            rt_ = m.res(t)
            if rt_[0] == 'vec':
                E('%s = VMAP(%s, %d, %d, %s, %s)' % (d, op.upper(), rt_[1], m.bits(rt_[2]), a, c)); return
            w = m.bits(t); M = (1 << w) - 1
            ia = a.lstrip('-').isdigit(); ic = c.lstrip('-').isdigit()
            g = ' and '.join('type(%s) is int' % x for x, i in ((a, ia), (c, ic)) if not i) or 'True'
            fast = {'add': '(%s + %s) & %d' % (a, c, M), 'sub': '(%s - %s) & %d' % (a, c, M), 'mul': '(%s * %s) & %d' % (a, c, M),
                    'and': '%s & %s' % (a, c), 'or': '%s | %s' % (a, c), 'xor': '%s ^ %s' % (a, c),
                    'shl': '(%s << %s) & %d' % (a, c, M) if ic else None, 'lshr': '%s >> %s' % (a, c) if ic else None}.get(op)
            if fast: E('%s = %s if %s else %s(%d, %s, %s)' % (d, fast, g, op.upper(), w, a, c))
            else: E('%s = %s(%d, %s, %s)' % (d, op.upper(), w, a, c))
            return
        if op == 'icmp':
            p.accept('samesign')
            pred = p.next(); t = p.type(); a = self.val(p, t); p.expect(','); c = self.val(p, t)
            if m.res(t)[0] == 'vec': self.err('vector icmp')
            w = m.bits(t)
            f = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}.get(pred)
            if f: E('%s = (1 if %s %s %s else 0) if type(%s) is int and type(%s) is int else ICMP("%s", %d, %s, %s)' % (d, a, f, c, a, c, pred, w, a, c))
            else: E('%s = ICMP("%s", %d, %s, %s)' % (d, pred, w, a, c))
            return
        if op in ('zext', 'sext', 'trunc'):
            p.skipattrs()
            t, a = self.typed(p); p.expect('to'); t2 = p.type()
            if m.res(t)[0] == 'vec': self.err('vector ' + op)
            wf, wt = m.bits(t), m.bits(t2)
            if op == 'zext': E('%s = %s if type(%s) is int else ZEXT(%s, %d, %d)' % (d, a, a, a, wf, wt))
            elif op == 'trunc': E('%s = %s & %d if type(%s) is int else TRUNC(%s, %d, %d)' % (d, a, (1 << wt) - 1, a, a, wf, wt))
            else: E('%s = SEXT(%s, %d, %d)' % (d, a, wf, wt))
            return
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast'):
            t, a = self.typed(p)
            E('%s = %s' % (d, a)); return
        if op == 'select':
            p.skipattrs()
            t, c = self.typed(p); p.expect(','); t1, a = self.typed(p); p.expect(','); t2, e = self.typed(p)
            if m.res(t)[0] == 'vec': self.err('vector select')
            E('%s = SELECT(%s, %d, %s, %s)' % (d, c, m.bits(t1), a, e)); return
        if op == 'load':
            p.accept('volatile')
            t = p.type(); p.expect(','); t2, a = self.typed(p)
            n = m.size(t)
            if m.res(t)[0] == 'i' and m.bits(t) % 8:
                E('%s = TRUNC(LOAD(%s, %d), %d, %d)' % (d, a, n, 8 * n, m.bits(t)))
            else: E('%s = LOAD(%s, %d)' % (d, a, n))
            return
        if op == 'store':
            p.accept('volatile')
            t, v = self.typed(p); p.expect(','); t2, a = self.typed(p)
            n = m.size(t)
            if m.res(t)[0] == 'i' and m.bits(t) % 8: v = 'ZEXT(%s, %d, %d)' % (v, m.bits(t), 8 * n)
            if self.armcond: E('CSTORE(%s, %s, %d, %s)' % (self.armcond, a, n, v))
            else: E('STORE(%s, %d, %s)' % (a, n, v))
            return
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            bt = p.type(); p.expect(',')
            t, base = self.typed(p)
            off = 0; terms = []
            t = None
            first = True
            while p.accept(','):
                it = p.type(); x = self.val(p, it)
                wi = m.bits(it)
                if first: es = m.size(bt); t = bt; first = False
                else:
                    t = m.res(t)
                    if t[0] == 'struct':
                        ix = int(x); off += m.layout(t)[0][ix]; t = t[1][ix]; continue
                    es = m.size(t[2]); t = t[2]
                if x.lstrip('-').isdigit(): off += tm.tosigned(int(x), wi) * es
                else:
                    if wi < 64: x = 'SEXT(%s, %d, 64)' % (x, wi)
                    terms.append((x, es))
            if not terms:
                if off == 0: E('%s = %s' % (d, base))
                else: E('%s = GEPD(%s, %d)' % (d, base, off))
            else:
                e = base
                for x, es in terms: e = 'GEPD(%s, SCALE(%s, %d))' % (e, x, es)
                if off: e = 'GEPD(%s, %d)' % (e, off)
                E('%s = %s' % (d, e))
            return
        if op == 'alloca':
            t = p.type(); n = m.size(t)
            if p.accept(',') and p.peek() != 'align':
                it = p.type(); c = self.val(p, it)
                E('%s = Ptr(Region([None] * (%d * CONCR(%s, 64)), "%s:local"), 0)' % (d, n, c, self.name))
            else: E('%s = Ptr(Region([None] * %d, "%s:local"), 0)' % (d, n, self.name))
            return
        if op == 'br':
            if p.peek() == 'label':
                p.next(); self.goto(b, p.next(), out, ind); return
            t = p.type(); c = self.val(p, t); p.expect(','); p.expect('label'); tl = p.next(); p.expect(','); p.expect('label'); fl = p.next()
            self.emit_br(b, c, tl, fl, out, ind)
            return
        if op == 'switch':
            t = p.type(); v = self.val(p, t); p.expect(','); p.expect('label'); dl = p.next(); p.expect('[')
            w = m.bits(t)
            while not p.accept(']'):
                ct = p.type(); cv = self.val(p, ct); p.expect(','); p.expect('label'); l = p.next()
                E('if (%s == %s if type(%s) is int else BR(ICMP("eq", %d, %s, %s))):' % (v, cv, v, w, v, cv))
                self.goto(b, l, out, ind + 1)
            self.goto(b, dl, out, ind)
            return
        if op == 'ret':
            if p.peek() == 'void': E('return None'); return
            t, v = self.typed(p); E('return %s' % v); return
        if op == 'unreachable':
            E('UNREACH("%s")' % self.name); return
        if op == 'extractvalue':
            t, a = self.typed(p); p.expect(','); i = p.next()
            E('%s = %s[%s]' % (d, a, i)); return
        if op == 'insertvalue':
            t, a = self.typed(p); p.expect(','); t2, v = self.typed(p); p.expect(','); i = int(p.next())
            n = len(m.res(t)[1])
            E('%s = tuple(%s if k == %d else (%s[k] if %s is not None else None) for k in range(%d))' % (d, v, i, a, a, n)); return
        if op == 'extractelement':
            t, a = self.typed(p); p.expect(','); t2, i = self.typed(p)
            tt = m.res(t)
            E('%s = LANE(%s, %d, %d, %s)' % (d, a, tt[1], m.bits(tt[2]), i)); return
        if op == 'insertelement':
            t, a = self.typed(p); p.expect(','); t1, v = self.typed(p); p.expect(','); t2, i = self.typed(p)
            tt = m.res(t)
            E('%s = INSLANE(%s, %d, %d, %s, %s)' % (d, a, tt[1], m.bits(tt[2]), i, v)); return
        if op == 'shufflevector':
            t, a = self.typed(p); p.expect(','); t1, c = self.typed(p); p.expect(',')
            mt = m.res(p.type())
            mask = []
            if p.peek() in ('zeroinitializer',): mask = [0] * mt[1]
            elif p.peek() in ('poison', 'undef'): mask = [None] * mt[1]
            else:
                p.expect('<')
                while True:
                    p.type(); x = p.next()
                    mask.append(None if x in ('undef', 'poison') else int(x))
                    if p.accept('>'): break
                    p.expect(',')
            tt = m.res(t)
            E('%s = SHUF(%s, %s, %d, %d, %r)' % (d, a, c, tt[1], m.bits(tt[2]), mask)); return
        if op == 'call':
            self.emit_call(b, d, p, out, ind); return
        if op == 'fence': return
        self.err('instruction ' + op)

    def emit_call(self, b, d, p, out, ind):
        m = self.m
        I = ' ' * ind
        while p.peek() in ('fastcc', 'ccc'): p.next()
        p.skipattrs()
        while p.peek() in ('fastcc', 'ccc'): p.next()
        p.skipattrs()
        rt_ = p.type()
        p.skipattrs()
        if p.peek() == '(':   # vararg function type
            dd = 0
            while True:
                y = p.next()
                if y == '(': dd += 1
                if y == ')':
                    dd -= 1
                    if dd == 0: break
        callee = p.next()
        if callee == 'asm':
            while p.peek() in ('sideeffect', 'inteldialect', 'alignstack'): p.next()
            tmpl = p.next(); p.expect(','); cons = p.next()
            args = self.args(p)
            out.append(I + '%sEXT("asm", (%r, %r, %s))' % (d + ' = ' if d else '', tmpl, cons, ', '.join(args) if args else ''))
            return
        args, types = self.args(p, True)
        pre = d + ' = ' if d else ''
        if callee[0] == '%':
            out.append(I + pre + '%s(%s)' % (self.name_of(callee), ', '.join(args))); return
        n = callee[1:].strip('"')
        if n in m.code:
            f = 'f_' + re.sub(r'\W', '_', n)
            self.consts[f] = FnPtr(m, n)
            out.append(I + pre + '%s(%s)' % (f, ', '.join(args))); return
        if n.startswith('llvm.'):
            if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.prefetch')): return
            w = m.bits(types[0]) if types and types[0][0] == 'i' else None
            base = n.split('.')[1]
            if base in ('memcpy', 'memmove'):
                out.append(I + 'MEMCPY(%s, %s, %s)' % tuple(args[:3])); return
            if base == 'memset': out.append(I + 'MEMSET(%s, %s, %s)' % tuple(args[:3])); return
            if base == 'fshl': out.append(I + pre + 'FSHL(%d, %s)' % (w, ', '.join(args))); return
            if base == 'fshr':
                out.append(I + pre + 'FSHL(%d, %s, %s, %d - (%s) %% %d)' % (w, args[0], args[1], w, args[2], w) if args[2].isdigit() and int(args[2]) % w else I + 'raise Unsupported("fshr")'); return
            if base == 'bswap': out.append(I + pre + 'BSWAP(%d, %s)' % (w, args[0])); return
            if base in ('umin', 'smin', 'smax', 'umax'):
                f = {'umin': 'tm.umin', 'umax': 'tm.umax_', 'smin': 'tm.smin', 'smax': 'tm.smax'}[base]
                out.append(I + pre + '%s(%d, %s, %s)' % (f, w, args[0], args[1])); return
            if base == 'abs': out.append(I + pre + 'tm.ite(%d, tm.slt(%d, %s, 0), tm.neg(%d, %s), %s)' % (w, w, args[0], w, args[0], args[0])); return
            if base == 'ctpop': out.append(I + pre + 'CTPOP(%d, %s)' % (w, args[0])); return
            if base == 'ctlz': out.append(I + pre + 'CTLZ(%d, %s)' % (w, args[0])); return
            if base == 'cttz': out.append(I + pre + 'CTTZ(%d, %s)' % (w, args[0])); return
            if base == 'usub' and '.sat.' in n:
                out.append(I + pre + 'tm.ite(%d, tm.ult(%d, %s, %s), 0, SUB(%d, %s, %s))' % (w, w, args[0], args[1], w, args[0], args[1])); return
            if base == 'uadd' and 'overflow' in n:
                out.append(I + '_s = ADD(%d, %s, %s)' % (w, args[0], args[1]))
                out.append(I + pre + '(_s, tm.ult(%d, _s, %s))' % (w, args[0])); return
            if base == 'trap': out.append(I + 'UNREACH("trap")'); return
            if base == 'is' : out.append(I + pre + '0'); return
            if base == 'expect': out.append(I + pre + args[0]); return
        if n == 'memcpy' or n == 'memmove': out.append(I + pre + 'MEMCPY(%s)' % ', '.join(args)); return
        if n == 'memset': out.append(I + pre + 'MEMSET(%s)' % ', '.join(args)); return
        out.append(I + pre + 'EXT(%r, (%s))' % (n, ''.join(a + ', ' for a in args)))

    def args(self, p, types=False):
        p.expect('(')
        a = []; ts = []
        if not p.accept(')'):
            while True:
                t = p.type(); p.skipattrs()
                if t[0] == 'metadata':
                    p.next(); v = '0'
                else: v = self.val(p, t)
                a.append(v); ts.append(self.m.res(t) if t[0] != 'metadata' else t)
                if p.accept(')'): break
                p.expect(',')
        return (a, ts) if types else a

def _unreach(n): raise rt.CAbort('unreachable code in ' + n)
def _not1(c): return tm.xor(1, c, 1)
