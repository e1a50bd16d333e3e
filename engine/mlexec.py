"""Symbolic interpreter for OCaml 4.14 bytecode executables.

Values: Python int (signed) or 63-bit T for immediate integers; Block, Clos, Str,
Custom, I64, float, or a model object for heap values.  C primitives defined in
/repo run through the LLVM interpreter; the OCaml runtime's own primitives are
modelled in mlprims.py.
"""
import struct
from . import term as tm, rt, mem
from .term import T, Unsupported
from .mem import Block, Str, Custom, I64, Ptr, Region, ml2c, c2ml, M63
from .cext import MLRaise

OPS = """ACC0 ACC1 ACC2 ACC3 ACC4 ACC5 ACC6 ACC7 ACC PUSH PUSHACC0 PUSHACC1 PUSHACC2 PUSHACC3
PUSHACC4 PUSHACC5 PUSHACC6 PUSHACC7 PUSHACC POP ASSIGN ENVACC1 ENVACC2 ENVACC3 ENVACC4 ENVACC
PUSHENVACC1 PUSHENVACC2 PUSHENVACC3 PUSHENVACC4 PUSHENVACC PUSH_RETADDR APPLY APPLY1 APPLY2 APPLY3
APPTERM APPTERM1 APPTERM2 APPTERM3 RETURN RESTART GRAB CLOSURE CLOSUREREC
OFFSETCLOSUREM3 OFFSETCLOSURE0 OFFSETCLOSURE3 OFFSETCLOSURE PUSHOFFSETCLOSUREM3 PUSHOFFSETCLOSURE0
PUSHOFFSETCLOSURE3 PUSHOFFSETCLOSURE GETGLOBAL PUSHGETGLOBAL GETGLOBALFIELD PUSHGETGLOBALFIELD SETGLOBAL
ATOM0 ATOM PUSHATOM0 PUSHATOM MAKEBLOCK MAKEBLOCK1 MAKEBLOCK2 MAKEBLOCK3 MAKEFLOATBLOCK
GETFIELD0 GETFIELD1 GETFIELD2 GETFIELD3 GETFIELD GETFLOATFIELD
SETFIELD0 SETFIELD1 SETFIELD2 SETFIELD3 SETFIELD SETFLOATFIELD VECTLENGTH GETVECTITEM SETVECTITEM
GETBYTESCHAR SETBYTESCHAR BRANCH BRANCHIF BRANCHIFNOT SWITCH BOOLNOT PUSHTRAP POPTRAP RAISE CHECK_SIGNALS
C_CALL1 C_CALL2 C_CALL3 C_CALL4 C_CALL5 C_CALLN CONST0 CONST1 CONST2 CONST3 CONSTINT
PUSHCONST0 PUSHCONST1 PUSHCONST2 PUSHCONST3 PUSHCONSTINT NEGINT ADDINT SUBINT MULINT DIVINT MODINT
ANDINT ORINT XORINT LSLINT LSRINT ASRINT EQ NEQ LTINT LEINT GTINT GEINT OFFSETINT OFFSETREF ISINT
GETMETHOD BEQ BNEQ BLTINT BLEINT BGTINT BGEINT ULTINT UGEINT BULTINT BUGEINT GETPUBMET GETDYNMET
STOP EVENT BREAK RERAISE RAISE_NOTRACE GETSTRINGCHAR""".split()
for _i, _n in enumerate(OPS): globals()['O_' + _n] = _i

class Clos:
    """closure: shared field list + offset (infix closures of a recursive definition)"""
    __slots__ = ('f', 'off')
    movable = True
    tag = 247
    def __init__(self, f, off): self.f = f; self.off = off

class Code:
    __slots__ = ('pc',)
    def __init__(self, pc): self.pc = pc

ATOMS = {}
def atom(t):
    a = ATOMS.get(t)
    if a is None: a = ATOMS[t] = Block(t, [])
    return a

def s63(x):
    x &= M63
    return x - (1 << 63) if x >> 62 else x
def u63(x): return x & M63 if type(x) is int else x
def bool63(b): return b if type(b) is int else tm.zext(b, 1, 63)
def isimm(v): return type(v) is int or type(v) is T
def cond63(x): return (1 if x else 0) if type(x) is int else tm.ne(63, x, 0)

def norm(x): return s63(x) if type(x) is int else x

# ---------------------------------------------------------------- file format
def read_sections(path):
    data = open(path, 'rb').read()
    n = struct.unpack('>I', data[-16:-12])[0]
    assert data[-12:].startswith(b'Caml1999X'), 'not a bytecode executable'
    tab = data[-16 - 8 * n:-16]
    secs = [(tab[8*i:8*i+4].decode(), struct.unpack('>I', tab[8*i+4:8*i+8])[0]) for i in range(n)]
    end = len(data) - 16 - 8 * n
    out = {}
    for name, ln in reversed(secs):
        out[name] = data[end - ln:end]; end -= ln
    return out

class Unmarshal:
    def __init__(self, data):
        self.d = data; self.p = 0; self.objs = []
    def u(self, n):
        v = int.from_bytes(self.d[self.p:self.p+n], 'big'); self.p += n; return v
    def s(self, n):
        v = int.from_bytes(self.d[self.p:self.p+n], 'big', signed=True); self.p += n; return v
    def top(self):
        m = self.u(4)
        if m == 0x8495A6BE: self.p += 16
        elif m == 0x8495A6BF: self.p += 28
        else: raise ValueError('marshal magic %x' % m)
        return self.val()
    def block(self, tag, n):
        if n == 0: return atom(tag)
        b = Block(tag, [0] * n); self.objs.append(b)
        for i in range(n): b.fields[i] = self.val()
        return b
    def string(self, n):
        s = Str(list(self.d[self.p:self.p+n]), 'literal'); self.p += n
        self.objs.append(s); return s
    def val(self):
        c = self.u(1)
        if c >= 0x80: return self.block(c & 15, (c >> 4) & 7)
        if c >= 0x40: return c & 63
        if c >= 0x20: return self.string(c & 31)
        if c == 0: return self.s(1)
        if c == 1: return self.s(2)
        if c == 2: return self.s(4)
        if c == 3: return self.s(8)
        if c in (4, 5, 6):
            o = self.u({4: 1, 5: 2, 6: 4}[c]); return self.objs[-o]
        if c == 8: h = self.u(4); return self.block(h & 255, h >> 10)
        if c == 0x13: h = self.u(8); return self.block(h & 255, h >> 10)
        if c == 9: return self.string(self.u(1))
        if c == 0xA: return self.string(self.u(4))
        if c == 0xB or c == 0xC:
            v = struct.unpack('>d' if c == 0xB else '<d', self.d[self.p:self.p+8])[0]; self.p += 8
            self.objs.append(v); return v
        if c in (0xD, 0xE, 0xF, 7):
            n = self.u(1) if c in (0xD, 0xE) else self.u(4)
            b = Block(254, []); self.objs.append(b)
            for i in range(n):
                b.fields.append(struct.unpack('>d' if c in (0xD, 0xF) else '<d', self.d[self.p:self.p+8])[0]); self.p += 8
            return b
        if c in (0x12, 0x18, 0x19):
            e = self.d.index(0, self.p); nm = self.d[self.p:e].decode(); self.p = e + 1
            if c == 0x18: self.p += 12
            if nm == '_j': v = I64(self.u(8), 64)
            elif nm == '_i': v = I64(self.u(4), 32)
            elif nm == '_n':
                k = self.u(1); v = I64(self.u(4 if k == 1 else 8), 64)
                if k == 1: v.v = tm.sext(v.v, 32, 64)
            elif nm == '_z':
                neg = self.u(1); n = self.u(4)
                x = int.from_bytes(self.d[self.p:self.p+n], 'little'); self.p += n
                from . import zmodel
                v = zmodel.ZBig(-x if neg else x)
            else: raise Unsupported('custom ' + nm)
            self.objs.append(v); return v
        raise Unsupported('marshal code %x' % c)

EXN = ['Out_of_memory', 'Sys_error', 'Failure', 'Invalid_argument', 'End_of_file', 'Division_by_zero',
       'Not_found', 'Match_failure', 'Stack_overflow', 'Sys_blocked_io', 'Assert_failure', 'Undefined_recursive_module']

class VM:
    def __init__(self, path, E, prims):
        sec = read_sections(path)
        c = sec['CODE']
        self.code = list(struct.unpack('<%di' % (len(c) // 4), c))
        self.prims = [p.decode() for p in sec['PRIM'].split(b'\0') if p]
        self.globals = Unmarshal(sec['DATA']).top()
        self.E = E
        self.P = prims
        E.vm = self
        prims.vm = self
        E.mlexn = self.exn
        self.stack = []
        self.trapsp = 0
        self.pfun = [None] * len(self.prims)
        self.icount = 0
        self.callbacks = {}
        self.used = set()
        self.hook_entry = {}
    def exn(self, name): return self.globals.fields[EXN.index(name)]
    def mkexn(self, name, arg=None):
        e = self.exn(name)
        if arg is None: return e
        return Block(0, [e, Str(list(arg.encode()))])
    def invalid_arg(self, s): raise MLRaise(self.mkexn('Invalid_argument', s))
    def failure(self, s): raise MLRaise(self.mkexn('Failure', s))

    def prim(self, i):
        name = self.prims[i]
        f = self.P.lookup(name)
        if f is None and name in self.E.fn:
            E = self.E
            self.used.add(name)
            if name.endswith('_bytecode') or name.endswith('_byte'):
                def f(*a):
                    r = Region([None] * (8 * len(a)), 'argv')
                    for j, v in enumerate(a): mem.STORE(Ptr(r, 8 * j), 8, ml2c(v))
                    return c2ml(E.run(name, [Ptr(r, 0), len(a)]))
            else:
                def f(*a): return c2ml(E.run(name, [ml2c(v) for v in a]))
        if f is None:
            def f(*a): raise Unsupported('primitive ' + name)
        self.pfun[i] = f
        return f

    def run_main(self):
        return self.loop(0, 0, atom(0), 0)

    def apply(self, f, args):
        """call an ML closure from Python"""
        st = self.stack
        st.append(0); st.append(atom(0)); st.append(-1)      # extra_args, env, pc (stop)
        for a in reversed(args): st.append(a)
        return self.loop(f.f[f.off].pc, f, f, len(args) - 1)

    def loop(self, pc, accu, env, extra):
        st = self.stack
        saved_trap = self.trapsp
        base = len(st)
        self.trapsp = -1
        try:
            while True:
                try:
                    return self._loop(pc, accu, env, extra, st)
                except MLRaise as e:
                    if self.trapsp < 0:
                        raise
                    accu = e.v
                    del st[self.trapsp:]
                    pc = st.pop(); self.trapsp = st.pop(); env = st.pop(); extra = st.pop()
        except BaseException:
            raise
        finally:
            self.trapsp = saved_trap

    def _loop(self, pc, accu, env, extra, st):
        code = self.code
        glob = self.globals.fields
        n_ = 0
        while True:
            op = code[pc]; pc += 1
            n_ += 1
            if n_ & 0xfff == 0:
                self.icount += 4096
                rt.check_time()
            if op < 21:
                if op < 8: accu = st[-1 - op]
                elif op == 8: accu = st[-1 - code[pc]]; pc += 1
                elif op == 9: st.append(accu)
                elif op < 18:
                    st.append(accu); accu = st[9 - op]      # PUSHACCn: st[-1-n], n = op-10
                elif op == 18: st.append(accu); accu = st[-1 - code[pc]]; pc += 1
                elif op == 19:
                    k = code[pc]; pc += 1
                    if k: del st[-k:]
                else:
                    st[-1 - code[pc]] = accu; pc += 1; accu = 0
            elif op < 31:
                if op >= 26: st.append(accu); op -= 5
                if op == 25: n = code[pc]; pc += 1
                else: n = op - 20
                accu = env.f[env.off + n]
            elif op < 41:
                if op == 31:
                    st.append(extra); st.append(env); st.append(pc + code[pc]); pc += 1
                elif op == 32:
                    extra = code[pc] - 1; env = accu; pc = accu.f[accu.off].pc
                elif op < 36:
                    n = op - 32
                    if type(accu) is not Clos: raise Unsupported('apply of %r' % (accu,))
                    args = st[-n:]; del st[-n:]
                    st.append(extra); st.append(env); st.append(pc)
                    st.extend(args)
                    extra = n - 1; env = accu; pc = accu.f[accu.off].pc
                elif op < 40:
                    if op == 36: n = code[pc]; sl = code[pc + 1]
                    else: n = op - 36; sl = code[pc]
                    args = st[-n:]
                    del st[-sl:]
                    st.extend(args)
                    extra += n - 1; env = accu; pc = accu.f[accu.off].pc
                else:
                    k = code[pc]
                    if k: del st[-k:]
                    if extra > 0:
                        extra -= 1; env = accu; pc = accu.f[accu.off].pc
                    else:
                        pc = st.pop(); env = st.pop(); extra = st.pop()
                        if pc == -1: return accu
            elif op < 53:
                if op == 41:   # RESTART
                    f = env.f
                    n = len(f) - 3
                    st.extend(reversed(f[3:]))
                    env = f[2]; extra += n
                elif op == 42:  # GRAB
                    req = code[pc]; pc += 1
                    if extra >= req: extra -= req
                    else:
                        n = 1 + extra
                        args = st[-n:]; del st[-n:]
                        args.reverse()
                        accu = Clos([Code(pc - 3), 0, env] + args, 0)
                        pc = st.pop(); env = st.pop(); extra = st.pop()
                        if pc == -1: return accu
                elif op == 43:
                    nv = code[pc]; tgt = pc + 1 + code[pc + 1]; pc += 2
                    f = [Code(tgt), 0]
                    if nv > 0:
                        f.append(accu)
                        for _ in range(nv - 1): f.append(st.pop())
                    accu = Clos(f, 0)
                elif op == 44:
                    nf = code[pc]; nv = code[pc + 1]; pc += 2
                    vs = []
                    if nv > 0:
                        vs.append(accu)
                        for _ in range(nv - 1): vs.append(st.pop())
                    f = []
                    for i in range(nf):
                        if i: f.append(0)
                        f.append(Code(pc + code[pc + i])); f.append(0)
                    f.extend(vs)
                    pc += nf
                    accu = Clos(f, 0)
                    st.append(accu)
                    for i in range(1, nf): st.append(Clos(f, 3 * i))
                else:
                    if op >= 49: st.append(accu); op -= 4
                    if op == 48: d = code[pc]; pc += 1
                    else: d = (op - 46) * 3
                    accu = env if d == 0 else Clos(env.f, env.off + d)
            elif op < 58:
                if op == 53 or op == 54:
                    if op == 54: st.append(accu)
                    accu = glob[code[pc]]; pc += 1
                elif op == 57: glob[code[pc]] = accu; accu = 0; pc += 1
                else:
                    if op == 56: st.append(accu)
                    accu = glob[code[pc]].fields[code[pc + 1]]; pc += 2
            elif op < 67:
                if op < 62:
                    if op >= 60: st.append(accu)
                    if op & 1: accu = atom(code[pc]); pc += 1
                    else: accu = atom(0)
                elif op == 62:
                    n = code[pc]; t = code[pc + 1]; pc += 2
                    f = [accu]
                    for _ in range(n - 1): f.append(st.pop())
                    accu = Block(t, f)
                elif op < 66:
                    t = code[pc]; pc += 1
                    if op == 63: accu = Block(t, [accu])
                    elif op == 64: accu = Block(t, [accu, st.pop()])
                    else:
                        b = st.pop(); accu = Block(t, [accu, b, st.pop()])
                else:
                    n = code[pc]; pc += 1
                    f = [accu]
                    for _ in range(n - 1): f.append(st.pop())
                    accu = Block(254, f)
            elif op < 79:
                if op < 72:
                    if op == 71: n = code[pc]; pc += 1
                    else: n = op - 67
                    if type(accu) is Block:
                        accu = accu.fields[n]
                    else: accu = self.getfield(accu, n)
                elif op == 72:
                    accu = accu.fields[code[pc]]; pc += 1
                else:
                    if op >= 77: n = code[pc]; pc += 1
                    else: n = op - 73
                    accu.fields[n] = st.pop(); accu = 0
            elif op < 84:
                if op == 79:
                    if isinstance(accu, Block): accu = len(accu.fields)
                    else: raise Unsupported('vectlength')
                elif op == 80:
                    i = st.pop()
                    accu = self.vecget(accu, i)
                elif op == 81:
                    i = st.pop(); v = st.pop()
                    self.vecset(accu, i, v); accu = 0
                elif op == 82: accu = self.getchar(accu, st.pop())
                else:
                    i = st.pop(); v = st.pop()
                    self.setchar(accu, i, v); accu = 0
            elif op == 84: pc += code[pc]
            elif op == 85 or op == 86:
                if type(accu) is T:
                    b = rt.branch(tm.ne(63, accu, 0))
                else: b = accu != 0 if type(accu) is int else True
                if b == (op == 85): pc += code[pc]
                else: pc += 1
            elif op == 87:
                sizes = code[pc]; pc += 1
                if type(accu) is int: pc += code[pc + accu]
                elif type(accu) is T: pc += code[pc + self.switch(accu, code, pc, sizes & 0xffff)]
                else: pc += code[pc + (sizes & 0xffff) + accu.tag]
            elif op == 88:
                accu = (0 if accu else 1) if type(accu) is int else bool63(tm.eq(63, accu, 0))
            elif op == 89:
                st.append(extra); st.append(env); st.append(self.trapsp); st.append(pc + code[pc]); pc += 1
                self.trapsp = len(st)
            elif op == 90:
                st.pop(); self.trapsp = st.pop(); st.pop(); st.pop()
            elif op == 91 or op == 146 or op == 147:
                raise MLRaise(accu)
            elif op == 92: pass
            elif op < 99:
                pi = code[pc]; pc += 1
                if op == 98:
                    n = pi; pi = code[pc]; pc += 1
                else: n = op - 92
                f = self.pfun[pi]
                if f is None: f = self.prim(pi)
                if n == 1: accu = f(accu)
                else:
                    a = st[-(n - 1):]; a.reverse()
                    del st[-(n - 1):]
                    accu = f(accu, *a)
            elif op < 109:
                if op >= 104: st.append(accu); op -= 5
                if op == 103: accu = code[pc]; pc += 1
                else: accu = op - 99
            elif op < 121:
                if op == 109: accu = s63(-accu) if type(accu) is int else tm.neg(63, accu)
                else:
                    b = st.pop()
                    if type(accu) is int and type(b) is int:
                        if op == 110: accu = s63(accu + b)
                        elif op == 111: accu = s63(accu - b)
                        elif op == 112: accu = s63(accu * b)
                        elif op == 115: accu = accu & b
                        elif op == 116: accu = accu | b
                        elif op == 117: accu = accu ^ b
                        elif op == 118: accu = s63(accu << (b & 63)) if b < 64 and b >= 0 else 0
                        elif op == 119: accu = s63((accu & M63) >> b) if 0 <= b < 64 else 0
                        elif op == 120: accu = accu >> b
                        else: accu = self.divmod(op, accu, b)
                    else: accu = self.arith(op, accu, b)
            elif op < 127:
                b = st.pop()
                if type(accu) is int and type(b) is int:
                    if op == 121: accu = 1 if accu == b else 0
                    elif op == 122: accu = 1 if accu != b else 0
                    elif op == 123: accu = 1 if accu < b else 0
                    elif op == 124: accu = 1 if accu <= b else 0
                    elif op == 125: accu = 1 if accu > b else 0
                    else: accu = 1 if accu >= b else 0
                else: accu = bool63(self.cmp(op, accu, b))
            elif op == 127:
                k = code[pc]; pc += 1
                accu = s63(accu + k) if type(accu) is int else tm.add(63, accu, k & M63)
            elif op == 128:
                k = code[pc]; pc += 1
                v = accu.fields[0]
                accu.fields[0] = s63(v + k) if type(v) is int else tm.add(63, v, k & M63)
                accu = 0
            elif op == 129: accu = 1 if isimm(accu) else 0
            elif op == 130:
                o = st[-1]
                accu = o.fields[0].fields[accu]
            elif op < 137:
                k = code[pc]; tgt = pc + 1 + code[pc + 1]
                if type(accu) is int:
                    # compares constant k with accu
                    if op == 131: b = k == accu
                    elif op == 132: b = k != accu
                    elif op == 133: b = k < accu
                    elif op == 134: b = k <= accu
                    elif op == 135: b = k > accu
                    else: b = k >= accu
                else: b = rt.branch(self.cmp(op - 10, k, accu))
                pc = tgt if b else pc + 2
            elif op < 139:
                b = st.pop()
                r = tm.ult(63, u63(accu), u63(b))
                if op == 138: r = tm.xor(1, r, 1)
                accu = bool63(r)
            elif op < 141:
                k = code[pc]; tgt = pc + 1 + code[pc + 1]
                r = tm.ult(63, u63(k), u63(accu))
                if op == 140: r = tm.xor(1, r, 1)
                pc = tgt if rt.branch(r) else pc + 2
            elif op == 141 or op == 142:
                if op == 141:
                    st.append(accu); accu = code[pc]; pc += 2
                meths = st[-1].fields[0].fields
                li = 3; hi = 2 * meths[0] + 1
                while li < hi:
                    mi = ((li + hi) >> 1) | 1
                    if accu < meths[mi]: hi = mi - 2
                    else: li = mi
                accu = meths[li - 1]
            elif op == 143: return accu
            elif op == 148: accu = self.getchar(accu, st.pop())
            elif op == 144: pass
            else: raise Unsupported('opcode %s' % OPS[op])

    # ---------------------------------------------------------------- slow paths
    def getfield(self, v, n):
        if type(v) is Clos: return v.f[v.off + n]
        raise Unsupported('getfield of %s' % type(v).__name__)
    def switch(self, v, code, pc, n):
        """pick a case of an integer switch for a symbolic value; returns an index with the chosen target"""
        if n == 0: raise Unsupported('switch')
        if not rt.branch(tm.ult(63, v, n)): raise Unsupported('switch out of range')
        b = (n - 1).bit_length()
        tg = {}
        for i in range(n): tg.setdefault(code[pc + i], []).append(i)
        if len(tg) == 1: return 0
        x = tm.extract(v, 63, b - 1, 0) if b else 0
        items = sorted(tg.items(), key=lambda kv: len(kv[1]))
        for t, l in items[:-1]:
            s = set(l)
            c = tm.rom([1 if i in s else 0 for i in range(1 << b)], 1, x, b)
            if rt.branch(c): return l[0]
        return items[-1][1][0]
    def vecget(self, a, i):
        if not isinstance(a, Block): raise Unsupported('vecget of %s' % type(a).__name__)
        f = a.fields
        if type(i) is int:
            if i < 0 or i >= len(f): raise rt.MemFault('unsafe array access at %d of %d' % (i, len(f)))
            return f[i]
        if not rt.branch(tm.ult(63, i, len(f))): raise rt.MemFault('unsafe array access')
        b = max(1, (len(f) - 1).bit_length())
        if len(f) <= 4096 and all(isimm(x) for x in f):
            vals = [u63(x) for x in f] + [0] * ((1 << b) - len(f))
            return norm(tm.sel(vals, 63, tm.extract(i, 63, b - 1, 0), b))
        return f[rt.concretize(i, 63, 'array index')]
    def vecset(self, a, i, v):
        f = a.fields
        if type(i) is T: i = s63(rt.concretize(i, 63, 'array index'))
        if i < 0 or i >= len(f): raise rt.MemFault('unsafe array write at %d of %d' % (i, len(f)))
        f[i] = v
    def getchar(self, s, i):
        if type(i) is int:
            c = s.cells
            if i < 0 or i >= len(c):
                if i == len(c): return 0      # padding byte
                raise rt.MemFault('unsafe string read at %d of %d' % (i, len(c)))
            x = c[i]
            if x is None: x = mem.ccell(s, i)
            return x if type(x) is int else tm.zext(x, 8, 63)
        r = mem.LOAD(Ptr(s, tm.sext(i, 63, 64)), 1)
        return tm.zext(r, 8, 63)
    def setchar(self, s, i, v):
        v = v & 255 if type(v) is int else tm.extract(v, 63, 7, 0)
        if type(i) is int:
            if i < 0 or i >= len(s.cells): raise rt.MemFault('unsafe string write at %d of %d' % (i, len(s.cells)))
            s.cells[i] = v
        else: mem.STORE(Ptr(s, tm.sext(i, 63, 64)), 1, v)
    def divmod(self, op, a, b):
        if b == 0: raise MLRaise(self.exn('Division_by_zero'))
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return s63(q) if op == 113 else s63(a - q * b)
    def arith(self, op, a, b):
        if not (isimm(a) and isimm(b)): raise Unsupported('arith on %s %s' % (type(a).__name__, type(b).__name__))
        a = u63(a)
        if op in (118, 119, 120):
            if type(b) is int:
                if b < 0 or b > 63: raise Unsupported('shift')
                r = (tm.shl if op == 118 else tm.lshr if op == 119 else tm.ashr)(63, a, b)
            else:
                r = (tm.shl if op == 118 else tm.lshr if op == 119 else tm.ashr)(63, a, b)
            return norm(r)
        b = u63(b)
        if op == 110: r = tm.add(63, a, b)
        elif op == 111: r = tm.sub(63, a, b)
        elif op == 112: r = tm.mul(63, a, b)
        elif op == 115: r = tm.and_(63, a, b)
        elif op == 116: r = tm.or_(63, a, b)
        elif op == 117: r = tm.xor(63, a, b)
        else:
            if rt.branch(tm.eq(63, b, 0)): raise MLRaise(self.exn('Division_by_zero'))
            if type(a) is int and type(b) is int: return self.divmod(op, s63(a), s63(b))
            r = tm.sdiv(63, a, b) if op == 113 else tm.srem(63, a, b)
        return norm(r)
    def cmp(self, op, a, b):
        """op in 121..126 (EQ NEQ LT LE GT GE) -> 1-bit value"""
        if op <= 122:
            if isimm(a) and isimm(b): r = tm.eq(63, u63(a), u63(b))
            elif isimm(a) or isimm(b): r = 0
            elif type(a) is Clos and type(b) is Clos: r = 1 if a.f is b.f and a.off == b.off else 0
            else: r = 1 if a is b else 0
            return r if op == 121 else (1 - r if type(r) is int else tm.xor(1, r, 1))
        if not (isimm(a) and isimm(b)): raise Unsupported('comparison')
        a = u63(a); b = u63(b)
        if op == 123: return tm.slt(63, a, b)
        if op == 124: return tm.sle(63, a, b)
        if op == 125: return tm.slt(63, b, a)
        return tm.sle(63, b, a)
