"""Model of everything the C stubs call outside /repo: OCaml runtime, libc, CPU instructions."""
import subprocess, os, hashlib
from . import term as tm, rt, mem, llvm
from .term import T, Unsupported
from .mem import Ptr, Region, Str, Custom, Block, LOAD, STORE, EPOCH, ml2c, c2ml

LOCAL_ROOTS_FIELD = 36

class MLRaise(Exception):
    """OCaml exception raised by a primitive; value is an ML value"""
    def __init__(self, v): self.v = v

class Externs:
    def __init__(self):
        self.modules = {}
        self.fn = {}
        self.cstate = Region([0] * 1024, 'Caml_state')
        self.cstate_ptr = Region([None] * 8, 'Caml_state_ptr')
        STORE(Ptr(self.cstate_ptr, 0), 8, Ptr(self.cstate, 0))
        self.datas = {'Caml_state': Ptr(self.cstate_ptr, 0)}
        self.cpu = {'aes': 1, 'pclmul': 1, 'rdrand': 1}
        self.gc_model = True
        self.handlers = {}
        self.named = {}
        self.rng_hook = None
        self.zlib = None
        self.stat = {}
        self.calls = {}
        self.covered = set()
        self.mallocs = []
    def has_data(self, n): return n in self.datas
    def data(self, n):
        if n not in self.datas:
            self.datas[n] = Ptr(Region([0] * 8, n), 0)
        return self.datas[n]
    def call(self, n, a):
        h = self.handlers.get(n) or getattr(self, 'x_' + n.replace('.', '_'), None)
        if h is None or n in self.fn:
            for m in self.modules.values():
                if n in m.code: return m.get(n)(*a)
            raise Unsupported('external function ' + n)
        return h(*a)
    def load(self, path, text):
        m = llvm.Module(text, os.path.basename(path).replace('.ll', ''), self)
        self.modules[m.name] = m
        for n in m.code: self.fn.setdefault(n, m)
        return m
    def run(self, n, args):
        """call C primitive n with C values"""
        self.covered.add(n)
        return self.fn[n].get(n)(*args)

    # ---------------- GC
    def gcpoint(self):
        if not self.gc_model: return
        EPOCH[0] += 1
        ep = EPOCH[0]
        for n, b in self.stat.items(): STORE(Ptr(b, 0), 8, Ptr(self.named[n], 0))   # named values are roots
        off = LOCAL_ROOTS_FIELD * 8
        p = LOAD(Ptr(self.cstate, off), 8)
        n = 0
        while type(p) is Ptr:
            nt = LOAD(mem.padd(p, 8), 8); ni = LOAD(mem.padd(p, 16), 8)
            for i in range(nt):
                t = LOAD(mem.padd(p, 24 + 8 * i), 8)
                for k in range(ni):
                    c = mem.padd(t, 8 * k)
                    v = LOAD(c, 8)
                    if type(v) is Ptr and v.obj.movable and v.ep == ep - 1: STORE(c, 8, Ptr(v.obj, v.off, ep))
            p = LOAD(p, 8)
            n += 1
            if n > 100: raise Unsupported('root list')
    def new(self, obj):
        return Ptr(obj, 0)
    def x_caml_alloc_string(self, n):
        n = rt.concretize(n, 64, 'string length')
        self.gcpoint()
        return self.new(Str([None] * n, 'alloc_string'))
    def x_caml_alloc_initialized_string(self, n, p):
        n = rt.concretize(n, 64, 'string length')
        seg = [LOAD(mem.padd(p, i), 1) for i in range(n)]
        self.gcpoint()
        return self.new(Str(seg, 'alloc_string'))
    def x_caml_string_length(self, v):
        mem._chk(v)
        return len(v.obj.cells)
    def x_caml_alloc_custom(self, ops, size, m, mx):
        self.gcpoint()
        size = rt.concretize(size, 64)
        r = Custom([0] * 8 + [None] * ((size + 7) // 8 * 8))
        STORE(Ptr(r, 0), 8, ops)
        return self.new(r)
    def x_caml_alloc_custom_mem(self, ops, size, m): return self.x_caml_alloc_custom(ops, size, 0, 1)
    def x_caml_alloc_small(self, n, tag):
        self.gcpoint()
        return self.new(Block(tag, [0] * n))
    def x_caml_alloc(self, n, tag):
        self.gcpoint()
        return self.new(Block(tag, [0] * n))
    x_caml_alloc_tuple = lambda self, n: self.x_caml_alloc(n, 0)
    def x_caml_copy_string(self, p):
        s = self.cstring(p); self.gcpoint()
        return self.new(Str(s, 'copy_string'))
    def x_caml_copy_int64(self, v):
        self.gcpoint(); return self.new(mem.I64(v))
    def cstring(self, p):
        s = []
        while True:
            c = LOAD(mem.padd(p, len(s)), 1)
            if type(c) is not int: raise Unsupported('symbolic C string')
            if c == 0: return s
            s.append(c)
    def x_caml_stat_alloc(self, n):
        n = rt.concretize(n, 64, 'malloc size')
        return self._m(Region([None] * n, 'malloc'))
    def _m(self, r):
        self.mallocs.append(r)
        return Ptr(r, 0)
    x_malloc = x_caml_stat_alloc
    x_caml_stat_alloc_noexc = x_caml_stat_alloc
    def x_calloc(self, a, b):
        n = rt.concretize(a, 64) * rt.concretize(b, 64)
        return self._m(Region([0] * n, 'malloc'))
    def x_caml_stat_free(self, p):
        if type(p) is int and p == 0: return
        mem._chk(p)
        if p.off != 0 or p.obj.freed: raise rt.MemFault('invalid free')
        p.obj.freed = True
    x_free = x_caml_stat_free
    def x_caml_initialize(self, p, v): STORE(p, 8, v)
    def x_caml_modify(self, p, v): STORE(p, 8, v)
    def x_caml_named_value(self, p):
        n = bytes(self.cstring(p)).decode()
        if n not in self.named: return 0
        if n not in self.stat:
            b = Region([None] * 8, 'named:' + n)
            self.stat[n] = b
        b = self.stat[n]
        STORE(Ptr(b, 0), 8, Ptr(self.named[n], 0))
        return Ptr(b, 0)
    def unwind(self):
        STORE(Ptr(self.cstate, LOCAL_ROOTS_FIELD * 8), 8, 0)
    def x_caml_raise(self, v):
        v = c2ml(v); self.unwind()
        raise MLRaise(v)
    def x_caml_raise_not_found(self):
        self.unwind(); raise MLRaise(self.mlexn('Not_found'))
    def x_caml_invalid_argument(self, p):
        s = self.cstring(p); self.unwind()
        raise MLRaise(Block(0, [self.mlexn('Invalid_argument'), Str(list(s))]))
    def x_caml_failwith(self, p):
        s = self.cstring(p); self.unwind()
        raise MLRaise(Block(0, [self.mlexn('Failure'), Str(list(s))]))
    mlexn = None
    def x_abort(self): raise rt.CAbort('abort()')
    def x___assert_fail(self, e, f, l, fn):
        raise rt.CAbort('C assertion failed: ' + bytes(self.cstring(e)).decode())
    def x_memcmp(self, a, b, n):
        n = rt.concretize(n, 64)
        for i in range(n):
            x = LOAD(mem.padd(a, i), 1); y = LOAD(mem.padd(b, i), 1)
            if rt.branch(tm.ne(8, x, y)):
                return 1 if rt.branch(tm.ult(8, y, x)) else (1 << 32) - 1
        return 0
    x_bcmp = x_memcmp
    def x_strlen(self, p): return len(self.cstring(p))
    def x_explicit_bzero(self, p, n): mem.MEMSET(p, 0, n)

    # ---------------- CPU
    def x_asm(self, tmpl, cons, *a):
        if 'cpuid' in tmpl:
            leaf = a[0]
            if leaf == 0: return (22, 0, 0, 0)
            if leaf == 1:
                cx = (1 << 25 if self.cpu['aes'] else 0) | (1 << 1 if self.cpu['pclmul'] else 0) | (1 << 30 if self.cpu['rdrand'] else 0)
                return (0x906ea, 0, cx, 0)
            return (0, 0, 0, 0)
        if 'xgetbv' in tmpl: return (7, 0)
        if 'rdrand' in tmpl:
            v, ok = self.rdrand()
            STORE(a[0], 1, tm.zext(ok, 1, 8) if type(ok) is T else ok)
            return v
        if tmpl.strip('"').strip() == '': return None
        raise Unsupported('inline asm ' + tmpl)
    def rdrand(self):
        if self.env: return self.env('rdrand', 'rdrand', 0, 0)
        raise Unsupported('rdrand without model')
    env = None            # set by the harness: decisions and bytes of the stand-in environment
    def x_env_choose(self, l, lo, hi): return self.env('choose', bytes(self.cstring(l)).decode(), lo, hi)
    def x_env_long(self, l, lo, hi): return self.env('long', bytes(self.cstring(l)).decode(), lo, hi)
    def x_env_bytes(self, l, p, n):
        n = rt.concretize(n, 64, 'environment bytes')
        for i, c in enumerate(self.env('bytes', bytes(self.cstring(l)).decode(), n, 0)): STORE(mem.padd(p, i), 1, c)

    # AES-NI
    def x_llvm_x86_aesni_aesenc(self, s, k): return _aes(s, k, False, False)
    def x_llvm_x86_aesni_aesenclast(self, s, k): return _aes(s, k, False, True)
    def x_llvm_x86_aesni_aesdec(self, s, k): return _aes(s, k, True, False)
    def x_llvm_x86_aesni_aesdeclast(self, s, k): return _aes(s, k, True, True)
    def x_llvm_x86_aesni_aesimc(self, s):
        b = [tm.extract(s, 128, 8*i+7, 8*i) for i in range(16)]
        return _pack(_mix(b, True))
    def x_llvm_x86_aesni_aeskeygenassist(self, s, imm):
        b = [tm.extract(s, 128, 8*i+7, 8*i) for i in range(16)]
        S = [tm.rom(SBOX, 8, x, 8) for x in b]
        def rot(x): return x[1:] + x[:1]
        x1 = S[4:8]; x3 = S[12:16]
        r3 = rot(x3); r1 = rot(x1)
        r1 = [tm.xor(8, r1[0], imm & 255)] + r1[1:]
        r3 = [tm.xor(8, r3[0], imm & 255)] + r3[1:]
        return _pack(x1 + r1 + x3 + r3)
    def x_llvm_x86_pclmulqdq(self, a, b, imm):
        x = tm.extract(a, 128, 127, 64) if imm & 1 else tm.extract(a, 128, 63, 0)
        y = tm.extract(b, 128, 127, 64) if imm & 16 else tm.extract(b, 128, 63, 0)
        return tm.clmul(64, x, y)

    # MD5 lives in the OCaml runtime: modelled by its specification
    def x_caml_MD5Init(self, ctx):
        # struct MD5Context { uint32 buf[4]; uint32 bits[2]; unsigned char in[64]; }
        for i, v in enumerate((0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0, 0)):
            STORE(mem.padd(ctx, 4 * i), 4, v)
    def x_caml_MD5Update(self, ctx, buf, n):
        n = rt.concretize(n, 64)
        lo = LOAD(mem.padd(ctx, 16), 4); hi = LOAD(mem.padd(ctx, 20), 4)
        if type(lo) is not int: raise Unsupported('md5 symbolic count')
        t = lo; tot = (lo | (hi << 32)) + (n << 3)
        if type(hi) is not int: raise Unsupported('md5 symbolic count')
        STORE(mem.padd(ctx, 16), 4, tot & 0xffffffff); STORE(mem.padd(ctx, 20), 4, (tot >> 32) & 0xffffffff)
        used = (t >> 3) & 63
        pos = 0
        while n - pos > 0:
            k = min(64 - used, n - pos)
            mem.MEMCPY(mem.padd(ctx, 24 + used), mem.padd(buf, pos), k)
            used += k; pos += k
            if used == 64: self.md5_block(ctx); used = 0
    def md5_block(self, ctx):
        from . import specs
        st = [LOAD(mem.padd(ctx, 4 * i), 4) for i in range(4)]
        blk = [LOAD(mem.padd(ctx, 24 + i), 1) for i in range(64)]
        st = specs.md5_compress(st, blk)
        for i, v in enumerate(st): STORE(mem.padd(ctx, 4 * i), 4, v)
    def x_caml_MD5Final(self, digest, ctx):
        lo = LOAD(mem.padd(ctx, 16), 4); hi = LOAD(mem.padd(ctx, 20), 4)
        if type(lo) is not int: raise Unsupported('md5 symbolic count')
        used = (lo >> 3) & 63
        def put(o, v): STORE(mem.padd(ctx, 24 + o), 1, v)
        put(used, 0x80); used += 1
        if used > 56:
            for i in range(used, 64): put(i, 0)
            self.md5_block(ctx); used = 0
        for i in range(used, 56): put(i, 0)
        for i in range(4): put(56 + i, tm.extract(lo, 32, 8*i+7, 8*i)); put(60 + i, tm.extract(hi, 32, 8*i+7, 8*i))
        self.md5_block(ctx)
        for i in range(16): STORE(mem.padd(digest, i), 1, LOAD(mem.padd(ctx, i), 1))
        mem.MEMSET(ctx, 0, 8)   # the runtime clears sizeof(ctx) pointer bytes only

def gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1
        if a & 256: a ^= 0x11b
        b >>= 1
    return r
def _mksbox():
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if gmul(a, b) == 1: inv[a] = b; break
    s = []
    for x in range(256):
        y = inv[x]; r = 0
        for i in range(8):
            bit = (y >> i) ^ (y >> ((i+4) % 8)) ^ (y >> ((i+5) % 8)) ^ (y >> ((i+6) % 8)) ^ (y >> ((i+7) % 8)) ^ (0x63 >> i)
            r |= (bit & 1) << i
        s.append(r)
    return tuple(s)
SBOX = _mksbox()
ISBOX = tuple(SBOX.index(i) for i in range(256))
MULT = {k: tuple(gmul(x, k) for x in range(256)) for k in (1, 2, 3, 9, 11, 13, 14)}
def gf(k, x): return x if k == 1 else tm.rom(MULT[k], 8, x, 8)
def _mix(b, inv):
    c = (14, 11, 13, 9) if inv else (2, 3, 1, 1)
    out = []
    for col in range(4):
        a = b[4*col:4*col+4]
        for r in range(4):
            v = 0
            for k in range(4): v = tm.xor(8, v, gf(c[(k - r) % 4], a[k]))
            out.append(v)
    return out
def _pack(b): return tm.concat([(8, x) for x in reversed(b)])
def _aes(s, k, dec, last):
    b = [tm.extract(s, 128, 8*i+7, 8*i) for i in range(16)]
    kb = [tm.extract(k, 128, 8*i+7, 8*i) for i in range(16)]
    o = [None] * 16
    for c in range(4):
        for r in range(4):
            if not dec: o[4*c+r] = b[4*((c+r) % 4)+r]
            else: o[4*c+r] = b[4*((c-r) % 4)+r]
    o = [tm.rom(ISBOX if dec else SBOX, 8, x, 8) for x in o]
    if not last: o = _mix(o, dec)
    return _pack([tm.xor(8, x, y) for x, y in zip(o, kb)])

# ------------------------------------------------------------------ building IR from /repo
OCAMLINC = '/usr/lib/ocaml'
CFLAGS = ['-DCAML_NAME_SPACE', '-DEXPORT=static', '-DBLAKE3_NO_SSE2', '-DBLAKE3_NO_SSE41', '-DBLAKE3_NO_AVX2', '-DBLAKE3_NO_AVX512',
          '-DBLAKE3_USE_NEON=0', '-DHAVE_GETENTROPY', '-DHAVE_ZLIB']
def build_ir(outdir, src='/repo/src', hw=True, jobs=8, opt='-O1', extra=()):
    """compile every stub of the current working tree to LLVM IR text; returns list of paths"""
    import glob, concurrent.futures as cf
    os.makedirs(outdir, exist_ok=True)
    stubs = sorted(glob.glob(src + '/stubs-*.c')) + list(extra)
    def one(f):
        o = os.path.join(outdir, os.path.basename(f)[:-2] + '.ll')
        cmd = ['clang', '-S', '-emit-llvm', opt, '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-discard-value-names', '-w'] + CFLAGS
        if hw: cmd += ['-maes', '-mpclmul']
        cmd += ['-I' + OCAMLINC, f, '-o', o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: return o, r.stderr
        return o, None
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, stubs))
