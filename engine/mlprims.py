"""OCaml runtime primitives (the parts the library and the harnesses use)."""
import struct
from . import term as tm, rt, mem
from .term import T, Unsupported
from .mem import Block, Str, Custom, I64, Ptr, M63, M64
from .mlexec import Clos, Code, atom, s63, u63, bool63, isimm, norm
from .cext import MLRaise
from . import zmodel

def conc(v, what='int'):
    if type(v) is int: return v
    return s63(rt.concretize(v, 63, what))
def pystr(s):
    if any(type(c) is not int for c in s.cells): raise Unsupported('symbolic text')
    return bytes(s.cells).decode('latin1')
def mlstr(b): return Str(list(b.encode('latin1') if isinstance(b, str) else b))
def u64(v): return v.v
def cell(s, i):
    c = s.cells[i]
    return mem.ccell(s, i) if c is None else c

class Chan:
    __slots__ = ('name', 'data', 'pos', 'out', 'chunks', 'closed', 'err')
    movable = True
    def __init__(self, name): self.name = name; self.data = None; self.pos = 0; self.out = []; self.chunks = None; self.closed = False

class Prims(zmodel.ZPrims):
    def __init__(self):
        self.over = {}
        self.oid = 0
        self.E = None
    def lookup(self, name):
        f = self.over.get(name)
        if f is None: f = getattr(self, 'p_' + name, None)
        return f
    # ------------------------------------------------ misc runtime
    def p_caml_register_named_value(self, n, v):
        self.vm.E.named[pystr(n)] = v
        return 0
    def p_caml_fresh_oo_id(self, u):
        self.oid += 1
        return self.oid - 1
    def p_caml_set_oo_id(self, b):
        b.fields[1] = self.oid; self.oid += 1
        return b
    def p_caml_ensure_stack_capacity(self, n): return 0
    def p_caml_get_exception_raw_backtrace(self, u): return atom(0)
    def p_caml_sys_const_big_endian(self, u): return 0
    def p_caml_sys_const_word_size(self, u): return 64
    def p_caml_sys_const_int_size(self, u): return 63
    def p_caml_sys_const_max_wosize(self, u): return (1 << 54) - 1
    def p_caml_sys_const_ostype_unix(self, u): return 1
    def p_caml_sys_const_ostype_win32(self, u): return 0
    def p_caml_sys_const_ostype_cygwin(self, u): return 0
    def p_caml_sys_const_backend_type(self, u): return 1
    def p_caml_sys_get_config(self, u): return Block(0, [mlstr('Unix'), 64, 0])
    def p_caml_sys_executable_name(self, u): return mlstr('harness')
    def p_caml_sys_get_argv(self, u): return Block(0, [mlstr('harness')])
    def p_caml_sys_argv(self, u): return Block(0, [mlstr('harness')])
    def p_caml_sys_getenv(self, n): raise MLRaise(self.vm.exn('Not_found'))
    def p_caml_runtime_variant(self, u): return mlstr('')
    def p_caml_runtime_parameters(self, u): return mlstr('')
    def p_caml_sys_exit(self, n): raise Unsupported('exit')
    def p_caml_install_signal_handler(self, a, b): return 0
    def p_caml_ml_debug_info_status(self, u): return 0
    def p_caml_gc_full_major(self, u): return 0
    p_caml_gc_major = p_caml_gc_minor = p_caml_gc_compaction = p_caml_gc_full_major
    def p_caml_final_register(self, a, b): return 0
    def p_caml_random_seed(self, u): return Block(0, [0])
    def p_caml_backtrace_status(self, u): return 0
    # ------------------------------------------------ channels
    def p_caml_ml_open_descriptor_in(self, fd): return Chan('in%d' % fd if type(fd) is int else 'in')
    def p_caml_ml_open_descriptor_out(self, fd): return Chan('out%d' % fd if type(fd) is int else 'out')
    def p_caml_ml_set_channel_name(self, c, n): return 0
    def p_caml_ml_out_channels_list(self, u): return 0
    def p_caml_ml_flush(self, c): return 0
    def p_caml_ml_output(self, c, s, o, n): return self.p_caml_ml_output_bytes(c, s, o, n)
    def p_caml_ml_output_bytes(self, c, s, o, n):
        o = conc(o); n = conc(n)
        if o < 0 or n < 0 or o + n > len(s.cells): raise rt.MemFault('output of bytes outside the buffer')
        c.out.extend(cell(s, i) for i in range(o, o + n))
        return 0
    def p_caml_ml_output_char(self, c, ch):
        c.out.append(ch & 255 if type(ch) is int else tm.extract(ch, 63, 7, 0)); return 0
    def p_caml_ml_input(self, c, s, o, n):
        o = conc(o); n = conc(n)
        if c.data is None: raise Unsupported('input from a real channel')
        if o < 0 or n < 0 or o + n > len(s.cells): raise rt.MemFault('input outside the buffer')
        left = len(c.data) - c.pos
        k = min(n, left)
        if k > 0 and c.chunks:
            # one read returns at most the current chunk
            q = c.chunks[0]
            if q <= k: k = q; c.chunks.pop(0)
            else: c.chunks[0] = q - k
        s.cells[o:o + k] = c.data[c.pos:c.pos + k]
        c.pos += k
        return k
    def p_caml_ml_close_channel(self, c): c.closed = True; return 0
    # ------------------------------------------------ bytes and strings
    def p_caml_create_bytes(self, n):
        if type(n) is T:
            if rt.branch(tm.ult(63, 1 << 57, n)): self.vm.invalid_arg('Bytes.create')
            if rt.branch(tm.ult(63, 1 << 28, n)): raise Unsupported('large allocation')
        n = conc(n, 'length')
        if n < 0 or n > (1 << 57): self.vm.invalid_arg('Bytes.create')
        if n > 1 << 28: raise Unsupported('large allocation')
        return Str([None] * n, 'bytes')
    p_caml_create_string = p_caml_create_bytes
    def p_caml_ml_bytes_length(self, s): return len(s.cells)
    p_caml_ml_string_length = p_caml_ml_bytes_length
    def _idx(self, s, i, n=1):
        ln = len(s.cells)
        if type(i) is int:
            if i < 0 or i + n > ln: self.vm.invalid_arg('index out of bounds')
            return
        ok = tm.ult(63, i, ln - n + 1) if ln >= n else 0
        if not rt.branch(ok): self.vm.invalid_arg('index out of bounds')
    def p_caml_bytes_get(self, s, i):
        self._idx(s, i); return self.vm.getchar(s, i)
    p_caml_string_get = p_caml_bytes_get
    def p_caml_bytes_set(self, s, i, v):
        self._idx(s, i); self.vm.setchar(s, i, v); return 0
    p_caml_string_set = p_caml_bytes_set
    def _getn(self, s, i, n, w):
        self._idx(s, i, n)
        i = conc(i)
        return mem.LOAD(Ptr(s, i), n)
    def p_caml_bytes_get16(self, s, i): r = self._getn(s, i, 2, 16); return r if type(r) is int else tm.zext(r, 16, 63)
    def p_caml_bytes_get32(self, s, i): return I64(self._getn(s, i, 4, 32), 32)
    def p_caml_bytes_get64(self, s, i): return I64(self._getn(s, i, 8, 64), 64)
    p_caml_string_get16 = p_caml_bytes_get16; p_caml_string_get32 = p_caml_bytes_get32; p_caml_string_get64 = p_caml_bytes_get64
    def p_caml_bytes_set16(self, s, i, v):
        self._idx(s, i, 2); mem.STORE(Ptr(s, conc(i)), 2, tm.extract(u63(v), 63, 15, 0)); return 0
    def p_caml_bytes_set32(self, s, i, v): self._idx(s, i, 4); mem.STORE(Ptr(s, conc(i)), 4, v.v); return 0
    def p_caml_bytes_set64(self, s, i, v): self._idx(s, i, 8); mem.STORE(Ptr(s, conc(i)), 8, v.v); return 0
    p_caml_string_set16 = p_caml_bytes_set16; p_caml_string_set32 = p_caml_bytes_set32; p_caml_string_set64 = p_caml_bytes_set64
    def p_caml_blit_bytes(self, s, so, d, do, n):
        n = conc(n, 'blit length'); so = conc(so, 'blit offset'); do = conc(do, 'blit offset')
        if n == 0: return 0
        if n < 0 or so < 0 or so + n > len(s.cells): raise rt.MemFault('unsafe blit source %d+%d of %d' % (so, n, len(s.cells)))
        if do < 0 or do + n > len(d.cells): raise rt.MemFault('unsafe blit destination %d+%d of %d' % (do, n, len(d.cells)))
        seg = s.cells[so:so + n]
        for j, c in enumerate(seg):
            if c is None: seg[j] = mem.ccell(s, so + j)
        d.cells[do:do + n] = seg
        return 0
    p_caml_blit_string = p_caml_blit_bytes
    def p_caml_fill_bytes(self, s, o, n, c):
        n = conc(n, 'fill length'); o = conc(o, 'fill offset')
        if n == 0: return 0
        if n < 0 or o < 0 or o + n > len(s.cells): raise rt.MemFault('unsafe fill %d+%d of %d' % (o, n, len(s.cells)))
        v = c & 255 if type(c) is int else tm.extract(c, 63, 7, 0)
        s.cells[o:o + n] = [v] * n
        return 0
    p_caml_fill_string = p_caml_fill_bytes
    def p_caml_bytes_of_string(self, s): return s
    p_caml_string_of_bytes = p_caml_bytes_of_string
    def _streq(self, a, b):
        if len(a.cells) != len(b.cells): return 0
        r = 1
        for i in range(len(a.cells)):
            r = tm.and_(1, r, tm.eq(8, cell(a, i), cell(b, i)))
            if type(r) is int and r == 0: return 0
        return r
    def p_caml_string_equal(self, a, b): return bool63(self._streq(a, b))
    def p_caml_string_notequal(self, a, b):
        r = self._streq(a, b); return 1 - r if type(r) is int else bool63(tm.xor(1, r, 1))
    p_caml_bytes_equal = p_caml_string_equal; p_caml_bytes_notequal = p_caml_string_notequal
    def _strcmp(self, a, b):
        for i in range(min(len(a.cells), len(b.cells))):
            x = cell(a, i); y = cell(b, i)
            if rt.branch(tm.ne(8, x, y)): return -1 if rt.branch(tm.ult(8, x, y)) else 1
        n = len(a.cells) - len(b.cells)
        return (n > 0) - (n < 0)
    def p_caml_string_compare(self, a, b): return self._strcmp(a, b)
    p_caml_bytes_compare = p_caml_string_compare
    def p_caml_string_lessthan(self, a, b): return int(self._strcmp(a, b) < 0)
    def p_caml_string_lessequal(self, a, b): return int(self._strcmp(a, b) <= 0)
    def p_caml_string_greaterthan(self, a, b): return int(self._strcmp(a, b) > 0)
    def p_caml_string_greaterequal(self, a, b): return int(self._strcmp(a, b) >= 0)
    # ------------------------------------------------ polymorphic comparison
    def _eq(self, a, b):
        """structural equality as a 1-bit value"""
        if isimm(a) or isimm(b):
            if isimm(a) and isimm(b): return tm.eq(63, u63(a), u63(b))
            if hasattr(a, 'z_eq'): return a.z_eq(b)
            if hasattr(b, 'z_eq'): return b.z_eq(a)
            return 0
        if isinstance(a, Str) and isinstance(b, Str): return self._streq(a, b)
        if isinstance(a, I64) and isinstance(b, I64): return tm.eq(a.w, a.v, b.v)
        if isinstance(a, float) or isinstance(b, float): return int(a == b)
        if isinstance(a, Block) and isinstance(b, Block):
            if a.tag != b.tag or len(a.fields) != len(b.fields): return 0
            if a.tag == 248: return tm.eq(63, u63(a.fields[1]), u63(b.fields[1]))
            r = 1
            for x, y in zip(a.fields, b.fields):
                r = tm.and_(1, r, self._eq(x, y))
                if type(r) is int and r == 0: return 0
            return r
        if type(a) is Clos or type(b) is Clos:
            if type(a) is Clos and type(b) is Clos and a.f is b.f and a.off == b.off: return 1
            self.vm.invalid_arg('compare: functional value')
        if hasattr(a, 'z_eq'): return a.z_eq(b)
        raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))
    def p_caml_equal(self, a, b): return bool63(self._eq(a, b))
    def p_caml_notequal(self, a, b):
        r = self._eq(a, b); return 1 - r if type(r) is int else bool63(tm.xor(1, r, 1))
    def _cmp(self, a, b):
        if isimm(a) and isimm(b):
            if type(a) is int and type(b) is int: return (a > b) - (a < b)
            a = u63(a); b = u63(b)
            if rt.branch(tm.slt(63, a, b)): return -1
            return 1 if rt.branch(tm.slt(63, b, a)) else 0
        if hasattr(a, 'z_cmp'): return a.z_cmp(b)
        if hasattr(b, 'z_cmp'): return -b.z_cmp(a)
        if isimm(a): return -1
        if isimm(b): return 1
        if isinstance(a, Str) and isinstance(b, Str):
            n = len(a.cells) - len(b.cells)
            return self._strcmp(a, b)
        if isinstance(a, I64) and isinstance(b, I64):
            if rt.branch(tm.slt(a.w, a.v, b.v)): return -1
            return 1 if rt.branch(tm.slt(a.w, b.v, a.v)) else 0
        if isinstance(a, float): return (a > b) - (a < b)
        if isinstance(a, Block) and isinstance(b, Block):
            if a.tag != b.tag: return -1 if a.tag < b.tag else 1
            n = len(a.fields) - len(b.fields)
            if n: return -1 if n < 0 else 1
            for x, y in zip(a.fields, b.fields):
                c = self._cmp(x, y)
                if c: return c
            return 0
        raise Unsupported('compare of %s' % type(a).__name__)
    def p_caml_compare(self, a, b): return self._cmp(a, b)
    def p_caml_int_compare(self, a, b): return self._cmp(a, b)
    def _rel(self, a, b, f, g):
        if isimm(a) and isimm(b): return bool63(g(63, u63(a), u63(b)))
        if isinstance(a, I64) and isinstance(b, I64): return bool63(g(a.w, a.v, b.v))
        return int(f(self._cmp(a, b)))
    def p_caml_lessthan(self, a, b): return self._rel(a, b, lambda c: c < 0, tm.slt)
    def p_caml_lessequal(self, a, b): return self._rel(a, b, lambda c: c <= 0, tm.sle)
    def p_caml_greaterthan(self, a, b): return self._rel(a, b, lambda c: c > 0, lambda w, x, y: tm.slt(w, y, x))
    def p_caml_greaterequal(self, a, b): return self._rel(a, b, lambda c: c >= 0, lambda w, x, y: tm.sle(w, y, x))
    # ------------------------------------------------ arrays and blocks
    def p_caml_make_vect(self, n, v):
        n = conc(n)
        if n < 0 or n > 1 << 24: self.vm.invalid_arg('Array.make')
        return Block(254 if isinstance(v, float) else 0, [v] * n) if n else atom(0)
    def p_caml_array_get(self, a, i):
        n = len(a.fields)
        if type(i) is int:
            if i < 0 or i >= n: self.vm.invalid_arg('index out of bounds')
        elif not rt.branch(tm.ult(63, i, n)): self.vm.invalid_arg('index out of bounds')
        return self.vm.vecget(a, i)
    p_caml_array_get_addr = p_caml_array_get
    def p_caml_array_set(self, a, i, v):
        n = len(a.fields)
        if type(i) is int:
            if i < 0 or i >= n: self.vm.invalid_arg('index out of bounds')
        elif not rt.branch(tm.ult(63, i, n)): self.vm.invalid_arg('index out of bounds')
        self.vm.vecset(a, i, v); return 0
    p_caml_array_set_addr = p_caml_array_set
    def p_caml_array_unsafe_get(self, a, i): return self.vm.vecget(a, i)
    def p_caml_array_unsafe_set(self, a, i, v): self.vm.vecset(a, i, v); return 0
    p_caml_array_unsafe_set_addr = p_caml_array_unsafe_set
    def p_caml_array_sub(self, a, o, n):
        o = conc(o); n = conc(n)
        return Block(a.tag, a.fields[o:o + n]) if n else atom(0)
    def p_caml_array_append(self, a, b):
        f = a.fields + b.fields
        return Block(a.tag if a.fields else b.tag, f) if f else atom(0)
    def p_caml_array_concat(self, l):
        f = []
        while not isimm(l): f += l.fields[0].fields; l = l.fields[1]
        return Block(0, f) if f else atom(0)
    def p_caml_array_blit(self, a, o, b, p, n):
        o = conc(o); p = conc(p); n = conc(n)
        b.fields[p:p + n] = a.fields[o:o + n]; return 0
    def p_caml_array_fill(self, a, o, n, v):
        o = conc(o); n = conc(n); a.fields[o:o + n] = [v] * n; return 0
    def p_caml_obj_tag(self, v):
        if isimm(v): return 1000
        if isinstance(v, float): return 253
        if isinstance(v, Str): return 252
        if type(v) is Clos: return 247 if v.off == 0 else 249
        if isinstance(v, Block): return v.tag
        return 255
    def p_caml_obj_block(self, t, n): return Block(conc(t), [0] * conc(n)) if conc(n) else atom(conc(t))
    def p_caml_obj_dup(self, b):
        if isinstance(b, Str): return Str(list(b.cells))
        return Block(b.tag, list(b.fields))
    def p_caml_obj_with_tag(self, t, b): return Block(conc(t), list(b.fields))
    def p_caml_alloc_dummy(self, n): return Block(0, [0] * conc(n))
    def p_caml_alloc_dummy_function(self, n, a): return Clos([0] * conc(n), 0)
    def p_caml_update_dummy(self, d, v):
        if type(v) is Clos: d.f[:] = v.f; d.off = v.off
        else: d.tag = v.tag; d.fields[:] = v.fields
        return 0
    def p_caml_obj_set_tag(self, b, t): b.tag = conc(t); return 0
    def p_caml_obj_make_forward(self, b, v): b.tag = 250; b.fields = [v]; return 0
    def p_caml_lazy_make_forward(self, v): return Block(250, [v])
    def p_caml_get_public_method(self, o, t):
        meths = o.fields[0].fields
        li = 3; hi = 2 * meths[0] + 1
        while li < hi:
            mi = ((li + hi) >> 1) | 1
            if t < meths[mi]: hi = mi - 2
            else: li = mi
        return meths[li - 1]
    def p_caml_hash(self, count, limit, seed, v):
        def h(x):
            if type(x) is int: return x
            if isinstance(x, Str): return hash(pystr(x)) & 0xffffffff
            if isinstance(x, Block): return hash(tuple(h(y) for y in x.fields)) & 0xffffffff
            raise Unsupported('hash')
        import zlib
        if isinstance(v, Str): return zlib.crc32(bytes(v.cells)) & 0x3fffffff
        return (h(v) * 0x9e3779b1) & 0x3fffffff
    # ------------------------------------------------ numbers
    def p_caml_int_of_string(self, s):
        try:
            t = pystr(s).replace('_', '')
            return s63(int(t, 0)) if not t.startswith('0u') else int(t[2:])
        except ValueError: self.vm.failure('int_of_string')
    def p_caml_format_int(self, f, n):
        f = pystr(f); n = conc(n)
        return mlstr((f.replace('i', 'd').replace('u', 'd')) % (n & M63 if f[-1] in 'xXo' else n))
    def p_caml_string_of_int(self, n): return mlstr(str(conc(n)))
    def p_caml_bswap16(self, x):
        x = u63(x)
        return norm(tm.zext(tm.concat([(8, tm.extract(x, 63, 7, 0)), (8, tm.extract(x, 63, 15, 8))]), 16, 63))
    # int64 / int32 / nativeint
    def _b(f):
        def g(self, a, b): return I64(f(a.w, a.v, b.v), a.w)
        return g
    for _p in ('int64', 'int32', 'nativeint'):
        locals()['p_caml_%s_add' % _p] = _b(tm.add); locals()['p_caml_%s_sub' % _p] = _b(tm.sub)
        locals()['p_caml_%s_mul' % _p] = _b(tm.mul); locals()['p_caml_%s_and' % _p] = _b(tm.and_)
        locals()['p_caml_%s_or' % _p] = _b(tm.or_); locals()['p_caml_%s_xor' % _p] = _b(tm.xor)
        def _neg(self, a): return I64(tm.neg(a.w, a.v), a.w)
        locals()['p_caml_%s_neg' % _p] = _neg
        def _mksh(f):
            def g(self, a, n):
                if type(n) is not int: n = tm.extract(n, 63, 62, 0); n = tm.zext(n, 63, 64) if a.w == 64 else tm.extract(n, 63, a.w - 1, 0)
                return I64(f(a.w, a.v, n), a.w)
            return g
        locals()['p_caml_%s_shift_left' % _p] = _mksh(tm.shl)
        locals()['p_caml_%s_shift_right' % _p] = _mksh(tm.ashr)
        locals()['p_caml_%s_shift_right_unsigned' % _p] = _mksh(tm.lshr)
        def _toint(self, a): return norm(tm.extract(a.v, 64, 62, 0)) if a.w == 64 else norm(tm.sext(a.v, a.w, 63))
        locals()['p_caml_%s_to_int' % _p] = _toint
        def _cmp64(self, a, b): return self._cmp(a, b)
        locals()['p_caml_%s_compare' % _p] = _cmp64
        def _mkdiv(op, f):
            def g(self, a, b):
                if rt.branch(tm.eq(b.w, b.v, 0)): raise MLRaise(self.vm.exn('Division_by_zero'))
                return I64(f(a.w, a.v, b.v), a.w)
            return g
        locals()['p_caml_%s_div' % _p] = _mkdiv('div', tm.sdiv)
        locals()['p_caml_%s_mod' % _p] = _mkdiv('mod', tm.srem)
    def p_caml_int64_of_int(self, n): return I64(n & M64 if type(n) is int else tm.sext(n, 63, 64), 64)
    def p_caml_nativeint_of_int(self, n): return I64(n & M64 if type(n) is int else tm.sext(n, 63, 64), 64)
    def p_caml_int32_of_int(self, n): return I64(tm.extract(u63(n), 63, 31, 0), 32)
    def p_caml_int64_of_int32(self, a): return I64(tm.sext(a.v, 32, 64), 64)
    def p_caml_int64_to_int32(self, a): return I64(tm.extract(a.v, 64, 31, 0), 32)
    def p_caml_int64_of_nativeint(self, a): return a
    def p_caml_int64_to_nativeint(self, a): return a
    def p_caml_int64_bswap(self, a): return I64(tm.concat([(8, tm.extract(a.v, 64, 8*i+7, 8*i)) for i in range(8)]), 64)
    def p_caml_int32_bswap(self, a): return I64(tm.concat([(8, tm.extract(a.v, 32, 8*i+7, 8*i)) for i in range(4)]), 32)
    def p_caml_int64_format(self, f, a):
        if type(a.v) is not int: raise Unsupported('symbolic format')
        f = pystr(f).replace('L', '').replace('l', '')
        return mlstr(f.replace('i', 'd').replace('u', 'd') % (a.v if f[-1] in 'xXou' else tm.tosigned(a.v, a.w)))
    p_caml_int32_format = p_caml_nativeint_format = p_caml_int64_format
    def p_caml_int64_of_string(self, s): return I64(int(pystr(s), 0) & M64, 64)
    def p_caml_int64_float_of_bits(self, a): return struct.unpack('<d', struct.pack('<Q', a.v))[0]
    def p_caml_int64_bits_of_float(self, f): return I64(struct.unpack('<Q', struct.pack('<d', f))[0], 64)
    def p_caml_float_of_string(self, s): return float(pystr(s))
    def p_caml_float_of_int(self, n): return float(conc(n))
    def p_caml_int_of_float(self, f): return int(f)
    def p_caml_add_float(self, a, b): return a + b
    def p_caml_sub_float(self, a, b): return a - b
    def p_caml_mul_float(self, a, b): return a * b
    def p_caml_div_float(self, a, b): return a / b if b else float('inf')
    def p_caml_neg_float(self, a): return -a
    def p_caml_lt_float(self, a, b): return int(a < b)
    def p_caml_le_float(self, a, b): return int(a <= b)
    def p_caml_gt_float(self, a, b): return int(a > b)
    def p_caml_ge_float(self, a, b): return int(a >= b)
    def p_caml_eq_float(self, a, b): return int(a == b)
    def p_caml_ldexp_float(self, a, n): return a * 2.0 ** n
    def p_caml_sys_const_naked_pointers_checked(self, u): return 0
    def p_unix_inet_addr_of_string(self, s): return s
    def p_caml_ml_runtime_warnings_enabled(self, u): return 0
    def p_caml_make_array(self, a):
        if a.fields and all(isinstance(x, float) for x in a.fields): return Block(254, list(a.fields))
        return a
