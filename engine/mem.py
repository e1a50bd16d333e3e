"""Byte-granular memory shared by the C interpreter and the ML interpreter."""
from . import term as tm, rt
from .term import T, Unsupported
from .rt import MemFault, GCFault

EPOCH = [0]

class Region:
    __slots__ = ('cells', 'name', 'movable', 'ro', 'freed', 'tag', 'meta', 'symc')
    def __init__(self, cells, name='', movable=False, ro=False, tag=None):
        self.cells = cells; self.name = name; self.movable = movable; self.ro = ro; self.freed = False
        self.tag = tag; self.meta = None; self.symc = None

class Str(Region):
    """OCaml string / bytes"""
    __slots__ = ()
    def __init__(self, cells, name=''):
        Region.__init__(self, cells, name, True, False, 252)

class Custom(Region):
    """OCaml custom block allocated by C; cells[0:8] hold the operations pointer"""
    __slots__ = ()
    def __init__(self, cells, name='custom'):
        Region.__init__(self, cells, name, True, False, 255)

class Block:
    """structured OCaml block"""
    __slots__ = ('tag', 'fields')
    movable = True
    def __init__(self, tag, fields): self.tag = tag; self.fields = fields

class I64:
    __slots__ = ('v', 'w')
    movable = True
    def __init__(self, v, w=64): self.v = v; self.w = w

class Ptr:
    __slots__ = ('obj', 'off', 'ep')
    def __init__(self, obj, off, ep=None):
        self.obj = obj; self.off = off; self.ep = EPOCH[0] if ep is None else ep
    def __repr__(self): return '<ptr %s+%r>' % (getattr(self.obj, 'name', type(self.obj).__name__), self.off)

M64 = (1 << 64) - 1
M63 = (1 << 63) - 1

def s64(x): return x - (1 << 64) if x >> 63 else x

def padd(p, d):
    """pointer plus 64-bit displacement"""
    o = p.off
    if type(o) is int and type(d) is int:
        o += d
        o &= M64
        if o >> 63: o -= 1 << 64
        return Ptr(p.obj, o, p.ep)
    o = tm.add(64, o & M64 if type(o) is int else o, d & M64 if type(d) is int else d)
    if type(o) is int: o = s64(o)
    return Ptr(p.obj, o, p.ep)

def ml2c(v):
    if type(v) is int: return ((v << 1) | 1) & M64
    if type(v) is T: return tm.concat([(63, v), (1, 1)])
    return Ptr(v, 0)

def c2ml(x):
    if type(x) is int:
        if not x & 1: raise MemFault('C returned a non-value word %#x' % x)
        x >>= 1
        return x - (1 << 63) if x >> 62 else x
    if type(x) is T:
        if tm.extract(x, 64, 0, 0) != 1: raise Unsupported('symbolic word as value')
        return tm.extract(x, 64, 63, 1)
    if type(x) is Ptr:
        if x.off != 0: raise MemFault('interior pointer used as a value')
        if x.obj.movable and x.ep != EPOCH[0]: raise GCFault('stale value %r returned' % x)
        return x.obj
    raise Unsupported('value %r' % (x,))

def _desc(p, n): return 'access of %d bytes at offset %s of %s (size %s)' % (
    n, p.off if type(p.off) is int else 'symbolic', getattr(p.obj, 'name', '') or type(p.obj).__name__,
    len(p.obj.cells) if isinstance(p.obj, Region) else '?')

def _chk(p):
    if type(p) is not Ptr: raise MemFault('dereference of non-pointer %s' % (hex(p) if type(p) is int else 'symbolic'))
    o = p.obj
    if o.movable and p.ep != EPOCH[0]: raise GCFault('use of a value that a collection may have moved (%s)' % (getattr(o, 'name', '') or type(o).__name__))

_un = [0]
def uninit(name):
    _un[0] += 1
    return tm.var('uninit!%s!%d' % (name, _un[0]), 8)

def ccell(obj, i):
    c = obj.cells[i]
    if c is None:
        c = obj.cells[i] = uninit(obj.name or 'mem')
    return c

def LOAD(p, n):
    if type(p) is not Ptr: _chk(p)
    obj = p.obj; off = p.off
    if obj.movable and p.ep != EPOCH[0]: _chk(p)
    if type(off) is not int: return load_sym(p, n)
    if not isinstance(obj, Region): return load_obj(obj, off, n)
    if obj.freed: raise MemFault('use after free: ' + _desc(p, n))
    cells = obj.cells
    if off < 0 or off + n > len(cells):
        if off == -8: return load_header(obj, n)
        raise MemFault(_desc(p, n))
    if n == 1:
        c = cells[off]
        if c is None: c = cells[off] = uninit(obj.name or 'mem')
        if type(c) is tuple: raise Unsupported('byte of a pointer')
        return c
    s = cells[off:off + n]
    try: return int.from_bytes(bytes(s), 'little')
    except TypeError: pass
    return _load_slow(obj, off, n, s)

def _load_slow(obj, off, n, s):
    if type(s[0]) is tuple:
        q = s[0][0]
        if n == 8 and all(type(c) is tuple and c[0] is q and c[1] == i for i, c in enumerate(s)):
            return q
        raise Unsupported('partial pointer load')
    parts = []
    for i in range(n - 1, -1, -1):
        c = s[i]
        if c is None: c = obj.cells[off + i] = uninit(obj.name or 'mem')
        if type(c) is tuple: raise Unsupported('partial pointer load')
        parts.append((8, c))
    return tm.concat(parts)

def load_header(obj, n):
    if isinstance(obj, Str): wo = (len(obj.cells) + 8) // 8; tag = 252
    elif isinstance(obj, Custom): wo = (len(obj.cells) + 7) // 8; tag = 255
    else: raise MemFault('header of a non-OCaml object')
    h = (wo << 10) | tag
    return h if n == 8 else h & ((1 << (8 * n)) - 1)

def load_obj(obj, off, n):
    if isinstance(obj, Block):
        if off == -8:
            h = (len(obj.fields) << 10) | obj.tag
            return h & ((1 << (8 * n)) - 1)
        if n == 8 and off % 8 == 0 and 0 <= off // 8 < len(obj.fields):
            return ml2c(obj.fields[off // 8])
        raise MemFault('block access at %d' % off)
    if isinstance(obj, I64):
        if off == 8 and n * 8 == 64: return tm.sext(obj.v, obj.w, 64)
        if off == 8 and n * 8 == obj.w: return obj.v
        if off == -8: return ((2 << 10) | 255) & ((1 << (8 * n)) - 1)
    if hasattr(obj, 'c_load'): return obj.c_load(off, n)
    raise MemFault('access inside %s' % type(obj).__name__)

def STORE(p, n, v):
    if type(p) is not Ptr: _chk(p)
    obj = p.obj; off = p.off
    if obj.movable and p.ep != EPOCH[0]: _chk(p)
    if type(off) is not int: return store_sym(p, n, v)
    if not isinstance(obj, Region): return store_obj(obj, off, n, v)
    if obj.freed: raise MemFault('use after free: ' + _desc(p, n))
    cells = obj.cells
    if off < 0 or off + n > len(cells): raise MemFault(_desc(p, n))
    if obj.ro: raise MemFault('write to read-only ' + _desc(p, n))
    if type(v) is int:
        if n == 1: cells[off] = v
        else: cells[off:off + n] = v.to_bytes(n, 'little')
    elif type(v) is T:
        if n == 1: cells[off] = v
        else:
            if tm.OPQ and type(v) is T: v = tm.unopq(v)
            for i in range(n): cells[off + i] = tm.extract(v, 8 * n, 8 * i + 7, 8 * i)
    elif v is None:
        cells[off:off + n] = [None] * n
    else:
        if n != 8: raise Unsupported('pointer truncation')
        cells[off:off + 8] = [(v, i) for i in range(8)]

def store_obj(obj, off, n, v):
    if isinstance(obj, Block):
        if n == 8 and off % 8 == 0 and 0 <= off // 8 < len(obj.fields):
            obj.fields[off // 8] = c2ml(v); return
        raise MemFault('block write at %d' % off)
    if hasattr(obj, 'c_store'): return obj.c_store(off, n, v)
    raise MemFault('write inside %s' % type(obj).__name__)

def split_index(off):
    """off (64-bit T) = base + (idx << sh); returns (base, idx, nbits, sh)"""
    base = 0; s = off
    if off.op == 'add' and off.a[0]:
        base = s64(off.a[0])
        s = tm._addmk(64, 0, {t: k for k, t in off.a[1]})
        if type(s) is int: raise Unsupported('index')
    kz = s.kz
    sh = 0
    while sh < 63 and (kz >> sh) & 1: sh += 1
    hb = s.mx.bit_length()
    idx = tm.extract(s, 64, hb - 1, sh)
    w = hb - sh
    if type(idx) is T and idx.op == 'add' and idx.a[0]:
        # an offset inside the scaled part: table inside a larger object
        y = tm._addmk(w, 0, {t: k for k, t in idx.a[1]})
        if type(y) is T and idx.a[0] + y.mx < 1 << w:
            base += idx.a[0] << sh
            idx = y; w = y.mx.bit_length()
            idx = tm.extract(y, y.w, w - 1, 0)
    if w > 12:
        return None
    return base, idx, w, sh

def _symprep(p, n):
    off = p.off
    size = len(p.obj.cells)
    # in-bounds for every value allowed by the path condition?
    if size < n: raise MemFault(_desc(p, n))
    ok = tm.ule(64, off, size - n)
    if type(ok) is not int or not ok:
        if not rt.branch(ok):
            raise MemFault(_desc(p, n))
    sp = split_index(off)
    if sp is None:
        v = rt.concretize(off, 64, 'address', 1024)
        return v, None, 0, 0
    return sp

def load_sym(p, n):
    if p.obj.movable and p.ep != EPOCH[0]: _chk(p)
    if not isinstance(p.obj, Region): raise Unsupported('symbolic offset in block')
    if p.obj.freed: raise MemFault('use after free')
    base, idx, nb, sh = _symprep(p, n)
    if idx is None: return LOAD(Ptr(p.obj, s64(base), p.ep), n)
    if type(idx) is int: return LOAD(Ptr(p.obj, base + (idx << sh), p.ep), n)
    size = len(p.obj.cells)
    vals = []; last = 0
    obj = p.obj
    if nb >= 6:
        if obj.symc is None: obj.symc = {}
        key = (base, nb, sh, n)
        lo = max(base, 0); hi = min(size, base + (((1 << nb) - 1) << sh) + n)
        cur = obj.cells[lo:hi]
        e = obj.symc.get(key)
        if e is not None and e[0] == cur: return tm.sel(e[1], 8 * n, idx, nb)
    for i in range(1 << nb):
        o = base + (i << sh)
        if 0 <= o and o + n <= size:
            last = LOAD(Ptr(obj, o, p.ep), n)
            if type(last) is Ptr: raise Unsupported('symbolic pointer load')
        vals.append(last)
    if nb >= 6:
        vals = tm.seltab(vals)
        obj.symc[key] = (obj.cells[lo:hi], vals)
    return tm.sel(vals, 8 * n, idx, nb)

def store_sym(p, n, v):
    if p.obj.movable and p.ep != EPOCH[0]: _chk(p)
    if not isinstance(p.obj, Region): raise Unsupported('symbolic offset in block')
    base, idx, nb, sh = _symprep(p, n)
    if idx is None: return STORE(Ptr(p.obj, s64(base), p.ep), n, v)
    if type(idx) is int: return STORE(Ptr(p.obj, base + (idx << sh), p.ep), n, v)
    if type(v) not in (int, T): raise Unsupported('pointer store at symbolic index')
    if p.obj.ro: raise MemFault('write to read-only')
    size = len(p.obj.cells); obj = p.obj
    for i in range(1 << nb):
        o = base + (i << sh)
        if 0 <= o and o + n <= size:
            c = tm.eq(nb, idx, i)
            for k in range(n):
                old = ccell(obj, o + k)
                nw = tm.extract(v, 8 * n, 8 * k + 7, 8 * k)
                obj.cells[o + k] = tm.ite(8, c, nw, old)

def CSTORE(c, p, n, v):
    """conditional store (if-converted code)"""
    if type(c) is int:
        if c: STORE(p, n, v)
        return
    old = LOAD(p, n)
    if type(old) is Ptr or type(v) is Ptr:
        if old is v: return
        raise Unsupported('conditional pointer store')
    STORE(p, n, tm.ite(8 * n, c, v, old))

def MEMCPY(d, s, n):
    if type(n) is not int: n = rt.concretize(n, 64, 'memcpy length')
    if n == 0: return d
    for p in (d, s):
        if type(p) is not Ptr: _chk(p)
        if p.obj.movable and p.ep != EPOCH[0]: _chk(p)
        if not isinstance(p.obj, Region): raise Unsupported('memcpy on block')
        if p.obj.freed: raise MemFault('use after free')
    do = d.off if type(d.off) is int else s64(rt.concretize(d.off, 64, 'memcpy dst'))
    so = s.off if type(s.off) is int else s64(rt.concretize(s.off, 64, 'memcpy src'))
    if n >> 62: raise MemFault('memcpy of %d bytes' % n)
    if do < 0 or do + n > len(d.obj.cells): raise MemFault('memcpy dst ' + _desc(d, n))
    if so < 0 or so + n > len(s.obj.cells): raise MemFault('memcpy src ' + _desc(s, n))
    if d.obj.ro: raise MemFault('write to read-only')
    seg = s.obj.cells[so:so + n]
    for i, c in enumerate(seg):
        if c is None: seg[i] = ccell(s.obj, so + i)
    d.obj.cells[do:do + n] = seg
    return d

def MEMSET(d, v, n):
    if type(n) is not int: n = rt.concretize(n, 64, 'memset length')
    if n == 0: return d
    if type(d) is not Ptr: _chk(d)
    if d.obj.movable and d.ep != EPOCH[0]: _chk(d)
    if not isinstance(d.obj, Region):
        if hasattr(d.obj, 'c_memset'): return d.obj.c_memset(d.off, v, n)
        raise Unsupported('memset on block')
    if d.obj.freed: raise MemFault('use after free')
    do = d.off if type(d.off) is int else s64(rt.concretize(d.off, 64, 'memset dst'))
    if n >> 62: raise MemFault('memset of %d bytes' % n)
    if do < 0 or do + n > len(d.obj.cells): raise MemFault('memset ' + _desc(d, n))
    if d.obj.ro: raise MemFault('write to read-only')
    if type(v) is int: v &= 255
    else: v = tm.extract(v, v.w, 7, 0)
    d.obj.cells[do:do + n] = [v] * n
    return d
