"""Zarith model: integers are Python ints when concrete.  Small values are OCaml
immediates, larger ones ZBig; symbolic naturals are ZSym (an unsigned bit-vector
of stated width)."""
from . import term as tm, rt, mem
from .term import T, Unsupported
from .mem import Str, I64, M63, M64, Block
from .cext import MLRaise
from .mlexec import s63, isimm, u63

class ZBig:
    __slots__ = ('v',)
    movable = True
    def __init__(self, v): self.v = v
    def z_eq(self, o): return 1 if self.v == zval(o) else 0
    def z_cmp(self, o):
        o = zval(o); return (self.v > o) - (self.v < o)

def zval(x):
    if type(x) is int: return x
    if isinstance(x, ZBig): return x.v
    if type(x) is T: raise Unsupported('symbolic big integer')
    raise Unsupported('big integer from %s' % type(x).__name__)

def z(v):
    if -(1 << 62) <= v < 1 << 62: return v
    return ZBig(v)

def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q

class ZPrims:
    """mixin: ml_z_* primitives on concrete values"""
    def p_ml_z_init(self, u): return 0
    def p_ml_z_of_int(self, n): return n
    def p_ml_z_install_frametable(self, u): return 0
    def p_ml_z_add(self, a, b): return z(zval(a) + zval(b))
    def p_ml_z_sub(self, a, b): return z(zval(a) - zval(b))
    def p_ml_z_mul(self, a, b): return z(zval(a) * zval(b))
    def p_ml_z_neg(self, a): return z(-zval(a))
    def p_ml_z_succ(self, a): return z(zval(a) + 1)
    def p_ml_z_pred(self, a): return z(zval(a) - 1)
    def p_ml_z_abs(self, a): return z(abs(zval(a)))
    def _dz(self): raise MLRaise(self.vm.exn('Division_by_zero'))
    def p_ml_z_div(self, a, b):
        if zval(b) == 0: self._dz()
        return z(tdiv(zval(a), zval(b)))
    def p_ml_z_rem(self, a, b):
        a, b = zval(a), zval(b)
        if b == 0: self._dz()
        return z(a - tdiv(a, b) * b)
    def p_ml_z_div_rem(self, a, b):
        return Block(0, [self.p_ml_z_div(a, b), self.p_ml_z_rem(a, b)])
    def p_ml_z_gcd(self, a, b):
        import math
        return z(math.gcd(zval(a), zval(b)))
    def p_ml_z_shift_left(self, a, n): return z(zval(a) << n)
    def p_ml_z_shift_right(self, a, n): return z(zval(a) >> n)
    def p_ml_z_compare(self, a, b):
        a, b = zval(a), zval(b); return (a > b) - (a < b)
    def p_ml_z_equal(self, a, b): return int(zval(a) == zval(b))
    def p_ml_z_sign(self, a):
        a = zval(a); return (a > 0) - (a < 0)
    def p_ml_z_numbits(self, a): return abs(zval(a)).bit_length()
    def p_ml_z_size(self, a): return (abs(zval(a)).bit_length() + 63) // 64
    def p_ml_z_divisible(self, a, b): return int(zval(a) % zval(b) == 0)
    def p_ml_z_of_bits(self, s):
        if any(type(c) is not int for c in s.cells): raise Unsupported('symbolic big integer')
        return z(int.from_bytes(bytes(s.cells), 'little'))
    def p_ml_z_to_bits(self, a):
        a = abs(zval(a))
        n = (a.bit_length() + 63) // 64 * 8
        return Str(list(a.to_bytes(n, 'little')), 'to_bits')
    def p_ml_z_powm(self, a, e, m):
        a, e, m = zval(a), zval(e), zval(m)
        if m == 0: self._dz()
        m = abs(m)
        if e < 0:
            try: return z(pow(a, e, m))
            except ValueError: self._dz()
        return z(pow(a, e, m))
    def p_ml_z_powm_sec(self, a, e, m):
        if zval(e) <= 0: self.vm.invalid_arg('Z.powm_sec: exponent must be positive')
        if zval(m) % 2 == 0: self.vm.invalid_arg('Z.powm_sec: modulus must be odd')
        return self.p_ml_z_powm(a, e, m)
    def p_ml_z_invert(self, a, m):
        a, m = zval(a), zval(m)
        try: return z(pow(a, -1, abs(m)))
        except ValueError: self._dz()
    def p_ml_z_nextprime(self, a):
        import sympy
        return z(int(sympy.nextprime(zval(a))))
    def p_ml_z_to_int(self, a):
        if isimm(a): return a
        raise Unsupported('Z.Overflow')
    def p_ml_z_of_substring_base(self, b, s, o, n):
        t = bytes(s.cells[o:o + n]).decode()
        return z(int(t, b if b else 0))
    def p_ml_z_format(self, f, a): return Str(list(str(zval(a)).encode()))
    def p_ml_z_testbit(self, a, n): return (zval(a) >> n) & 1
    def p_ml_z_even(self, a): return int(zval(a) % 2 == 0)
    def p_ml_z_fits_int(self, a): return 1 if isimm(a) else 0
    def p_ml_z_logand(self, a, b): return z(zval(a) & zval(b))
    def p_ml_z_logor(self, a, b): return z(zval(a) | zval(b))
    def p_ml_z_extract(self, a, o, n): return z((zval(a) >> o) & ((1 << n) - 1))
    def p_ml_z_divexact(self, a, b): return z(zval(a) // zval(b))
