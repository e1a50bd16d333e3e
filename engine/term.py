"""Hash-consed bit-vector terms with a normalising constructor per operation.

A value is a Python int (concrete, already reduced modulo 2^w) or a T node.
Booleans are 1-bit values.  Every constructor takes the width explicitly, so
concrete values stay plain ints.  The rewrite rules used by the constructors
are validated against z3 by selftest.py.
"""
import sys
sys.setrecursionlimit(20000)

MAXCUT = 8        # xor/and over concats: max pieces when cuts are not byte aligned
XLIM = 80         # max number of flattened xor operands
OPQ = False       # word mode: 32/64-bit concatenations are atoms of word arithmetic
ALIM = 24         # max number of flattened add operands

class Unsupported(Exception):
    """The construct cannot be encoded: the obligation becomes UNDECIDED."""

class T:
    __slots__ = ('op', 'w', 'a', 'id', 'mx', 'kz')
    def __repr__(self): return show(self, 4)

_tab = {}
_cnt = [0]
def mk(op, w, a, mx=None, kz=0):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.w = w; t.a = a
        _cnt[0] += 1; t.id = _cnt[0]
        m = (1 << w) - 1
        if mx is None or mx > m: mx = m
        b = mx.bit_length()
        kz |= m ^ ((1 << b) - 1)
        kz &= m
        t.kz = kz
        t.mx = min(mx, m ^ kz)
        _tab[k] = t
    return t

def tid(t): return t.id

def nterms(): return _cnt[0]

def show(t, d=3):
    if type(t) is int: return hex(t)
    if d == 0: return '#%d' % t.id
    if t.op == 'var': return t.a[0]
    if t.op == 'concat': return 'cat(' + ','.join('%d:%s' % (w, show(p, d-1)) for w, p in t.a) + ')'
    if t.op == 'ext': return '%s[%d:%d]' % (show(t.a[0], d-1), t.a[1]+t.w-1, t.a[1])
    if t.op == 'add': return 'add%d(' % t.w + hex(t.a[0]) + ',' + ','.join('%x*%s' % (c, show(x, d-1)) for c, x in t.a[1]) + ')'
    if t.op in ('xor', 'and'):
        return '%s%d(%x;' % (t.op, t.w, t.a[0]) + ','.join(show(x, d-1) for x in t.a[1]) + ')'
    return '%s%d(' % (t.op, t.w) + ','.join(show(x, d-1) if isinstance(x, (T, int)) else '..' for x in t.a) + ')'

def isint(x): return type(x) is int

_vars = {}
def var(name, w):
    t = mk('var', w, (name,))
    _vars[name] = t
    return t

_fresh = [0]
def fresh(prefix, w):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), w)

def vmax(x): return x if type(x) is int else x.mx
def vkz(x, w):
    return ((1 << w) - 1) ^ x if type(x) is int else x.kz

# ---------------------------------------------------------------- tables
class Table:
    __slots__ = ('v', 'w', 'n', 'id', 'lin', 'spl')
_ttab = {}
def table(vals, w):
    vals = tuple(vals)
    k = (vals, w)
    t = _ttab.get(k)
    if t is None:
        t = Table(); t.v = vals; t.w = w; t.n = (len(vals) - 1).bit_length(); t.id = len(_ttab); t.lin = None; t.spl = None
        assert len(vals) == 1 << t.n
        _ttab[k] = t
    return t

def _linear(tb):
    if tb.lin is None:
        v = tb.v
        ok = v[0] == 0
        if ok:
            for i in range(1, len(v)):
                low = i & -i
                if v[i] != v[i ^ low] ^ v[low]: ok = False; break
        tb.lin = ok
    return tb.lin

def rom(vals, w, idx, wi):
    """vals[idx]; vals has 2**wi entries of w bits."""
    if type(idx) is int: return vals[idx]
    # strip constant high zero bits of the index
    b = idx.mx.bit_length()
    if b < wi:
        idx = extract(idx, wi, b - 1, 0); wi = b
        vals = vals[:1 << b]
        if type(idx) is int: return vals[idx]
    first = vals[0]
    for x in vals:
        if x != first: break
    else: return first
    return _rom(table(vals, w), idx, wi)

def _rom(tb, idx, wi):
    """tb indexed by non-constant idx; splits columns, then per column normalises."""
    if tb.spl is None:
        # columns: constant bits apart, the rest cut at byte boundaries
        w = tb.w
        orv = 0; andv = (1 << w) - 1
        for x in tb.v: orv |= x; andv &= x
        const0 = ~orv; const1 = andv
        cols = []  # low first (lo, width, const or Table)
        i = 0
        while i < w:
            if (const0 >> i) & 1 or (const1 >> i) & 1:
                cols.append((i, 1, (const1 >> i) & 1)); i += 1
            else:
                j = i + 1
                while j < w and j % 8 and not ((const0 >> j) & 1 or (const1 >> j) & 1): j += 1
                m = (1 << (j - i)) - 1
                cols.append((i, j - i, table([(x >> i) & m for x in tb.v], j - i)))
                i = j
        tb.spl = cols
    cols = tb.spl
    if len(cols) == 1 and cols[0][2] is tb:
        return _rom1(tb, idx, wi)
    parts = []
    for lo, w, c in reversed(cols):
        parts.append((w, c if type(c) is int else _rom1(c, idx, wi)))
    return concat(parts)

def _rom1(tb, idx, wi):
    v = tb.v; w = tb.w
    op = idx.op
    if op == 'rom':
        t2 = idx.a[0].v
        if len(t2) <= 4096:
            return rom([v[x] for x in t2], w, idx.a[1], idx.a[2])
    if op == 'xor' and idx.a[0]:
        c = idx.a[0]
        return _rom1(table([v[i ^ c] for i in range(len(v))], w), _xmk(wi, 0, idx.a[1]), wi)
    if op == 'ite' and (isint(idx.a[1]) or isint(idx.a[2])):
        x, y = idx.a[1], idx.a[2]
        return ite(w, idx.a[0], v[x] if isint(x) else _rom1(tb, x, wi), v[y] if isint(y) else _rom1(tb, y, wi))
    if op == 'concat':
        # constant parts of the index: specialise
        if any(type(p) is int for _, p in idx.a):
            free = []; 
            pos = wi
            base = 0
            for pw, p in idx.a:
                pos -= pw
                if type(p) is int: base |= p << pos
                else: free.append((pw, p, pos))
            n = sum(f[0] for f in free)
            nv = []
            for i in range(1 << n):
                k = n; ix = base
                for pw, p, ps in free:
                    k -= pw
                    ix |= ((i >> k) & ((1 << pw) - 1)) << ps
                nv.append(v[ix])
            return rom(nv, w, concat([(f[0], f[1]) for f in free]), n)
    if v[0]:
        c = v[0]
        r = _rom1(table([x ^ c for x in v], w), idx, wi)
        return xor(w, r, c)
    if _linear(tb):
        if wi == w:
            for i in range(wi):
                if v[1 << i] != 1 << i: break
            else: return idx
        if op == 'xor':
            r = 0
            for x in idx.a[1]: r = xor(w, r, rom(v, w, x, wi))
            return r
        # a linear table that only selects/moves bits is a concat of extracts
        sel = []
        for ob in range(w):
            src = [i for i in range(wi) if (v[1 << i] >> ob) & 1]
            if len(src) > 1: sel = None; break
            sel.append(src[0] if src else None)
        if sel is not None:
            return concat([(1, 0 if s is None else extract(idx, wi, s, s)) for s in reversed(sel)])
    # drop index bits the table does not depend on
    for bit in range(wi):
        m = 1 << bit
        for i in range(len(v)):
            if not i & m and v[i] != v[i | m]: break
        else:
            if wi == 1: return v[0]
            nv = [v[(i >> bit << (bit + 1)) | (i & (m - 1))] for i in range(len(v) // 2)]
            parts = []
            if bit < wi - 1: parts.append((wi - 1 - bit, extract(idx, wi, wi - 1, bit + 1)))
            if bit > 0: parts.append((bit, extract(idx, wi, bit - 1, 0)))
            return rom(nv, w, concat(parts), wi - 1)
    if wi == 1:  # non linear 1-bit table cannot happen with v[0] == 0
        return and_(w, sext(idx, 1, w), v[1])
    orv = 0
    for x in v: orv |= x
    return mk('rom', w, (tb, idx, wi), max(v), ((1 << w) - 1) ^ orv)

class SelTab(tuple):
    """interned table of values (identity hashing)"""
    __slots__ = ()
    def __hash__(self): return id(self) >> 4
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
_SELTABS = {}
_SELMX = {}
def seltab(vals):
    if type(vals) is SelTab: return vals
    k = tuple(vals)
    t = _SELTABS.get(k)
    if t is None:
        t = _SELTABS[k] = SelTab(k)
        _SELMX[id(t)] = (max(vmax(x) for x in k), tuple(x for x in k if type(x) is T))
    return t

def sel(vals, w, idx, wi):
    """vals[idx] where vals are values (int or T), len(vals) == 2**wi."""
    if type(idx) is int: return vals[idx]
    if wi > 4 and idx.mx >> (wi - 1) and idx.op != 'rom' and idx.op != 'concat':
        tab = seltab(vals)
        mx, ch = _SELMX[id(tab)]
        if ch:
            f = tab[0]
            for x in tab:
                if x is not f and not (type(x) is int and type(f) is int and x == f): return mk('sel', w, (tab, idx, wi), mx)
            return f
    b = idx.mx.bit_length()
    if b < wi:
        idx = extract(idx, wi, b - 1, 0); wi = b; vals = vals[:1 << b]
        if type(idx) is int: return vals[idx]
    f = vals[0]
    if all(x is f or (type(x) is int and type(f) is int and x == f) for x in vals): return f
    if all(type(x) is int for x in vals): return rom(vals, w, idx, wi)
    if idx.op == 'concat' and any(type(p) is int for _, p in idx.a):
        free = []; pos = wi; base = 0
        for pw, p in idx.a:
            pos -= pw
            if type(p) is int: base |= p << pos
            else: free.append((pw, p, pos))
        n = sum(x[0] for x in free)
        nv = []
        for i in range(1 << n):
            k = n; ix = base
            for pw, p, ps in free:
                k -= pw
                ix |= ((i >> k) & ((1 << pw) - 1)) << ps
            nv.append(vals[ix])
        return sel(nv, w, concat([(x[0], x[1]) for x in free]), n)
    if idx.op == 'rom' and len(idx.a[0].v) <= 256:
        return sel([vals[i] for i in idx.a[0].v], w, idx.a[1], idx.a[2])
    if wi == 1: return ite(w, idx, vals[1], vals[0])
    if wi <= 4:
        # affine in the index bits? (Moebius transform)
        c = list(vals)
        ok = True
        for bit in range(wi):
            m = 1 << bit
            for i in range(len(c)):
                if i & m: c[i] = xor(w, c[i], c[i ^ m])
        for i in range(len(c)):
            if i & (i - 1) and c[i] != 0: ok = False; break
        if ok:
            r = c[0]
            for bit in range(wi):
                r = xor(w, r, and_(w, sext(extract(idx, wi, bit, bit), 1, w), c[1 << bit]))
            return r
    tab = seltab(vals)
    return mk('sel', w, (tab, idx, wi), _SELMX[id(tab)][0])

# ---------------------------------------------------------------- structure
def extract(x, wx, hi, lo):
    w = hi - lo + 1
    if type(x) is int: return (x >> lo) & ((1 << w) - 1)
    if w == wx: return x
    m = ((1 << w) - 1) << lo
    if x.kz & m == m: return 0
    op = x.op
    if op == 'concat':
        parts = []
        pos = wx
        for pw, p in x.a:
            pos -= pw          # part occupies [pos, pos+pw)
            h = min(hi, pos + pw - 1); l = max(lo, pos)
            if h >= l:
                parts.append((h - l + 1, extract(p, pw, h - pos, l - pos)))
        return concat(parts)
    if op == 'ext':
        return extract(x.a[0], x.a[2], x.a[1] + hi, x.a[1] + lo)
    if op == 'rom':
        tb = x.a[0]; mm = (1 << w) - 1
        return rom([(v >> lo) & mm for v in tb.v], w, x.a[1], x.a[2])
    if op == 'sext':
        y = x.a[0]; wy = y.w
        if hi < wy: return extract(y, wy, hi, lo)
        if lo >= wy - 1: return sext(extract(y, wy, wy - 1, wy - 1), 1, w)
        return sext(extract(y, wy, wy - 1, lo), wy - lo, w)
    if op == 'ite':
        return ite(w, x.a[0], extract(x.a[1], wx, hi, lo), extract(x.a[2], wx, hi, lo))
    if op == 'xor' or op == 'and':
        c, ts = x.a
        for t in ts:
            o = t.op
            if o == 'concat' and not isrot(t) or o == 'ext' or o == 'rom' or o == 'sext': break
        else:
            cs = c & m
            if OPQ and (wx == 32 or wx == 64):
                if op == 'xor' and c:
                    x = _xmk(wx, 0, ts)
                    return xor(w, extract(x, wx, hi, lo), cs >> lo)
            if op == 'and' or not c:
                return mk('ext', w, (x, lo, wx), None if lo else x.mx, x.kz >> lo)
        if op == 'xor':
            r = (c >> lo) & ((1 << w) - 1)
            for t in ts: r = xor(w, r, extract(t, wx, hi, lo))
        else:
            r = (c >> lo) & ((1 << w) - 1)
            for t in ts: r = and_(w, r, extract(t, wx, hi, lo))
        return r
    if lo == 0:
        if op == 'add':
            c, ts = x.a
            mm = (1 << w) - 1
            if all(_shallow(t, wx - w) for k, t in ts): return addn(w, c & mm, [(k & mm, extract(t, wx, hi, 0)) for k, t in ts])
        if op == 'mul':
            r = 1
            for t in x.a: r = mul(w, r, extract(t, wx, hi, 0))
            return r
        if op == 'shl':
            pass
    return mk('ext', w, (x, lo, wx), (x.mx >> lo), x.kz >> lo)

def _shallow(t, cut):
    """operands of a sum into which a truncation dropping cut bits is pushed: values zero-extended by at least that much"""
    return t.op == 'concat' and t.a[0][0] >= cut and type(t.a[0][1]) is int

def isrot(t):
    a = t.a
    return (t.op == 'concat' and len(a) == 2 and type(a[0][1]) is T and type(a[1][1]) is T and
            a[0][1].op == 'ext' and a[1][1].op == 'ext' and a[0][1].a[0] is a[1][1].a[0]
            and a[0][1].a[0].w == t.w and a[0][1].a[1] == 0 and a[1][1].a[1] == a[0][0])

def _merge(w1, p, w2, q):
    """try to merge adjacent parts p (high), q (low) into one value, or None."""
    if type(p) is int:
        if type(q) is int: return (p << w2) | q
        return None
    if type(q) is int: return None
    if p.op == 'ext' and q.op == 'ext' and p.a[0] is q.a[0] and p.a[1] == q.a[1] + w2:
        b = p.a[0]
        return extract(b, b.w, p.a[1] + w1 - 1, q.a[1])
    if p.op == 'ext' and p.a[0] is q and p.a[1] == w2: return None
    if OPQ and (p.op == 'xor' and len(p.a[1]) == 1 and p.a[1][0].op == 'ext' or q.op == 'xor' and len(q.a[1]) == 1 and q.a[1][0].op == 'ext'):
        c1, p1 = (p.a[0], p.a[1][0]) if p.op == 'xor' and len(p.a[1]) == 1 else (0, p)
        c2, q1 = (q.a[0], q.a[1][0]) if q.op == 'xor' and len(q.a[1]) == 1 else (0, q)
        if p1.op == 'ext' and q1.op == 'ext' and p1.a[0] is q1.a[0] and p1.a[1] == q1.a[1] + w2:
            b = p1.a[0]
            return xor(w1 + w2, extract(b, b.w, p1.a[1] + w1 - 1, q1.a[1]), (c1 << w2) | c2)
        return None
    if p.op == q.op and p.op in ('xor', 'and'):
        c1, t1 = p.a; c2, t2 = q.a
        if len(t1) != len(t2): return None
        d = {}
        for t in t2:
            if t.op != 'ext' or (t.a[0].id, t.a[1] + w2) in d: return None
            d[(t.a[0].id, t.a[1] + w2)] = t
        pairs = []
        for t in t1:
            if t.op != 'ext': return None
            o = d.get((t.a[0].id, t.a[1]))
            if o is None: return None
            pairs.append((t.a[0], t.a[1] + w1 - 1, o.a[1]))
        w = w1 + w2
        r = (c1 << w2) | c2
        f = xor if p.op == 'xor' else and_
        for b, hi, lo in pairs: r = f(w, r, extract(b, b.w, hi, lo))
        return r
    if p.op == 'ite' and q.op == 'ite' and p.a[0] is q.a[0]:
        x = _merge2(w1, p.a[1], w2, q.a[1]); y = _merge2(w1, p.a[2], w2, q.a[2])
        if x is not None and y is not None: return ite(w1 + w2, p.a[0], x, y)
    return None

def _merge2(w1, p, w2, q):
    return _merge(w1, p, w2, q)

def concat(parts):
    """parts: list of (width, value), high part first."""
    out = []
    for w, p in parts:
        if w == 0: continue
        if type(p) is not int and p.op == 'concat': sub = p.a
        else: sub = ((w, p),)
        for w2, q in sub:
            if out:
                w1, p1 = out[-1]
                m = _merge(w1, p1, w2, q)
                if m is not None:
                    out.pop()
                    nw = w1 + w2
                    if type(m) is not int and m.op == 'concat':
                        out.extend(m.a)
                    else:
                        out.append((nw, m))
                    continue
            out.append((w2, q))
    if not out: raise ValueError('empty concat')
    if len(out) == 1: return out[0][1]
    return _mkcat(out)

def _mkcat(out):
    w = 0; mx = 0; kz = 0
    for pw, p in out:
        w += pw
        mx = (mx << pw) | vmax(p)
        kz = (kz << pw) | vkz(p, pw)
    if OPQ and (w == 32 or w == 64):
        cc = 0; new = []; pos = w
        for pw, p in out:                 # constants go outside
            pos -= pw
            if type(p) is T and p.op == 'xor' and p.a[0] and len(p.a[1]) == 1 and p.a[1][0].op == 'ext':
                cc |= p.a[0] << pos; p = p.a[1][0]
            new.append((pw, p))
        if cc and all(type(p) is T and p.op == "ext" for pw, p in new): return xor(w, concat(new), cc)
    return mk('concat', w, tuple(out), mx, kz)

def zext(x, wf, wt):
    if wf == wt or type(x) is int: return x
    return concat([(wt - wf, 0), (wf, x)])

def sext(x, wf, wt):
    if wf == wt: return x
    if type(x) is int:
        return x | (((1 << wt) - 1) ^ ((1 << wf) - 1)) if x >> (wf - 1) else x
    if (x.kz >> (wf - 1)) & 1: return zext(x, wf, wt)
    if x.op == 'sext': return sext(x.a[0], x.a[0].w, wt)
    if x.op == 'ite' and (isint(x.a[1]) or isint(x.a[2])):
        return ite(wt, x.a[0], sext(x.a[1], wf, wt), sext(x.a[2], wf, wt))
    return mk('sext', wt, (x,))

# ---------------------------------------------------------------- bitwise
def _cuts(w, ops):
    """cut positions induced by concat operands (and sext boundaries), or None if too many."""
    s = set()
    for x in ops:
        if type(x) is not int and x.op == 'concat':
            if MAXCUT < 32 and isrot(x): continue
            pos = w
            for pw, p in x.a:
                pos -= pw
                s.add(pos)
    s.discard(0)
    if not s: return None
    if len(s) + 1 > MAXCUT and any(c % 8 for c in s): return None
    return sorted(s, reverse=True)

def _xmk(w, c, ts):
    if not ts: return c
    if c == 0 and len(ts) == 1: return ts[0]
    mx = c; kz = ~c
    for t in ts: mx |= t.mx; kz &= t.kz
    return mk('xor', w, (c, tuple(ts)), (1 << mx.bit_length()) - 1, kz & ((1 << w) - 1))

# very large xors: operand set as a bit mask over a per-width table of atoms
_XBA = {}          # width -> (atom -> index, [atoms])
XBOK = ('opq', 'add', 'sel', 'mul', 'uf', 'and', 'var', 'ext')
def _xb(t):
    """(constant, mask) of a term seen as a large xor"""
    if t.op == 'xorb': return t.a
    c = 0; ts = (t,)
    if t.op == 'xor': c, ts = t.a
    ix, l = _XBA.setdefault(t.w, ({}, []))
    m = 0
    for x in ts:
        i = ix.get(x)
        if i is None: i = ix[x] = len(l); l.append(x)
        m |= 1 << i
    return c, m
def _xb_atoms(w, m):
    l = _XBA[w][1]; out = []
    while m:
        b = m & -m
        out.append(l[b.bit_length() - 1]); m ^= b
    return out
_XBD = {}      # large xor -> the two operands it was first built from
def _xbmk(w, c, m, a, b):
    if m.bit_count() > XLIM:
        t = mk('xorb', w, (c, m), (1 << w) - 1, 0)
        if t not in _XBD: _XBD[t] = (a, b)
        return t
    return _xmk(w, c, tuple(sorted(_xb_atoms(w, m), key=tid)))

def _oq(w, x):
    """x as an atom of word arithmetic (an identity node hiding the pieces)"""
    if x.op == 'concat' and not isrot(x):
        c = 0; pos = w; ps = []
        for pw, p in x.a:                 # constants stay outside
            pos -= pw
            if type(p) is T and p.op == 'xor' and p.a[0]:
                c |= p.a[0] << pos
                p = p.a[1][0] if len(p.a[1]) == 1 else _xmk(pw, 0, p.a[1])
            ps.append((pw, p))
        if c:
            y = concat(ps)
            return _xmk(w, c, (mk('opq', w, (y,)) if y.op == 'concat' and not isrot(y) else y,)) if y.op != 'xor' else xor(w, y, c)
        return mk('opq', w, (x,))
    return x

def unopq(x):
    """the pieces of a word that is a plain (masked) concatenation, for storing it to memory"""
    if x.op == 'opq': return x.a[0]
    if x.op == 'xor' and len(x.a[1]) == 1 and x.a[1][0].op == 'opq':
        y = x.a[1][0].a[0]; pos = x.w; ps = []
        for pw, p in y.a:
            pos -= pw
            ps.append((pw, xor(pw, p, (x.a[0] >> pos) & ((1 << pw) - 1))))
        return mk('concat', x.w, tuple(ps))
    return x

def xor(w, a, b):
    ta = type(a) is int; tb = type(b) is int
    if ta:
        if tb: return a ^ b
        if a == 0: return b
        a, b = b, a; ta, tb = tb, ta
    if tb:
        if b == 0: return a
        if OPQ and (w == 32 or w == 64) and b & ~a.kz:
            a = _oq(w, a)
            if a.op == 'concat': return _xmk(w, b, (a,))
        if a.op == 'concat':
            pos = w; parts = []
            for pw, p in a.a:
                pos -= pw
                parts.append((pw, xor(pw, p, (b >> pos) & ((1 << pw) - 1))))
            return concat(parts)
        if a.op == 'xor': return _xmk(w, a.a[0] ^ b, a.a[1])
        if a.op == 'xorb': return _xbmk(w, a.a[0] ^ b, a.a[1], a, b)
        if a.op == 'ite' and (isint(a.a[1]) or isint(a.a[2])):
            return ite(w, a.a[0], xor(w, a.a[1], b), xor(w, a.a[2], b))
        return _xmk(w, b, (a,))
    if a is b: return 0
    if OPQ and (w == 32 or w == 64) and a.kz | b.kz != (1 << w) - 1: a = _oq(w, a); b = _oq(w, b)
    if a.op == 'concat' or b.op == 'concat':
        cuts = _cuts(w, (a, b))
        if cuts:
            hi = w; parts = []
            for c in cuts + [0]:
                parts.append((hi - c, xor(hi - c, extract(a, w, hi - 1, c), extract(b, w, hi - 1, c))))
                hi = c
            return concat(parts)
    # flatten
    if a.op == 'xorb' or b.op == 'xorb':
        x, y = (b, a) if b.op == 'xorb' else (a, b)
        if y.op == 'xorb' or y.op in XBOK or (y.op == 'xor' and all(t.op in XBOK for t in y.a[1])):
            c1, m1 = _xb(a); c2, m2 = _xb(b)
            return _xbmk(w, c1 ^ c2, m1 ^ m2, a, b)
    if a.op == 'xor': c1, t1 = a.a
    else: c1, t1 = 0, (a,)
    if b.op == 'xor': c2, t2 = b.a
    else: c2, t2 = 0, (b,)
    s = set(t1) ^ set(t2)
    if len(s) > XLIM and all(t.op in XBOK for t in s):
        c1, m1 = _xb(a); c2, m2 = _xb(b)
        return _xbmk(w, c1 ^ c2, m1 ^ m2, a, b)
    if len(s) > XLIM and not (len(s) <= 4 * XLIM and len(t1) > 8 and len(t2) > 8
                              and any(t.op == 'rom' for t in s)):
        if len(t1) > len(t2): c1, t1 = 0, (a,)
        else: c2, t2 = 0, (b,)
        s = set(t1) ^ set(t2)
        if len(s) > XLIM:
            c1, t1 = 0, (a,); c2, t2 = 0, (b,)
            s = set(t1) ^ set(t2)
    c = c1 ^ c2
    if OPQ and (w == 32 or w == 64) and len(s) > 1:
        f = (1 << w) - 1
        if any(t.op == 'and' and t.a[0] != f for t in s): s = set(_mmerge(w, s))
    if not s: return c
    if len(s) > 1:
        s = list(s)
        # merge tables with the same index
        roms = [t for t in s if t.op == 'rom']
        if roms:
            by = {}
            ss = set(s)
            for t in roms: by.setdefault(t.a[1], []).append(t)
            ch = False
            acc = []
            eaten = set()
            for k, l in by.items():
                idt = k in ss and l[0].a[2] == w
                if idt: eaten.add(k)
                if len(l) > 1 or idt:
                    ch = True
                    v = l[0].a[0].v
                    for t in l[1:]: v = [x ^ y for x, y in zip(v, t.a[0].v)]
                    if idt: v = [x ^ i for i, x in enumerate(v)]
                    acc.append(rom(v, w, k, l[0].a[2]))
                else: acc.append(l[0])
            if ch:
                s = [t for t in s if t.op != 'rom' and t not in eaten]
                r = _xmk(w, c, tuple(sorted(s, key=tid)))
                for x in acc: r = xor(w, r, x)
                return r
        if any(t.op == 'concat' for t in s):
            cuts = _cuts(w, s)
            if cuts:
                hi = w; parts = []
                for cc in cuts + [0]:
                    r = (c >> cc) & ((1 << (hi - cc)) - 1)
                    for t in s: r = xor(hi - cc, r, extract(t, w, hi - 1, cc))
                    parts.append((hi - cc, r))
                    hi = cc
                return concat(parts)
        s.sort(key=tid)
        if len(s) == 2 and w <= 16 and s[0].op == 'ite' and s[1].op == 'ite' and s[0].a[0] is s[1].a[0]:
            x, y = s
            r = ite(w, x.a[0], xor(w, x.a[1], y.a[1]), xor(w, x.a[2], y.a[2]))
            return xor(w, r, c)
        return _xmk(w, c, tuple(s))
    t = s.pop()
    if c == 0: return t
    return xor(w, t, c)

def not_(w, a): return xor(w, a, (1 << w) - 1)

def _runs(m, w):
    """list of (hi, lo, bit) runs high first"""
    out = []; i = w - 1
    while i >= 0:
        b = (m >> i) & 1; j = i
        while j > 0 and ((m >> (j - 1)) & 1) == b: j -= 1
        out.append((i, j, b)); i = j - 1
    return out

def _amk(w, ts, c=None):
    f = (1 << w) - 1
    mx = f; kz = 0
    if c is not None and c != f:
        if OPQ and (w == 32 or w == 64): return mk('and', w, (c, tuple(ts)))
        mx = c; kz = f & ~c
    else: c = f
    for t in ts: mx = min(mx, t.mx); kz |= t.kz
    return mk('and', w, (c, tuple(ts)), mx, kz)

def _wmask(b, w):
    """in word mode: is b a mask that does not select whole bytes"""
    return any(lo & 7 for hi, lo, bit in _runs(b, w))

def _mono(t, f):
    return t.a if t.op == 'and' else (f, (t,))

def _mmerge(w, s):
    """merge the monomials of an xor that differ only in their constant mask"""
    f = (1 << w) - 1
    d = {}
    for t in s:
        c, ts = _mono(t, f)
        d[ts] = d.get(ts, 0) ^ c
    out = []
    for ts, c in d.items():
        if c == 0: continue
        if c == f: out.append(ts[0] if len(ts) == 1 else _amk(w, ts))
        else: out.append(_amk(w, ts, c))
    return out

def and_(w, a, b):
    if type(a) is int:
        if type(b) is int: return a & b
        a, b = b, a
    m = (1 << w) - 1
    if type(b) is int:
        if b == 0: return 0
        if b == m: return a
        if a.kz | b == m: return a
        if (a.kz ^ m) & b == 0: return 0
        if a.op == 'rom':
            return rom([x & b for x in a.a[0].v], w, a.a[1], a.a[2])
        if a.op == 'sext' and a.a[0].w == 1 or a.op == 'ite' and (isint(a.a[1]) and isint(a.a[2])):
            if a.op == 'ite': return ite(w, a.a[0], a.a[1] & b, a.a[2] & b)
            pass
        if OPQ and (w == 32 or w == 64) and (_wmask(b, w) or a.op == 'and' and a.a[0] != m):
            a = _oq(w, a)
            if a.op == 'and': 
                b &= a.a[0]
                return _amk(w, a.a[1], b) if b else 0
            if a.op == 'xor' and len(a.a[1]) <= 8:
                r = a.a[0] & b
                for x in a.a[1]: r = xor(w, r, and_(w, x, b))
                return r
            return _amk(w, (a,), b)
        parts = []
        for hi, lo, bit in _runs(b, w):
            parts.append((hi - lo + 1, extract(a, w, hi, lo) if bit else 0))
        return concat(parts)
    if a is b: return a
    if w == 1: return _band(a, b)
    if (a.kz | b.kz) == m: return 0
    if OPQ and (w == 32 or w == 64): a = _oq(w, a); b = _oq(w, b)
    if a.op == 'concat' or b.op == 'concat':
        cuts = _cuts(w, (a, b))
        if cuts:
            hi = w; parts = []
            for c in cuts + [0]:
                parts.append((hi - c, and_(hi - c, extract(a, w, hi - 1, c), extract(b, w, hi - 1, c))))
                hi = c
            return concat(parts)
    # distribute over small xors (algebraic normal form)
    if a.op == 'xor' or b.op == 'xor':
        c1, t1 = a.a if a.op == 'xor' else (0, (a,))
        c2, t2 = b.a if b.op == 'xor' else (0, (b,))
        if not OPQ and (c1 and c1 != m or c2 and c2 != m): pass
        elif (len(t1) + (c1 != 0)) * (len(t2) + (c2 != 0)) <= 8:
            r = c1 & c2
            for x in t1:
                for y in t2: r = xor(w, r, and_(w, x, y))
                if c2: r = xor(w, r, and_(w, x, c2))
            if c1:
                for y in t2: r = xor(w, r, and_(w, y, c1))
            return r
        else:
            # peel complements only
            if c1 == m: return xor(w, b, and_(w, _xmk(w, 0, t1), b))
            if c2 == m: return xor(w, a, and_(w, a, _xmk(w, 0, t2)))
    c1, t1 = _mono(a, m)
    c2, t2 = _mono(b, m)
    s = set(t1) | set(t2)
    c = c1 & c2
    if c == 0: return 0
    if c != m: return _amk(w, tuple(sorted(s, key=tid)), c)
    if len(s) == 1: return s.pop()
    return _amk(w, tuple(sorted(s, key=tid)))

def _neg1(t): return xor(1, t, 1)

def _band(a, b):
    t1 = a.a[1] if a.op == 'and' else (a,)
    t2 = b.a[1] if b.op == 'and' else (b,)
    s = set(t1) | set(t2)
    for t in s:
        if t.op == 'xor' and t.a[0] == 1 and len(t.a[1]) == 1 and t.a[1][0] in s: return 0
        if t.op == 'xor' and t.a[0] == 1 and len(t.a[1]) == 1 and t.a[1][0].op == 'and':
            # not(and(xs)) with all xs in s -> false
            if all(x in s for x in t.a[1][0].a[1]): return 0
    if len(s) == 1: return s.pop()
    return _amk(1, tuple(sorted(s, key=tid)))

def or_(w, a, b):
    if type(a) is int and type(b) is int: return a | b
    if type(a) is int: a, b = b, a
    m = (1 << w) - 1
    if type(b) is int:
        if b == 0: return a
        if b == m: return m
        if OPQ and (w == 32 or w == 64) and _wmask(b, w): return xor(w, and_(w, a, b ^ m), b)
        parts = []
        for hi, lo, bit in _runs(b, w):
            n = hi - lo + 1
            parts.append((n, (1 << n) - 1 if bit else extract(a, w, hi, lo)))
        return concat(parts)
    if a is b: return a
    if w == 1: return _neg1(and_(1, _neg1(a), _neg1(b)))
    if (a.kz | b.kz) == m: return xor(w, a, b)
    if OPQ and (w == 32 or w == 64): a = _oq(w, a); b = _oq(w, b)
    if a.op == 'concat' or b.op == 'concat':
        cuts = _cuts(w, (a, b))
        if cuts:
            hi = w; parts = []
            for c in cuts + [0]:
                parts.append((hi - c, or_(hi - c, extract(a, w, hi - 1, c), extract(b, w, hi - 1, c))))
                hi = c
            return concat(parts)
    r = xor(w, xor(w, a, b), and_(w, a, b))
    if type(r) is T and r.op == 'xorb': _ORD[r] = (a, b)
    return r
_ORD = {}     # xorb nodes that are the disjunction of two values

# ---------------------------------------------------------------- shifts
def shl(w, a, b):
    if type(b) is int:
        if type(a) is int: return (a << b) & ((1 << w) - 1) if b < w else 0
        if b == 0: return a
        if b >= w: return 0
        return concat([(w - b, extract(a, w, w - 1 - b, 0)), (b, 0)])
    if type(a) is int and a == 0: return 0
    if b.mx <= 64:
        r = 0
        n = b.mx.bit_length()
        if n <= 3 or b.op in ('concat', 'ext', 'var', 'and', 'xor', 'ite'):
            return _shiftmux(w, a, b, n, shl)
    return mk('shl', w, (a, b))

def _shiftmux(w, a, b, n, f):
    for i in range(n):
        bit = extract(b, w, i, i)
        a = ite(w, bit, f(w, a, 1 << i), a)
    return a

def lshr(w, a, b):
    if type(b) is int:
        if type(a) is int: return a >> b if b < w else 0
        if b == 0: return a
        if b >= w: return 0
        return concat([(b, 0), (w - b, extract(a, w, w - 1, b))])
    if type(a) is int and a == 0: return 0
    if b.mx <= 64:
        return _shiftmux(w, a, b, b.mx.bit_length(), lshr)
    return mk('lshr', w, (a, b))

def ashr(w, a, b):
    if type(b) is int:
        if type(a) is int:
            if a >> (w - 1): a -= 1 << w
            return (a >> min(b, w)) & ((1 << w) - 1)
        if b == 0: return a
        if b >= w: b = w - 1
        if (a.kz >> (w - 1)) & 1: return lshr(w, a, b)
        return sext(extract(a, w, w - 1, b), w - b, w)
    if b.mx <= 64:
        return _shiftmux(w, a, b, b.mx.bit_length(), ashr)
    return mk('ashr', w, (a, b))

def rotl(w, a, k):
    k %= w
    if k == 0: return a
    if type(a) is int: return ((a << k) | (a >> (w - k))) & ((1 << w) - 1)
    if OPQ and (w == 32 or w == 64): a = _oq(w, a)
    return concat([(w - k, extract(a, w, w - 1 - k, 0)), (k, extract(a, w, w - 1, w - k))])

# ---------------------------------------------------------------- arithmetic
def _addmk(w, c, d):
    m = (1 << w) - 1
    ts = []
    for t, k in d.items():
        k &= m
        if k: ts.append((k, t))
    if not ts: return c & m
    c &= m
    if len(ts) == 1 and c == 0 and ts[0][0] == 1: return ts[0][1]
    if len(ts) == 1 and ts[0][0] & (ts[0][0] - 1) == 0 and c == 0:
        return shl(w, ts[0][1], ts[0][0].bit_length() - 1)
    # disjoint supports: concat
    if len(ts) == 1 and ts[0][0] == 1 and ts[0][1].kz & c == c: return or_(w, ts[0][1], c)
    if len(ts) == 2 and c == 0 and ts[0][0] == 1 and ts[1][0] == 1 and ts[0][1].kz | ts[1][1].kz == m:
        return xor(w, ts[0][1], ts[1][1])
    # common trailing zeros: the low part is constant
    z = w
    for k, t in ts:
        zk = (k & -k).bit_length() - 1
        nz = ~t.kz & m
        zk += (nz & -nz).bit_length() - 1
        if zk < z: z = zk
        if not z: break
    if z:
        d2 = {}; c2 = c >> z
        for k, t in ts:
            zk = min((k & -k).bit_length() - 1, z); zt = z - zk
            u = extract(t, w, w - z + zt - 1, zt)
            c2 += _lin(w - z, u, k >> zk, d2)
        return concat([(w - z, _addmk(w - z, c2, d2)), (z, c & ((1 << z) - 1))])
    ts.sort(key=lambda x: x[1].id)
    mx = c
    for k, t in ts: mx += k * t.mx
    return mk('add', w, (c, tuple(ts)), mx if mx <= m else None)

def _lin(w, x, k, d, flat=True):
    """accumulate k*x into d; returns constant part"""
    if type(x) is int: return k * x
    if x.op == 'add' and flat:
        c, ts = x.a
        for k2, t in ts: d[t] = d.get(t, 0) + k * k2
        return k * c
    if OPQ and (w == 32 or w == 64) and x.op == 'concat' and not (type(x.a[-1][1]) is int and x.a[-1][1] == 0): x = _oq(w, x)
    if x.op == 'concat' and type(x.a[-1][1]) is int and x.a[-1][1]:
        return k * x.a[-1][1] + _lin(w, concat(list(x.a[:-1]) + [(x.a[-1][0], 0)]), k, d, flat)
    if x.op == 'concat' and len(x.a) == 2 and x.a[1][1] == 0 and type(x.a[0][1]) is T:
        lo = x.a[1][0]; p = x.a[0][1]
        if p.op == 'ext' and p.a[1] == 0 and p.a[0].w == w:
            return _lin(w, p.a[0], k << lo, d)
        # ext pushed through add: trunc(add) << lo
        if p.op == 'add':
            # shl of a (w-lo)-bit add: distribute with zero extension of atoms
            c, ts = p.a
            for k2, t in ts:
                if t.op == 'ext' and t.a[1] == 0 and t.a[0].w == w: t = t.a[0]
                else: t = zext(t, w - lo, w)
                c2 = _lin(w, t, (k * k2) << lo, d)
                assert c2 == 0 or True
                c += c2 >> lo
            return (k * c) << lo
    if x.op == 'xor' and len(x.a[1]) == 1 and x.a[0] == (1 << w) - 1:
        # ~t = -t - 1
        return _lin(w, x.a[1][0], -k, d) - k
    d[x] = d.get(x, 0) + k
    return 0

def addn(w, c, kts):
    d = {}
    for k, t in kts: c += _lin(w, t, k, d)
    return _addmk(w, c, d)

def add(w, a, b):
    if type(a) is int:
        if type(b) is int: return (a + b) & ((1 << w) - 1)
        if a == 0: return b
    elif type(b) is int and b == 0: return a
    if w == 1: return xor(1, a, b)
    na = len(a.a[1]) if type(a) is T and a.op == 'add' else 1
    nb = len(b.a[1]) if type(b) is T and b.op == 'add' else 1
    d = {}
    fl = na + nb <= (4000 if OPQ else ALIM)
    c = _lin(w, a, 1, d, fl or na <= nb)
    c += _lin(w, b, 1, d, fl or nb < na)
    r = _addmk(w, c, d)
    return r

def sub(w, a, b):
    if type(a) is int and type(b) is int: return (a - b) & ((1 << w) - 1)
    if type(b) is int and b == 0: return a
    if a is b: return 0
    if w == 1: return xor(1, a, b)
    d = {}
    na = len(a.a[1]) if type(a) is T and a.op == 'add' else 1
    nb = len(b.a[1]) if type(b) is T and b.op == 'add' else 1
    fl = na + nb <= (4000 if OPQ else ALIM)
    c = _lin(w, a, 1, d, fl or na <= nb)
    c += _lin(w, b, -1, d, fl or nb < na)
    return _addmk(w, c, d)

def neg(w, a): return sub(w, 0, a)

def mul(w, a, b):
    if type(a) is int and type(b) is int: return (a * b) & ((1 << w) - 1)
    if type(a) is int: a, b = b, a
    if type(b) is int:
        if b == 0: return 0
        if b == 1: return a
        if b & (b - 1) == 0: return shl(w, a, b.bit_length() - 1)
        if a.op == 'ite' and isint(a.a[1]) and isint(a.a[2]):
            m = (1 << w) - 1
            return ite(w, a.a[0], a.a[1] * b & m, a.a[2] * b & m)
        d = {}
        c = _lin(w, a, b, d)
        return _addmk(w, c, d)
    # pull powers of two / constants out of single-term linear forms
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and isint(x.a[1]) and isint(x.a[2]):
            return ite(w, x.a[0], mul(w, y, x.a[1]), mul(w, y, x.a[2]))
    k = 1
    fs = []
    for x in (a, b):
        if x.op == 'add' and x.a[0] == 0 and len(x.a[1]) == 1:
            k *= x.a[1][0][0]; x = x.a[1][0][1]
        if x.op == 'mul': fs.extend(x.a)
        else: fs.append(x)
    fs.sort(key=tid)
    mx = 1
    for f in fs: mx *= f.mx
    r = mk('mul', w, tuple(fs), mx)
    if k != 1: return mul(w, r, k & ((1 << w) - 1))
    return r

def udiv(w, a, b):
    if type(a) is int and type(b) is int: return a // b if b else (1 << w) - 1
    if type(b) is int and b and b & (b - 1) == 0: return lshr(w, a, b.bit_length() - 1)
    if vmax(a) < (b if type(b) is int else 0): return 0
    if type(b) is int and b and w > 16 and vmax(a).bit_length() < w:
        # narrow the division
        n = max(vmax(a).bit_length(), b.bit_length())
        if n < w: return zext(udiv(n, extract(a, w, n - 1, 0), b), n, w)
    return mk('udiv', w, (a, b), vmax(a) // b if type(b) is int and b else None)

def urem(w, a, b):
    if type(a) is int and type(b) is int: return a % b if b else a
    if type(b) is int and b and b & (b - 1) == 0: return and_(w, a, b - 1)
    if type(b) is int and vmax(a) < b: return a
    if type(b) is int and b and w > 16 and vmax(a).bit_length() < w:
        n = max(vmax(a).bit_length(), b.bit_length())
        if n < w: return zext(urem(n, extract(a, w, n - 1, 0), b), n, w)
    return mk('urem', w, (a, b), b - 1 if type(b) is int and b else None)

def tosigned(x, w): return x - (1 << w) if x >> (w - 1) else x

def sdiv(w, a, b):
    if type(a) is int and type(b) is int:
        x = tosigned(a, w); y = tosigned(b, w)
        if y == 0: raise ZeroDivisionError
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        return q & ((1 << w) - 1)
    if (vkz(a, w) >> (w - 1)) & 1 and (vkz(b, w) >> (w - 1)) & 1: return udiv(w, a, b)
    return mk('sdiv', w, (a, b))

def srem(w, a, b):
    if type(a) is int and type(b) is int:
        x = tosigned(a, w); y = tosigned(b, w)
        if y == 0: raise ZeroDivisionError
        r = abs(x) % abs(y)
        if x < 0: r = -r
        return r & ((1 << w) - 1)
    if (vkz(a, w) >> (w - 1)) & 1 and (vkz(b, w) >> (w - 1)) & 1: return urem(w, a, b)
    return mk('srem', w, (a, b))

def clmul(w, a, b):
    """carry-less product of two w-bit values, 2w bits"""
    if type(a) is int and type(b) is int:
        r = 0
        for i in range(w):
            if (b >> i) & 1: r ^= a << i
        return r
    if type(a) is int: a, b = b, a
    if type(b) is int:
        r = 0
        az = zext(a, w, 2 * w)
        for i in range(w):
            if (b >> i) & 1: r = xor(2 * w, r, shl(2 * w, az, i))
        return r
    if a.id > b.id: a, b = b, a
    return mk('clmul', 2 * w, (a, b), None, 1 << (2 * w - 1))

def uf(name, w, args, wargs):
    """uninterpreted function application; args values, wargs their widths"""
    return mk('uf', w, (name, tuple(args), tuple(wargs)))

# ---------------------------------------------------------------- comparisons
def eq(w, a, b):
    if type(a) is int:
        if type(b) is int: return 1 if a == b else 0
        a, b = b, a
    if a is b: return 1
    if w == 1:
        return xor(1, xor(1, a, b), 1)
    if type(b) is int:
        if b & a.kz: return 0
        if b > a.mx: return 0
        if a.op == 'concat':
            r = 1; pos = w
            for pw, p in a.a:
                pos -= pw
                r = and_(1, r, eq(pw, p, (b >> pos) & ((1 << pw) - 1)))
                if r == 0 and type(r) is int: return 0
            return r
        if a.op == 'ite':
            x, y = a.a[1], a.a[2]
            if isint(x) or isint(y):
                return ite(1, a.a[0], eq(w, x, b), eq(w, y, b))
        if a.op == 'xor' and a.a[0]:
            return eq(w, _xmk(w, 0, a.a[1]), b ^ a.a[0])
        if a.op == 'xor' and b == 0:
            # x | y is kept as x ^ y ^ (x & y)
            for n in a.a[1]:
                if n.op == 'and' and len(n.a[1]) == 2 and n.a[0] == (1 << w) - 1:
                    p, q = n.a[1]
                    if xor(w, p, q) is xor(w, a, n):
                        return and_(1, eq(w, p, 0), eq(w, q, 0))
        if a.op == 'xorb' and b == 0 and a in _ORD:
            p, q = _ORD[a]
            return and_(1, eq(w, p, 0), eq(w, q, 0))
        if a.op == 'add':
            c, ts = a.a
            if c:
                return eq(w, _addmk(w, 0, {t: k for k, t in ts}), (b - c) & ((1 << w) - 1))
            if len(ts) == 1 and ts[0][0] & 1:
                inv = pow(ts[0][0], -1, 1 << w)
                return eq(w, ts[0][1], b * inv & ((1 << w) - 1))
        if a.op == 'rom':
            return rom([1 if x == b else 0 for x in a.a[0].v], 1, a.a[1], a.a[2])
        if a.op == 'sext':
            wy = a.a[0].w
            lo = b & ((1 << wy) - 1)
            if sext(lo, wy, w) != b: return 0
            return eq(wy, a.a[0], lo)
        if a.op == 'and' and w > 1 and b == (1 << w) - 1:
            if a.a[0] != b: return 0
            r = 1
            for t in a.a[1]: r = and_(1, r, eq(w, t, b))
            return r
        if b == 0 and a.op == 'xor' and len(a.a[1]) == 2:
            return eq(w, a.a[1][0], a.a[1][1])
        return mk('eq', 1, (a, b))
    # both symbolic
    if a.op == 'concat' or b.op == 'concat':
        s = set()
        for x in (a, b):
            if x.op == 'concat' and not isrot(x):
                pos = w
                for pw, p in x.a:
                    pos -= pw; s.add(pos)
        s.discard(0)
        if s and len(s) <= 256:
            r = 1; hi = w
            for c in sorted(s, reverse=True) + [0]:
                r = and_(1, r, eq(hi - c, extract(a, w, hi - 1, c), extract(b, w, hi - 1, c)))
                if type(r) is int and r == 0: return 0
                hi = c
            return r
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return eq(a.a[0].w, a.a[0], b.a[0])
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]:
        return ite(1, a.a[0], eq(w, a.a[1], b.a[1]), eq(w, a.a[2], b.a[2]))
    if a.op == 'add' or b.op == 'add':
        d = sub(w, a, b)
        if type(d) is int: return 1 if d == 0 else 0
        if d.op == 'add' and len(d.a[1]) <= 2 and d.a[0] != 0 and len(d.a[1]) == 1:
            return eq(w, d, 0)
    if a.op == 'xor' or b.op == 'xor':
        d = xor(w, a, b)
        if type(d) is int: return 1 if d == 0 else 0
        if d.op != 'xor' or len(d.a[1]) < 2: return eq(w, d, 0)
    if a.id > b.id: a, b = b, a
    return mk('eq', 1, (a, b))

def ne(w, a, b): return xor(1, eq(w, a, b), 1)

def ult(w, a, b):
    ia = type(a) is int; ib = type(b) is int
    if ia and ib: return 1 if a < b else 0
    if a is b: return 0
    if ib:
        if b == 0: return 0
        if a.mx < b: return 1
        if b == 1: return eq(w, a, 0)
    if ia:
        if a >= b.mx: return 0
        if a == 0: return ne(w, b, 0)
    # trim common leading zeros
    n = max(vmax(a).bit_length(), vmax(b).bit_length())
    if n < w:
        return ult(n, extract(a, w, n - 1, 0), extract(b, w, n - 1, 0))
    if w == 1: return and_(1, _neg1(a) if not ia else 1 - a, b)
    if ib and a.op == 'concat':
        # a < b with equal high parts
        pw, p = a.a[0]
        bh = b >> (w - pw)
        if type(p) is int:
            if p < bh: return 1
            if p > bh: return 0
            return ult(w - pw, extract(a, w, w - pw - 1, 0), b & ((1 << (w - pw)) - 1))
        if b & ((1 << (w - pw)) - 1) == 0: return ult(pw, p, bh)
    if ia and b.op == 'concat':
        pw, p = b.a[0]
        if type(p) is int:
            ah = a >> (w - pw)
            if ah < p: return 1
            if ah > p: return 0
            return ult(w - pw, a & ((1 << (w - pw)) - 1), extract(b, w, w - pw - 1, 0))
    for x, y, s in ((a, b, 0), (b, a, 1)):
        if type(x) is T and x.op == 'ite' and type(y) is int and (isint(x.a[1]) or isint(x.a[2])):
            f = (lambda z: ult(w, z, y)) if s == 0 else (lambda z: ult(w, y, z))
            return ite(1, x.a[0], f(x.a[1]), f(x.a[2]))
        if type(x) is T and x.op == 'rom' and type(y) is int:
            return rom([(1 if v < y else 0) if s == 0 else (1 if y < v else 0) for v in x.a[0].v], 1, x.a[1], x.a[2])
    return mk('ult', 1, (a, b, w))

def ule(w, a, b): return xor(1, ult(w, b, a), 1)

def slt(w, a, b):
    if type(a) is int and type(b) is int: return 1 if tosigned(a, w) < tosigned(b, w) else 0
    if a is b: return 0
    za = (vkz(a, w) >> (w - 1)) & 1; zb = (vkz(b, w) >> (w - 1)) & 1
    if za and zb: return ult(w, a, b)
    if za and type(b) is int: return 0      # b negative
    if zb and type(a) is int: return 1
    if type(b) is int and b == 0: return extract(a, w, w - 1, w - 1)
    if type(a) is int and a == (1 << w) - 1: return _neg1(extract(b, w, w - 1, w - 1))
    # sign-extended operands
    wa = a.a[0].w if type(a) is T and a.op == 'sext' else None
    wb = b.a[0].w if type(b) is T and b.op == 'sext' else None
    if wa and type(b) is int:
        lo = b & ((1 << wa) - 1)
        if sext(lo, wa, w) == b: return slt(wa, a.a[0], lo)
        return 0 if b >> (w - 1) else 1
    if wb and type(a) is int:
        lo = a & ((1 << wb) - 1)
        if sext(lo, wb, w) == a: return slt(wb, lo, b.a[0])
        return 1 if a >> (w - 1) else 0
    if wa and wb and wa == wb: return slt(wa, a.a[0], b.a[0])
    for x, y, s in ((a, b, 0), (b, a, 1)):
        if type(x) is T and x.op == 'ite' and type(y) is int and (isint(x.a[1]) or isint(x.a[2])):
            f = (lambda z: slt(w, z, y)) if s == 0 else (lambda z: slt(w, y, z))
            return ite(1, x.a[0], f(x.a[1]), f(x.a[2]))
    return mk('slt', 1, (a, b, w))

def sle(w, a, b): return xor(1, slt(w, b, a), 1)

def ite(w, c, a, b):
    if type(c) is int: return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b): return a
    if c.op == 'xor' and c.a[0] == 1:
        c = _xmk(1, 0, c.a[1]); a, b = b, a
    if w == 1:
        if type(a) is int:
            return or_(1, c, b) if a else and_(1, _neg1(c), b)
        if type(b) is int:
            return or_(1, _neg1(c), a) if b else and_(1, c, a)
    if OPQ and w in (8, 16, 32, 64) and type(a) is int and type(b) is int and a ^ b == 1:
        return zext(c, 1, w) if b == 0 else xor(w, zext(c, 1, w), b)
    if type(a) is T and a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if type(b) is T and b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b or (type(a) is int and type(b) is int and a == b): return a
    # split matching structure: common constant parts
    if (type(a) is T and a.op == 'concat') or (type(b) is T and b.op == 'concat'):
        s = set()
        for x in (a, b):
            if type(x) is T and x.op == 'concat':
                pos = w
                for pw, p in x.a:
                    pos -= pw; s.add(pos)
        s.discard(0)
        if len(s) <= 16:
            parts = []; hi = w
            for cc in sorted(s, reverse=True) + [0]:
                parts.append((hi - cc, ite(hi - cc, c, extract(a, w, hi - 1, cc), extract(b, w, hi - 1, cc))))
                hi = cc
            if len(parts) > 1: 
                return concat(parts)
    return mk('ite', w, (c, a, b), max(vmax(a), vmax(b)), vkz(a, w) & vkz(b, w))

def umin(w, a, b): return ite(w, ult(w, a, b), a, b)
def umax_(w, a, b): return ite(w, ult(w, a, b), b, a)
def smin(w, a, b): return ite(w, slt(w, a, b), a, b)
def smax(w, a, b): return ite(w, slt(w, a, b), b, a)

# ---------------------------------------------------------------- traversal
def children(t):
    op = t.op; a = t.a
    if op == 'var': return ()
    if op == 'add': return [x for _, x in a[1]]
    if op == 'xor' or op == 'and': return a[1]
    if op == 'xorb': return [x for x in _XBD[t] if type(x) is T]
    if op == 'concat': return [p for _, p in a if type(p) is T]
    if op == 'rom': return (a[1],)
    if op == 'sel': return _SELMX[id(a[0])][1] + (a[1],)
    if op == 'uf': return [x for x in a[1] if type(x) is T]
    return [x for x in a if type(x) is T]

def topo(roots, done=()):
    """post-order list of all T nodes reachable from roots (not below the nodes in done)"""
    seen = set(done); out = []
    st = []
    for r in roots:
        if type(r) is T and r not in seen:
            st.append((r, None))
            while st:
                t, it = st.pop()
                if it is None:
                    if t in seen: continue
                    seen.add(t)
                    it = iter(children(t))
                for c in it:
                    if c not in seen:
                        st.append((t, it)); st.append((c, None)); break
                else:
                    out.append(t)
    return out

def support(roots):
    return [t for t in topo(roots) if t.op == 'var']

def has_uf(roots):
    """is there an uninterpreted function with no fixed meaning (real: ones have one)"""
    return any(t.op == 'uf' and not t.a[0].startswith('real:') for t in topo(roots))

class Evaluator:
    """evaluation of the same roots under many assignments"""
    def __init__(self, roots):
        self.roots = roots
        self.order = topo(roots)
    def __call__(self, env, ufs=None):
        val = {}
        for t in self.order: val[t] = _ev(t, val, env, ufs)
        return [r if type(r) is int else val[r] for r in self.roots]

def evaluate(roots, env, ufs=None, memo=None):
    """concrete evaluation; env: var name -> int (missing -> 0).  ufs(name, w, args)->int"""
    val = memo if memo is not None else {}
    for t in topo([r for r in roots if not (type(r) is T and r in val)], val):
        val[t] = _ev(t, val, env, ufs)
    return [r if type(r) is int else val[r] for r in roots]

def _ev(t, val, env, ufs):
    op = t.op; a = t.a; w = t.w; m = (1 << w) - 1
    def g(x): return x if type(x) is int else val[x]
    if op == 'var': return env.get(a[0], 0) & m
    if op == 'opq': return val[a[0]]
    if op == 'add':
        r = a[0]
        for k, x in a[1]: r += k * val[x]
        return r & m
    if op == 'xor':
        r = a[0]
        for x in a[1]: r ^= val[x]
        return r
    if op == 'xorb':
        x, y = _XBD[t]
        return g(x) ^ g(y)
    if op == 'and':
        r = a[0]
        for x in a[1]: r &= val[x]
        return r
    if op == 'concat':
        r = 0
        for pw, p in a: r = (r << pw) | (p if type(p) is int else val[p])
        return r
    if op == 'ext': return (val[a[0]] >> a[1]) & m
    if op == 'sext': return sext(val[a[0]], a[0].w, w)
    if op == 'rom': return a[0].v[val[a[1]]]
    if op == 'sel': return g(a[0][val[a[1]]])
    if op == 'ite': return g(a[1]) if val[a[0]] else g(a[2])
    if op == 'eq': return 1 if g(a[0]) == g(a[1]) else 0
    if op == 'ult': return 1 if g(a[0]) < g(a[1]) else 0
    if op == 'slt': return 1 if tosigned(g(a[0]), a[2]) < tosigned(g(a[1]), a[2]) else 0
    if op == 'mul':
        r = 1
        for x in a: r = r * val[x]
        return r & m
    if op == 'shl': return shl(w, g(a[0]), g(a[1]))
    if op == 'lshr': return lshr(w, g(a[0]), g(a[1]))
    if op == 'ashr': return ashr(w, g(a[0]), g(a[1]))
    if op == 'udiv': return udiv(w, g(a[0]), g(a[1]))
    if op == 'urem': return urem(w, g(a[0]), g(a[1]))
    if op == 'sdiv': return sdiv(w, g(a[0]), g(a[1])) if g(a[1]) else m
    if op == 'srem': return srem(w, g(a[0]), g(a[1])) if g(a[1]) else g(a[0])
    if op == 'clmul': return clmul(w // 2, g(a[0]), g(a[1]))
    if op == 'uf':
        args = tuple(g(x) for x in a[1])
        if ufs is not None: return ufs(a[0], w, args, a[2])
        # deterministic pseudo-random interpretation
        import hashlib
        h = hashlib.blake2b(repr((a[0], w, args)).encode()).digest()
        return int.from_bytes(h * (w // 512 + 1), 'big') & m
    raise Unsupported('eval ' + op)

def rebuild(t, memo):
    """re-apply the constructor of t to the images of its children"""
    op = t.op; a = t.a; w = t.w
    def g(x): return memo[x] if type(x) is T else x
    if op == 'var': return t
    if op == 'add': return addn(w, a[0], [(k, g(x)) for k, x in a[1]])
    if op == 'xor':
        r = a[0]
        for x in a[1]: r = xor(w, r, g(x))
        return r
    if op == 'xorb':
        x, y = _XBD[t]
        return xor(w, g(x), g(y))
    if op == 'and':
        r = a[0]
        for x in a[1]: r = and_(w, r, g(x))
        return r
    if op == 'concat': return concat([(pw, g(p)) for pw, p in a])
    if op == 'opq':
        x = g(a[0])
        return x if type(x) is int else _oq(w, x)
    if op == 'ext': return extract(g(a[0]), a[2], a[1] + w - 1, a[1])
    if op == 'sext': return sext(g(a[0]), a[0].w, w)
    if op == 'rom': return rom(list(a[0].v), w, g(a[1]), a[2])
    if op == 'sel': return sel([g(x) for x in a[0]], w, g(a[1]), a[2])
    if op == 'ite': return ite(w, g(a[0]), g(a[1]), g(a[2]))
    if op == 'eq':
        wx = a[0].w
        return eq(wx, g(a[0]), g(a[1]))
    if op == 'ult': return ult(a[2], g(a[0]), g(a[1]))
    if op == 'slt': return slt(a[2], g(a[0]), g(a[1]))
    if op == 'mul':
        r = 1
        for x in a: r = mul(w, r, g(x))
        return r
    if op in ('shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
        return globals()[op](w, g(a[0]), g(a[1]))
    if op == 'clmul': return clmul(w // 2, g(a[0]), g(a[1]))
    if op == 'uf': return uf(a[0], w, [g(x) for x in a[1]], a[2])
    raise Unsupported('rebuild ' + op)
