"""z3 back end for term.py, with counters for the evidence files."""
import time, z3
from . import term as tm
from .term import T

class Stats:
    def __init__(self):
        self.queries = 0; self.sat = 0; self.unsat = 0; self.unknown = 0; self.time = 0.0
        self.rewrite = 0      # obligations closed by the normalising rewriter alone
        self.sweep = 0        # internal equivalences merged by SAT sweeping
        self.poly = 0         # obligations closed by polynomial normal forms
    def as_dict(self): return dict(self.__dict__)
    def merge(self, d):
        for k, v in d.items(): setattr(self, k, getattr(self, k, 0) + v)
STATS = Stats()

_z = {}
MAXNODES = 600000
_ufs = {}
def reset(): _z.clear()

def bv(x, w): return z3.BitVecVal(x, w)

def _b(e): return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

def _romz(v, w, idx, wi):
    memo = {}
    bits = [z3.Extract(i, i, idx) == 1 for i in range(wi)]
    def go(lo, n, b):
        key = v[lo:lo + n]
        r = memo.get(key)
        if r is not None: return r
        if n == 1 or all(x == key[0] for x in key): r = z3.BitVecVal(key[0], w)
        else:
            h = n // 2
            r = z3.If(bits[b], go(lo + h, h, b - 1), go(lo, h, b - 1))
        memo[key] = r
        return r
    return go(0, len(v), wi - 1)

def _selz(v, w, idx, wi):
    bits = [z3.Extract(i, i, idx) == 1 for i in range(wi)]
    def go(lo, n, b):
        if n == 1: return v[lo]
        h = n // 2
        x = go(lo + h, h, b - 1); y = go(lo, h, b - 1)
        if x is y or x.eq(y): return x
        return z3.If(bits[b], x, y)
    return go(0, len(v), wi - 1)

def toz3(root, cache=None, cut=None):
    """z3 expression for root; cut: dict T -> z3 expr overriding nodes"""
    if type(root) is int: raise ValueError('need width')
    z = _z if cache is None else cache
    if root in z: return z[root]
    st = [root]
    while st:
        t = st[-1]
        if t in z: st.pop(); continue
        if cut is not None and t in cut:
            z[t] = cut[t]; st.pop(); continue
        need = [c for c in tm.children(t) if c not in z]
        if need: st.extend(need); continue
        z[t] = _conv(t, z)
        st.pop()
    return z[root]

def _conv(t, z):
    op = t.op; a = t.a; w = t.w
    def g(x, wx): return z3.BitVecVal(x, wx) if type(x) is int else z[x]
    if op == 'var': return z3.BitVec(a[0], w)
    if op == 'opq': return z[a[0]]
    if op == 'add':
        r = None
        for k, x in a[1]:
            e = z[x]
            if k != 1:
                if k == (1 << w) - 1: e = -e
                else: e = e * z3.BitVecVal(k, w)
            r = e if r is None else r + e
        if a[0]: r = r + z3.BitVecVal(a[0], w)
        return r
    if op == 'xorb':
        x, y = tm._XBD[t]
        return g(x, w) ^ g(y, w)
    if op == 'xor':
        r = None
        for x in a[1]: r = z[x] if r is None else r ^ z[x]
        if a[0] == (1 << w) - 1: r = ~r
        elif a[0]: r = r ^ z3.BitVecVal(a[0], w)
        return r
    if op == 'and':
        r = None
        for x in a[1]: r = z[x] if r is None else r & z[x]
        if a[0] != (1 << w) - 1: r = r & z3.BitVecVal(a[0], w)
        return r
    if op == 'concat': return z3.Concat(*[g(p, pw) for pw, p in a])
    if op == 'ext': return z3.Extract(a[1] + w - 1, a[1], z[a[0]])
    if op == 'sext': return z3.SignExt(w - a[0].w, z[a[0]])
    if op == 'rom': return _romz(a[0].v, w, z[a[1]], a[2])
    if op == 'sel': return _selz([g(x, w) for x in a[0]], w, z[a[1]], a[2])
    if op == 'ite': return z3.If(z[a[0]] == 1, g(a[1], w), g(a[2], w))
    if op == 'eq':
        wx = a[0].w
        return _b(g(a[0], wx) == g(a[1], wx))
    if op == 'ult': return _b(z3.ULT(g(a[0], a[2]), g(a[1], a[2])))
    if op == 'slt': return _b(g(a[0], a[2]) < g(a[1], a[2]))
    if op == 'mul':
        r = None
        for x in a: r = z[x] if r is None else r * z[x]
        return r
    if op == 'shl': return g(a[0], w) << g(a[1], w)
    if op == 'lshr': return z3.LShR(g(a[0], w), g(a[1], w))
    if op == 'ashr': return g(a[0], w) >> g(a[1], w)
    if op == 'udiv': return z3.UDiv(g(a[0], w), g(a[1], w))
    if op == 'urem': return z3.URem(g(a[0], w), g(a[1], w))
    if op == 'sdiv': return g(a[0], w) / g(a[1], w)
    if op == 'srem': return z3.SRem(g(a[0], w), g(a[1], w))
    if op == 'clmul':
        h = w // 2
        x = z3.ZeroExt(h, g(a[0], h)); y = g(a[1], h)
        r = z3.BitVecVal(0, w)
        for i in range(h):
            r = r ^ z3.If(z3.Extract(i, i, y) == 1, x << i, z3.BitVecVal(0, w))
        return r
    if op == 'uf':
        name, args, ws = a
        key = (name, ws, w)
        f = _ufs.get(key)
        if f is None:
            f = z3.Function('%s_%s_%d' % (name, '_'.join(map(str, ws)), w), *[z3.BitVecSort(x) for x in ws], z3.BitVecSort(w))
            _ufs[key] = f
        return f(*[g(x, wx) for x, wx in zip(args, ws)])
    raise tm.Unsupported('z3 ' + op)

def boolz(c, z=None):
    """z3 Bool for a 1-bit value"""
    if type(c) is int: return z3.BoolVal(bool(c))
    return _boolof(c, z)

def _boolof(c, z):
    # strip structure so that z3 sees plain boolean connectives at the top
    if c.op == 'and': return z3.And(*[_boolof(x, z) for x in c.a[1]])
    if c.op == 'xor' and c.a[0] == 1 and len(c.a[1]) == 1: return z3.Not(_boolof(c.a[1][0], z))
    return toz3(c, z) == 1

def has_uf(roots):
    return any(t.op == 'uf' for t in tm.topo(roots))

def check(conds, timeout_ms=20000, want_model=True):
    """satisfiability of the conjunction of 1-bit values.
    returns ('sat', env) | ('unsat', None) | ('unknown', None)"""
    cs = []
    for c in conds:
        if type(c) is int:
            if c == 0: return 'unsat', None
            continue
        cs.append(c)
    if not cs:
        return 'sat', Model()
    n = 0
    for t in tm.topo(cs):
        n += len(t.a[0]) if t.op == 'sel' else 64 if t.op == 'rom' else 1
        if n > MAXNODES:
            STATS.unknown += 1; STATS.queries += 1
            return 'unknown', None
    ufs = [t for t in tm.topo(cs) if t.op == 'uf']
    z = {} if ufs else _z
    for i, t in enumerate(ufs): z[t] = z3.BitVec('uf!%d' % i, t.w)
    s = z3.SolverFor('QF_BV')
    t0 = time.time()
    left = timeout_ms
    for c in cs: s.add(boolz(c, z))
    # uninterpreted functions: fresh variables, functional consistency added lazily where a model violates it
    seen = set()
    while True:
        left = timeout_ms - (time.time() - t0) * 1000
        if left <= 0: r = z3.unknown; break
        s.set('timeout', max(1, int(left)))
        r = s.check()
        if r != z3.sat or not ufs: break
        m = s.model()
        new = False
        tab = {}
        for t in ufs:
            args = tuple(x if type(x) is int else m.eval(toz3(x, z), model_completion=True).as_long() for x in t.a[1])
            v = m.eval(z[t], model_completion=True).as_long()
            k = (t.a[0], t.w, t.a[2], args)
            o = tab.get(k)
            if o is None: tab[k] = (t, v); continue
            if o[1] == v or (o[0], t) in seen: continue
            new = True; seen.add((o[0], t))
            s.add(z3.Implies(z3.And(*[_arg(x, wx, z) == _arg(y, wx, z) for x, y, wx in zip(o[0].a[1], t.a[1], t.a[2])]), z[o[0]] == z[t]))
        if not new: break
    STATS.time += time.time() - t0
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None
    if r == z3.unknown:
        STATS.unknown += 1
        return 'unknown', None
    STATS.sat += 1
    if not want_model: return 'sat', None
    md = Model(s.model())
    if ufs: md.uf = {k: v for k, (t, v) in tab.items()}
    return 'sat', md

def _arg(x, w, z): return z3.BitVecVal(x, w) if type(x) is int else toz3(x, z)

class Model(dict):
    """var name -> int (default 0), plus interpretation of uninterpreted functions"""
    def __init__(self, m=None):
        super().__init__()
        self.uf = {}
        if m is None: return
        for d in m.decls():
            v = m[d]
            if isinstance(v, z3.BitVecNumRef): self[d.name()] = v.as_long()
    def ufs(self, name, w, args, ws=()):
        """value in the model; applications the query did not contain get 0 (a legal choice: the table is a partial function)"""
        return self.uf.get((name, w, ws, args), 0)
    def eval(self, roots, memo=None):
        return tm.evaluate(roots, self, self.ufs, memo)
