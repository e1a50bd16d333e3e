"""Equality over GF(2): both sides are expanded to algebraic normal form over the bits of the
non-Boolean subterms and compared monomial by monomial (a decision procedure for xor/and/select/carry-less
multiplication; z3's bit-blaster cannot decide multiplication in GF(2^128))."""
import time
from . import term as tm
from .term import T

class TooBig(Exception): pass

class ANF:
    def __init__(self, limit=2000000, secs=30):
        self.atoms = {}; self.memo = {}; self.n = 0; self.limit = limit; self.stop = time.time() + secs
    def atom(self, t, i):
        k = (t, i)
        a = self.atoms.get(k)
        if a is None: a = self.atoms[k] = 1 << len(self.atoms)
        return frozenset((a,))
    def mulp(self, p, q):
        if not p or not q: return frozenset()
        if len(p) * len(q) > 300000: raise TooBig
        if len(p) > len(q): p, q = q, p
        r = set()
        for x in p:
            if x == 0: r ^= q
            else:
                s = set()
                for y in q: s ^= {x | y}
                r ^= s
        self.n += len(p) * len(q)
        return frozenset(r)
    def cst(self, v, w): return [ONE if (v >> i) & 1 else ZERO for i in range(w)]
    def g(self, x, w): return self.cst(x, w) if type(x) is int else self.memo[x]
    def add(self, t):
        op, a, w = t.op, t.a, t.w
        if op == 'xor':
            ps = [self.memo[x] for x in a[1]]
            r = []
            for i in range(w):
                s = set(ONE if (a[0] >> i) & 1 else ())
                for p in ps: s ^= p[i]
                self.n += len(s)
                r.append(frozenset(s))
            return r
        if op == 'xorb':
            x, y = (self.g(v, w) for v in tm._XBD[t])
            return [x[i] ^ y[i] for i in range(w)]
        if op == 'opq': return self.memo[a[0]]
        if op == 'and':
            r = []
            for i in range(w):
                p = ONE if (a[0] >> i) & 1 else ZERO
                for x in a[1]:
                    if not p: break
                    p = self.mulp(p, self.memo[x][i])
                r.append(p)
            return r
        if op == 'concat':
            r = []
            for pw, p in reversed(a): r += self.g(p, pw)
            return r
        if op == 'ext': return self.memo[a[0]][a[1]:a[1] + w]
        if op == 'sext':
            p = self.memo[a[0]]
            return p + [p[-1]] * (w - len(p))
        if op == 'ite':
            c = self.memo[a[0]][0]; x = self.g(a[1], w); y = self.g(a[2], w)
            return [y[i] ^ self.mulp(c, x[i] ^ y[i]) for i in range(w)]
        if op == 'clmul':
            x = self.g(a[0], w // 2); y = self.g(a[1], w // 2)
            r = [set() for _ in range(w)]
            for i, p in enumerate(x):
                for j, q in enumerate(y): r[i + j] ^= self.mulp(p, q)
            return [frozenset(s) for s in r]
        if op == 'rom' and a[2] <= 8:
            ix = self.memo[a[1]]
            c = list(a[0].v)
            for b in range(a[2]):
                for i in range(len(c)):
                    if i >> b & 1: c[i] ^= c[i ^ (1 << b)]
            r = [set() for _ in range(w)]
            for i, v in enumerate(c):
                if v:
                    p = ONE
                    for b in range(a[2]):
                        if i >> b & 1: p = self.mulp(p, ix[b])
                    for k in range(w):
                        if v >> k & 1: r[k] ^= p
            return [frozenset(s) for s in r]
        if op == 'sel' and a[2] <= 6:
            ix = self.memo[a[1]]
            c = [list(self.g(v, w)) for v in a[0]]
            for b in range(a[2]):
                for i in range(len(c)):
                    if i >> b & 1: c[i] = [x ^ y for x, y in zip(c[i], c[i ^ (1 << b)])]
            r = [set() for _ in range(w)]
            for i, v in enumerate(c):
                if any(v):
                    p = ONE
                    for b in range(a[2]):
                        if i >> b & 1: p = self.mulp(p, ix[b])
                    for k in range(w): r[k] ^= self.mulp(p, v[k])
            return [frozenset(x) for x in r]
        if op == 'eq' and a[0].w == 1 if op == 'eq' and type(a[0]) is T else False:
            y = self.g(a[1], 1)
            return [self.memo[a[0]][0] ^ y[0] ^ ONE]
        if op == 'shl' and type(a[1]) is int: return ([ZERO] * a[1] + self.memo[a[0]])[:w]
        if op == 'lshr' and type(a[1]) is int: return self.memo[a[0]][a[1]:] + [ZERO] * min(w, a[1])
        return [self.atom(t, i) for i in range(w)]
    def run(self, roots):
        for t in tm.topo(roots):
            self.memo[t] = self.add(t)
            if self.n > self.limit * 20 or time.time() > self.stop: raise TooBig
ZERO = frozenset(); ONE = frozenset((0,))

def prove(diff, secs=60):
    try:
        A = ANF(secs=secs)
        A.run([x for p in diff for x in p if type(x) is T])
        for a, b in diff:
            w = a.w if type(a) is T else b.w
            if A.g(a, w) != A.g(b, w): return False
        return True
    except TooBig: return None
