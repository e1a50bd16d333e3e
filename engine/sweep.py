"""Equivalence of byte lists: simulation, z3, and SAT sweeping (internal equivalences proved bottom up by z3 and merged)."""
import time, random
from . import term as tm, smt, rt, anf
from .term import T, Unsupported
from .rt import C

def conj(diff):
    cond = 1
    for a, b in diff: cond = tm.and_(1, cond, tm.eq(8, a, b))
    return cond

def size(roots, cap):
    n = 0
    for t in tm.topo(roots):
        n += 1
        if n > cap: return n
    return n

def prove_eq(OB, label, diff):
    cond = conj(diff)
    if type(cond) is int or type(rt.simp(cond)) is int: return OB.prove(label, cond)
    m = OB.simulate(cond)
    if m is not None:
        OB.n += 1
        OB.refute(label, m); return False
    n = size([cond], 40000)
    if n < 40000:
        r = OB.quick(cond, 2000)
        if r == 'unsat':
            OB.n += 1
            OB.rec(label, 'proved', 'z3'); return True
    if rt.flagged(): return OB.prove(label, cond)
    if n < 40000 and not any(t.op in ('add', 'mul', 'ult', 'slt', 'udiv', 'urem') for t in tm.topo([x for p in diff for x in p if type(x) is T])):
        if anf.prove(diff):
            OB.n += 1
            OB.rec(label, 'proved', 'anf'); return True
    if n < 40000:
        lim = C.obtimeout / 1000.0
        if C.deadline: lim = min(lim, max(1, C.deadline - time.time() - 3))
        d2, merges = sweep(diff, lim)
        if merges:
            cond = conj(d2)
            if cond == 1:
                OB.n += 1
                OB.rec(label, 'proved', 'sweep'); return True
    return OB.prove(label, cond)

def sweep(diff, budget):
    from .harness import SimModel, diversify
    stop = time.time() + budget
    roots = [x for p in diff for x in p if type(x) is T]
    order = list(tm.topo(roots))
    base = [{}]
    models = []
    if C.pc:
        m = rt.get_model()
        if m is None: return diff, 0
        models.append(m)
        if tm.has_uf(C.pc): base = None
        elif any(t.op == 'uf' for t in tm.topo(C.pc)): base = [{}]
        else: base = diversify(m, tm.support(C.pc), 8)
    if base is not None:
        for i in range(9): models.append(SimModel(random.randrange(1 << 28) * 8 + i % 8, base[i % len(base)]))
    vals = []
    try:
        if C.pc: models = [m for m in models if type(m) is not SimModel or all(m.eval(C.pc))]
        for m in models:
            memo = {}
            tm.evaluate(roots, m, m.ufs, memo)
            vals.append(memo)
    except Unsupported: return diff, 0
    reps = {}
    memo = {}
    merges = 0
    def val(x, mm): return x if type(x) is int else mm.get(x)
    for t in order:
        t2 = tm.rebuild(t, memo)
        memo[t] = t2
        if type(t2) is int or not tm.children(t2): continue
        if t.w == 1 or time.time() > stop: continue
        sig = tuple(mm.get(t) for mm in vals)
        if None in sig: continue
        key = (t.w, sig)
        l = reps.setdefault(key, [])
        if t2 in l: continue
        cands = list(l[:3])
        if len(sig) > 2 and all(v == sig[0] for v in sig): cands.insert(0, sig[0])
        done = False
        for r in cands:
            if time.time() > stop: break
            if type(r) is T and (r.op == 'opq' and r.a[0] is t2 or t2.op == 'opq' and t2.a[0] is r): continue
            q = [tm.ne(t.w, r, t2)]
            if type(q[0]) is int:
                if not q[0]: memo[t] = r; done = True; break
                continue
            if size(q, 3000) > 3000: continue
            x, _ = smt.check(C.pc + q, 400, want_model=False)
            if x == 'unsat':
                memo[t] = r; merges += 1; done = True
                smt.STATS.sweep += 1
                break
        if not done: l.append(t2)
    return [(a if type(a) is int else memo[a], b if type(b) is int else memo[b]) for a, b in diff], merges
