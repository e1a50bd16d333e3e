"""Runs the scenarios of a harness symbolically, decides their obligations."""
import os, sys, json, time, random, hashlib
from . import term as tm, smt, rt, mem, cext, mlexec, mlprims
from .term import T, Unsupported
from .mem import Str, Block, Custom, Region, Ptr, I64, M63, M64
from .mlexec import Clos, Code, s63, u63, bool63, isimm, norm
from .cext import MLRaise
from .rt import C

class Ready(Exception): pass

def hexs(b): return bytes(b).hex()

# ------------------------------------------------------------ uninterpreted functions
def feistel(name, w, args, inv):
    """concrete pseudo-random permutation used when simulating perm+/perm- symbols"""
    key, x = args[:-1], args[-1]
    h = w // 2; m = (1 << h) - 1
    l, r = x >> h, x & m
    def F(i, v):
        d = hashlib.blake2b(repr((name, key, i, v)).encode()).digest()
        return int.from_bytes(d, 'big') & m
    if not inv:
        for i in range(4): l, r = r, l ^ F(i, r)
    else:
        for i in reversed(range(4)): l, r = r ^ F(i, l), l
    return (l << h) | r

def simuf(seed):
    def f(name, w, args, ws=()):
        if name.startswith('real:'):
            from . import specs
            return specs.real(name[5:], w, args)
        if name.startswith('perm'):
            return feistel((seed, name[5:]), w, args, name[4] == '-')
        d = b''; i = 0
        while len(d) * 8 < w:
            d += hashlib.blake2b(repr((seed, name, w, args, ws, i)).encode()).digest(); i += 1
        return int.from_bytes(d, 'big') & ((1 << w) - 1)
    return f

class SimModel(dict):
    """random assignment; unlisted variables get values derived from the seed"""
    def __init__(self, seed, base=()):
        super().__init__(base); self.seed = seed; self.ufs = simuf(seed); self.uf = {}
        self.mode = seed % 8
    def get(self, k, d=0):
        v = dict.get(self, k)
        if v is None:
            h = hashlib.blake2b(('%d:%s' % (self.seed, k)).encode()).digest()
            v = int.from_bytes(h, 'big')
            mode = self.mode
            if mode:
                if mode == 1 and h[0] < 200: v = 0
                elif mode == 2 and h[0] < 100: v = -1
                elif mode == 6: v = -1
                elif mode in (3, 5, 7):             # whole inputs
                    g = hashlib.blake2b(('%d;%s' % (self.seed, k.split('[')[0])).encode()).digest()[0]
                    if mode == 3 and g < 128 or mode == 7 and g < 64: v = -1
                    elif mode == 5 and g < 128 or mode == 7 and g < 128: v = 0
            self[k] = v
        return v
    def eval(self, roots, memo=None): return tm.evaluate(roots, self, self.ufs, memo)

def axioms(roots):
    """instances of the inverse / injectivity axioms for the perm+/perm- symbols in roots"""
    apps = [t for t in tm.topo(roots) if t.op == 'uf' and t.a[0].startswith('perm')]
    ax = []
    for t in apps:
        nm, args, ws = t.a
        inv = ('perm-' if nm[4] == '+' else 'perm+') + nm[5:]
        ax.append(tm.eq(t.w, tm.uf(inv, t.w, args[:-1] + (t,), ws), args[-1]))
    return ax

def diversify(m, sup, k):
    """k assignments of the support variables satisfying the path condition, by random walks from model m"""
    cur = {v.a[0]: m.get(v.a[0], 0) & ((1 << v.w) - 1) for v in sup}
    out = [dict(cur)]
    try:
        ev = tm.Evaluator(C.pc)
        n = len(tm.topo(C.pc))
        budget = min(400, 400000 // (n + 1))
        t0 = time.time()
        for _ in range(k - 1):
            for v in sup:
                w = v.w; nm = v.a[0]
                tries = [(1 << w) - 1] + [255 << (8 * i) for i in range(w // 8)] if w > 8 else [(1 << w) - 1, random.randrange(1 << w)]
                for mask in tries:
                    if budget <= 0 or time.time() - t0 > 3: break
                    budget -= 1
                    old = cur[nm]
                    new = (old & ~mask) | (random.randrange(1 << w) & mask)
                    if new == old: continue
                    cur[nm] = new
                    mm = SimModel(1, cur)
                    if all(ev(mm, mm.ufs)):
                        if mask == (1 << w) - 1: break
                    else: cur[nm] = old
            out.append(dict(cur))
    except Unsupported: pass
    return out

def real_ufs(roots): return any(t.op == 'uf' and t.a[0].startswith('real:') for t in tm.topo(roots))

class Obligations:
    def __init__(self): self.n = 0
    def rec(self, label, r, by, **kw):
        d = {'ob': label, 'r': r, 'by': by}; d.update(kw)
        rt.out(d)
    def tape(self, model, alt=None):
        """evaluate the recorded tape under a model"""
        out = []
        memo = {}; memo2 = {}
        def ev(v, mod, mm):
            if type(v) is int: return v
            return tm.evaluate([v], mod, mod.ufs, mm)[0]
        for e in C.tape:
            kind, label, v = e[0], e[1], e[2]
            def s(mod, mm):
                if kind in ('bytes', 'spec', 'uf'): return hexs(ev(c, mod, mm) for c in v)
                if kind == 'int': return str(s63(ev(v, mod, mm)))
                if kind in ('int64', 'asm'): return str(ev(v, mod, mm))
                return v
            x = s(model, memo)
            if alt is not None: x += '|' + s(alt, memo2)
            out.append('%s|%s|%s' % (kind, label, x))
        return out
    def refute(self, label, model, msg='', alt=None, kind='fail'):
        try: tp = self.tape(model, alt)
        except Unsupported as e: tp = None
        if not any(a.fullmatch(C.scenario) and b.fullmatch(label) for a, b in KNOWN): rt.FLAG[0] = 1
        self.rec(label, 'refuted', 'solver', tape=tp, msg=msg, kind=kind, scenario=C.scenario, hw=C.hw, inst=C.inst)
    def simulate(self, cond, n=24):
        """look for an assignment satisfying the path condition and falsifying cond"""
        t0 = time.time()
        sup = None
        bases = []
        if C.pc:
            try: m = rt.get_model()
            except rt.PathEnd: raise
            if m is None: return None
            if tm.has_uf(C.pc):
                try:
                    if m.eval([cond])[0] == 0 and not real_ufs(C.pc + [cond]): return m
                except Unsupported: pass
                return None
            if real_ufs(C.pc): fixed = [{}]; n *= 4
            else: fixed = diversify(m, tm.support(C.pc), 6)
        else: fixed = [{}]
        ev = None
        for i in range(n):
            sm = SimModel(random.randrange(1 << 30) * 8 + i % 8, fixed[i % len(fixed)])
            try:
                if ev is None: ev = tm.Evaluator([cond] + C.pc)
                vals = ev(sm, sm.ufs)
            except Unsupported: return None
            if vals[0] == 0 and all(vals[1:]): return sm
            if time.time() - t0 > 10: break
        return None
    def pcmodel(self):
        """an assignment satisfying the path condition, under the fixed meaning of the real: functions"""
        if not C.pc: return SimModel(8 * self.n)
        if not real_ufs(C.pc): return rt.get_model()
        if tm.has_uf(C.pc): return None
        m = rt.get_model()
        bases = [{}] if m is None else [{}, {v.a[0]: m.get(v.a[0], 0) for v in tm.support(C.pc)}]
        ev = tm.Evaluator(C.pc)
        for i in range(300):
            sm = SimModel(random.randrange(1 << 28) * 8 + i % 8, bases[i % len(bases)])
            if all(ev(sm, sm.ufs)): return sm
        return None
    def recheck(self, m, cond):
        """the solver's model under the fixed meaning of the real: functions"""
        conds = C.pc + [cond]
        if not real_ufs(conds): return m
        if tm.has_uf(conds): return None
        sm = SimModel(8, {v.a[0]: m.get(v.a[0], 0) for v in tm.support(conds)})
        vals = sm.eval(conds)
        return sm if vals[-1] == 0 and all(vals[:-1]) else None
    def quick(self, cond, tmo):
        conds = C.pc + [tm.xor(1, cond, 1)]
        return smt.check(conds + axioms(conds), tmo)[0]
    def prove(self, label, cond, timeout=None):
        self.n += 1
        if type(cond) is int:
            if cond:
                smt.STATS.rewrite += 1
                self.rec(label, 'proved', 'rewrite'); return True
            m = self.pcmodel()
            if m is None: self.rec(label, 'unknown', 'no model'); return False
            self.refute(label, m); return False
        k = rt.simp(cond)
        if type(k) is int and k:
            smt.STATS.rewrite += 1
            self.rec(label, 'proved', 'rewrite'); return True
        m = self.simulate(cond)
        if m is not None:
            self.refute(label, m); return False
        neg = tm.xor(1, cond, 1)
        conds = C.pc + [neg]
        ax = axioms(conds)
        tmo = timeout or C.obtimeout
        if rt.flagged(): tmo = min(tmo, 3000)
        if C.deadline: tmo = min(tmo, max(1000, int((C.deadline - time.time()) * 1000)))
        r, m = smt.check(conds + ax, tmo)
        if r == 'unsat':
            self.rec(label, 'proved', 'z3'); return True
        if r == 'sat':
            m = self.recheck(m, cond)
            if m is None: self.rec(label, 'unknown', 'model not confirmed'); return False
            self.refute(label, m); return False
        self.rec(label, 'unknown', 'z3 timeout'); return False
    def prove_eq(self, label, la, lb):
        """byte lists equal"""
        if len(la) != len(lb):
            m = self.pcmodel()
            if m is None: self.rec(label, 'unknown', 'no model'); return
            self.refute(label, m, 'lengths %d and %d' % (len(la), len(lb))); return
        diff = [(a, b) for a, b in zip(la, lb) if not (a is b or (type(a) is int and a == b))]
        if not diff:
            smt.STATS.rewrite += 1
            self.rec(label, 'proved', 'rewrite'); return
        from . import sweep
        return sweep.prove_eq(self, label, diff)

OB = Obligations()
KNOWN = []        # (scenario, obligation) patterns of listed findings

class SymPrims:
    def __init__(self, P, E):
        self.P = P; self.E = E; self.polys = {}
        E.env = self.env
        self.names = {}
        for n in dir(self):
            if n.startswith('sym_'): P.over[n] = getattr(self, n)
    def env(self, kind, label, lo, hi):
        if kind == 'bytes':
            nm = self.name(label)
            cells = [tm.var('%s[%d]' % (nm, i), 8) for i in range(lo)]
            C.tape.append(('bytes', label, cells))
            return cells
        if kind == 'rdrand':
            nm = self.name(label)
            v = tm.var(nm, 64)
            C.tape.append(('asm', label, v))
            if self.rdfail <= 0: self.rdlog.append((v, 1)); return v, 1
            ok = tm.var(nm + '.ok', 1)
            C.tape.append(('asm', label, ok))
            self.rdfail -= 1
            self.rdlog.append((v, ok))
            return v, ok
        if type(hi) is T and kind != 'long': hi = rt.concretize(hi, 64, 'choice bound')
        nm = self.name(label)
        s = lambda x: x if type(x) is T else (x & M64)
        if type(lo) is int and type(hi) is int and lo == hi: v = lo
        else:
            v = tm.var(nm, 64)
            if kind == 'choose' and 0 <= lo <= hi: v = rt.choose(v, 64, lo, hi)
            else: rt.assume(tm.sle(64, s(lo), v)); rt.assume(tm.sle(64, v, s(hi)))
        if kind == 'choose' and type(v) is T: v = rt.concretize(v, 64, 'choice', 4096)
        C.tape.append(('int', label, v if type(v) is int else tm.extract(v, 64, 62, 0)))
        return v
    rdfail = 0; rdlog = []
    def name(self, l):
        if type(l) is not str: l = mlprims.pystr(l)
        k = self.names.get(l, 0); self.names[l] = k + 1
        return l if k == 0 else '%s.%d' % (l, k)
    def sym_bytes(self, l, n):
        nm = self.name(l)
        cells = [tm.var('%s[%d]' % (nm, i), 8) for i in range(mlprims.conc(n))]
        C.tape.append(('bytes', mlprims.pystr(l), cells))
        return Str(list(cells), nm)
    def sym_secret(self, l, n):
        nm = 'secret:' + self.name(l)
        cells = [tm.var('%s[%d]' % (nm, i), 8) for i in range(mlprims.conc(n))]
        C.tape.append(('bytes', mlprims.pystr(l), cells))
        return Str(list(cells), nm)
    def sym_int(self, l, lo, hi):
        """symbolic int in [lo, hi]"""
        lo = mlprims.conc(lo); hi = mlprims.conc(hi)
        nm = self.name(l)
        if lo == hi: v = lo
        elif lo >= 0:
            b = hi.bit_length()
            v = tm.zext(tm.var(nm, b), b, 63) if b < 63 else tm.var(nm, 63)
        else:
            b = max(hi.bit_length(), (-lo - 1).bit_length()) + 1
            v = tm.sext(tm.var(nm, b), b, 63)
        C.tape.append(('int', mlprims.pystr(l), v))
        if type(v) is T:
            rt.assume(tm.sle(63, lo & M63, v)); rt.assume(tm.sle(63, v, hi & M63))
        return v
    def sym_choose(self, l, lo, hi):
        """symbolic int in [lo, hi], explored value by value"""
        a = mlprims.conc(lo); b = mlprims.conc(hi)
        if 0 <= a < b:
            v = rt.choose(tm.var(self.name(l), 63), 63, a, b)
            C.tape.append(('int', mlprims.pystr(l), v))
            return v
        v = self.sym_int(l, lo, hi)
        if type(v) is int: return v
        return s63(rt.concretize(v, 63, 'choice', 4096))
    def sym_int64(self, l):
        v = tm.var(self.name(l), 64)
        C.tape.append(('int64', mlprims.pystr(l), v))
        return I64(v)
    def sym_assume(self, b):
        rt.assume(mlexec.cond63(b)); return 0
    def sym_check(self, l, b):
        OB.prove(mlprims.pystr(l), mlexec.cond63(b)); return 0
    def sym_check_eq(self, l, a, b):
        OB.prove_eq(mlprims.pystr(l), [mlprims.cell(a, i) for i in range(len(a.cells))], [mlprims.cell(b, i) for i in range(len(b.cells))])
        return 0
    def sym_spec(self, n, ints, strs):
        from . import specs
        nm = mlprims.pystr(n)
        if nm == 'rdrand_log':           # the words the instruction delivered, in order, cut to the requested length
            k = mlprims.conc(ints.fields[0])
            r = []
            for v, ok in self.rdlog:
                if rt.branch(ok) if type(ok) is T else ok: r += [tm.extract(v, 64, 8 * i + 7, 8 * i) for i in range(8)]
            r = r[:k] if len(r) < k + 8 else []
        elif nm == 'rdrand_failed':
            fails = 0; hit = False
            for v, ok in self.rdlog:
                fails = 0 if (rt.branch(ok) if type(ok) is T else ok) else fails + 1
                hit = hit or fails >= 10
            r = [ord('y' if hit else 'n')]
        else: r = specs.SPECS[nm](list(ints.fields), [[mlprims.cell(s, i) for i in range(len(s.cells))] for s in strs.fields])
        C.tape.append(('spec', nm, list(r)))
        return Str(list(r), 'spec')
    def sym_uf(self, n, k, strs):
        nm = mlprims.pystr(n); k = mlprims.conc(k)
        args = []; ws = []
        for s in strs.fields:
            if s.cells:
                args.append(tm.concat([(8, mlprims.cell(s, i)) for i in range(len(s.cells))])); ws.append(8 * len(s.cells))
            else: args.append(0); ws.append(1)
        r = None
        if nm.startswith('perm'):
            x = args[-1]
            inv = ('perm-' if nm[4] == '+' else 'perm+') + nm[5:]
            if type(x) is T and x.op == 'uf' and x.a[0] == inv and list(x.a[1][:-1]) == args[:-1]: r = x.a[1][-1]
        if r is None: r = self._apply(nm[5:], 8 * k, args, ws) if nm.startswith('real:') else tm.uf(nm, 8 * k, args, ws)
        cells = [tm.extract(r, 8 * k, 8 * (k - i) - 1, 8 * (k - i - 1)) for i in range(k)]
        C.tape.append(('uf', nm, cells))
        return Str(list(cells), nm)
    def sym_set(self, n, v):
        n = mlprims.pystr(n); v = mlprims.conc(v)
        if n == 'hw':
            self.E.cpu = dict(aes=v, pclmul=v, rdrand=v)
            C.hw = v
            for m in self.E.modules.values():
                if 'aes' in m.name or 'ghash' in m.name: m.gptr = {}; m.funcs = {}
        elif n == 'obtimeout': C.obtimeout = v * 1000
        elif n == 'maxcut': tm.MAXCUT = v
        elif n == 'words': tm.OPQ = bool(v)
        elif n == 'xlim': tm.XLIM = v
        elif n == 'uf-aes': self.abstract(v, 'caml_aes_cook_encrypt_key', 'caml_aes_encrypt')
        elif n == 'uf-ghash': self.abstract(v, 'caml_ghash_init', 'caml_ghash_mult', 'caml_ghash_wipe')
        elif n == 'uf-poly': self.abstract(v, 'caml_poly1305_init', 'caml_poly1305_update', 'caml_poly1305_final')
        elif n == 'rdfail': self.rdfail = v; self.rdlog = []
        elif n == 'gc': self.E.gc_model = bool(v)
        else: raise Unsupported('set ' + n)
        return 0
    # primitives replaced by functions with a fixed meaning (proved equal to the C code by other scenarios)
    def abstract(self, on, *names):
        if C.replaying: return
        for n in names:
            if on: self.P.over[n] = getattr(self, 'abs_' + n)
            else: self.P.over.pop(n, None)
        self.P.vm.pfun = [None] * len(self.P.vm.prims)
    def _rd(self, s, o, n, what):
        o = mlprims.conc(o)
        if o < 0 or o + n > len(s.cells): raise rt.MemFault('%s reads [%d,%d) of %d bytes' % (what, o, o + n, len(s.cells)))
        return [mlprims.cell(s, o + i) for i in range(n)]
    def _wr(self, s, o, l, what):
        o = mlprims.conc(o)
        if o < 0 or o + len(l) > len(s.cells): raise rt.MemFault('%s writes [%d,%d) of %d bytes' % (what, o, o + len(l), len(s.cells)))
        for i, c in enumerate(l): s.cells[o + i] = c
    def _cat(self, l): return tm.concat([(8, c) for c in l]) if l else 0
    def _split(self, r, k): return [tm.extract(r, 8 * k, 8 * (k - i) - 1, 8 * (k - i - 1)) for i in range(k)]
    def _apply(self, name, w, args, ws):
        if all(type(a) is int for a in args):
            from . import specs
            return specs.real(name, w, tuple(args))
        return tm.uf('real:' + name, w, args, ws)
    def abs_caml_aes_cook_encrypt_key(self, key):
        n = len(key.cells)
        return Str([mlprims.cell(key, i) for i in range(n)] + [0] * (240 - n) + [n], 'cooked')
    def abs_caml_aes_encrypt(self, ck, src, so, dst, do):
        n = ck.cells[-1]
        if n not in (16, 24, 32): n = 16          # wiped
        b = self._rd(src, so, 16, 'aes_encrypt')
        r = self._apply('aes%d' % n, 128, [self._cat(ck.cells[:n]), self._cat(b)], [8 * n, 128])
        self._wr(dst, do, self._split(r, 16), 'aes_encrypt')
        return 0
    def abs_caml_ghash_init(self, key):
        self._rd(key, 0, 16, 'ghash_init')
        return key
    def abs_caml_ghash_wipe(self, h):
        self._wr(h, 0, [0] * 16, 'ghash_wipe')
        return 0
    def abs_caml_ghash_mult(self, h, x):
        r = self._apply('gmul', 128, [self._cat(self._rd(h, 0, 16, 'ghash_mult')), self._cat(self._rd(x, 0, 16, 'ghash_mult'))], [128, 128])
        self._wr(x, 0, self._split(r, 16), 'ghash_mult')
        return 0
    def abs_caml_poly1305_init(self, key):
        c = Str(self._rd(key, 0, 32, 'poly1305_init') + [0] * 64, 'poly1305')
        self.polys[id(c)] = (c, [])
        return c
    def abs_caml_poly1305_update(self, c, src, o, n):
        n = mlprims.conc(n)
        self.polys[id(c)][1].extend(self._rd(src, o, n, 'poly1305_update'))
        return 0
    def abs_caml_poly1305_final(self, c):
        m = self.polys[id(c)][1]
        r = self._apply('poly1305_%d' % len(m), 128, [self._cat(c.cells[:32]), self._cat(m)], [256, max(8 * len(m), 1)])
        return Str(self._split(r, 16), 'tag')
    def sym_reach(self, l): rt.out({'reach': mlprims.pystr(l)}); return 0
    def sym_ready(self, l):
        r = []
        while not isimm(l):
            p = l.fields[0]; r.append((mlprims.pystr(p.fields[0]), p.fields[1])); l = l.fields[1]
        raise Ready(list(reversed(r)))
    def sym_native(self, u): return 0
    def sym_ctx(self, o, n):
        n = mlprims.conc(n)
        for v in o.fields[2:]:
            if isinstance(v, Str) and len(v.cells) >= n: return v
        return Str([], 'ctx')
    def sym_opaque(self, v): return v
    def sym_poison(self, b, n): return 0
    def walk(self, root):
        """all data cells reachable from root: list of (description, width, value)"""
        out = []; seen = set(); st = [('', root)]
        while st:
            d, v = st.pop()
            if type(v) is T: out.append((d, v.w, v)); continue
            if type(v) is int or isinstance(v, (float, Code)): continue
            k = (id(v.f) if type(v) is Clos else id(v))
            if k in seen: continue
            seen.add(k)
            if isinstance(v, Region):
                if (v.name or '').startswith('secret:'): continue       # the caller's own string, only referred to
                for i, c in enumerate(v.cells):
                    if type(c) is T: out.append(('%s[%d]' % (v.name or d, i), 8, c))
                    elif type(c) is tuple and c[1] == 0 and type(c[0]) is Ptr and not getattr(c[0].obj, 'ro', True):
                        st.append((d + '*', c[0].obj))
            elif isinstance(v, Block):
                for i, x in enumerate(v.fields): st.append((d + '.%d' % i, x))
            elif type(v) is Clos:
                for i, x in enumerate(v.f): st.append((d + '~%d' % i, x))
            elif isinstance(v, I64):
                if type(v.v) is T: out.append((d, v.w, v.v))
            elif hasattr(v, 'z_cells'): out.extend(v.z_cells())
        return out
    def sym_check_indep(self, l, o):
        """nothing reachable from o depends on a secret"""
        label = mlprims.pystr(l)
        cells = self.walk(o)
        for i, r in enumerate(self.E.mallocs):     # memory it gave back
            if r.freed: cells += [('freed block %d[%d]' % (i, k), 8, c) for k, c in enumerate(r.cells) if type(c) is T]
        bad = []
        for d, w, v in cells:
            sec = [x for x in tm.support([v]) if x.a[0].startswith('secret:')]
            if sec: bad.append((d, w, v))
        OB.n += 1
        if not bad:
            smt.STATS.rewrite += 1
            OB.rec(label, 'proved', 'rewrite', cells=len(cells)); return 0
        # two secrets giving different residues?
        for d, w, v in bad:
            for t in range(16):
                base = {}
                if C.pc:
                    m = rt.get_model()
                    if m is None: break
                    base = {x.a[0]: m.get(x.a[0], 0) for x in tm.support(C.pc)}
                s1 = SimModel(random.randrange(1 << 28) * 8, base)
                s2 = SimModel(s1.seed, base)
                for x in tm.support([v]):
                    if x.a[0].startswith('secret:') and x.a[0] not in base: s2[x.a[0]] = random.randrange(1 << x.w)
                if C.pc and not all(s2.eval(C.pc)): continue
                if s1.eval([v]) != s2.eval([v]):
                    # complete s2 for the tape
                    for e in C.tape:
                        if e[0] == 'bytes' and e[2] and type(e[2][0]) is T and e[2][0].a[0].startswith('secret:'):
                            for c in e[2]:
                                if c.a[0] not in base and dict.get(s2, c.a[0]) is None: s2[c.a[0]] = random.randrange(256)
                    OB.refute(label, s1, 'secret-dependent residue at %s' % d, alt=s2, kind='indep'); return 0
        for d, w, v in bad:
            ren = {x: tm.var(x.a[0] + "'", x.w) for x in tm.support([v]) if x.a[0].startswith('secret:')}
            v2 = substitute(v, ren)
            r, m = smt.check(C.pc + [tm.ne(w, v, v2)], C.obtimeout)
            if r != 'unsat':
                OB.rec(label, 'unknown', 'residue %s' % d); return 0
        OB.rec(label, 'proved', 'z3', cells=len(cells))
        return 0
    def sym_finalise(self, o):
        """run the finalisers of all C contexts held by o; returns their number"""
        seen = set(); st = [o]; n = 0
        while st:
            v = st.pop()
            if isimm(v) or isinstance(v, (float, Code)): continue
            k = id(v.f) if type(v) is Clos else id(v)
            if k in seen: continue
            seen.add(k)
            if isinstance(v, mem.Custom):
                ops = mem.LOAD(Ptr(v, 0), 8)
                f = mem.LOAD(mem.padd(ops, 8), 8)
                if type(f) is int and f == 0: continue
                f(Ptr(v, 0)) if callable(f) else f.mod.get(f.name)(Ptr(v, 0)); n += 1
            elif isinstance(v, Block): st.extend(v.fields)
            elif type(v) is Clos: st.extend(x for x in v.f if x is not None)
        return n
    def sym_check_unshared(self, l, o, strs):
        """no mutable buffer reachable from o is one of strs"""
        label = mlprims.pystr(l)
        ids = {id(s): i for i, s in enumerate(strs.fields)}
        seen = set(); st = [o]; hit = None
        while st:
            v = st.pop()
            if isimm(v) or isinstance(v, (float, Code)): continue
            k = id(v.f) if type(v) is Clos else id(v)
            if k in seen: continue
            seen.add(k)
            if id(v) in ids: hit = ids[id(v)]
            if isinstance(v, Block): st.extend(v.fields)
            elif type(v) is Clos: st.extend(x for x in v.f if x is not None)
        OB.prove(label, 0 if hit is not None else 1)
        return 0
    def sym_forge(self, o, ofs, v):
        raise Unsupported('forge')
    def sym_chunks(self, l, n):
        """a symbolic partition of n bytes into non-empty reads"""
        n = mlprims.conc(n)
        parts = []; left = n; nm = self.name(l)
        while left > 0:
            v = tm.var('%s#%d' % (nm, len(parts)), 16)
            rt.assume(tm.ule(16, 1, v)); rt.assume(tm.ule(16, v, left))
            k = rt.concretize(v, 16, 'chunk')
            parts.append(k); left -= k
        C.tape.append(('chunks', mlprims.pystr(l), ''.join('%d,' % p for p in parts)))
        return Block(0, list(parts)) if parts else mlexec.atom(0)

    def sym_chan_in(self, s, chunks):
        c = mlprims.Chan('in'); c.data = list(s.cells); c.chunks = [x for x in chunks.fields]
        return c
    def sym_chan_out(self, u): return mlprims.Chan('out')
    def sym_chan_text(self, c): return Str(list(c.out), 'written')

def substitute(v, ren):
    memo = dict(ren)
    for t in tm.topo([v]):
        if t in memo: continue
        memo[t] = tm.rebuild(t, memo)
    return memo[v]

# ------------------------------------------------------------------ running
def show_exn(v):
    try:
        if isinstance(v, Block) and v.tag == 248: return mlprims.pystr(v.fields[0])
        if isinstance(v, Block):
            n = mlprims.pystr(v.fields[0].fields[0])
            a = []
            for x in v.fields[1:]:
                if isinstance(x, Str) and all(type(c) is int for c in x.cells): a.append(mlprims.pystr(x))
                elif type(x) is int: a.append(str(x))
                else: a.append('_')
            return '%s(%s)' % (n, ','.join(a))
    except Exception: pass
    return 'exception'

class Machine:
    def __init__(self, exe, irs, overrides=None):
        self.E = cext.Externs()
        for o in irs: self.E.load(o, open(o).read())
        self.P = mlprims.Prims()
        self.P.E = self.E
        self.S = SymPrims(self.P, self.E)
        self.vm = mlexec.VM(exe, self.E, self.P)
        try:
            self.vm.run_main()
            raise RuntimeError('harness did not call Sym.ready')
        except Ready as e: self.scenarios = e.args[0]
        except MLRaise as e: raise RuntimeError('initialisation raised ' + show_exn(e.v))
        self.vm.stack = []

    def run_one(self, name, f):
        """executed inside an exploring process"""
        C.tape = []; C.scenario = name; C.hw = 1
        try:
            self.vm.apply(f, [0])
            rt.out({'end': 'ok'})
        except MLRaise as e:
            self.fault('uncaught exception', show_exn(e.v), 'exn')
        except rt.MemFault as e: self.fault('memory safety', str(e), 'mem')
        except rt.GCFault as e: self.fault('gc safety', str(e), 'gc')
        except rt.CAbort as e: self.fault('abort', str(e), 'abort')
    def fault(self, label, msg, kind):
        rt.out({'end': kind})
        m = OB.pcmodel()
        if m is None: rt.out({'end': 'unsupported', 'msg': 'no model for ' + label}); return
        OB.refute(label, m, msg, kind=kind)

def run_scenarios(machine, resdir, select=None, njobs=8, per=120, total=600, obtimeout=20000):
    """returns dict scenario -> list of records"""
    os.makedirs(resdir, exist_ok=True)
    r, w = os.pipe()
    os.set_blocking(r, False)
    C.obtimeout = obtimeout
    t0 = time.time()
    todo = [(i, n, f) for i, (n, f) in enumerate(machine.scenarios) if select is None or select(n)]
    running = {}
    tokens = njobs
    res = {}
    stop = t0 + total
    free = njobs
    pend = list(todo)
    skipped = []; hard = set()
    os.write(w, b'x' * njobs)
    while pend or running:
        got = None
        if pend:
            try: got = os.read(r, 1)
            except BlockingIOError: got = None
        if got and pend:
            i, n, f = pend.pop(0)
            if time.time() > stop:
                skipped.append(n); os.write(w, b'x'); continue
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    C.jobs = (r, w)
                    rt.explore1(lambda: machine.run_one(n, f), os.path.join(resdir, '%d.jsonl' % i), min(stop, time.time() + per))
                finally: os._exit(0)
            running[pid] = (n, min(stop, time.time() + per))
        elif running:
            # wait for a child (or, when tokens are lent out, poll)
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.005)
                now = time.time()
                for p_, (n_, d_) in running.items():
                    if now > d_ + obtimeout / 1000 + 15:
                        try: os.killpg(p_, 9)
                        except ProcessLookupError: pass
                        hard.add(n_)
            elif pid in running: running.pop(pid); os.write(w, b'x')
        else: time.sleep(0.005)
    os.close(r); os.close(w)
    for i, n, f in todo:
        p = os.path.join(resdir, '%d.jsonl' % i)
        recs = []
        if os.path.exists(p):
            for line in open(p):
                try: recs.append(json.loads(line))
                except ValueError: recs.append({'end': 'internal', 'msg': 'truncated record'})
        else: recs.append({'end': 'timeout', 'msg': 'not started'})
        if n in hard: recs.append({'end': 'timeout', 'msg': 'killed at the hard limit'})
        res[n] = recs
    return res

# ------------------------------------------------------------------ concrete replay inside the engine
class Diverged(Exception): pass
def replay_mode(machine, tape, indep=False):
    """make the Sym externals return the values of a tape (secrets stay symbolic for indep)"""
    ents = [e.split('|') for e in tape]
    pos = [0]
    S = machine.S; P = machine.P; C.replaying = True
    def nxt(kind, label):
        if pos[0] >= len(ents): raise Unsupported('replay diverged')
        e = ents[pos[0]]; pos[0] += 1
        if e[0] != kind or e[1] != label: raise Unsupported('replay diverged')
        return e[2]
    def rb(l, n): return Str(list(bytes.fromhex(nxt('bytes', mlprims.pystr(l)))), mlprims.pystr(l))
    def ri(l, a, b): return int(nxt('int', mlprims.pystr(l)))
    orig_secret = S.sym_secret
    def rs(l, n):
        nxt('bytes', mlprims.pystr(l))
        return orig_secret(l, n)
    over = {'sym_bytes': rb, 'sym_secret': rs if indep else rb, 'sym_int': ri, 'sym_choose': ri,
            'sym_int64': lambda l: I64(int(nxt('int64', mlprims.pystr(l)))),
            'sym_spec': lambda n, i, s: Str(list(bytes.fromhex(nxt('spec', mlprims.pystr(n))))),
            'sym_uf': lambda n, k, s: Str(list(bytes.fromhex(nxt('uf', mlprims.pystr(n))))),
            'sym_chunks': lambda l, n: Block(0, [int(x) for x in nxt('chunks', mlprims.pystr(l)).split(',') if x])}
    def renv(kind, label, lo, hi):
        if kind == 'bytes': return list(bytes.fromhex(nxt('bytes', label)))
        if kind == 'rdrand':
            v = int(nxt('asm', label))
            if S.rdfail <= 0: return v, 1
            S.rdfail -= 1
            return v, int(nxt('asm', label))
        return int(nxt('int', label)) & M64
    machine.E.env = renv
    P.over.update(over)
    machine.vm.pfun = [None] * len(machine.vm.prims)
