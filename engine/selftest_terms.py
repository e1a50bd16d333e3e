"""Validate the rewriting constructors of term.py against z3's own semantics:
random expressions are built twice (normalised / directly in z3) and the
solver must show them equal."""
import random, sys, z3
from . import term as tm, smt
def run(seed=1, n=400):
    rnd = random.Random(seed)
    bad = 0
    for it in range(n):
        W = [1, 4, 8, 16, 32][rnd.randrange(5)] if it % 3 else 8
        tm.MAXCUT = rnd.choice([8, 64]); tm.OPQ = rnd.random() < 0.4
        vs = [('v%d_%d' % (i, w), w) for i in range(2) for w in (1, 4, 8, 16, 32)]
        def leaf(w):
            if rnd.random() < 0.25:
                c = rnd.choice([0, 1, (1 << w) - 1, rnd.getrandbits(w), 1 << rnd.randrange(w)])
                return c, z3.BitVecVal(c, w)
            i = rnd.randrange(2)
            return tm.var('v%d_%d' % (i, w), w), z3.BitVec('v%d_%d' % (i, w), w)
        def gen(w, d):
            if d == 0: return leaf(w)
            k = rnd.randrange(20)
            if k <= 3:
                a, za = gen(w, d-1); b, zb = gen(w, d-1)
                return [(tm.xor(w, a, b), za ^ zb), (tm.and_(w, a, b), za & zb), (tm.or_(w, a, b), za | zb), (tm.not_(w, a), ~za)][k]
            if k <= 6:
                a, za = gen(w, d-1); b, zb = gen(w, d-1)
                return [(tm.add(w, a, b), za + zb), (tm.sub(w, a, b), za - zb), (tm.mul(w, a, b), za * zb)][k-4] if w <= 16 or k < 6 else (tm.add(w, a, b), za + zb)
            if k <= 9:
                a, za = gen(w, d-1); s = rnd.randrange(w)
                return [(tm.shl(w, a, s), za << s), (tm.lshr(w, a, s), z3.LShR(za, s)), (tm.ashr(w, a, s), za >> s)][k-7]
            if k == 10:
                a, za = gen(w, d-1); s = rnd.randrange(w)
                return tm.rotl(w, a, s), z3.RotateLeft(za, s)
            if k == 11 and w > 1:
                h = rnd.randrange(1, w)
                a, za = gen2(h, d-1); b, zb = gen2(w-h, d-1)
                return tm.concat([(h, a), (w-h, b)]), z3.Concat(za, zb)
            if k == 12:
                c, zc = gen(1, d-1); a, za = gen(w, d-1); b, zb = gen(w, d-1)
                return tm.ite(w, c, a, b), z3.If(zc == 1, za, zb)
            if k == 13 and w <= 8:
                wi = rnd.choice([1, 4]); i, zi = gen(wi, d-1)
                L = rnd.random() < .3
                if L:
                    bs = [rnd.getrandbits(w) for _ in range(wi)]
                    tab = []
                    for x in range(1 << wi):
                        r = 0
                        for j in range(wi):
                            if x >> j & 1: r ^= bs[j]
                        tab.append(r)
                else: tab = [rnd.getrandbits(w) for _ in range(1 << wi)]
                return tm.rom(tab, w, i, wi), smt._romz(tuple(tab), w, zi, wi)
            if k == 14 and w <= 16:
                wi = 2
                i, zi = gen2(wi, d-1)
                vs = [gen(w, d-1) for _ in range(4)]
                return tm.sel([v[0] for v in vs], w, i, wi), smt._selz([v[1] for v in vs], w, zi, wi)
            if k == 15 and w == 1:
                w2 = rnd.choice([4, 8, 16]); a, za = gen(w2, d-1); b, zb = gen(w2, d-1)
                j = rnd.randrange(3)
                return [(tm.eq(w2, a, b), smt._b(za == zb)), (tm.ult(w2, a, b), smt._b(z3.ULT(za, zb))), (tm.slt(w2, a, b), smt._b(za < zb))][j]
            if k == 16 and w > 1:
                h = rnd.randrange(1, w); a, za = gen2(h, d-1)
                if rnd.random() < .5: return tm.zext(a, h, w), z3.ZeroExt(w-h, za)
                return tm.sext(a, h, w), z3.SignExt(w-h, za)
            if k == 17 and w <= 16:
                w2 = w * 2; lo = rnd.randrange(w2 - w + 1)
                a, za = gen2(w2, d-1)
                return tm.extract(a, w2, lo+w-1, lo), z3.Extract(lo+w-1, lo, za)
            if k == 18 and w <= 8 and w > 1:
                a, za = gen(w, d-1); c = rnd.getrandbits(w) | 1
                return tm.udiv(w, a, c), z3.UDiv(za, z3.BitVecVal(c, w))
            if k == 19 and w <= 8:
                a, za = gen(w, d-1); b, zb = gen2(3, d-1)
                b2 = tm.zext(b, 3, 8); zb2 = z3.ZeroExt(5, zb)
                if w == 8: return tm.shl(8, a, b2), za << zb2
            return gen(w, d-1)
        def gen2(w, d):
            # arbitrary width from standard widths
            for W2 in (1, 4, 8, 16, 32):
                if W2 >= w: break
            a, za = gen(W2, d)
            if W2 == w: return a, za
            return tm.extract(a, W2, w-1, 0), z3.Extract(w-1, 0, za)
        a, za = gen(W, 4)
        e = z3.BitVecVal(a, W) if type(a) is int else smt.toz3(a)
        if type(a) is tm.T: assert a.w == W, (a.w, W)
        s = z3.Solver(); s.set('timeout', 10000)
        s.add(e != za)
        r = s.check()
        if r == z3.sat:
            print('MISMATCH', it, a, za, s.model()); bad += 1
            if bad > 3: return bad
        # evaluation agrees with z3, bounds sound
        if type(a) is tm.T:
            env = {n: rnd.getrandbits(w) for n, w in vs}
            v = tm.evaluate([a], env)[0]
            zz = z3.simplify(z3.substitute(za, *[(z3.BitVec(n, w), z3.BitVecVal(env[n], w)) for n, w in vs])).as_long()
            if v != zz or v > a.mx or v & a.kz: print('EVAL MISMATCH', it, a, hex(v), hex(zz), a.mx, a.kz); bad += 1
    tm.MAXCUT = 8
    return bad
if __name__ == '__main__':
    b = run(int(sys.argv[1]) if len(sys.argv) > 1 else 1, int(sys.argv[2]) if len(sys.argv) > 2 else 400)
    print('bad', b); sys.exit(1 if b else 0)
