"""Reference definitions of the published standards, on ints or terms.

Every function takes and returns lists of byte values (int or 8-bit T).  They are
written from the standards' text, share no code with /repo, and are validated
against published vectors / hashlib by engine/selftest_specs.py.
"""
from . import term as tm
from .term import ult, zext, xor, and_, or_, add, addn, rotl, extract, concat, shl, lshr, not_, rom, sel, ite, eq
from .cext import SBOX, ISBOX, gf, gmul
SPECS = {}
def spec(f): SPECS[f.__name__] = f; return f
from .term import Unsupported

def be(b): return concat([(8, x) for x in b]) if b else 0
def le(b): return concat([(8, x) for x in reversed(b)]) if b else 0
def tobe(v, n): return [extract(v, 8 * n, 8 * (n - i) - 1, 8 * (n - i - 1)) for i in range(n)]
def tole(v, n): return [extract(v, 8 * n, 8 * i + 7, 8 * i) for i in range(n)]
def xors(a, b): return [xor(8, x, y) for x, y in zip(a, b)]

# ------------------------------------------------------------------ AES (FIPS 197)
def aes_expand(key):
    nk = len(key) // 4; nr = nk + 6
    w = [key[4*i:4*i+4] for i in range(nk)]
    rcon = 1
    for i in range(nk, 4 * (nr + 1)):
        t = w[i-1]
        if i % nk == 0:
            t = [rom(SBOX, 8, x, 8) for x in t[1:] + t[:1]]
            t = [xor(8, t[0], rcon)] + t[1:]
            rcon = gmul(rcon, 2)
        elif nk > 6 and i % nk == 4: t = [rom(SBOX, 8, x, 8) for x in t]
        w.append(xors(w[i-nk], t))
    return [sum(w[4*r:4*r+4], []) for r in range(nr + 1)]
def _mixcol(s, m):
    o = []
    for c in range(4):
        a = s[4*c:4*c+4]
        for r in range(4):
            v = 0
            for k in range(4): v = xor(8, v, gf(m[(k - r) % 4], a[k]))
            o.append(v)
    return o
def aes_enc(key, blk):
    rk = aes_expand(key); n = len(rk) - 1
    s = xors(blk, rk[0])
    for r in range(1, n + 1):
        s = [rom(SBOX, 8, x, 8) for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < n: s = _mixcol(s, (2, 3, 1, 1))
        s = xors(s, rk[r])
    return s
def aes_dec(key, blk):
    rk = aes_expand(key); n = len(rk) - 1
    s = xors(blk, rk[n])
    for r in range(n - 1, -1, -1):
        s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
        s = [rom(ISBOX, 8, x, 8) for x in s]
        s = xors(s, rk[r])
        if r: s = _mixcol(s, (14, 11, 13, 9))
    return s
SPECS['aes_enc'] = lambda i, s: aes_enc(s[0], s[1])
SPECS['aes_dec'] = lambda i, s: aes_dec(s[0], s[1])

# ------------------------------------------------------------------ DES (FIPS 46-3)
_IP = [58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,
       57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7]
_FP = [40,8,48,16,56,24,64,32,39,7,47,15,55,23,63,31,38,6,46,14,54,22,62,30,37,5,45,13,53,21,61,29,
       36,4,44,12,52,20,60,28,35,3,43,11,51,19,59,27,34,2,42,10,50,18,58,26,33,1,41,9,49,17,57,25]
_E = [32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1]
_Pp = [16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25]
_PC1 = [57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,
        63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4]
_PC2 = [14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32]
_SH = [1,1,2,2,2,2,2,2,1,2,2,2,2,2,2,1]
_S = ["e4d12fb83a6c5907" "0f74e2d1a6cbb9538"[0:0], ]
_SB = [
 "14 4 13 1 2 15 11 8 3 10 6 12 5 9 0 7 0 15 7 4 14 2 13 1 10 6 12 11 9 5 3 8 4 1 14 8 13 6 2 11 15 12 9 7 3 10 5 0 15 12 8 2 4 9 1 7 5 11 3 14 10 0 6 13",
 "15 1 8 14 6 11 3 4 9 7 2 13 12 0 5 10 3 13 4 7 15 2 8 14 12 0 1 10 6 9 11 5 0 14 7 11 10 4 13 1 5 8 12 6 9 3 2 15 13 8 10 1 3 15 4 2 11 6 7 12 0 5 14 9",
 "10 0 9 14 6 3 15 5 1 13 12 7 11 4 2 8 13 7 0 9 3 4 6 10 2 8 5 14 12 11 15 1 13 6 4 9 8 15 3 0 11 1 2 12 5 10 14 7 1 10 13 0 6 9 8 7 4 15 14 3 11 5 2 12",
 "7 13 14 3 0 6 9 10 1 2 8 5 11 12 4 15 13 8 11 5 6 15 0 3 4 7 2 12 1 10 14 9 10 6 9 0 12 11 7 13 15 1 3 14 5 2 8 4 3 15 0 6 10 1 13 8 9 4 5 11 12 7 2 14",
 "2 12 4 1 7 10 11 6 8 5 3 15 13 0 14 9 14 11 2 12 4 7 13 1 5 0 15 10 3 9 8 6 4 2 1 11 10 13 7 8 15 9 12 5 6 3 0 14 11 8 12 7 1 14 2 13 6 15 0 9 10 4 5 3",
 "12 1 10 15 9 2 6 8 0 13 3 4 14 7 5 11 10 15 4 2 7 12 9 5 6 1 13 14 0 11 3 8 9 14 15 5 2 8 12 3 7 0 4 10 1 13 11 6 4 3 2 12 9 5 15 10 11 14 1 7 6 0 8 13",
 "4 11 2 14 15 0 8 13 3 12 9 7 5 10 6 1 13 0 11 7 4 9 1 10 14 3 5 12 2 15 8 6 1 4 11 13 12 3 7 14 10 15 6 8 0 5 9 2 6 11 13 8 1 4 10 7 9 5 0 15 14 2 3 12",
 "13 2 8 4 6 15 11 1 10 9 3 14 5 0 12 7 1 15 13 8 10 3 7 4 12 5 6 11 0 14 9 2 7 11 4 1 9 12 14 2 0 6 10 13 15 3 5 8 2 1 14 7 4 10 8 13 15 12 9 0 3 5 6 11"]
def _mks(t):
    t = [int(x) for x in t.split()]
    return [t[(((i >> 4) & 2) | (i & 1)) * 16 + ((i >> 1) & 15)] for i in range(64)]
_SBX = [_mks(t) for t in _SB]
def _bits(b):
    o = []
    for x in b: o += [extract(x, 8, 7 - i, 7 - i) for i in range(8)]
    return o
def _unbits(b): return [concat([(1, x) for x in b[8*i:8*i+8]]) for i in range(len(b) // 8)]
def des(key, blk, dec=False):
    k = _bits(key)
    k = [k[i-1] for i in _PC1]
    c, d = k[:28], k[28:]
    ks = []
    for s in _SH:
        c = c[s:] + c[:s]; d = d[s:] + d[:s]
        cd = c + d
        ks.append([cd[i-1] for i in _PC2])
    if dec: ks.reverse()
    b = _bits(blk)
    b = [b[i-1] for i in _IP]
    l, r = b[:32], b[32:]
    for kk in ks:
        e = [r[i-1] for i in _E]
        o = []
        for j in range(8):
            x = [xor(1, e[6*j+i], kk[6*j+i]) for i in range(6)]
            v = rom(_SBX[j], 4, concat([(1, y) for y in x]), 6)
            o += [extract(v, 4, 3 - i, 3 - i) for i in range(4)]
        f = [o[i-1] for i in _Pp]
        l, r = r, [xor(1, x, y) for x, y in zip(l, f)]
    b = r + l
    return _unbits([b[i-1] for i in _FP])
def des3(key, blk, dec=False):
    k1, k2 = key[:8], key[8:16]
    k3 = key[16:24] if len(key) == 24 else k1
    if not dec: return des(k3, des(k2, des(k1, blk), True))
    return des(k1, des(k2, des(k3, blk, True)), True)
SPECS['des_enc'] = lambda i, s: des(s[0], s[1]); SPECS['des_dec'] = lambda i, s: des(s[0], s[1], True)
SPECS['des3_enc'] = lambda i, s: des3(s[0], s[1]); SPECS['des3_dec'] = lambda i, s: des3(s[0], s[1], True)

# ------------------------------------------------------------------ Blowfish (Schneier 1993)
_pi = None
def pi_words():
    """first 18 + 1024 32-bit words of the fractional part of pi"""
    global _pi
    if _pi is None:
        bits = 32 * 1042 + 64
        one = 1 << bits
        def atan_inv(x):
            t = one // x; s = t; n = 3; x2 = x * x; sg = -1
            while t:
                t //= x2; s += sg * (t // n); n += 2; sg = -sg
            return s
        pi = 4 * (4 * atan_inv(5) - atan_inv(239))
        frac = (pi - 3 * one) >> 64
        _pi = [(frac >> (32 * (1041 - i))) & 0xffffffff for i in range(1042)]
    return _pi
def _bf_F(S, x):
    a, b, c, d = [extract(x, 32, 31 - 8*i, 24 - 8*i) for i in range(4)]
    h = add(32, sel(S[0], 32, a, 8), sel(S[1], 32, b, 8))
    return add(32, xor(32, h, sel(S[2], 32, c, 8)), sel(S[3], 32, d, 8))
def _bf_enc(P, S, l, r):
    for i in range(16):
        l = xor(32, l, P[i])
        r = xor(32, r, _bf_F(S, l))
        l, r = r, l
    l, r = r, l
    return xor(32, l, P[17]), xor(32, r, P[16])
def bf_key(key):
    w = pi_words()
    P = list(w[:18]); S = [list(w[18+256*i:18+256*(i+1)]) for i in range(4)]
    j = 0
    for i in range(18):
        P[i] = xor(32, P[i], be([key[(j + k) % len(key)] for k in range(4)])); j += 4
    l = r = 0
    for i in range(0, 18, 2):
        l, r = _bf_enc(P, S, l, r); P[i], P[i+1] = l, r
    for b in range(4):
        for i in range(0, 256, 2):
            l, r = _bf_enc(P, S, l, r); S[b][i], S[b][i+1] = l, r
    return P, S
def blowfish(key, blk, dec=False):
    P, S = bf_key(key)
    if dec: P = P[::-1]
    l, r = _bf_enc(P, S, be(blk[:4]), be(blk[4:]))
    return tobe(l, 4) + tobe(r, 4)
SPECS['blowfish_enc'] = lambda i, s: blowfish(s[0], s[1]); SPECS['blowfish_dec'] = lambda i, s: blowfish(s[0], s[1], True)

# ------------------------------------------------------------------ hashes
def _pad_md(msg, block, lenbytes, little, prefix=0):
    n = len(msg) + prefix
    p = [0x80] + [0] * ((block - (n + 1 + lenbytes)) % block)
    L = (8 * n).to_bytes(lenbytes, 'little' if little else 'big')
    return msg + p + list(L)
def _primes(n):
    p = []; k = 2
    while len(p) < n:
        if all(k % q for q in p): p.append(k)
        k += 1
    return p
def _iroot(n, k):
    x = 1 << ((n.bit_length() + k - 1) // k + 1)
    while True:
        y = ((k - 1) * x + n // x ** (k - 1)) // k
        if y >= x: return x
        x = y
def _frac_root(p, k, bits): return _iroot(p << (k * bits), k) & ((1 << bits) - 1)

def sha1(msg):
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
    m = _pad_md(msg, 64, 8, False)
    for o in range(0, len(m), 64): h = sha1_block(h, m[o:o+64])
    return sum((tobe(x, 4) for x in h), [])
def sha1_block(h, b):
    w = [be(b[4*i:4*i+4]) for i in range(16)]
    for t in range(16, 80): w.append(rotl(32, xor(32, xor(32, w[t-3], w[t-8]), xor(32, w[t-14], w[t-16])), 1))
    a, bb, c, d, e = h
    for t in range(80):
        if t < 20: f = xor(32, and_(32, bb, c), and_(32, not_(32, bb), d)); k = 0x5a827999
        elif t < 40: f = xor(32, xor(32, bb, c), d); k = 0x6ed9eba1
        elif t < 60: f = xor(32, xor(32, and_(32, bb, c), and_(32, bb, d)), and_(32, c, d)); k = 0x8f1bbcdc
        else: f = xor(32, xor(32, bb, c), d); k = 0xca62c1d6
        T = add(32, add(32, add(32, add(32, rotl(32, a, 5), f), e), k), w[t])
        e = d; d = c; c = rotl(32, bb, 30); bb = a; a = T
    return [add(32, x, y) for x, y in zip(h, (a, bb, c, d, e))]
def _sha2_block(h, b, W, R, K, S0, S1, s0, s1):
    n = W // 8
    def bs(x, r): return xor(W, xor(W, rotl(W, x, W - r[0]), rotl(W, x, W - r[1])), rotl(W, x, W - r[2]))
    def ss(x, r): return xor(W, xor(W, rotl(W, x, W - r[0]), rotl(W, x, W - r[1])), lshr(W, x, r[2]))
    w = [be(b[n*i:n*i+n]) for i in range(16)]
    for t in range(16, R): w.append(add(W, add(W, ss(w[t-2], s1), w[t-7]), add(W, ss(w[t-15], s0), w[t-16])))
    a, bb, c, d, e, f, g, hh = h
    for t in range(R):
        ch = xor(W, and_(W, e, f), and_(W, not_(W, e), g))
        mj = xor(W, xor(W, and_(W, a, bb), and_(W, a, c)), and_(W, bb, c))
        t1 = addn(W, K[t], [(1, hh), (1, bs(e, S1)), (1, ch), (1, w[t])])
        t2 = add(W, bs(a, S0), mj)
        hh = g; g = f; f = e; e = add(W, d, t1); d = c; c = bb; bb = a; a = add(W, t1, t2)
    return [add(W, x, y) for x, y in zip(h, (a, bb, c, d, e, f, g, hh))]
_K256 = [_frac_root(p, 3, 32) for p in _primes(64)]
_K512 = [_frac_root(p, 3, 64) for p in _primes(80)]
_H256 = [_frac_root(p, 2, 32) for p in _primes(8)]
_H512 = [_frac_root(p, 2, 64) for p in _primes(8)]
_H384 = [_frac_root(p, 2, 64) for p in _primes(16)[8:]]
_H224 = [x & 0xffffffff for x in _H384]
def sha256_block(h, b): return _sha2_block(h, b, 32, 64, _K256, (2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10))
def sha512_block(h, b): return _sha2_block(h, b, 64, 80, _K512, (28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6))
def sha256(msg, H=_H256, n=32):
    h = list(H); m = _pad_md(msg, 64, 8, False)
    for o in range(0, len(m), 64): h = sha256_block(h, m[o:o+64])
    return sum((tobe(x, 4) for x in h), [])[:n]
def sha224(msg): return sha256(msg, _H224, 28)
def sha512(msg, H=_H512, n=64):
    h = list(H); m = _pad_md(msg, 128, 16, False)
    for o in range(0, len(m), 128): h = sha512_block(h, m[o:o+128])
    return sum((tobe(x, 8) for x in h), [])[:n]
def sha384(msg): return sha512(msg, _H384, 48)

import math
_MD5K = [int(abs(math.sin(i + 1)) * (1 << 32)) & 0xffffffff for i in range(64)]
_MD5R = [7, 12, 17, 22] * 4 + [5, 9, 14, 20] * 4 + [4, 11, 16, 23] * 4 + [6, 10, 15, 21] * 4
def md5_compress(st, blk):
    w = [le(blk[4*i:4*i+4]) for i in range(16)]
    a, b, c, d = st
    for i in range(64):
        if i < 16: f = xor(32, and_(32, b, c), and_(32, not_(32, b), d)); g = i
        elif i < 32: f = xor(32, and_(32, d, b), and_(32, not_(32, d), c)); g = (5 * i + 1) % 16
        elif i < 48: f = xor(32, xor(32, b, c), d); g = (3 * i + 5) % 16
        else: f = xor(32, c, or_(32, b, not_(32, d))); g = (7 * i) % 16
        t = addn(32, _MD5K[i], [(1, a), (1, f), (1, w[g])])
        a, d, c, b = d, c, b, add(32, b, rotl(32, t, _MD5R[i]))
    return [add(32, x, y) for x, y in zip(st, (a, b, c, d))]
def md5(msg):
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]; m = _pad_md(msg, 64, 8, True)
    for o in range(0, len(m), 64): h = md5_compress(h, m[o:o+64])
    return sum((tole(x, 4) for x in h), [])

_RL = [list(range(16)), [7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8], [3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12],
       [1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2], [4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13]]
_RR = [[5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12], [6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2], [15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13],
       [8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14], [12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11]]
_SL = [[11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8], [7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12], [11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5],
       [11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12], [9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6]]
_SR = [[8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6], [9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11], [9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5],
       [15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8], [8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11]]
def _rmf(j, x, y, z):
    if j == 0: return xor(32, xor(32, x, y), z)
    if j == 1: return or_(32, and_(32, x, y), and_(32, not_(32, x), z))
    if j == 2: return xor(32, or_(32, x, not_(32, y)), z)
    if j == 3: return or_(32, and_(32, x, z), and_(32, y, not_(32, z)))
    return xor(32, x, or_(32, y, not_(32, z)))
def ripemd160_block(h, blk):
    w = [le(blk[4*i:4*i+4]) for i in range(16)]
    KL = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]; KR = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
    res = []
    for R, S, K, rv in ((_RL, _SL, KL, 0), (_RR, _SR, KR, 1)):
        a, b, c, d, e = h
        for j in range(80):
            q = j // 16
            f = _rmf(4 - q if rv else q, b, c, d)
            t = add(32, rotl(32, addn(32, K[q], [(1, a), (1, f), (1, w[R[q][j % 16]])]), S[q][j % 16]), e)
            a = e; e = d; d = rotl(32, c, 10); c = b; b = t
        res.append((a, b, c, d, e))
    A, B = res
    return [addn(32, 0, [(1, h[1]), (1, A[2]), (1, B[3])]), addn(32, 0, [(1, h[2]), (1, A[3]), (1, B[4])]),
            addn(32, 0, [(1, h[3]), (1, A[4]), (1, B[0])]), addn(32, 0, [(1, h[4]), (1, A[0]), (1, B[1])]), addn(32, 0, [(1, h[0]), (1, A[1]), (1, B[2])])]
def ripemd160(msg):
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]; m = _pad_md(msg, 64, 8, True)
    for o in range(0, len(m), 64): h = ripemd160_block(h, m[o:o+64])
    return sum((tole(x, 4) for x in h), [])

# Keccak (FIPS 202)
def _keccak_consts():
    rc = []; R = 1
    for _ in range(24):
        v = 0
        for j in range(7):
            if R & 1: v |= 1 << ((1 << j) - 1)
            R <<= 1
            if R & 256: R ^= 0x171
        rc.append(v)
    off = {(0, 0): 0}; x, y = 1, 0
    for t in range(24):
        off[(x, y)] = ((t + 1) * (t + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5
    return rc, off
_KRC, _KOFF = _keccak_consts()
def keccak_f(A):
    A = list(A)
    for r in range(24):
        Cc = [0] * 5
        for x in range(5):
            for y in range(5): Cc[x] = xor(64, Cc[x], A[x + 5 * y])
        D = [xor(64, Cc[(x - 1) % 5], rotl(64, Cc[(x + 1) % 5], 1)) for x in range(5)]
        A = [xor(64, A[i], D[i % 5]) for i in range(25)]
        B = [0] * 25
        for x in range(5):
            for y in range(5): B[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(64, A[x + 5 * y], _KOFF[(x, y)])
        A = [xor(64, B[i], and_(64, not_(64, B[(i % 5 + 1) % 5 + 5 * (i // 5)]), B[(i % 5 + 2) % 5 + 5 * (i // 5)])) for i in range(25)]
        A[0] = xor(64, A[0], _KRC[r])
    return A
def sha3(msg, bits, dom=0x06):
    rate = 200 - bits // 4
    m = list(msg) + [dom] + [0] * ((-len(msg) - 1) % rate)
    m[-1] = xor(8, m[-1], 0x80)
    A = [0] * 25
    for o in range(0, len(m), rate):
        for i in range(rate // 8): A[i] = xor(64, A[i], le(m[o+8*i:o+8*i+8]))
        A = keccak_f(A)
    return sum((tole(x, 8) for x in A), [])[:bits // 8]

# BLAKE2 (RFC 7693)
_SIG = [[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15],[14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3],[11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4],
        [7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8],[9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13],[2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9],
        [12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11],[13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10],[6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5],[10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0]]
def blake2_compress(h, blk, t, last, W):
    nb = W // 8; R = 12 if W == 64 else 10; rr = (32, 24, 16, 63) if W == 64 else (16, 12, 8, 7)
    IV = _H512 if W == 64 else _H256
    m = [le(blk[nb*i:nb*i+nb]) for i in range(16)]
    M = (1 << W) - 1
    v = list(h) + list(IV)
    v[12] = xor(W, v[12], extract(t, 2 * W, W - 1, 0)); v[13] = xor(W, v[13], extract(t, 2 * W, 2 * W - 1, W))
    if last: v[14] = not_(W, v[14])
    def G(a, b, c, d, x, y):
        v[a] = addn(W, 0, [(1, v[a]), (1, v[b]), (1, x)]); v[d] = rotl(W, xor(W, v[d], v[a]), W - rr[0])
        v[c] = add(W, v[c], v[d]); v[b] = rotl(W, xor(W, v[b], v[c]), W - rr[1])
        v[a] = addn(W, 0, [(1, v[a]), (1, v[b]), (1, y)]); v[d] = rotl(W, xor(W, v[d], v[a]), W - rr[2])
        v[c] = add(W, v[c], v[d]); v[b] = rotl(W, xor(W, v[b], v[c]), W - rr[3])
    for i in range(R):
        s = _SIG[i % 10]
        G(0, 4, 8, 12, m[s[0]], m[s[1]]); G(1, 5, 9, 13, m[s[2]], m[s[3]]); G(2, 6, 10, 14, m[s[4]], m[s[5]]); G(3, 7, 11, 15, m[s[6]], m[s[7]])
        G(0, 5, 10, 15, m[s[8]], m[s[9]]); G(1, 6, 11, 12, m[s[10]], m[s[11]]); G(2, 7, 8, 13, m[s[12]], m[s[13]]); G(3, 4, 9, 14, m[s[14]], m[s[15]])
    return [xor(W, h[i], xor(W, v[i], v[i+8])) for i in range(8)]
def blake2(msg, key, nn, W):
    IV = _H512 if W == 64 else _H256; bs = 2 * W
    h = list(IV); h[0] ^= 0x01010000 ^ (len(key) << 8) ^ nn
    data = (list(key) + [0] * (bs - len(key)) if key else []) + list(msg)
    n = len(data)
    if n == 0: blocks = [[0] * bs]
    else: blocks = [data[i:i+bs] + [0] * max(0, bs - len(data[i:i+bs])) for i in range(0, n, bs)]
    for i, b in enumerate(blocks):
        lastb = i == len(blocks) - 1
        h = blake2_compress(h, b, n if lastb else (i + 1) * bs, lastb, W)
    return sum((tole(x, W // 8) for x in h), [])[:nn]

# BLAKE3
_B3P = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8]
def b3_compress(cv, blk, ctr, ln, fl):
    m = [le(blk[4*i:4*i+4]) for i in range(16)]
    v = list(cv) + list(_H256[:4]) + [ctr & 0xffffffff, ctr >> 32, ln, fl]
    def G(a, b, c, d, x, y):
        v[a] = addn(32, 0, [(1, v[a]), (1, v[b]), (1, x)]); v[d] = rotl(32, xor(32, v[d], v[a]), 16)
        v[c] = add(32, v[c], v[d]); v[b] = rotl(32, xor(32, v[b], v[c]), 20)
        v[a] = addn(32, 0, [(1, v[a]), (1, v[b]), (1, y)]); v[d] = rotl(32, xor(32, v[d], v[a]), 24)
        v[c] = add(32, v[c], v[d]); v[b] = rotl(32, xor(32, v[b], v[c]), 25)
    for r in range(7):
        G(0, 4, 8, 12, m[0], m[1]); G(1, 5, 9, 13, m[2], m[3]); G(2, 6, 10, 14, m[4], m[5]); G(3, 7, 11, 15, m[6], m[7])
        G(0, 5, 10, 15, m[8], m[9]); G(1, 6, 11, 12, m[10], m[11]); G(2, 7, 8, 13, m[12], m[13]); G(3, 4, 9, 14, m[14], m[15])
        m = [m[i] for i in _B3P]
    return [xor(32, v[i], v[i+8]) for i in range(8)] + [xor(32, v[i+8], cv[i]) for i in range(8)]
def blake3(msg, key, n):
    kw = [le(key[4*i:4*i+4]) for i in range(8)] if key else list(_H256)
    base = 16 if key else 0
    CS, CE, PA, RO = 1, 2, 4, 8
    def chunk(c, idx):
        """returns output tuple of the last block"""
        cv = kw
        bl = [c[i:i+64] for i in range(0, len(c), 64)] or [[]]
        for i, b in enumerate(bl):
            fl = base | (CS if i == 0 else 0) | (CE if i == len(bl) - 1 else 0)
            o = (cv, b + [0] * (64 - len(b)), idx, len(b), fl)
            if i < len(bl) - 1: cv = b3_compress(*o)[:8]
        return o
    chunks = [msg[i:i+1024] for i in range(0, len(msg), 1024)] or [[]]
    def tree(cs, start):
        if len(cs) == 1: return chunk(cs[0], start)
        k = 1
        while 2 * k < len(cs): k *= 2
        l = b3_compress(*tree(cs[:k], start))[:8]; r = b3_compress(*tree(cs[k:], start + k))[:8]
        return (kw, sum((tole(x, 4) for x in l + r), []), 0, 64, base | PA)
    o = tree(chunks, 0)
    out = []; i = 0
    while len(out) < n:
        w = b3_compress(o[0], o[1], i, o[3], o[4] | RO)
        out += sum((tole(x, 4) for x in w), []); i += 1
    return out[:n]

# SipHash-2-4 (64 and 128-bit tags)
def siphash(key, msg, n):
    k0, k1 = le(key[:8]), le(key[8:])
    v = [xor(64, k0, 0x736f6d6570736575), xor(64, k1, 0x646f72616e646f6d), xor(64, k0, 0x6c7967656e657261), xor(64, k1, 0x7465646279746573)]
    if n == 16: v[1] = xor(64, v[1], 0xee)
    def rnd():
        v[0] = add(64, v[0], v[1]); v[1] = xor(64, rotl(64, v[1], 13), v[0]); v[0] = rotl(64, v[0], 32)
        v[2] = add(64, v[2], v[3]); v[3] = xor(64, rotl(64, v[3], 16), v[2])
        v[0] = add(64, v[0], v[3]); v[3] = xor(64, rotl(64, v[3], 21), v[0])
        v[2] = add(64, v[2], v[1]); v[1] = xor(64, rotl(64, v[1], 17), v[2]); v[2] = rotl(64, v[2], 32)
    m = list(msg) + [0] * ((7 - len(msg)) % 8) + [len(msg) & 255]
    for o in range(0, len(m), 8):
        w = le(m[o:o+8]); v[3] = xor(64, v[3], w); rnd(); rnd(); v[0] = xor(64, v[0], w)
    v[2] = xor(64, v[2], 0xee if n == 16 else 0xff)
    for _ in range(4): rnd()
    out = tole(xor(64, xor(64, v[0], v[1]), xor(64, v[2], v[3])), 8)
    if n == 16:
        v[1] = xor(64, v[1], 0xdd)
        for _ in range(4): rnd()
        out += tole(xor(64, xor(64, v[0], v[1]), xor(64, v[2], v[3])), 8)
    return out

SPECS['sha1'] = lambda i, s: sha1(s[0]); SPECS['sha224'] = lambda i, s: sha224(s[0]); SPECS['sha256'] = lambda i, s: sha256(s[0])
SPECS['sha384'] = lambda i, s: sha384(s[0]); SPECS['sha512'] = lambda i, s: sha512(s[0]); SPECS['md5'] = lambda i, s: md5(s[0])
SPECS['ripemd160'] = lambda i, s: ripemd160(s[0]); SPECS['sha3'] = lambda i, s: sha3(s[0], i[0]); SPECS['keccak'] = lambda i, s: sha3(s[0], i[0], 1)
SPECS['blake2b'] = lambda i, s: blake2(s[0], s[1], i[0] // 8, 64); SPECS['blake2s'] = lambda i, s: blake2(s[0], s[1], i[0] // 8, 32)
SPECS['blake3'] = lambda i, s: blake3(s[0], s[1], i[0] // 8); SPECS['siphash'] = lambda i, s: siphash(s[0], s[1], i[0])

def dadd(W, hi, lo, n):
    """two-word sum hi:lo + n, as one term of 2W bits"""
    l2 = add(W, lo, n)
    c = ult(W, l2, n)
    return concat([(W, ite(W, c, add(W, hi, 1), hi)), (W, l2)])
# continuation from a state in which the length counter already stands at L (given as big-endian bytes)
def _md_from(H, blockf, bs, lb, little, wb, n):
    def f(i, s):
        P, suf, L = s
        h = list(H)
        for o in range(0, len(P), bs): h = blockf(h, P[o:o+bs])
        tot = dadd(4 * lb, 0, be(L), 8 * len(suf))
        p = list(suf) + [0x80] + [0] * ((bs - (len(suf) + 1 + lb)) % bs) + (tole if little else tobe)(tot, lb)
        for o in range(0, len(p), bs): h = blockf(h, p[o:o+bs])
        return sum(((tole if little else tobe)(x, wb) for x in h), [])[:n]
    return f
_H160 = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
SPECS['sha1_from'] = _md_from(_H160, sha1_block, 64, 8, False, 4, 20)
SPECS['sha224_from'] = _md_from(_H224, sha256_block, 64, 8, False, 4, 28)
SPECS['sha256_from'] = _md_from(_H256, sha256_block, 64, 8, False, 4, 32)
SPECS['sha384_from'] = _md_from(_H384, sha512_block, 128, 16, False, 8, 48)
SPECS['sha512_from'] = _md_from(_H512, sha512_block, 128, 16, False, 8, 64)
SPECS['ripemd160_from'] = _md_from(_H160, ripemd160_block, 64, 8, True, 4, 20)
def _blake2_from(W):
    """P: whole blocks already compressed; rest: everything after them (at least 1 byte); L: the counter at that point"""
    def f(i, s):
        P, rest, L = s
        bs = 2 * W; nn = i[0] // 8
        h = list(_H512 if W == 64 else _H256); h[0] ^= 0x01010000 ^ nn
        for o in range(0, len(P), bs): h = blake2_compress(h, P[o:o+bs], o + bs, False, W)
        hi, lo = 0, be(L)
        nb = (len(rest) + bs - 1) // bs
        for k in range(nb):
            b = list(rest[k*bs:k*bs+bs]); last = k == nb - 1
            c = dadd(W, hi, lo, len(b))
            hi = extract(c, 2 * W, 2 * W - 1, W); lo = extract(c, 2 * W, W - 1, 0)
            h = blake2_compress(h, b + [0] * (bs - len(b)), c, last, W)
        return sum((tole(x, W // 8) for x in h), [])[:nn]
    return f
SPECS['blake2b_from'] = _blake2_from(64); SPECS['blake2s_from'] = _blake2_from(32)

# ------------------------------------------------------------------ MACs
HASH = {'sha1': (sha1, 64), 'sha224': (sha224, 64), 'sha256': (sha256, 64), 'sha384': (sha384, 128), 'sha512': (sha512, 128), 'md5': (md5, 64), 'ripemd160': (ripemd160, 64)}
def hmac(name, key, msg):
    H, bs = HASH[name]
    if len(key) > bs: key = H(key)
    key = list(key) + [0] * (bs - len(key))
    return H([xor(8, k, 0x5c) for k in key] + H([xor(8, k, 0x36) for k in key] + list(msg)))
for _h in HASH: SPECS['hmac_' + _h] = (lambda h: lambda i, s: hmac(h, s[0], s[1]))(_h)

# ------------------------------------------------------------------ stream ciphers
def rc4(key, n):
    S = list(range(256)); j = 0
    for i in range(256):
        j = add(8, add(8, j, S[i]), key[i % len(key)])
        x = sel(S, 8, j, 8) if type(j) is not int else S[j]
        si = S[i]
        S[i] = x; _set(S, j, si)
    out = []; i = j = 0
    for _ in range(n):
        i = (i + 1) & 255
        si = S[i]
        j = add(8, j, si)
        sj = sel(S, 8, j, 8) if type(j) is not int else S[j]
        S[i] = sj; _set(S, j, si)
        k = add(8, si, sj)
        out.append(sel(S, 8, k, 8) if type(k) is not int else S[k])
    return out
def _set(S, j, v):
    if type(j) is int: S[j] = v
    else:
        for i in range(256): S[i] = ite(8, eq(8, j, i), v, S[i])
SPECS['rc4'] = lambda i, s: xors(s[1], rc4(s[0], len(s[1])))
def chacha_block(key, ctrnonce):
    """key 16 or 32 bytes; ctrnonce: 16 bytes (counter and nonce as laid out in the state)"""
    c = [int.from_bytes(b'expand 32-byte k'[4*i:4*i+4] if len(key) == 32 else b'expand 16-byte k'[4*i:4*i+4], 'little') for i in range(4)]
    k = [le(key[4*i:4*i+4]) for i in range(len(key) // 4)]
    if len(k) == 4: k = k + k
    st = c + k + [le(ctrnonce[4*i:4*i+4]) for i in range(4)]
    v = list(st)
    def Q(a, b, c, d):
        v[a] = add(32, v[a], v[b]); v[d] = rotl(32, xor(32, v[d], v[a]), 16)
        v[c] = add(32, v[c], v[d]); v[b] = rotl(32, xor(32, v[b], v[c]), 12)
        v[a] = add(32, v[a], v[b]); v[d] = rotl(32, xor(32, v[d], v[a]), 8)
        v[c] = add(32, v[c], v[d]); v[b] = rotl(32, xor(32, v[b], v[c]), 7)
    for _ in range(10):
        Q(0, 4, 8, 12); Q(1, 5, 9, 13); Q(2, 6, 10, 14); Q(3, 7, 11, 15)
        Q(0, 5, 10, 15); Q(1, 6, 11, 12); Q(2, 7, 8, 13); Q(3, 4, 9, 14)
    return sum((tole(add(32, x, y), 4) for x, y in zip(v, st)), [])
def chacha_stream(key, iv, ctr, n):
    """8-byte iv: 64-bit counter; 12-byte iv: 32-bit counter (RFC 8439)"""
    out = []; i = 0
    cb = 8 if len(iv) == 8 else 4
    while len(out) < n:
        c = add(8 * cb, ctr if type(ctr) is not int else ctr & ((1 << (8 * cb)) - 1), i)
        out += chacha_block(key, tole(c, cb) + list(iv)); i += 1
    return out[:n]
def _chacha(i, s):
    key, iv, data, ctr = s      # ctr: 8 bytes, little endian
    return xors(data, chacha_stream(key, iv, le(ctr[:8 if len(iv) == 8 else 4]), len(data)))
SPECS['chacha'] = _chacha

# ------------------------------------------------------------------ small definitions used by harnesses
def be_add(i, s):
    """big-endian counter plus i[0], modulo its width"""
    n = len(s[0]); w = 8 * n
    r = list(s[0]); c = i[0]; k = n - 1
    while k >= 0 and c and type(r[k]) is int:       # concrete low-order bytes first
        c += r[k]; r[k] = c & 255; c >>= 8; k -= 1
    if not c: return r
    if k < n - 1: return be_add([c], [r[:k + 1]]) + r[k + 1:]
    v = add(w, concat([(8, c) for c in s[0]]), i[0] & ((1 << w) - 1))
    return [extract(v, w, w - 1 - 8*k, w - 8 - 8*k) for k in range(n)]
SPECS['be_add'] = be_add
def unpad_length(i, s):
    bs = i[0]; b = s[0][-bs:]
    ok = 0; ln = 0
    for n in range(1, bs + 1):
        c = 1
        for k in range(bs - n, bs): c = and_(1, c, eq(8, b[k], n))
        ok = or_(1, ok, c)
        ln = ite(8, c, bs - n, ln)
    return [zext(ok, 1, 8), ln]
def unpad_8000(i, s):
    bs = i[0]; b = s[0][-bs:]
    ok = 0; ln = 0
    for n in range(1, bs + 1):
        c = eq(8, b[bs - n], 0x80)
        for k in range(bs - n + 1, bs): c = and_(1, c, eq(8, b[k], 0))
        ok = or_(1, ok, c)
        ln = ite(8, c, bs - n, ln)
    return [zext(ok, 1, 8), ln]
SPECS['unpad_length'] = unpad_length; SPECS['unpad_8000'] = unpad_8000

# ------------------------------------------------------------------ AEAD primitives
def gmul_int(x, y):
    """GF(2^128) product of NIST SP 800-38D, operands as big-endian integers"""
    z = 0; v = y
    for i in range(128):
        if (x >> (127 - i)) & 1: z ^= v
        v = (v >> 1) ^ (0xe1 << 120 if v & 1 else 0)
    return z
def gf128(x, y):
    """the same on 128-bit terms"""
    z = 0; v = y
    for i in range(128):
        b = extract(x, 128, 127 - i, 127 - i)
        z = xor(128, z, and_(128, tm.sext(b, 1, 128), v))
        l = extract(v, 128, 0, 0)
        v = xor(128, tm.lshr(128, v, 1), and_(128, tm.sext(l, 1, 128), 0xe1 << 120))
    return z
SPECS['gmul'] = lambda i, s: tobe(gf128(be(s[0]), be(s[1])), 16)
P1305 = (1 << 130) - 5
def poly1305_int(key, msg):
    r = int.from_bytes(key[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(key[16:], 'little'); h = 0
    for i in range(0, len(msg), 16):
        h = (h + int.from_bytes(msg[i:i + 16] + b'\1', 'little')) * r % P1305
    return ((h + s) & ((1 << 128) - 1)).to_bytes(16, 'little')
def real(name, w, args):
    """meaning of the functions the engine keeps abstract"""
    if name.startswith('aes'):
        n = int(name[3:])
        return int.from_bytes(bytes(aes_enc(list(args[0].to_bytes(n, 'big')), list(args[1].to_bytes(16, 'big')))), 'big')
    if name == 'gmul': return gmul_int(args[0], args[1])
    if name.startswith('poly1305_'):
        n = int(name[9:])
        return int.from_bytes(poly1305_int(args[0].to_bytes(32, 'big'), args[1].to_bytes(n, 'big')), 'big')
    raise Unsupported('real ' + name)
def poly1305(key, msg):
    """Poly1305 on terms; the multiplier r must be concrete"""
    r = int.from_bytes(bytes(key[:16]), 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = le(key[16:]); h = 0; W = 272
    def fold(x, w):
        while w > 131:
            hi = w - 130
            nw = max(130, hi + 3) + 1
            x = add(nw, zext(extract(x, w, 129, 0), 130, nw), tm.mul(nw, zext(extract(x, w, w - 1, 130), hi, nw), 5))
            w = nw
        return x                                   # below 2^131 < 4 p + something
    def red(x):
        for k in (4, 2, 1):
            kp = k * P1305
            if kp < 1 << 133: x = ite(133, ult(133, x, kp), x, tm.sub(133, x, kp))
        return x
    for i in range(0, len(msg), 16):
        m = list(msg[i:i + 16]) + [1]
        m = le(m + [0] * (17 - len(m)))
        h = add(131, zext(extract(h, 133, 130, 0) if i else 0, 131, 131), zext(m, 136, 131) if 0 else (extract(m, 136, 130, 0)))
        x = tm.mul(W, zext(h, 131, W), r)
        h = red(zext(fold(x, W), 131, 133))
    h = extract(h, 133, 127, 0) if msg else 0
    return tole(add(128, h, s), 16)
SPECS['poly1305'] = lambda i, s: poly1305(s[0], s[1])

# ------------------------------------------------------------------ encodings (RFC 4648)
_HEX = b'0123456789abcdef'
_B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
def _look(tab, v, n): return tab[v] if type(v) is int else rom(list(tab), 8, extract(v, 8, n - 1, 0), n)
def hexenc(i, s): return [_look(_HEX, v, 4) for c in s[0] for v in (lshr(8, c, 4), and_(8, c, 15))]
def b64enc(i, s):
    d = s[0]; r = []
    for k in range(0, len(d), 3):
        g = d[k:k + 3]; n = len(g)
        a, b, c = g + [0] * (3 - n)
        v = [lshr(8, a, 2), or_(8, shl(8, and_(8, a, 3), 4), lshr(8, b, 4)),
             or_(8, shl(8, and_(8, b, 15), 2), lshr(8, c, 6)), and_(8, c, 63)]
        r += [_look(_B64, x, 6) for x in v[:n + 1]]
        if i[0]: r += [61] * (3 - n)
    return r
# value of a digit, 64 blank, 65 the padding character, 66 anything else
def _cls(f):
    t = [f(c) for c in range(256)]
    return lambda i, s: [t[s[0][0]] if type(s[0][0]) is int else rom(t, 8, s[0][0], 8)]
SPECS['hexenc'] = hexenc; SPECS['b64enc'] = b64enc
SPECS['b64class'] = _cls(lambda c: _B64.index(c) if c in _B64 else 64 if c in b' \t\n\r' else 65 if c == 61 else 66)
SPECS['hexclass'] = _cls(lambda c: _HEX.index(bytes([c]).lower()) if bytes([c]).lower() in (b'%x' % k for k in range(16)) else 64 if c in b' \t\n\r' else 66)
