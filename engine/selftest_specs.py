"""Validate engine/specs.py against hashlib and published vectors."""
import hashlib, random, hmac as H
from . import specs as S
def b(x): return bytes(x)
def h(s): return list(bytes.fromhex(s))
def run():
    bad = []
    def t(n, x, y):
        if b(x) != (bytes.fromhex(y) if isinstance(y, str) else y): bad.append((n, b(x).hex()))
    R = random.Random(5)
    for n in (0, 1, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 200, 300):
        m = [R.randrange(256) for _ in range(n)]
        for nm in ('sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'md5', 'ripemd160'):
            try: ref = hashlib.new(nm, b(m)).digest()
            except ValueError: continue
            t(nm, S.SPECS[nm]([], [m]), ref)
        for bits in (224, 256, 384, 512): t('sha3', S.sha3(m, bits), hashlib.new('sha3_%d' % bits, b(m)).digest())
        for k in (0, 7, 32):
            key = [R.randrange(256) for _ in range(k)]
            t('b2s', S.blake2(m, key, 32, 32), hashlib.blake2s(b(m), key=b(key)).digest())
            t('b2b', S.blake2(m, key, 40, 64), hashlib.blake2b(b(m), key=b(key), digest_size=40).digest())
            for nm in ('sha1', 'sha256', 'sha384', 'sha512', 'md5'): t('hmac', S.hmac(nm, key, m), H.new(b(key), b(m), nm).digest())
    t('rmd', S.ripemd160(list(b'abc')), '8eb208f7e05d987a9b044a8e98c6b087f15a0bfc')
    t('aes', S.aes_enc(list(range(16)), h('00112233445566778899aabbccddeeff')), '69c4e0d86a7b0430d8cdb78070b4c55a')
    t('aes', S.aes_enc(list(range(24)), h('00112233445566778899aabbccddeeff')), 'dda97ca4864cdfe06eaf70a0ec0d7191')
    t('aes', S.aes_enc(list(range(32)), h('00112233445566778899aabbccddeeff')), '8ea2b7ca516745bfeafc49904b496089')
    t('aesd', S.aes_dec(list(range(32)), h('8ea2b7ca516745bfeafc49904b496089')), '00112233445566778899aabbccddeeff')
    t('des', S.des(h('133457799bbcdff1'), h('0123456789abcdef')), '85e813540f0ab405')
    t('desd', S.des(h('133457799bbcdff1'), h('85e813540f0ab405'), True), '0123456789abcdef')
    t('bf', S.blowfish([0]*8, [0]*8), '4ef997456198dd78')
    t('bf', S.blowfish(h('0123456789abcdef'), h('1111111111111111')), '61f9c3802281b096')
    t('rc4', S.rc4(list(b'Key'), 10), 'eb9f7781b734ca72a719')
    t('chacha', S.chacha_block(list(range(32)), h('01000000') + h('000000090000004a00000000')), '10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4ed2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e')
    t('sip', S.siphash(list(range(16)), list(range(15)), 8), 'e545be4961ca29a1')
    t('sip16', S.siphash(list(range(16)), [], 16), 'a3817f04ba25a8e66df67214c7550293')
    t('b3', S.blake3([], [], 32), 'af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262')
    t('b3', S.blake3([i % 251 for i in range(3073)], [], 32), '7124b49501012f81cc7f11ca069ec9226cecb8a2c850cfe644e327d22d3e1cd3')
    t('keccak256', S.sha3([], 256, 1), 'c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470')
    return bad
if __name__ == '__main__':
    r = run(); print('bad', r)
    raise SystemExit(1 if r else 0)
