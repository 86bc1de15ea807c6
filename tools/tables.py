"""Constant tables of the algorithms, computed from their definitions (the oracle of C09)."""
import math
import symm
def _xt(a): return ((a << 1) ^ 0x1b if a & 0x80 else a << 1) & 255
def gm(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a = _xt(a); b >>= 1
    return r
def aes_sbox():
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if gm(a, b) == 1: inv[a] = b; break
    rot = lambda x, k: ((x << k) | (x >> (8 - k))) & 255
    return [v ^ rot(v, 1) ^ rot(v, 2) ^ rot(v, 3) ^ rot(v, 4) ^ 0x63 for v in inv]
def words(f, coef):
    """the eight ways to put the column (coef * f(x)) in a word: four rotations, two byte orders"""
    out = {}
    for r in range(4):
        c = coef[r:] + coef[:r]
        for order in ('little', 'big'):
            out['%d%s' % (r, order[0])] = [int.from_bytes(bytes(gm(f[x], k) for k in c), order) for x in range(256)]
    return out
def crc_table(poly):
    t = []
    for i in range(256):
        for _ in range(8): i = (i >> 1) ^ poly if i & 1 else i >> 1
        t.append(i)
    return t
DES = dict(
 ip=[(58 + 2 * (r % 4) if r < 4 else 57 + 2 * (r % 4)) - 8 * c for r in range(8) for c in range(8)],
 fp=[(40 if c % 2 == 0 else 8) - r + 8 * (c // 2) for r in range(8) for c in range(8)],
 e=[(4 * r + c - 1) % 32 + 1 for r in range(8) for c in range(6)],
 pc1=[57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
      63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4],
 pc2=[14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
      41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32],
 p=[16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25])
# FIPS 46-3, each box as four rows of sixteen
S = ['e4d12fb83a6c5907 0f74e2d1a6cb9538 41e8d62bfc973a50 fc8249175b3ea06d', 'f18e6b34972dc05a 3d47f28ec01a69b5 0e7ba4d158c6932f d8a13f42b67c05e9',
     'a09e63f51dc7b428 d709346a285ecbf1 d6498f30b12c5ae7 1ad069874fe3b52c', '7de3069a1285bc4f d8b56f03472c1ae9 a690cb7df13e5284 3f06a1d8945bc72e',
     '2c417ab6853fd0e9 eb2c47d150fa3986 421bad78f9c5630e b8c71e2d6f09a453', 'c1af92680d34e75b af427c9561de0b38 9ef528c3704a1db6 432c95fabe17608d',
     '4b2ef08d3c975a61 d0b7491ae35c2f86 14bdc37eaf680592 6bd814a7950fe23c', 'd2846fb1a93e50c7 1fd8a374c56b0e92 7b419ce206adf358 21e74a8dfc90356b']
def des_s():
    """as 64 entries in the order of the six input bits, and in the order row * 16 + column"""
    a = []; b = []
    for s in S:
        rows = [r for r in s.split()]
        rows = [[int(c, 16) for c in r] for r in rows]
        assert all(sorted(r) == list(range(16)) for r in rows), s
        b.append(sum(rows, []))
        a.append([rows[(x >> 5) * 2 + (x & 1)][(x >> 1) & 15] for x in range(64)])
    return a, b
B64 = [ord(c) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/']
def md5_t(): return [int(abs(math.sin(i + 1)) * 4294967296) & 0xffffffff for i in range(64)]
SHA1_K = [0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6]
assert SHA1_K == [math.isqrt(n << 60) & 0xffffffff for n in (2, 3, 5, 10)]
def tables():
    """name -> list of values (element order as in the definition)"""
    sb = aes_sbox(); rs = [0] * 256
    for i, v in enumerate(sb): rs[v] = i
    T = {'AES S-box': sb, 'AES inverse S-box': rs, 'AES round constants': [1, 2, 4, 8, 16, 32, 64, 128, 27, 54],
         'base64 alphabet': B64, 'base64 decoding': [B64.index(c) if c in B64 else 255 for c in range(128)],
         'base64 decoding (padding as 0)': [B64.index(c) if c in B64 else 0 if c == 61 else 255 for c in range(128)],
         'base64url alphabet': B64[:62] + [45, 95], 'base64url decoding': [(B64[:62] + [45, 95]).index(c) if c in B64[:62] + [45, 95] else 255 for c in range(128)],
         'bit lengths': [i.bit_length() for i in range(256)]}
    for k, v in words(sb, [2, 1, 1, 3]).items(): T['AES round table ' + k] = v
    for k, v in words(rs, [14, 9, 13, 11]).items(): T['AES inverse round table ' + k] = v
    for k, v in words(list(range(256)), [14, 9, 13, 11]).items(): T['AES inverse column table ' + k] = v
    for k, v in DES.items(): T['DES %s' % k.upper()] = v
    a, b = des_s()
    for i in range(8): T['DES S%d' % (i + 1)] = a[i]; T['DES S%d (rows)' % (i + 1)] = b[i]
    for n, p in (('CCITT', 0x8408), ('IBM', 0xa001), ('DNP', 0xa6bc), ('Ethernet', 0xedb88320)): T['CRC %s' % n] = crc_table(p)
    pr = symm.primes(200)
    T['SHA-256 round constants'] = [symm.frac_root(p, 3, 32) for p in pr[:64]]
    T['SHA-512 round constants'] = [symm.frac_root(p, 3, 64) for p in pr[:80]]
    T['MD5 sines'] = md5_t()
    T['SHA-1 round constants'] = SHA1_K
    T['odd primes'] = symm.primes(400)[1:]
    for h in ('sha256', 'sha512', 'sha384'): T['initial value ' + h] = symm.hash_iv(h)
    return T
# tables the library holds today; the others are alternatives
EXPECTED = ['AES S-box', 'AES inverse S-box', 'AES round constants', 'base64 alphabet', 'bit lengths'] + ['DES %s' % k.upper() for k in DES] + \
    ['CRC CCITT', 'CRC IBM', 'CRC DNP', 'CRC Ethernet', 'SHA-256 round constants', 'SHA-512 round constants', 'odd primes']
