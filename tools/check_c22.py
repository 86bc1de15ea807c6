import polycheck
from symm import Case
LEVEL = 'other'
def K(func, fn, args, cost=1, **o): return Case(func, fn, args, None, cost=cost, rule='definition', **o)
HASH = ['cry_md5_digest', 'cry_sha1_digest', 'cry_sha256_digest', 'cry_sha512_digest', 'cry_sha512_digest']
def cases(tier):
    th = tier == 'thorough'; out = []
    for kl in (16, 24, 32):
        out += [K('cry_aes_encrypt', 'h_aesx', (kl, 0, n, ip), 4 + 3 * n) for n, ip in ((1, 0), (2, 1))] + [K('cry_aes_decrypt', 'h_aesx', (kl, 1, n, ip), 4 + 3 * n) for n, ip in ((1, 1), (2, 0))]
        out.append(K('cry_aes_encrypt', 'h_aesx', (kl, 3, 1, 0), 6))
        if th: out += [K('cry_aes_encrypt', 'h_aesx', (kl, w, n, ip), 5 * n) for w in (0, 1, 3) for n in (3, 4) for ip in (0, 1)]
    for kl in (8, 24):
        out += [K('cry_des_encrypt', 'h_desx', (kl, 0, n, ip), kl * n // 6) for n, ip in ((1, 0), (2, 1))] + [K('cry_des_decrypt', 'h_desx', (kl, 1, n, ip), kl * n // 6) for n, ip in ((1, 1), (2, 0))]
        if th: out += [K('cry_des_encrypt', 'h_desx', (kl, w, 3, ip), kl * 3) for w in (0, 1) for ip in (0, 1)]
    for kl, il in [(10, 10), (10, 4), (0, 10), (7, 0), (1, 1), (9, 8)] + ([(a, b) for a in range(0, 11, 2) for b in range(0, 11, 2)] if th else []):
        for n in ((1, 5, 8) if (kl, il) != (10, 10) else range(0, 33 if th else 18)): out.append(K('cry_trivium_crypt', 'h_trivx', (kl, il, n, 0, n & 1, n % 3 == 2), 2))
    out += [K('cry_trivium_crypt', 'h_trivx', (10, 10, a, b, 0, 0), 2) for a, b in ((4, 3), (8, 9), (12, 4), (4, 16))]
    for n1, n2 in [(0, 1), (1, 0), (2, 0), (1, 1), (3, 0), (1, 2), (4, 0), (5, 0), (2, 4)] + ([(8, 0), (3, 5), (10, 2)] if th else []):
        out += [K('cry_arc4_crypt', 'h_arc4x', (n1, n2, x, (n1 + x) & 1)) for x in (0, 1, 100, 254, 255)]
    B = [[0, 1, 3, 55, 56, 57, 63, 64, 65, 100, 119, 120, 128], [0, 3, 111, 112, 113, 127, 128, 130]]
    if th: B = [list(range(0, 140)), [0, 1, 2, 7, 55, 64, 100, 110, 111, 112, 113, 119, 120, 126, 127, 128, 129, 200, 239, 240, 256]]
    for a in range(5):
        for n in B[a > 2]:
            out.append(K(HASH[a], 'h_hashx', (a, n, n // 3, 0), (1 + n // 64) * (3 if a < 3 else 8)))
        out.append(K(HASH[a], 'h_hashx', (a, 20, 0, 1), 3 if a < 3 else 8))
    for n in range(1, 26 if th else 14): out.append(K('cry_base64_encode', 'h_b64', (n, 0)))
    for kl in (1, 3, 16): out += [K('cry_affine_encrypt', 'h_affx', (a0, kl, 18, 0, a0 & 2)) for a0 in range(1, 256, 16 if kl > 3 else 64)]
    for d in (1, 2, 3, 4, 5): out += [K('cry_hill_encrypt', 'h_hillx', (d, s, 2, 0, 0), d) for s in range(1, 7 if th else 3)]
    G = [(0, 12, 0, 0, 0, 0, 0, 0), (0, 12, 5, 0, 16, 0, 0, 0), (1, 12, 16, 0, 20, 0, 1, 0), (0, 12, 0, 0, 7, 0, 1, 0), (0, 12, 20, 0, 0, 0, 0, 1), (1, 12, 0, 0, 16, 4, 0, 2), (0, 12, 16, 3, 16, 0, 0, 0)]
    if th: G += [(0, 12, 16, 16, 32, 5, 1, 0), (1, 12, 33, 0, 33, 0, 0, 2), (0, 12, 7, 0, 40, 0, 0, 0)]
    out += [K('cry_gcm_digest', 'h_gcmr', g, 30) for g in G]
    return out
def run(tier): return polycheck.analyse('C22', cases(tier))
