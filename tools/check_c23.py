import polycheck
from symm import Case
LEVEL = 'other'
def K(func, fn, args, cost=1, **o): return Case(func, fn, args, None, cost=cost, rule='split', want='that of a single call', **o)
DEC = [('cry_cbc_encrypt', 'cry_cbc_decrypt'), ('cry_cfb_encrypt', 'cry_cfb_decrypt'), ('cry_cfb8_encrypt', 'cry_cfb8_decrypt'), ('cry_ctr_encrypt', 'cry_ctr_decrypt')]
HASH = ['cry_md5_update', 'cry_sha1_update', 'cry_sha256_update', 'cry_sha512_update', 'cry_sha512_update']
def cases(tier):
    th = tier == 'thorough'; out = []
    for a, b in ((4, 4), (0, 4), (4, 8), (8, 12), (0, 16), (12, 12)): out += [K('cry_trivium_crypt', 'h_trivs', (n, a, b), 2) for n in (16, 17, 18, 19)]
    for n, a, b in ((6, 1, 2), (6, 0, 6), (5, 2, 2), (4, 3, 3), (6, 5, 6)): out += [K('cry_arc4_crypt', 'h_arc4s', (n, a, b, x)) for x in (0, 1, 252, 255)]
    for blk in (16, 8):
        for mode in range(4):
            for dec in (0, 1):
                S = {(n, a, b) for n in ([2 * blk, 3 * blk, 4 * blk] + ([3 * blk + 5, 2 * blk + 1] if mode else [])) for a in (0, blk, 2 * blk) for b in (a, a + blk) if b <= n}
                if mode == 2: S |= {(n, a, b) for n in (blk + 3, 2 * blk) for a in ((0, 1, 3, blk - 1) if not th else range(blk)) for b in (a, a + 1, blk, blk + 1) if a <= b <= n}
                out += [K(DEC[mode][dec], 'h_modes', (mode, dec, blk, n, a, b), n / 40, blk=blk) for n, a, b in sorted(S)]
    for alg in range(5):
        B = 64 if alg < 3 else 128
        S = [(20, 0, 7), (B + 2, 1, B), (B + 2, B - 1, B + 1)] + ([] if alg > 2 and not th else [(2 * B + 3, B, 2 * B), (2 * B, 3, 2 * B), (B - 1, B // 2, B - 2), (2 * B + 3, 2, B + 60)])
        if th: S += [(B + 10, a, b) for a in range(0, B, 9) for b in (a, a + 5)]
        out += [K(HASH[alg], 'h_hashs', (alg, n, a, b, 0), (1 + n // B) * (2 if alg < 3 else 8)) for n, a, b in S]
        out.append(K(HASH[alg], 'h_hashs', (alg, 20, 0, 20, 1), 2))
    for hm in (0, 1):
        for n in (0, 5, 15, 16, 17, 31, 32, 33, 40, 48):
            for a in sorted({0, 1, 15, 16, 17, 32, n // 2, n - 1}):
                for b in sorted({a, a + 1, 16, 32, n}):
                    if 0 <= a <= b <= n: out.append(K('cry_hmac_update' if hm else 'cry_cmac_update', 'h_macs', (hm, n, a, b)))
    for al, a, n, n1, dec in ((0, 0, 32, 16, 0), (0, 0, 40, 32, 1), (20, 16, 16, 16, 0), (37, 32, 20, 16, 1), (16, 0, 21, 16, 0)): out.append(K('cry_gcm_decrypt' if dec else 'cry_gcm_encrypt', 'h_gcms', (al, a, n, n1, dec), 20))
    for w in (16, 32):
        for fl in range(8 if th else 4): out += [K('cry_crc%d_update' % w, 'h_crcs', (w, fl, n, a, b)) for n, a, b in ((0, 0, 0), (5, 0, 1), (9, 4, 4), (20, 7, 19))]
    return out
def run(tier): return polycheck.analyse('C23', cases(tier))
