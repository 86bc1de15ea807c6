import polycheck
from symm import Case
LEVEL = 'other'
def K(func, fn, args, cost=1, **o): return Case(func, fn, args, None, cost=cost, rule='roundtrip', want='the original data', **o)
def W(func, fn, args, cost=1, **o): c = K(func, fn, args, cost, **o); c.aes = True; return c
DEC = ['cry_cbc_decrypt', 'cry_cfb_decrypt', 'cry_cfb8_decrypt', 'cry_ctr_decrypt']
def cases(tier):
    th = tier == 'thorough'; out = []
    for kl in (16, 24, 32): out += [K('cry_aes_decrypt', 'h_aesx', (kl, 2, n, ip), 3 * n) for n in ((1, 2, 3) if th else (1, 2)) for ip in (0, 1)]
    for kl in (8, 24): out += [K('cry_des_decrypt', 'h_desx', (kl, w, n, ip), kl * n // 4) for w in (2, 3) for n, ip in ((1, 0), (1, 1), (2, 1))]
    for blk in (16, 8):
        for mode in range(4):
            for n in sorted({1, blk - 1, blk, blk + 1, 2 * blk, 2 * blk + 5, 3 * blk} | (set(range(1, 3 * blk + 1)) if th else set())):
                if mode == 0 and n % blk: continue
                cuts = [n] + ([1] if mode == 2 and n > 1 else []) + [k for k in (blk, 2 * blk) if k < n]
                for a in cuts:
                    for b in cuts:
                        if a != n and b != n and a != b and not th: continue
                        for ip, two in ((0, 0), (1, 1)) if (a, b) != (n, n) else ((0, 0), (0, 1), (1, 0)): out.append(K(DEC[mode], 'h_modert', (mode, blk, n, a, b, ip, two), n / 40, blk=blk))
    for n1, m1 in ((1, 1), (5, 2), (3, 0), (6, 6)): out += [K('cry_arc4_crypt', 'h_arc4rt', (n1, m1, x)) for x in (0, 253)]
    for il, al, n, a, b in ((12, 0, 16, 16, 16), (12, 5, 21, 16, 21), (12, 16, 32, 32, 16), (12, 0, 7, 7, 7)): out += [K('cry_gcm_decrypt', 'h_gcmrt', (il, al, n, a, b, ip), 20) for ip in (0, 1)]
    for kl in (16, 24, 32): out += [W('cry_aes_unwrap', 'h_wraprt', (kl, n), 2) for n in (16, 24, 32, 40)]
    for n in range(0, 26 if th else 14): out.append(K('cry_base64_decode', 'h_b64', (n, 1)))
    for kl in (1, 2, 16): out += [K('cry_affine_decrypt', 'h_affx', (a0, kl, 18, 1, a0 & 2)) for a0 in range(1, 256, 2 * kl)]
    for d in (1, 2, 3, 4, 5): out += [K('cry_hill_decrypt', 'h_hillx', (d, s, 2, 1, 0), d) for s in range(1, 13 if th else 7)]
    return out
def run(tier): return polycheck.analyse('C21', cases(tier))
