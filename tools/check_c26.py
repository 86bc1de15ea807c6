import termcheck, random, math
from termcheck import TCase, C, ONE, ZERO, padd, pmul
from flow import Limit
LEVEL = 'other'
TEXT = termcheck.HEAD + r'''
static void point(cry_ecp *P, const char *x, const char *y, cry_ecp_grp *g)
{
    cry_ecp_init(P); v_num(&P->x, x, -1); v_num(&P->y, y, -1); cry_mpi_set_int(&P->z, 1); v_range(&P->x, &g->p); v_range(&P->y, &g->p);
}
static void group(cry_ecp_grp *g, long bits)
{
    cry_ecp_grp_init(g); v_num(&g->p, "p", bits); v_num(&g->a, "a", -1); v_num(&g->b, "b", -1); v_num(&g->n, "n", bits);
    v_range(&g->a, &g->p); v_range(&g->b, &g->p); point(&g->g, "gx", "gy", g);
}
static void dsa(cry_dsa_ctx *c, long pb, long qb)
{
    num(&c->p, "p", pb); num(&c->q, "q", qb); num(&c->g, "g", -2); num(&c->pvt, "x", -2); num(&c->pub, "y", -2);
    v_range(&c->g, &c->p); v_range(&c->pub, &c->p); v_range(&c->pvt, &c->q);
}
void h_dsasign(long pb, long qb, Z n, Z again)
{
    cry_dsa_ctx c; cry_dsa_sig s; u8 m[200]; dsa(&c, pb, qb); cry_mpi_init(&s.r); cry_mpi_init(&s.s); v_in(m, n, "m");
    if (again) { v_num(&s.r, "oldr", 0); v_num(&s.s, "olds", 0); }
    v_ret(cry_dsa_sign(&c, &s, m, n)); v_out(&s.r, "r"); v_out(&s.s, "s"); v_out(&c.p, "1p"); v_out(&c.q, "1q"); v_out(&c.g, "1g"); v_out(&c.pvt, "1x"); v_out(&c.pub, "1y");
}
void h_dsaverify(long pb, long qb, Z n)
{
    cry_dsa_ctx c; cry_dsa_sig s; u8 m[200]; dsa(&c, pb, qb); num(&s.r, "r", 0); num(&s.s, "s", 0); v_in(m, n, "m");
    v_ret(cry_dsa_verify(&c, &s, m, n)); v_out(&s.r, "1r"); v_out(&s.s, "1s");
}
void h_ecsign(long nb, Z n, Z again)
{
    cry_ecdsa_ctx c; cry_ecdsa_sig s; u8 m[200]; group(&c.grp, nb); num(&c.d, "x", -2); v_range(&c.d, &c.grp.n); point(&c.q, "qx", "qy", &c.grp);
    cry_mpi_init(&s.r); cry_mpi_init(&s.s); v_in(m, n, "m");
    if (again) { v_num(&s.r, "oldr", 0); v_num(&s.s, "olds", 0); }
    v_ret(cry_ecdsa_sign(&c, &s, m, n)); v_out(&s.r, "r"); v_out(&s.s, "s"); v_out(&c.d, "1x"); v_out(&c.grp.n, "1n"); v_out(&c.grp.g.x, "1gx"); v_out(&c.grp.g.y, "1gy"); v_out(&c.q.x, "1qx");
}
void h_ecverify(long nb, Z n)
{
    cry_ecdsa_ctx c; cry_ecdsa_sig s; u8 m[200]; group(&c.grp, nb); num(&c.d, "x", -2); point(&c.q, "qx", "qy", &c.grp); num(&s.r, "r", 0); num(&s.s, "s", 0); v_in(m, n, "m");
    v_ret(cry_ecdsa_verify(&c, &s, m, n)); v_out(&s.r, "1r"); v_out(&s.s, "1s"); v_out(&c.q.x, "1qx"); v_out(&c.grp.g.x, "1gx");
}
void h_eckey(long nb)
{
    cry_ecdsa_ctx c; group(&c.grp, nb); cry_mpi_init(&c.d); cry_ecp_init(&c.q);
    v_ret(cry_ecdsa_keygen(&c)); v_out(&c.d, "d"); v_out(&c.q.x, "x"); v_out(&c.q.y, "y"); v_out(&c.q.z, "z");
}
void h_ecdh(long nb, Z fin)
{
    cry_ecdh_ctx c; group(&c.ec, nb); num(&c.d, "x", -2); v_range(&c.d, &c.ec.n); point(&c.q, "qx", "qy", &c.ec); cry_ecp_init(&c.z);
    v_ret(fin ? cry_ecdh_final(&c) : cry_ecdh_agree(&c)); v_out(fin ? &c.z.x : &c.q.x, "x"); v_out(fin ? &c.z.y : &c.q.y, "y"); v_out(&c.d, "1x");
    if (fin) v_out(&c.q.x, "1qx");
}
void h_ecdh2(long nb)
{
    cry_ecdh_ctx a, b; group(&a.ec, nb); group(&b.ec, nb); num(&a.d, "x", -2); num(&b.d, "x2", -2); cry_ecp_init(&a.q); cry_ecp_init(&b.q); cry_ecp_init(&a.z); cry_ecp_init(&b.z);
    v_ret(cry_ecdh_agree(&a) | cry_ecdh_agree(&b)); cry_ecp_swap(&a.q, &b.q); v_ret(cry_ecdh_final(&a) | cry_ecdh_final(&b));
    v_out(&a.z.x, "x"); v_out(&a.z.y, "y"); v_out(&b.z.x, "x2"); v_out(&b.z.y, "y2");
}
void h_dh(long pb, Z fin)
{
    cry_dh_ctx c; num(&c.p, "p", pb); num(&c.g, "g", -2); num(&c.e, "x", -2); num(&c.Y, "y", -1); num(&c.Z, "z", -1); v_range(&c.Y, &c.p); v_range(&c.g, &c.p);
    v_ret(fin ? cry_dh_finalize(&c) : cry_dh_agree(&c)); v_out(&c.Y, "Y"); v_out(&c.Z, "Z"); v_out(&c.e, "1x"); v_out(&c.g, "1g"); v_out(&c.p, "1p");
}
void h_dh2(long pb)
{
    cry_dh_ctx a, b; u8 t[200], u[200], s1[200], s2[200]; Z n = (pb + 7) / 8; cry_mpi w;
    num(&a.p, "p", pb); num(&a.g, "g", -2); num(&a.e, "x", -2); num(&a.Y, "y", -1); num(&a.Z, "z", -1); v_range(&a.g, &a.p);
    num(&b.p, "p", pb); num(&b.g, "g", -2); num(&b.e, "x2", -2); num(&b.Y, "y", -1); num(&b.Z, "z", -1);
    v_ret(cry_dh_agree(&a) | cry_dh_agree(&b) | cry_dh_get_tok(&a, t, n) | cry_dh_get_tok(&b, u, n) | cry_dh_set_tok(&a, u, n) | cry_dh_set_tok(&b, t, n)
        | cry_dh_finalize(&a) | cry_dh_finalize(&b) | cry_dh_get_sec(&a, s1, n) | cry_dh_get_sec(&b, s2, n));
    cry_mpi_init(&w); cry_mpi_load_bin(&w, s1, n); v_out(&w, "k1"); cry_mpi_load_bin(&w, s2, n); v_out(&w, "k2"); cry_mpi_load_bin(&w, t, n); v_out(&w, "t");
}
static void elg(cry_elgamal_ctx *c, long pb)
{
    num(&c->p, "p", pb); num(&c->g, "g", -2); num(&c->y, "y", -2); num(&c->d, "x", -2); v_range(&c->g, &c->p); v_range(&c->y, &c->p); v_range(&c->d, &c->p);
}
void h_elgsign(long pb, Z n, Z bytes)
{
    cry_elgamal_ctx c; cry_elgamal_sig s; u8 m[200], o[400]; Z k = (pb + 7) / 8; elg(&c, pb); cry_mpi_init(&s.r); cry_mpi_init(&s.s); v_in(m, n, "m");
    if (bytes) { v_ret(cry_elgamal_sign(&c, o, m, n)); cry_mpi_load_bin(&s.r, o, k); cry_mpi_load_bin(&s.s, o + k, k); }
    else v_ret(cry_elgamal_sign2(&c, &s, m, n));
    v_out(&s.r, "r"); v_out(&s.s, "s"); v_out(&c.p, "1p"); v_out(&c.g, "1g"); v_out(&c.d, "1x"); v_out(&c.y, "1y");
}
void h_elgverify(long pb, Z n, Z bytes)
{
    cry_elgamal_ctx c; cry_elgamal_sig s; u8 m[200], o[400]; Z k = (pb + 7) / 8; elg(&c, pb); num(&s.r, "r", 0); num(&s.s, "s", 0); v_in(m, n, "m");
    if (bytes) { v_num(&s.r, "r", -1); v_num(&s.s, "s", -1); cry_mpi_store_bin(&s.r, o, k, 1); cry_mpi_store_bin(&s.s, o + k, k, 1); v_ret(cry_elgamal_verify(&c, o, m, n)); }
    else v_ret(cry_elgamal_verify2(&c, &s, m, n));
}
static void rsa(cry_rsa_ctx *c, long nb, int pad)
{
    c->padding = pad; num(&c->n, "n", nb); num(&c->e, "e", -2); num(&c->d, "d", -2); num(&c->p, "p", -2); num(&c->q, "q", -2);
}
/* what: 0 encrypt, 1 sign; the blocks as numbers */
void h_rsa(long nb, int pad, int sign, Z n, Z hi)
{
    cry_rsa_ctx c; u8 m[200], *o; Z ol = 0, k = (nb + 7) / 8; cry_mpi w; rsa(&c, nb, pad); v_in(m, n, "m"); if (!pad && hi) m[0] = 0;
    v_ret(sign ? cry_rsa_sign(&c, &o, &ol, m, n) : cry_rsa_encrypt(&c, &o, &ol, m, n)); cry_mpi_init(&w); v_set(&w, ol); v_out(&w, "len");
    if (ol >= k) { cry_mpi_load_bin(&w, o, k); v_out(&w, "b0"); }
    if (ol >= 2 * k) { cry_mpi_load_bin(&w, o + k, k); v_out(&w, "b1"); }
    if (ol >= 3 * k) { cry_mpi_load_bin(&w, o + 2 * k, k); v_out(&w, "b2"); }
    v_out(&c.n, "1n"); v_out(&c.e, "1e"); v_out(&c.d, "1d");
}
/* back: decrypt(encrypt) and verify(sign) */
void v_rsa(cry_mpi *, cry_mpi *, cry_mpi *);
void h_rsart(long nb, int pad, int sign, Z n)
{
    cry_rsa_ctx c; u8 m[200], *o, *b = 0; Z ol = 0, bl = 0; int r; cry_mpi w; Z k = (nb + 7) / 8, i; rsa(&c, nb, pad); v_rsa(&c.n, &c.e, &c.d); v_in(m, n, "m");
    if (!pad) for (i = 0; i < n; i += k) m[i] = 0;
    r = sign ? cry_rsa_sign(&c, &o, &ol, m, n) : cry_rsa_encrypt(&c, &o, &ol, m, n);
    if (r == 0) r = sign ? cry_rsa_verify(&c, o, ol, m, n) : cry_rsa_decrypt(&c, &b, &bl, o, ol);
    v_ret(r); cry_mpi_init(&w); v_set(&w, bl); v_out(&w, "len"); v_mem(m, n, "m");
    if (!sign) v_mem(b, bl, "back");
}
void h_rsakey(long nb, long e)
{
    cry_rsa_ctx c; rsa(&c, nb, 0); v_ret(cry_rsa_keygen(&c, nb, e)); v_out(&c.n, "n"); v_out(&c.e, "e"); v_out(&c.d, "d"); v_out(&c.p, "p"); v_out(&c.q, "q");
}
void h_dsakey(int l)
{
    cry_dsa_ctx c; cry_mpi_init(&c.p); cry_mpi_init(&c.q); cry_mpi_init(&c.g); cry_mpi_init(&c.pvt); cry_mpi_init(&c.pub);
    v_ret(cry_dsa_keygen(&c, l)); v_out(&c.p, "p"); v_out(&c.q, "q"); v_out(&c.g, "g"); v_out(&c.pvt, "x"); v_out(&c.pub, "y");
}
'''
def I(F, *n): return [F.A.inp(k) for k in n]
def keep(F): return [('input ' + k[1:], v, F.A.inp(k[1:])) for k, v in F.outs.items() if k[0] == '1']
def ret(F, v=0): return ('return value', C(F.ret), C(v))
def msg(F, n, bits):
    """the leftmost bits of the message, as a number"""
    k = F.msgs.get('m', [])[:n]; x = 0
    if bits is not None and 8 * len(k) > bits: m = (bits + 7) // 8; k = k[:m]; x = 8 * m - bits
    v = F.A.atom(('bin', tuple(k))) if k else ZERO
    return F.A.quot(v, C(1 << x)) if x and v else v
def nounit(F): return F.ret != 0 and any(k[0] == 'unit' and v is False for k, v in F.path)
# ---- signatures
def jdsasign(qb, n):
    def judge(F):
        A = F.A; p, q, g, x = I(F, 'p', 'q', 'g', 'x'); z = msg(F, n, qb)
        if nounit(F): return None
        r, s = F.outs['r'], F.outs['s']; l = [ret(F)] + keep(F)
        d = A.d(r); d = A.d(d[2]) if d and d[0] == 'mod' and d[1] == q else None; d = A.d(d[2]) if d and d[0] == 'mod' and d[1] == p else d
        if d and d[0] == 'pow' and d[1] == p and d[2] == g:
            k = d[3]
            return [l + [('r', r, A.mod(A.pow(g, k, p), q)), ('s', s, A.mod(pmul(A.inv(k, q), padd(z, pmul(x, r))), q))]]
        y = A.pow(g, x, p); w = A.inv(s, q)             # no visible ephemeral exponent: the pair must satisfy the verification equation
        return [l + [('r', r, A.mod(A.mod(pmul(A.pow(g, A.mod(pmul(z, w), q), p), A.pow(y, A.mod(pmul(r, w), q), p)), p), q))]]
    return judge
def inside(F, v, m):
    """0 < v < m"""
    return not F.zero(v) and not F.neg(v) and F.cmp(v, m) < 0
def accept(F, ok): return [[('verdict (0: accepted)', C(0 if F.ret == 0 else 1), C(0 if ok else 1))] + keep(F)]
def jdsaverify(qb, n):
    def judge(F):
        A = F.A; p, q, g, y, r, s = I(F, 'p', 'q', 'g', 'y', 'r', 's')
        if nounit(F): return None
        if not (inside(F, r, q) and inside(F, s, q)): return accept(F, False)
        z = msg(F, n, qb); w = A.inv(s, q); u1 = A.mod(pmul(z, w), q); u2 = A.mod(pmul(r, w), q)
        v = A.mod(A.mod(pmul(A.pow(g, u1, p), A.pow(y, u2, p)), p), q)
        return accept(F, F.cmp(v, r) == 0)
    return judge
def base(F, x='gx', y='gy'): return (F.A.inp(x), F.A.inp(y), ONE)
def jecsign(nb, n):
    def judge(F):
        A = F.A; N, x = I(F, 'n', 'x'); z = msg(F, n, nb)
        if nounit(F): return None
        r, s = F.outs['r'], F.outs['s']; l = [ret(F)] + keep(F)
        d = A.d(r); d = A.d(d[2]) if d and d[0] == 'mod' and d[1] == N else None
        if d and d[0] == 'px' and len(d[1]) == 1 and d[1][0][0] == base(F):
            k = d[1][0][1]
            return [l + [('s', s, A.mod(pmul(A.inv(k, N), padd(z, pmul(x, r))), N))]]
        w = A.inv(s, N); pt = A.point(((base(F), padd(pmul(z, w), pmul(pmul(r, w), x))),), N)
        return [l + [('r', r, A.mod(A.coords(pt)[0], N))]]
    return judge
def jecverify(nb, n):
    def judge(F):
        A = F.A; N, r, s = I(F, 'n', 'r', 's')
        if nounit(F): return None
        if not (inside(F, r, N) and inside(F, s, N)): return accept(F, False)
        z = msg(F, n, nb); w = A.inv(s, N); pt = A.point(((base(F), pmul(z, w)), (base(F, 'qx', 'qy'), pmul(r, w))), N); X = A.coords(pt)
        if X[2] == ZERO or F.zero(X[2]): return accept(F, False)
        return accept(F, F.cmp(A.mod(X[0], N), r) == 0)
    return judge
def jeckey(F):
    A = F.A; N, = I(F, 'n'); o = F.outs; pt = A.point(((base(F), o['d']),), N)
    X = A.coords(pt)
    return [[ret(F)] + [('public point ' + k, o[k], v) for k, v in zip('xyz', X)] + [('private key reduced', o['d'], A.mod(o['d'], N))]]
def jecdh(fin):
    def judge(F):
        A = F.A; N, x = I(F, 'n', 'x'); X = A.coords(A.point(((base(F, *('qx', 'qy') if fin else ('gx', 'gy')), x),), N)); o = F.outs
        return [[ret(F), ('x coordinate', o['x'], X[0]), ('y coordinate', o['y'], X[1])] + keep(F)]
    return judge
def jecdh2(F):
    A = F.A; N, x, y = I(F, 'n', 'x', 'x2'); X = A.coords(A.point(((base(F), pmul(x, y)),), N)); o = F.outs
    return [[ret(F)] + [('shared ' + k, o[k], v) for k, v in zip(('x', 'y', 'x2', 'y2'), (X[0], X[1], X[0], X[1]))]]
def jdh(fin):
    def judge(F):
        A = F.A; p, g, x, y, z = I(F, 'p', 'g', 'x', 'y', 'z'); o = F.outs
        return [[ret(F), ('Y', o['Y'], y if fin else A.pow(g, x, p)), ('Z', o['Z'], A.pow(y, x, p) if fin else z)] + keep(F)]
    return judge
def jdh2(F):
    A = F.A; p, g, x, y = I(F, 'p', 'g', 'x', 'x2'); o = F.outs; k = A.pow(g, pmul(x, y), p)
    return [[ret(F), ('secret of one side', o['k1'], k), ('secret of the other', o['k2'], k), ('token', o['t'], A.pow(g, x, p))]]
def jelgsign(n):
    def judge(F):
        A = F.A; p, g, x = I(F, 'p', 'g', 'x'); m = padd(p, ONE, -1); z = msg(F, n, None)
        if nounit(F): return None
        r, s = F.outs['r'], F.outs['s']; l = [ret(F)] + keep(F); d = A.d(r); d = A.d(d[2]) if d and d[0] == 'mod' and d[1] == p else d
        if d and d[0] == 'pow' and d[1] == p and d[2] == g:
            return [l + [('r', r, A.pow(g, d[3], p)), ('s', s, A.mod(pmul(padd(z, pmul(x, r), -1), A.inv(d[3], m)), m))]]
        return [l + [('g^z', A.pow(g, z, p), A.mod(pmul(A.pow(A.pow(g, x, p), r, p), A.pow(r, s, p)), p))]]
    return judge
def jelgverify(n):
    def judge(F):
        A = F.A; p, g, y, r, s = I(F, 'p', 'g', 'y', 'r', 's'); m = padd(p, ONE, -1); z = msg(F, n, None)
        if not (inside(F, r, p) and inside(F, s, m)): return accept(F, False)
        return accept(F, F.cmp(A.mod(pmul(A.pow(y, r, p), A.pow(r, s, p)), p), A.pow(g, z, p)) == 0)
    return judge
# ---- RSA
PADBYTE = 0x5a
def blocks(F, nb, pad, sign, n, hi):
    k = (nb + 7) // 8; m = list(F.msgs.get('m', []))
    if not pad and hi and m: m[0] = 0
    b = k - 11 if pad else k; out = []
    for i in range(0, n, b):
        d = m[i:i + b]
        if pad: d = [0, 1 if sign else 2] + [255 if sign else PADBYTE] * (k - 3 - len(d)) + [0] + d
        else: d = d + [0] * (k - len(d))
        while d and d[0] == 0: d = d[1:]
        out.append(F.A.atom(('bin', tuple(d))) if any(type(x) is not int for x in d) else C(int.from_bytes(bytes(d), 'big')))
    return out
def jrsa(nb, pad, sign, n, hi):
    def judge(F):
        A = F.A; N, e, d = I(F, 'n', 'e', 'd'); k = (nb + 7) // 8; bs = blocks(F, nb, pad, sign, n, hi)
        if not bs: return [[('return value', C(int(F.ret != 0)), ONE)]]
        return [[ret(F), ('length', F.outs['len'], C(k * len(bs)))] + [('block %d' % i, F.outs.get('b%d' % i), A.pow(b, d if sign else e, N)) for i, b in enumerate(bs)] + keep(F)]
    return judge
def jrsart(nb, pad, sign, n):
    def judge(F):
        k = (nb + 7) // 8; l = [ret(F)]
        if not sign:
            want = n if pad else (n + k - 1) // k * k; m = F.outs['m'] + [0] * (want - n); b = F.outs['back']
            l += [('length', F.outs['len'], C(want))] + [('byte %d is the original one' % i, C(int(i < len(b) and b[i] == m[i])), ONE) for i in range(want)]
        return [l]
    return judge
def jrsakey(nb, e0):
    def judge(F):
        A = F.A; o = F.outs
        if F.ret != 0: return None
        ph = pmul(padd(o['p'], ONE, -1), padd(o['q'], ONE, -1))
        k = [('n', o['n'], pmul(o['p'], o['q'])), ('d', o['d'], A.inv(o['e'], ph))] + ([('e', o['e'], C(e0))] if e0 else [])
        k += [('factor drawn as a prime', C(int(bool(A.d(o[x])) and A.d(o[x])[0] == 'rand' and A.d(o[x])[2] == 'prime')), ONE) for x in 'pq']
        k += [('modulus has the size asked for (1: checked)', C(int(F.known.get(('bits', o['n'])) == nb)), ONE), ('factors compared', C(int(F.cmpknown(o['p'], o['q']) in (1, -1))), ONE)]
        return [k]
    return judge
def jdsakey(F):
    A = F.A; o = F.outs
    if F.ret != 0: return None
    p, q, g, x = o['p'], o['q'], o['g'], o['x']
    k = [('q drawn as a prime', C(int(bool(A.d(q)) and A.d(q)[0] == 'rand' and A.d(q)[2] == 'prime')), ONE), ('p tested for being prime', C(int(F.known.get(('prime', p)) == 1)), ONE),
         ('(p-1) mod q', A.mod(padd(p, ONE, -1), q), ZERO), ('public key', o['y'], A.pow(g, x, p)), ('g differs from 1 (1: checked)', C(int(F.cmpknown(g, ONE) in (1, -1))), ONE)]
    d = A.d(g); d = A.d(d[2]) if d and d[0] == 'mod' else d
    k += [('order of g', A.quot(padd(p, ONE, -1), q) if d is None or d[0] != 'pow' else d[3], A.quot(padd(p, ONE, -1), q))]
    return [k]
# ---- sample values
PQ = [(p, q) for p in (23, 47, 53, 59, 79, 83, 103, 107, 131) for q in (11, 13, 23, 29, 41, 53) if (p - 1) % q == 0]
def bits0(env, F, rnd):
    for ks in F.msgs.values():
        for k in ks: env[k] = rnd.choice((0, 1, 2, 3, 5, 128, 255, rnd.randrange(256)))
def zval(F, env, n, bits):
    k = F.msgs.get('m', [])[:n]; x = 0
    if bits is not None and 8 * len(k) > bits: m = (bits + 7) // 8; k = k[:m]; x = 8 * m - bits
    return int.from_bytes(bytes(env[b] for b in k), 'big') >> x
def near(rnd, v, q): return v if rnd.random() < .6 else rnd.choice((0, -v, v + q, v - q, rnd.randrange(-2, q + 3), q))
def sdsa(n, qb):
    def f(rnd, F):
        p, q = rnd.choice(PQ); g = 1
        while g == 1: g = pow(rnd.randrange(2, p - 1), (p - 1) // q, p)
        x = rnd.randrange(1, q); env = dict(p=p, q=q, g=g, x=x, y=pow(g, x, p), oldr=rnd.randrange(-9, 9), olds=rnd.randrange(9)); bits0(env, F, rnd); z = zval(F, env, n, qb); k = rnd.randrange(1, q)
        r = pow(g, k, p) % q; s = pow(k, -1, q) * (z + x * r) % q; env['r'] = near(rnd, r, q); env['s'] = near(rnd, s, q)
        return env
    return f
def sec(n, nb):
    def f(rnd, F):
        p, a, b, N, pts = termcheck.curve(rnd); G = rnd.choice(pts); x = rnd.randrange(1, N); Q = termcheck.curve_mul(x, G, p, a)
        env = dict(p=p, a=a, b=b, n=N, gx=G[0], gy=G[1], qx=Q[0], qy=Q[1], x=x, x2=rnd.randrange(1, N), oldr=3, olds=4); bits0(env, F, rnd); z = zval(F, env, n, nb); k = rnd.randrange(1, N)
        r = termcheck.curve_mul(k, G, p, a)[0] % N; s = pow(k, -1, N) * (z + x * r) % N; env['r'] = near(rnd, r, N); env['s'] = near(rnd, s, N)
        return env
    return f
def selg(n):
    def f(rnd, F):
        p = rnd.choice((11, 23, 29, 37, 47, 59)); g = rnd.randrange(2, p); x = rnd.randrange(1, p - 1); env = dict(p=p, g=g, x=x, y=pow(g, x, p), x2=rnd.randrange(1, p - 1)); bits0(env, F, rnd)
        k = rnd.randrange(1, p - 1)
        while math.gcd(k, p - 1) != 1: k = rnd.randrange(1, p - 1)
        r = pow(g, k, p); s = (zval(F, env, n, None) - x * r) * pow(k, -1, p - 1) % (p - 1); env['r'] = near(rnd, r, p); env['s'] = near(rnd, s, p - 1)
        return env
    return f
def sdh(rnd, F):
    p = rnd.choice((11, 23, 29, 37, 47, 59)); return dict(p=p, g=rnd.randrange(2, p), x=rnd.randrange(1, p), x2=rnd.randrange(1, p), y=rnd.randrange(1, p), z=rnd.randrange(p))
def srsa(rnd, F):
    p, q, = rnd.sample((11, 17, 23, 29, 41, 47), 2); ph = (p - 1) * (q - 1); e = rnd.choice([e for e in (3, 5, 7, 9, 13) if math.gcd(e, ph) == 1])
    env = dict(n=p * q, e=e, d=pow(e, -1, ph), p=p, q=q); bits0(env, F, rnd); return env
def snone(rnd, F): return dict(n=1, e=1, d=1, p=1, q=1)
# ---- hooks of the scenarios
def padrand(F, a):
    F.setbytes(a[0], ('k', PADBYTE), F.size_arg(a[1])); return ('k', 0)
def v_rsa(F, a):
    F.A.inverse[F.num(a[0])] = pmul(F.num(a[1]), F.num(a[2]))
HK = dict(cry_prng_aes_rand=padrand, v_rsa=v_rsa)
def T(func, fn, args, judge, sample, **o): return TCase(func, fn, args, judge, sample, hooks=HK, points=True, **o)
def cases(tier):
    th = tier == 'thorough'; out = []
    for qb in (160, 224, 256, 157) + ((192, 161, 255, 512) if th else ()):
        B = (qb + 7) // 8
        for n in sorted({0, 1, B - 1, B, B + 1, B + 4, B + 12, 64} | ({20, 28, 32, 48} if th else set())):
            out += [T('cry_dsa_sign', 'h_dsasign', (1024, qb, n, ag), jdsasign(qb, n), sdsa(n, qb)) for ag in (0, 1)]
            out.append(T('cry_dsa_verify', 'h_dsaverify', (1024, qb, n), jdsaverify(qb, n), sdsa(n, qb)))
    for nb in (192, 224, 256, 521) + ((384, 512, 161) if th else ()):
        B = (nb + 7) // 8
        for n in sorted({0, 1, 20, B - 1, B, B + 1, B + 4, B + 12} | ({28, 32, 48, 64} if th else set())):
            out += [T('cry_ecdsa_sign', 'h_ecsign', (nb, n, ag), jecsign(nb, n), sec(n, nb)) for ag in (0, 1)]
            out.append(T('cry_ecdsa_verify', 'h_ecverify', (nb, n), jecverify(nb, n), sec(n, nb)))
        out.append(T('cry_ecdsa_keygen', 'h_eckey', (nb,), jeckey, sec(0, nb)))
        out += [T('cry_ecdh_final' if f else 'cry_ecdh_agree', 'h_ecdh', (nb, f), jecdh(f), sec(0, nb)) for f in (0, 1)] + [T('cry_ecdh_final', 'h_ecdh2', (nb,), jecdh2, sec(0, nb))]
    for pb in (512, 1024, 509):
        out += [T('cry_dh_finalize' if f else 'cry_dh_agree', 'h_dh', (pb, f), jdh(f), sdh) for f in (0, 1)] + [T('cry_dh_finalize', 'h_dh2', (pb,), jdh2, sdh)]
        for n in (0, 1, 20, (pb + 7) // 8):
            for by in (0, 1):
                out.append(T('cry_elgamal_sign' if by else 'cry_elgamal_sign2', 'h_elgsign', (pb, n, by), jelgsign(n), selg(n), loops=True, maxdec=5))
                out.append(T('cry_elgamal_verify' if by else 'cry_elgamal_verify2', 'h_elgverify', (pb, n, by), jelgverify(n), selg(n)))
    for nb in (128, 256, 250):
        k = (nb + 7) // 8
        for pad in (0, 1):
            b = k - 11 if pad else k
            for n in sorted({0, 1, b - 1, b, b + 1, 2 * b, 2 * b + 3}):
                for sg in (0, 1):
                    out.append(T('cry_rsa_sign' if sg else 'cry_rsa_encrypt', 'h_rsa', (nb, pad, sg, n, 1), jrsa(nb, pad, sg, n, 1), srsa))
                    if n: out.append(T('cry_rsa_verify' if sg else 'cry_rsa_decrypt', 'h_rsart', (nb, pad, sg, n), jrsart(nb, pad, sg, n), srsa))
    out += [T('cry_rsa_keygen', 'h_rsakey', (nb, e), jrsakey(nb, e), snone, loops=True, maxdec=5, bits=[nb, nb - 1]) for nb in (128, 256) for e in (0, 3, 65537)]
    out += [T('cry_dsa_keygen', 'h_dsakey', (l,), jdsakey, snone, loops=True, maxdec=7) for l in (0, 8)]
    return out
def run(tier): return termcheck.analyse('C26', TEXT, cases(tier))
