import termcheck, random
from termcheck import TCase, C, ONE, ZERO, padd, pmul
LEVEL = 'other'
TEXT = termcheck.HEAD + r'''
static void pnt(cry_ecp *P, const char *x, const char *y, Z inf, cry_ecp_grp *g)
{
    cry_ecp_init(P);
    if (inf) { cry_ecp_set_zero(P); return; }
    v_num(&P->x, x, -1); v_num(&P->y, y, -1); cry_mpi_set_int(&P->z, 1); v_range(&P->x, &g->p); v_range(&P->y, &g->p);
}
static void grp(cry_ecp_grp *g)
{
    cry_ecp_grp_init(g); v_num(&g->p, "p", -2); v_num(&g->a, "a", -1); v_num(&g->b, "b", -1); v_num(&g->n, "n", -2);
    v_range(&g->a, &g->p); v_range(&g->b, &g->p);
}
static void outp(cry_ecp *P, const char *x, const char *y, const char *z) { v_out(&P->x, x); v_out(&P->y, y); v_out(&P->z, z); }
void h_add(Z al, Z i1, Z i2)
{
    cry_ecp P, Q, R, *q = &Q, *r = &R; cry_ecp_grp g;
    grp(&g); pnt(&P, "x1", "y1", i1, &g); pnt(&Q, "x2", "y2", i2, &g); pnt(&R, "x3", "y3", 0, &g);
    if (al >= 3) q = &P;
    if (al == 1 || al == 4) r = &P;
    if (al == 2) r = &Q;
    v_ret(cry_ecp_add(r, &P, q, &g)); outp(r, "x", "y", "z");
    if (r != &P) outp(&P, "1x", "1y", "1z");
    if (r != q && q != &P) outp(&Q, "2x", "2y", "2z");
}
void h_dbl(Z al, Z i1)
{
    cry_ecp P, R, *r = al ? &P : &R; cry_ecp_grp g;
    grp(&g); pnt(&P, "x1", "y1", i1, &g); pnt(&R, "x3", "y3", 0, &g);
    v_ret(cry_ecp_dbl(r, &P, &g)); outp(r, "x", "y", "z");
    if (!al) outp(&P, "1x", "1y", "1z");
}
void h_mul(Z al, Z i1, Z a, Z b, Z c)
{
    cry_ecp P, R, *r = al ? &P : &R; cry_ecp_grp g; cry_mpi k;
    grp(&g); pnt(&P, "x1", "y1", i1, &g); pnt(&R, "x3", "y3", 0, &g); cry_mpi_init(&k); v_set(&k, a, b, c);
    v_ret(cry_ecp_mul(r, &P, &k, &g)); outp(r, "x", "y", "z");
    if (!al) outp(&P, "1x", "1y", "1z");
    v_out(&k, "k");
}
'''
def ins(F): return {k: F.A.inp(k) for k in ('p', 'a', 'x1', 'y1', 'x2', 'y2')}
def same(F, P, z, pre):
    """an operand that is not the result keeps its value"""
    if pre + 'x' not in F.outs: return []
    want = (ONE, ONE, ZERO) if z else P + (ONE,)
    return [('operand coordinate ' + k, F.outs[pre + k], w) for k, w in zip('xyz', want)]
def result(F, want, extra=()):
    """a point (None: infinity, whose x and y do not matter)"""
    o = F.outs; l = [('return value', C(F.ret), ZERO)]
    if want is None: l += [('z coordinate', o['z'], ZERO)]
    else: l += [('x coordinate', o['x'], want[0]), ('y coordinate', o['y'], want[1]), ('z coordinate', o['z'], want[2] if len(want) > 2 else ONE)]
    return l + list(extra)
def chord(F, num, den, x1, y1, x2, p):
    A = F.A; l = pmul(num, A.inv(den, p)); x = A.mod(padd(padd(pmul(l, l), x1, -1), x2, -1), p)
    return x, A.mod(padd(pmul(l, padd(x1, x, -1)), y1, -1), p)
def missing(F): return any(k[0] == 'unit' and v is False for k, v in F.path)
def tangent(F, x, y, v): return chord(F, padd(pmul(C(3), pmul(x, x)), v['a']), pmul(C(2), y), x, y, x, v['p'])
def jadd(al, i1, i2):
    def judge(F):
        v = ins(F); A = F.A; P = (v['x1'], v['y1']); Q = P if al >= 3 else (v['x2'], v['y2']); j2 = i1 if al >= 3 else i2
        if missing(F): return None                # p is prime and points have odd order: inverses exist
        keep = same(F, P, i1, '1') + same(F, Q, j2, '2')
        if i1 and j2: return [result(F, None, keep)]
        if i1: return [result(F, Q, keep)]
        if j2: return [result(F, P, keep)]
        dx = A.mod(padd(Q[0], P[0], -1), v['p']); dy = A.mod(padd(Q[1], P[1], -1), v['p'])
        if dx == ZERO or F.zero(dx):
            if dy == ZERO or F.zero(dy): return [result(F, tangent(F, X[0], X[1], v), keep) for X in (P, Q)]
            return [result(F, None, keep)]
        return [result(F, chord(F, padd(Q[1], P[1], -1), padd(Q[0], P[0], -1), P[0], P[1], Q[0], v['p']), keep)]
    return judge
def jdbl(al, i1):
    def judge(F):
        v = ins(F); P = (v['x1'], v['y1'])
        if missing(F): return None
        keep = same(F, P, i1, '1')
        return [result(F, None if i1 else tangent(F, P[0], P[1], v), keep)]
    return judge
def jmul(al, i1, k):
    def judge(F):
        v = ins(F); P = (v['x1'], v['y1'])
        keep = same(F, P, i1, '1') + [('scalar', F.outs['k'], C(k))]
        if i1 or k == 0: return [result(F, None, keep)]
        return [result(F, F.A.coords(((P + (ONE,), C(k)),) if k > 1 else ((P + (ONE,), ONE),)), keep)]
    return judge
def sample(rnd, F):
    p, a, b, n, pts = termcheck.curve(rnd); P = rnd.choice(pts); m = rnd.randrange(3)
    Q = rnd.choice(pts) if m == 0 else P if m == 1 else (P[0], -P[1] % p); X = rnd.choice(pts)
    return dict(p=p, a=a, b=b, n=n, x1=P[0], y1=P[1], x2=Q[0], y2=Q[1], x3=X[0], y3=X[1])
def scalars(th):
    rnd = random.Random(11); s = list(range(0, 300 if th else 80))
    for e in (63, 64, 65, 66, 67, 127, 128, 129):
        s += [(1 << e) + d for d in (-3, -2, -1, 0, 1, 2, 3, 5, 8)]
    for w in (1, 2, 3, 4, 5, 7, 8, 15):                    # runs of ones and patterns at every position of a digit and over its border
        for sh in range(0, 132, 1 if th else 5): s.append((w << sh) | (rnd.getrandbits(sh) if sh and sh % 2 else 0))
    s += [rnd.getrandbits(b) | 1 << (b - 1) for b in ((64, 70, 100, 128, 130, 160, 190, 192) * (12 if th else 3))]
    return [k for k in dict.fromkeys(s) if k < 1 << 192]
def cases(tier):
    th = tier == 'thorough'; out = []
    for cfg in ('default', 'alt', 'win'):
        out += [TCase('cry_ecp_add', 'h_add', (al, i1, i2), jadd(al, i1, i2), sample, cfg=cfg) for al in range(5) for i1 in (0, 1) for i2 in (0, 1)]
        out += [TCase('cry_ecp_dbl', 'h_dbl', (al, i1), jdbl(al, i1), sample, cfg=cfg) for al in (0, 1) for i1 in (0, 1)]
        M = (1 << 64) - 1
        for j, k in enumerate(scalars(th)):
            for al in ((0, 1) if th or j % 4 == 0 else (0,)):
                out.append(TCase('cry_ecp_mul', 'h_mul', (al, 0, k >> 128, k >> 64 & M, k & M), jmul(al, 0, k), sample, cfg=cfg, points=True, inline=('cry_ecp_mul',), useorder=False))
        out += [TCase('cry_ecp_mul', 'h_mul', (al, 1, 0, 0, k), jmul(al, 1, k), sample, cfg=cfg, points=True, inline=('cry_ecp_mul',), useorder=False) for al in (0, 1) for k in (0, 1, 9)]
    return out
def run(tier): return termcheck.analyse('C25', TEXT, cases(tier))
