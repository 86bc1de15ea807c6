"""C model of the number and point routines for Eva harnesses (C03, C05): a number carries no value, only
   mask  - the set of inputs it was computed from
   id    - which input (plus a small constant) it equals, if it is a plain copy of one
   rnd   - the set of draws from the generator it was computed from
   ent   - an upper bound on the unpredictable bits it carries
and every routine may fail.  Comparisons return anything the scenario leaves open."""
STUBS = ('cry_mpi_init cry_mpi_clear cry_mpi_copy cry_mpi_init_copy cry_mpi_init_size cry_mpi_init_int cry_mpi_set_int cry_mpi_get_int cry_mpi_init_bin '
  'cry_mpi_load_bin cry_mpi_store_bin cry_mpi_init_str cry_mpi_load_str cry_mpi_init_list cry_mpi_clear_list cry_mpi_abs cry_mpi_add_abs cry_mpi_sub_abs cry_mpi_mul_abs '
  'cry_mpi_div_abs cry_mpi_add cry_mpi_sub cry_mpi_mul cry_mpi_div cry_mpi_sqr cry_mpi_sqrt cry_mpi_shl cry_mpi_shr cry_mpi_exp cry_mpi_mod_exp cry_mpi_gcd '
  'cry_mpi_lcm cry_mpi_inv cry_mpi_mul_baseline cry_mpi_mul_comba cry_mpi_mul_karatsuba cry_mpi_mul_toom3 cry_mpi_sqr_baseline cry_mpi_sqr_comba cry_mpi_sqr_karatsuba '
  'cry_mpi_cmp cry_mpi_cmp_abs cry_mpi_count_bits cry_mpi_rand cry_mpi_rand_range cry_mpi_prime cry_mpi_is_prime cry_mpi_mul_dig cry_mpi_grow cry_mpi_shld cry_mpi_shrd '
  'cry_ecp_init cry_ecp_clear cry_ecp_init_int cry_ecp_copy cry_ecp_add cry_ecp_dbl cry_ecp_mul cry_ecp_init_list cry_ecp_clear_list '
  'cry_ecp_grp_init cry_ecp_grp_clear cry_ecp_grp_load cry_prng_aes_rand').split()
# inputs: bit number, name
NAMES = ['R', 'S', 'MSG', 'P', 'Q', 'G', 'PUB', 'PVT', 'A', 'B']
TEXT = r'''
#include <stdarg.h>
#include <cry/mpi.h>
#include <cry/ecp.h>
#include <cry/prng.h>
#define TB 1000
#define NUM 96
enum { %(enum)s };
#define BIT(x) (1u << (x))
#define ID(b, o) ((b) * 64 + 32 + (o))          /* input b plus o */
#define CONST 40
#define BASE(i) ((i) / 64)
#define OFF(i) ((i) %% 64 - 32)
#define NOID 0
#define KNOWN(i) ((i) != NOID)
static unsigned mask[NUM], rnd[NUM]; static int ident[NUM], ent[NUM];
static cry_mpi_digit digs[8];
static int np, fault, draws;
#ifndef DRAWLIMIT
#define DRAWLIMIT 28
#endif
#ifndef MAYFAIL
#define MAYFAIL 1
#endif
static int ret(void) {
    if (MAYFAIL && nd()) { fault = 1; return -1; }
    return 0;
}
static unsigned mk(const cry_mpi *a) { return a->alloc >= TB ? mask[a->alloc - TB] : 0; }
static unsigned rn(const cry_mpi *a) { return a->alloc >= TB ? rnd[a->alloc - TB] : 0; }
static int en(const cry_mpi *a) { return a->alloc >= TB ? ent[a->alloc - TB] : 0; }
static int idof(const cry_mpi *a) {
    if (a->alloc >= TB) return ident[a->alloc - TB];
    if (a->used == 0) return ID(CONST, 0);
    if (a->used == 1 && a->sign == 0 && a->data[0] < 16) return ID(CONST, (int)a->data[0]);
    return NOID;
}
static void fresh(cry_mpi *a) {
    a->sign = 0; a->used = 0; a->alloc = TB + np; a->data = digs;
    mask[np] = 0; rnd[np] = 0; ident[np] = ID(CONST, 0); ent[np] = 0;
    if (np < NUM - 1) np++;
}
static void setall(cry_mpi *r, unsigned m, int id, unsigned rs, int e) {
    int k;
    if (r->alloc < TB) return;
    k = r->alloc - TB;
    mask[k] = m; ident[k] = id; rnd[k] = rs; ent[k] = e;
    r->used = Frama_C_interval(0, 2); r->sign = nd();
}
static int mn(int a, int b) { return a < b ? a : b; }
static int mx(int a, int b) { return a > b ? a : b; }
static int bitsof(const cry_mpi *a) {
    int i = idof(a);
    if (BASE(i) == Q) return QBITS;
    if (BASE(i) == P) return PBITS;
    return 100000;
}
size_t cry_mpi_count_bits(const cry_mpi *a) {
    int b = bitsof(a);
    if (b != 100000) return b;
    return Frama_C_interval(0, PBITS);
}
/* the inputs: used and sign as the scenario says */
static void input(cry_mpi *a, int b, int used, int sign) {
    fresh(a);
    mask[a->alloc - TB] = BIT(b); ident[a->alloc - TB] = ID(b, 0);
    a->used = used; a->sign = sign;
}
int cry_mpi_init(cry_mpi *a) { if (ret()) return -1; fresh(a); return 0; }
int cry_mpi_init_size(cry_mpi *a, size_t n) { if (ret()) return -1; fresh(a); return 0; }
void cry_mpi_clear(cry_mpi *a) { }
int cry_mpi_grow(cry_mpi *a, size_t n) { return ret(); }
int cry_mpi_init_list(cry_mpi *a, ...) {
    va_list ap; cry_mpi *p;
    if (ret()) return -1;
    va_start(ap, a);
    for (p = a; p != NULL; p = va_arg(ap, cry_mpi *)) fresh(p);
    va_end(ap);
    return 0;
}
void cry_mpi_clear_list(cry_mpi *a, ...) { }
int cry_mpi_copy(cry_mpi *d, const cry_mpi *s) {
    if (ret()) return -1;
    { size_t u = s->used; int g = s->sign; setall(d, mk(s), idof(s), rn(s), en(s)); d->used = u; d->sign = g; }
    return 0;
}
int cry_mpi_abs(cry_mpi *d, const cry_mpi *s) {
    if (ret()) return -1;
    { size_t u = s->used; int i = s->sign ? NOID : idof(s); setall(d, mk(s), i, rn(s), en(s)); d->used = u; d->sign = 0; }
    return 0;
}
int cry_mpi_init_copy(cry_mpi *d, const cry_mpi *s) { if (ret()) return -1; fresh(d); return cry_mpi_copy(d, s); }
int cry_mpi_set_int(cry_mpi *a, long v) {
    if (ret()) return -1;
    setall(a, 0, v > -16 && v < 16 ? ID(CONST, (int)v) : NOID, 0, 0); a->used = v != 0; a->sign = v < 0;
    return 0;
}
int cry_mpi_init_int(cry_mpi *a, long v) { if (ret()) return -1; fresh(a); return cry_mpi_set_int(a, v); }
int cry_mpi_get_int(cry_mpi *a, long *v) { *v = Frama_C_interval(-1000, 1000); return ret(); }
static int same(const u8 *b, size_t n, int c, size_t need) {   /* buffer that starts with the marker bytes of an input */
    size_t i;
    if (n < need) return 0;
    for (i = 0; i < need; i++) if (b[i] != c + i %% 32) return 0;
    return 1;
}
static size_t msgneed, signeed; static int sc_rused = 2, sc_sused = 2;
static int rstate[256];                       /* bytes drawn from the generator, by content marker */
static const u8 *drawnp[8]; static size_t drawnn[8]; static unsigned drawnb[8]; static int ndrawn;
static unsigned draw(void);
int cry_prng_aes_rand(unsigned char *d, size_t n) {
    if (ret()) return -1;
    fill(d, n);
    if (ndrawn >= 8) Frama_C_abort();
    drawnp[ndrawn] = d; drawnn[ndrawn] = n; drawnb[ndrawn] = draw(); ndrawn++;
    return 0;
}
int cry_mpi_load_bin(cry_mpi *a, const void *b, size_t n) {
    int k;
    if (ret()) return -1;
    setall(a, 0, NOID, 0, 0); a->sign = 0;
    for (k = 0; k < ndrawn; k++) if (drawnp[k] == (const u8 *)b) { rnd[a->alloc - TB] |= drawnb[k]; ent[a->alloc - TB] = 8 * (int)(n < drawnn[k] ? n : drawnn[k]); }
    if (same(b, n, 0x40, msgneed)) mask[a->alloc - TB] = BIT(MSG);
    else if (n == signeed && same(b, n, 0x80, n)) { mask[a->alloc - TB] = BIT(R); ident[a->alloc - TB] = ID(R, 0); a->used = sc_rused; }
    else if (n == signeed && same(b, n, 0xC0, n)) { mask[a->alloc - TB] = BIT(S); ident[a->alloc - TB] = ID(S, 0); a->used = sc_sused; }
    return 0;
}
int cry_mpi_init_bin(cry_mpi *a, const void *b, size_t n) { if (ret()) return -1; fresh(a); return cry_mpi_load_bin(a, b, n); }
static const cry_mpi *stored[4]; static unsigned storedmask[4], storedrnd[4]; static int storedent[4], nstored;
int cry_mpi_store_bin(const cry_mpi *a, void *b, size_t n, int pad) {
    if (ret()) return -1;
    fill(b, n);
    if (nstored < 4) { storedmask[nstored] = mk(a); storedrnd[nstored] = rn(a); storedent[nstored] = en(a); nstored++; }
    return 0;
}
int cry_mpi_load_str(cry_mpi *a, unsigned int x, const char *s) { if (ret()) return -1; setall(a, 0, NOID, 0, 0); return 0; }
int cry_mpi_init_str(cry_mpi *a, unsigned int x, const char *s) { if (ret()) return -1; fresh(a); setall(a, 0, NOID, 0, 0); return 0; }
static int full(unsigned m) { return (m & NEED) == NEED; }
static int sc_diff(const cry_mpi *a, const cry_mpi *b) {        /* the equality that decides, and the scenario says it does not hold */
#ifdef SC_DIFF
# ifdef EQ_UNION
    return full(mk(a) | mk(b)) && !full(mk(a)) && !full(mk(b));
# else
    return (idof(a) == ID(R, 0) && full(mk(b))) || (idof(b) == ID(R, 0) && full(mk(a)));
# endif
#else
    return 0;
#endif
}
static int op2(cry_mpi *r, const cry_mpi *a, const cry_mpi *b, int e) {
    if (ret()) return -1;
    setall(r, mk(a) | mk(b), NOID, rn(a) | rn(b), e);
    return 0;
}
int cry_mpi_add(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) {
    int ia = idof(a), ib = idof(b), id = NOID;
    if (KNOWN(ia) && BASE(ib) == CONST && OFF(ia) + OFF(ib) < 30) id = ID(BASE(ia), OFF(ia) + OFF(ib));
    else if (KNOWN(ib) && BASE(ia) == CONST && OFF(ia) + OFF(ib) < 30) id = ID(BASE(ib), OFF(ia) + OFF(ib));
    if (op2(r, a, b, mx(en(a), en(b)))) return -1;
    if (r->alloc >= TB) ident[r->alloc - TB] = id;
    return 0;
}
int cry_mpi_sub(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) {
    int ia = idof(a), ib = idof(b), id = NOID, d = sc_diff(a, b);
    if (KNOWN(ia) && BASE(ib) == CONST && OFF(ia) - OFF(ib) > -30) id = ID(BASE(ia), OFF(ia) - OFF(ib));
    if (op2(r, a, b, mx(en(a), en(b)))) return -1;
    if (r->alloc >= TB) ident[r->alloc - TB] = id;
    if (d) r->used = Frama_C_interval(1, 2);
    return 0;
}
int cry_mpi_add_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return cry_mpi_add(r, a, b); }
int cry_mpi_sub_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return cry_mpi_sub(r, a, b); }
#define OP2(n, e) int n(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return op2(r, a, b, e); }
OP2(cry_mpi_mul, mx(en(a), en(b))) OP2(cry_mpi_mul_abs, mx(en(a), en(b))) OP2(cry_mpi_mul_baseline, mx(en(a), en(b))) OP2(cry_mpi_mul_comba, mx(en(a), en(b)))
OP2(cry_mpi_mul_karatsuba, mx(en(a), en(b))) OP2(cry_mpi_mul_toom3, mx(en(a), en(b))) OP2(cry_mpi_exp, mx(en(a), en(b)))
OP2(cry_mpi_gcd, mn(en(a), en(b))) OP2(cry_mpi_lcm, mx(en(a), en(b))) OP2(cry_mpi_inv, mn(mx(en(a), en(b)), bitsof(b)))
int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a, const cry_mpi *b) {
    unsigned m = mk(a) | mk(b), s = rn(a) | rn(b); int e = mx(en(a), en(b)), f = mn(e, bitsof(b));
    if (ret()) return -1;
    if (q != NULL) setall(q, m, NOID, s, e);
    if (r != NULL) { setall(r, m, NOID, s, f); r->sign = 0; }
    return 0;
}
int cry_mpi_div_abs(cry_mpi *q, cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return cry_mpi_div(q, r, a, b); }
#define OP1(n, e) int n(cry_mpi *r, const cry_mpi *a) { int x = e; unsigned m = mk(a), s = rn(a); if (ret()) return -1; setall(r, m, NOID, s, x); return 0; }
OP1(cry_mpi_sqr, en(a)) OP1(cry_mpi_sqrt, en(a)) OP1(cry_mpi_sqr_baseline, en(a)) OP1(cry_mpi_sqr_comba, en(a)) OP1(cry_mpi_sqr_karatsuba, en(a))
int cry_mpi_shl(cry_mpi *r, const cry_mpi *a, size_t n) { unsigned m = mk(a), s = rn(a); int e = en(a); if (ret()) return -1; setall(r, m, NOID, s, e); return 0; }
int cry_mpi_shr(cry_mpi *r, const cry_mpi *a, size_t n) { unsigned m = mk(a), s = rn(a); int e = en(a); if (ret()) return -1; setall(r, m, NOID, s, e - (int)n); return 0; }
int cry_mpi_shrd(cry_mpi *a, size_t n) { return cry_mpi_shr(a, a, n * CRY_MPI_DIGIT_BITS); }
int cry_mpi_shld(cry_mpi *a, size_t n) { return cry_mpi_shl(a, a, n); }
int cry_mpi_mul_dig(cry_mpi *r, const cry_mpi *a, cry_mpi_digit b) { return cry_mpi_shl(r, a, 0); }
int cry_mpi_mod_exp(cry_mpi *r, const cry_mpi *b, const cry_mpi *e, const cry_mpi *m) {
    unsigned k = mk(b) | mk(e) | mk(m), s = rn(b) | rn(e) | rn(m); int x = mn(mx(en(b), en(e)), bitsof(m));
    if (ret()) return -1;
    setall(r, k, NOID, s, x); r->sign = 0;
    return 0;
}
static void settle(cry_mpi *r, unsigned rs, int e) { setall(r, 0, NOID, rs, e); r->sign = 0; }
static unsigned draw(void) { unsigned b; if (draws >= DRAWLIMIT) Frama_C_abort(); b = BIT(draws); draws++; return b; }
int cry_mpi_rand(cry_mpi *a, size_t bits) { if (ret()) return -1; settle(a, draw(), (int)bits); return 0; }
int cry_mpi_rand_range(cry_mpi *a, const cry_mpi *max) { int b = bitsof(max); if (ret()) return -1; settle(a, draw(), b); return 0; }
int cry_mpi_prime(cry_mpi *a, size_t bits, unsigned int *iter) { if (iter) *iter = Frama_C_interval(1, 1000); if (ret()) return -1; settle(a, draw(), (int)bits); if (bits == QBITS) ident[a->alloc - TB] = ID(Q, 0); return 0; }
int cry_mpi_is_prime(const cry_mpi *a) { int r = Frama_C_interval(-1, 1); if (r < 0) fault = 1; return r; }
static int three(void) { return Frama_C_interval(-1, 1); }
/* r >= q (or s >= ...) in the scenario: LOW is the least value of (component - bound) */
static int ordered(int ia, int ib, int c, int bound, int low) {
    int d = low + OFF(ia) - OFF(ib);
    if (BASE(ia) != c || BASE(ib) != bound) return 5;
    if (d > 0) return 1;
    if (d == 0) return nd();
    return three();
}
static int order(const cry_mpi *a, const cry_mpi *b, int abs) {
    int ia = idof(a), ib = idof(b), r;
    if (sc_diff(a, b)) return nd() ? 1 : -1;
    if (BASE(ia) == CONST && BASE(ib) == CONST && KNOWN(ia) && KNOWN(ib) && !abs) return OFF(ia) < OFF(ib) ? -1 : OFF(ia) > OFF(ib);
#ifdef SC_BIG
    r = ordered(ia, ib, SC_BIG, BOUND, LOW); if (r != 5) return r;
    r = ordered(ib, ia, SC_BIG, BOUND, LOW); if (r != 5) return -r;
#endif
#ifdef SC_ZERO
    if (ia == ID(SC_ZERO, 0) && BASE(ib) == CONST) return OFF(ib) == 0 ? 0 : OFF(ib) < 0 && !abs ? 1 : -1;
    if (ib == ID(SC_ZERO, 0) && BASE(ia) == CONST) return OFF(ia) == 0 ? 0 : OFF(ia) < 0 && !abs ? -1 : 1;
    if (ia == ID(SC_ZERO, 0) && (BASE(ib) == P || BASE(ib) == Q)) return -1;
    if (ib == ID(SC_ZERO, 0) && (BASE(ia) == P || BASE(ia) == Q)) return 1;
#endif
#ifdef SC_NEG
    if (!abs && ia == ID(SC_NEG, 0) && (BASE(ib) == P || BASE(ib) == Q || BASE(ib) == CONST)) return -1;
    if (!abs && ib == ID(SC_NEG, 0) && (BASE(ia) == P || BASE(ia) == Q || BASE(ia) == CONST)) return 1;
#endif
    return three();
}
int cry_mpi_cmp(const cry_mpi *a, const cry_mpi *b) { return order(a, b, 0); }
int cry_mpi_cmp_abs(const cry_mpi *a, const cry_mpi *b) { return order(a, b, 1); }
/* points */
int cry_ecp_init(cry_ecp *p) { if (ret()) return -1; fresh(&p->x); fresh(&p->y); fresh(&p->z); return 0; }
int cry_ecp_init_int(cry_ecp *p, long x, long y) { return cry_ecp_init(p); }
void cry_ecp_clear(cry_ecp *p) { }
int cry_ecp_init_list(cry_ecp *a, ...) {
    va_list ap; cry_ecp *p;
    if (ret()) return -1;
    va_start(ap, a);
    for (p = a; p != NULL; p = va_arg(ap, cry_ecp *)) { fresh(&p->x); fresh(&p->y); fresh(&p->z); }
    va_end(ap);
    return 0;
}
void cry_ecp_clear_list(cry_ecp *a, ...) { }
static unsigned pm(const cry_ecp *p) { return mk(&p->x) | mk(&p->y) | mk(&p->z); }
static unsigned pr(const cry_ecp *p) { return rn(&p->x) | rn(&p->y) | rn(&p->z); }
static unsigned gm(const cry_ecp_grp *g) { return mk(&g->p) | mk(&g->a); }
static void point(cry_ecp *p, unsigned m, unsigned s, int e) {
    setall(&p->x, m, NOID, s, e); setall(&p->y, m, NOID, s, e); setall(&p->z, m, NOID, s, e);
    p->x.sign = 0; p->y.sign = 0; p->z.sign = 0;
#ifdef SC_INF
    if (full(m)) p->z.used = 0;
#endif
}
int cry_ecp_copy(cry_ecp *d, const cry_ecp *s) { if (cry_mpi_copy(&d->x, &s->x) || cry_mpi_copy(&d->y, &s->y)) return -1; return cry_mpi_copy(&d->z, &s->z); }
int cry_ecp_add(cry_ecp *r, const cry_ecp *a, const cry_ecp *b, const cry_ecp_grp *g) { unsigned m = pm(a) | pm(b) | gm(g), s = pr(a) | pr(b); int e = mx(en(&a->x), en(&b->x)); if (ret()) return -1; point(r, m, s, e); return 0; }
int cry_ecp_dbl(cry_ecp *r, const cry_ecp *a, const cry_ecp_grp *g) { unsigned m = pm(a) | gm(g), s = pr(a); int e = en(&a->x); if (ret()) return -1; point(r, m, s, e); return 0; }
int cry_ecp_mul(cry_ecp *r, const cry_ecp *a, const cry_mpi *k, const cry_ecp_grp *g) { unsigned m = pm(a) | mk(k) | gm(g), s = pr(a) | rn(k); int e = mx(en(k), en(&a->x)); if (ret()) return -1; point(r, m, s, e); return 0; }
static void grp(cry_ecp_grp *g) {
    input(&g->p, P, 6, 0); input(&g->a, A, 6, 0); input(&g->b, B, 6, 0); input(&g->n, Q, 5, 0);
    input(&g->g.x, G, 6, 0); input(&g->g.y, G, 6, 0); input(&g->g.z, G, 1, 0);
}
int cry_ecp_grp_init(cry_ecp_grp *g) { if (ret()) return -1; grp(g); return 0; }
int cry_ecp_grp_load(cry_ecp_grp *g, int id) { if (ret()) return -1; grp(g); return 0; }
void cry_ecp_grp_clear(cry_ecp_grp *g) { }
/* a new operation starts: what was drawn before is no longer fresh */
static int since;
static void epoch(void) { int k; for (k = 0; k < NUM; k++) ent[k] = 0; since = draws; ndrawn = 0; nstored = 0; }
static int fresh_enough(const cry_mpi *a, int bits) { return (rn(a) >> since) != 0 && en(a) >= bits; }
static u8 msg[64], sigb[96];
static void markers(void) { size_t i; for (i = 0; i < 64; i++) msg[i] = 0x40 + i %% 32; }
''' % dict(enum=', '.join('%s = %d' % (n, i + 1) for i, n in enumerate(NAMES)))
def text(need='0', qbits=160, pbits=192, defs=()):
    return ''.join('#define %s\n' % d for d in defs) + '#define NEED (%s)\n#define QBITS %d\n#define PBITS %d\n' % (need, qbits, pbits) + TEXT
