"""C11: big-number storage.  Value analysis (Frama-C Eva) of the arithmetic core: operands have unknown digits and exactly
allocated storage whose unused digits are unset; digit counts, prior capacities of the result and aliasing patterns are
enumerated; every allocation may fail.  The leaf routines are analysed as they are; division, Toom-Cook, gcd and
exponentiation are analysed with the leaf routines replaced by their contracts."""
import os
import build, common, eva
LEVEL = 'other'
LEAF = r'''
#include "mpi/mpi_pvt.h"
#include <cry/prng.h>
#include <stdarg.h>
static volatile unsigned sink;
#ifndef V_NZ
#define V_NZ 0
#endif
#define DIG(lo) ((cry_mpi_digit)Frama_C_unsigned_int_interval(lo, CRY_MPI_DIGIT_MAX))
static void v_mk(cry_mpi *a, size_t used, size_t alloc, int sign) {
    size_t i;
    a->data = 0; a->used = used; a->alloc = alloc; a->sign = sign;
    if (alloc) { a->data = malloc(alloc * sizeof(cry_mpi_digit)); if (!a->data) Frama_C_abort(); }
    for (i = 0; i < used; i++) a->data[i] = DIG(V_NZ || i + 1 == used);
}
static void v_use(const cry_mpi *a) {
    size_t i;
    //@ check used: a->used <= a->alloc;
    for (i = 0; i < a->used; i++) sink = a->data[i] != 0;
}
static void v_bin(int (*op)(cry_mpi *, const cry_mpi *, const cry_mpi *), int alias, size_t ua, size_t ub, size_t ra, size_t extra) {
    cry_mpi x, y, z; cry_mpi *r, *a, *b; int res;
    v_mk(&x, ua, ua + (alias == 1 || alias >= 3 ? extra : 0), nd());
    v_mk(&y, ub, ub + (alias == 2 ? extra : 0), nd());
    v_mk(&z, ra ? 1 : 0, ra, 0);
    r = &z; a = &x; b = &y;
    if (alias == 1) r = a; if (alias == 2) r = b; if (alias == 3) b = a; if (alias == 4) { b = a; r = a; }
    res = op(r, a, b);
    if (res == 0) v_use(r);
    if (a != r) v_use(a);
    if (b != r) v_use(b);
    cry_mpi_clear(&x); cry_mpi_clear(&y); cry_mpi_clear(&z);
    //@ check REACH: \false;
}
static void v_un(int (*op)(cry_mpi *, const cry_mpi *), int alias, size_t ua, size_t ra, size_t extra) {
    cry_mpi x, z; cry_mpi *r = alias ? &x : &z; int res;
    v_mk(&x, ua, ua + (alias ? extra : 0), nd());
    v_mk(&z, ra ? 1 : 0, ra, nd());
    res = op(r, &x);
    if (res == 0) v_use(r);
    if (!alias) v_use(&x);
    cry_mpi_clear(&x); cry_mpi_clear(&z);
    //@ check REACH: \false;
}
static void v_sh(int (*op)(cry_mpi *, const cry_mpi *, size_t), int alias, size_t ua, size_t ra, size_t extra, size_t n) {
    cry_mpi x, z; cry_mpi *r = alias ? &x : &z; int res;
    v_mk(&x, ua, ua + (alias ? extra : 0), nd());
    v_mk(&z, ra ? 1 : 0, ra, nd());
    res = op(r, &x, n);
    if (res == 0) v_use(r);
    if (!alias) v_use(&x);
    cry_mpi_clear(&x); cry_mpi_clear(&z);
    //@ check REACH: \false;
}
static void v_shd(int (*op)(cry_mpi *, size_t), size_t ua, size_t extra, size_t n) {
    cry_mpi x; int res;
    v_mk(&x, ua, ua + extra, nd());
    res = op(&x, n);
    if (res == 0) v_use(&x);
    cry_mpi_clear(&x);
    //@ check REACH: \false;
}
static int v_fail0(cry_mpi *r) { return 0; }
static void v_grow(size_t ua, size_t extra, size_t n) {
    cry_mpi x; int res;
    v_mk(&x, ua, ua + extra, 0);
    res = cry_mpi_grow(&x, n);
    if (res == 0) {
        size_t i;
        //@ check room: x.alloc >= n;
        for (i = 0; i < x.alloc; i++) x.data[i] = 0;
    }
    v_use(&x);
    cry_mpi_clear(&x);
    //@ check REACH: \false;
}
static void v_dig(int alias, size_t ua, size_t ra, size_t extra) {
    cry_mpi x, z; cry_mpi *r = alias ? &x : &z; int res;
    v_mk(&x, ua, ua + (alias ? extra : 0), nd());
    v_mk(&z, ra ? 1 : 0, ra, nd());
    res = cry_mpi_mul_dig(r, &x, DIG(0));
    if (res == 0) v_use(r);
    cry_mpi_clear(&x); cry_mpi_clear(&z);
    //@ check REACH: \false;
}
static void v_cmp(size_t ua, size_t ub) {
    cry_mpi x, y;
    v_mk(&x, ua, ua, nd()); v_mk(&y, ub, ub, nd());
    sink = cry_mpi_cmp(&x, &y) + cry_mpi_cmp_abs(&x, &y) + cry_mpi_cmp_abs(&x, &x) + cry_mpi_count_bits(&x);
    cry_mpi_clear(&x); cry_mpi_clear(&y);
    //@ check REACH: \false;
}
static void v_loadbin(size_t n, size_t ra) {
    unsigned char *b = n ? malloc(n) : 0; cry_mpi x; size_t i; int res;
    if (n && !b) Frama_C_abort();
    for (i = 0; i < n; i++) b[i] = Frama_C_unsigned_char_interval(0, 255);
    v_mk(&x, ra ? 1 : 0, ra, nd());
    res = cry_mpi_load_bin(&x, b, n);
    if (res == 0) v_use(&x);
    cry_mpi_clear(&x);
    res = cry_mpi_init_bin(&x, b, n);
    if (res == 0) { v_use(&x); cry_mpi_clear(&x); }
    free(b);
    //@ check REACH: \false;
}
static void v_storebin(size_t ua, size_t n, int pad) {
    unsigned char *b = n ? malloc(n) : 0; cry_mpi x;
    if (n && !b) Frama_C_abort();
    v_mk(&x, ua, ua, nd());
    sink = cry_mpi_store_bin(&x, b, n, pad);
    cry_mpi_clear(&x); free(b);
    //@ check REACH: \false;
}
static void v_int(size_t ra) {
    cry_mpi x; int res; long l = 0;
    v_mk(&x, ra ? 1 : 0, ra, nd());
    res = cry_mpi_set_int(&x, Frama_C_long_interval(LONG_MIN, LONG_MAX));
    if (res == 0) v_use(&x);
    cry_mpi_clear(&x);
    res = cry_mpi_init_int(&x, Frama_C_long_interval(LONG_MIN, LONG_MAX));
    if (res == 0) { v_use(&x); cry_mpi_clear(&x); }
    //@ check REACH: \false;
}
static void v_getint(size_t ua) {
    cry_mpi x; long l = 0;
    v_mk(&x, ua, ua, nd());
    sink = cry_mpi_get_int(&x, &l);
    cry_mpi_clear(&x);
    //@ check REACH: \false;
}
static void v_init(size_t n) {
    cry_mpi x, y; size_t i;
    if (cry_mpi_init_size(&x, n) == 0) {
        //@ check room: x.alloc >= n;
        for (i = 0; i < x.alloc; i++) x.data[i] = 1;
        v_use(&x); cry_mpi_clear(&x);
    }
    if (cry_mpi_init(&x) == 0) {
        for (i = 0; i < x.alloc; i++) x.data[i] = 1;
        v_use(&x); cry_mpi_clear(&x);
    }
    v_mk(&y, n, n, nd());
    if (cry_mpi_init_copy(&x, &y) == 0) { v_use(&x); cry_mpi_clear(&x); }
    cry_mpi_clear(&y);
    //@ check REACH: \false;
}
#ifdef V_RAND
int cry_prng_aes_rand(unsigned char *buf, size_t n) { size_t i; for (i = 0; i < n; i++) buf[i] = Frama_C_unsigned_char_interval(0, 255); return nd() ? -1 : 0; }
static void v_rand(size_t bits, size_t ra) {
    cry_mpi x;
    v_mk(&x, ra ? 1 : 0, ra, nd());
    if (cry_mpi_rand(&x, bits) == 0) v_use(&x);
    cry_mpi_clear(&x);
    //@ check REACH: \false;
}
#endif
#ifdef V_STR
static void v_loadstr(unsigned radix, size_t n, size_t ra, int lo0, int lo) {
    char *s = malloc(n + 1); size_t i; cry_mpi x;
    if (!s) Frama_C_abort();
    for (i = 0; i < n; i++) s[i] = Frama_C_char_interval(i ? lo : lo0, lo == -128 ? 127 : '9');
    for (i = 0; i < n; i++) if (!s[i]) Frama_C_abort();
    s[n] = 0;
    v_mk(&x, ra ? 1 : 0, ra, nd());
    if (cry_mpi_load_str(&x, radix, s) == 0) v_use(&x);
    cry_mpi_clear(&x);
    free(s);
    //@ check REACH: \false;
}
#ifdef V_SSTR
static size_t v_bits;
size_t cry_mpi_count_bits(const cry_mpi *a) { return v_bits; }
#endif
static void v_storestr0(void) {
    char *s = malloc(2); cry_mpi x;
    if (!s) Frama_C_abort();
    v_mk(&x, 0, 0, 0);
    sink = cry_mpi_store_str(&x, 16, s);
    cry_mpi_clear(&x); free(s);
    //@ check REACH: \false;
}
#ifdef V_SSTR
static void v_storestr(size_t ua, size_t bc, int hi, int sg) {
    size_t bytes = (ua - 1) * CRY_MPI_DIGIT_BYTES + bc, len = 2 * bytes - (hi ? 0 : 1);
    cry_mpi x; char *s;
    v_mk(&x, ua, ua, 0);
    if (sg) { x.sign = 1; s = malloc(len + 2); } else s = malloc(len + 1 < bytes + 1 ? bytes + 1 : len + 1);
    if (!s) Frama_C_abort();
    x.data[ua - 1] = Frama_C_unsigned_int_interval((hi ? 0x10u : 1u) << 8 * (bc - 1), ((hi ? 0xffu : 0xfu) << 8 * (bc - 1)) | ((1u << 8 * (bc - 1)) - 1));
    v_bits = 8 * bytes - (hi ? 0 : 4);
    sink = cry_mpi_store_str(&x, 16, s);
    cry_mpi_clear(&x); free(s);
    //@ check REACH: \false;
}
#endif
#endif
'''
LISTS = r'''
void cry_mpi_clear_list(cry_mpi *a, ...) {
    va_list ap; cry_mpi *p;
    va_start(ap, a);
    for (p = a; p != 0; p = va_arg(ap, cry_mpi *)) cry_mpi_clear(p);
    va_end(ap);
}
int cry_mpi_init_list(cry_mpi *a, ...) {
    va_list ap; cry_mpi *p;
    if (!V_NZ && nd()) return -1;
    va_start(ap, a);
    for (p = a; p != 0; p = va_arg(ap, cry_mpi *)) { v_mk(p, 0, 8, 0); }
    va_end(ap);
    return 0;
}
'''
# contracts: operands are read, the result gets the largest digit count it can have (or zero) in storage just big enough
CONTRACT = r'''
#ifndef V_ZERO
#define V_ZERO 0
#endif
static int v_res(cry_mpi *r, size_t n, int sign) {
    size_t i;
    if (!V_NZ && nd()) return -1;
    if (cry_mpi_grow(r, n)) return -1;
    if (V_ZERO) n = 0;
    for (i = 0; i < n; i++) r->data[i] = DIG(V_NZ);
    r->used = n; r->sign = sign;
    return 0;
}
#define MAXU(a, b) ((a)->used > (b)->used ? (a)->used : (b)->used)
int cry_mpi_add(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { v_use(a); v_use(b); return v_res(r, MAXU(a, b) + 1, 0); }
int cry_mpi_sub(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { v_use(a); v_use(b); return v_res(r, MAXU(a, b) + 1, 0); }
int cry_mpi_mul_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { v_use(a); v_use(b); return v_res(r, a->used + b->used, 0); }
int cry_mpi_mul(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { v_use(a); v_use(b); return v_res(r, a->used + b->used, 0); }
int cry_mpi_sqr(cry_mpi *r, const cry_mpi *a) { v_use(a); return v_res(r, 2 * a->used, 0); }
int cry_mpi_add_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return cry_mpi_add(r, a, b); }
int cry_mpi_sub_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return cry_mpi_sub(r, a, b); }
int cry_mpi_mul_dig(cry_mpi *r, const cry_mpi *a, cry_mpi_digit d) { v_use(a); return v_res(r, a->used + 1, 0); }
int cry_mpi_shld(cry_mpi *a, size_t n) { v_use(a); return v_res(a, a->used + n, 0); }
int cry_mpi_shl(cry_mpi *r, const cry_mpi *a, size_t n) { v_use(a); return v_res(r, a->used + n / CRY_MPI_DIGIT_BITS + 1, 0); }
int cry_mpi_shr(cry_mpi *r, const cry_mpi *a, size_t n) { v_use(a); return v_res(r, a->used, 0); }
'''
# division: sizes are exact until the quotient loop, then anything the storage can hold
DIVC = r'''
static void v_cap(cry_mpi *r, size_t n) {
    size_t i; cry_mpi_digit *p;
    if (r->alloc >= n) return;
    p = realloc(r->data, n * sizeof(cry_mpi_digit));
    if (!p) Frama_C_abort();
    r->data = p; r->alloc = n;
}
static int v_n1, v_n2, v_nsh, v_carry, v_max;
int cry_mpi_cmp(const cry_mpi *a, const cry_mpi *b) { return v_n1++ < 1 ? Frama_C_interval(-1, 1) : -1; }
int cry_mpi_cmp_abs(const cry_mpi *a, const cry_mpi *b) { if (a->used < b->used) return -1; return v_n2++ < 2 ? Frama_C_interval(-1, 1) : -1; }
static int v_inplace(cry_mpi *r, const cry_mpi *a) {
    size_t i;
    if (!V_NZ && nd()) return -1;
    if (r != a) { r->used = 0; r->sign = 0; return 0; }
    for (i = 0; i < a->used; i++) r->data[i] = DIG(0);
    r->used = Frama_C_unsigned_long_interval(0, r->alloc); r->sign = nd();
    return 0;
}
int cry_mpi_sub(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return v_inplace(r, a); }
int cry_mpi_add(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return v_inplace(r, a); }
int cry_mpi_shr(cry_mpi *r, const cry_mpi *a, size_t n) { return v_inplace(r, a); }
int cry_mpi_mul_dig(cry_mpi *r, const cry_mpi *a, cry_mpi_digit d) {
    size_t i, n = a->used + 1;
    if (!V_NZ && nd()) return -1;
    v_cap(r, n);
    for (i = 0; i < n; i++) r->data[i] = DIG(0);
    r->used = v_max ? n : 0; r->sign = 0;
    return 0;
}
int cry_mpi_shl(cry_mpi *r, const cry_mpi *a, size_t n) {
    size_t i, u = a->used + n / CRY_MPI_DIGIT_BITS;
    if (!V_NZ && nd()) return -1;
    if (u == 0) { r->used = 0; return 0; }
    v_cap(r, u + 1);
    for (i = 0; i + 1 < u; i++) r->data[i] = DIG(0);
    if (n % CRY_MPI_DIGIT_BITS && (v_carry >> v_nsh++ & 1)) { r->data[u - 1] = DIG(0); r->data[u] = DIG(1); u++; } else r->data[u - 1] = DIG(1);
    r->used = u; r->sign = a->sign;
    return 0;
}
int cry_mpi_sub_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return v_inplace(r, a); }
int cry_mpi_add_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return v_inplace(r, a); }
int cry_mpi_mul_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) {
    size_t i, n = a->used + b->used;
    v_cap(r, n);
    for (i = 0; i < n; i++) r->data[i] = DIG(0);
    r->used = v_max ? n : 0; r->sign = 0;
    return 0;
}
int cry_mpi_mul(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return cry_mpi_mul_abs(r, a, b); }
static void v_div(int wq, int wr, size_t ua, size_t ub, int carry, int max) {
    cry_mpi a, b, q, r; int res;
    v_n1 = v_n2 = v_nsh = 0; v_carry = carry; v_max = max;
    v_mk(&a, ua, ua, 0); v_mk(&b, ub, ub, 0); v_mk(&q, 0, 0, 0); v_mk(&r, 1, 1, 0);
    res = cry_mpi_div_abs(wq == 2 ? &a : wq ? &q : 0, wr == 2 ? &b : wr ? &r : 0, &a, &b);
    cry_mpi_clear(&a); cry_mpi_clear(&b); cry_mpi_clear(&q); cry_mpi_clear(&r);
    //@ check REACH: \false;
}
'''
# gcd: the scan for trailing zeros of normalised operands; exponentiation: the scan of the exponent's bits
GCDC = r'''
int cry_mpi_cmp_abs(const cry_mpi *a, const cry_mpi *b) { return Frama_C_interval(-1, 1); }
int cry_mpi_sub_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return -1; }
int cry_mpi_sub(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return -1; }
int cry_mpi_shr(cry_mpi *r, const cry_mpi *a, size_t n) { return -1; }
int cry_mpi_shl(cry_mpi *r, const cry_mpi *a, size_t n) { return -1; }
int cry_mpi_mul(cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return 0; }
int cry_mpi_sqr(cry_mpi *r, const cry_mpi *a) { return 0; }
int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return 0; }
int cry_mpi_div_abs(cry_mpi *q, cry_mpi *r, const cry_mpi *a, const cry_mpi *b) { return 0; }
#ifdef V_MEXP
static size_t v_bits;
size_t cry_mpi_count_bits(const cry_mpi *a) { return v_bits; }
static void v_mexp(size_t bits, int withm) {
    cry_mpi r, b, e, m; int res; size_t ue = (bits + CRY_MPI_DIGIT_BITS - 1) / CRY_MPI_DIGIT_BITS;
    v_mk(&r, 0, 8, 0); v_mk(&b, 1, 1, 0); v_mk(&e, ue, ue, 0); v_mk(&m, 1, 1, 0);
    v_bits = bits; { size_t i; for (i = 0; i < ue; i++) e.data[i] = (cry_mpi_digit)0x55aa55aaUL; }
    res = withm ? cry_mpi_mod_exp(&r, &b, &e, &m) : cry_mpi_exp(&r, &b, &e);
    cry_mpi_clear(&r); cry_mpi_clear(&b); cry_mpi_clear(&e); cry_mpi_clear(&m);
    //@ check REACH: \false;
}
#endif
'''
def chunks(l, n): return [l[i:i + n] for i in range(0, len(l), n)]
def job(name, cases, roots, stubs=(), pre='', post='', **kw):
    t = pre + LEAF + post + 'int main(void) {\n    switch (Frama_C_interval(0, %d)) {\n' % (len(cases) + 1)
    for k, c in enumerate(cases): t += '    case %d: %s; break;\n' % (k, c)
    t += '    }\n    return 0;\n}\n'
    return dict(name=name, text=t, roots=list(roots) + ['cry_mpi_clear'], stubs=list(stubs), timeout=300, ncases=len(cases), cases=cases, ops=roots, **kw)

def leaf_jobs(tier, cfg, tag):
    thorough = tier != 'quick'
    js = []
    def add(op, cases, n=40, roots=None, **kw):
        for i, ch in enumerate(chunks(cases, n)):
            js.append(job('c11%s_%s_%d' % (tag, op, i), ch, [op] if roots is None else roots, cfg=cfg, **kw))
    sizes = (0, 1, 2, 3) if not thorough else (0, 1, 2, 3, 4, 5)
    alt = tag == 'b'
    bins = ['cry_mpi_mul_baseline'] if alt else ['cry_mpi_add_abs', 'cry_mpi_sub_abs', 'cry_mpi_mul_comba', 'cry_mpi_mul_baseline'] + (['cry_mpi_add', 'cry_mpi_sub', 'cry_mpi_mul'])
    for op in bins:
        cs = []
        wrap = op in ('cry_mpi_add', 'cry_mpi_sub', 'cry_mpi_mul')
        for alias in range(5):
            for ua in sizes:
                for ub in sizes:
                    if alias >= 3 and ub != ua: continue
                    if wrap and not thorough and (ua > 2 or ub > 2): continue
                    for ra, ex in (((0, 0), (1, 0), (20, 0)) if alias in (0, 3) else ((0, 0), (0, 1), (0, 20))):
                        cs.append('v_bin(%s, %d, %d, %d, %d, %d)' % (op, alias, ua, ub, ra, ex))
        add(op, cs, 56, roots=[op], **(dict(stubs=['cry_mpi_mul_karatsuba', 'cry_mpi_mul_toom3', 'cry_mpi_sqr_karatsuba', 'cry_mpi_init_list', 'cry_mpi_clear_list']) if op == 'cry_mpi_mul' else {}))
    if alt: return js
    for op in ('cry_mpi_copy', 'cry_mpi_abs', 'cry_mpi_sqr_comba', 'cry_mpi_sqr_baseline'):
        cs = ['v_un(%s, %d, %d, %d, %d)' % (op, al, ua, ra, ex) for al in (0, 1) for ua in sizes + (4,)
              for ra, ex in (((0, 0), (1, 0), (20, 0)) if not al else ((0, 0), (0, 1), (0, 20)))]
        add(op, cs, 60)
    B = 8 * (cfg.digit if cfg else 4)
    ns = (0, 1, B - 1, B, B + 1, 2 * B, 3 * B - 1) + ((3 * B, 5, 4 * B + 3) if thorough else ())
    for op in ('cry_mpi_shl', 'cry_mpi_shr'):
        cs = ['v_sh(%s, %d, %d, %d, %d, %d)' % (op, al, ua, ra, ex, n) for al in (0, 1) for ua in (0, 1, 2, 3) for n in ns
              for ra, ex in (((0, 0), (1, 0), (20, 0)) if not al else ((0, 0), (0, 1), (0, 20)))]
        add(op, cs, 60)
    for op in ('cry_mpi_shld', 'cry_mpi_shrd'):
        add(op, ['v_shd(%s, %d, %d, %d)' % (op, ua, ex, n) for ua in (0, 1, 2, 3) for ex in (0, 1, 20) for n in (0, 1, 2, 3, 4, 9)], 80)
    misc = ['v_grow(%d, %d, %d)' % (ua, ex, n) for ua in (0, 1, 3) for ex in (0, 1) for n in (0, 1, 2, 3, 7, 8, 9, 17)]
    misc += ['v_int(%d)' % r for r in (0, 1, 20)] + ['v_getint(%d)' % u for u in (0, 1, 2, 3)] + ['v_init(%d)' % u for u in (0, 1, 2, 9)]
    misc += ['v_cmp(%d, %d)' % (a, b) for a in (0, 1, 2, 3) for b in (0, 1, 2, 3)]
    misc += ['v_loadbin(%d, %d)' % (n, r) for n in (0, 1, 3, 4, 5, 8, 9) for r in (0, 1, 20)]
    misc += ['v_storebin(%d, %d, %d)' % (u, n, p) for u in (0, 1, 2) for n in (0, 1, 3, 4, 5, 8, 12) for p in (0, 1)]
    add('core', misc, 50, roots=['cry_mpi_grow', 'cry_mpi_set_int', 'cry_mpi_get_int', 'cry_mpi_init', 'cry_mpi_init_copy', 'cry_mpi_cmp', 'cry_mpi_load_bin', 'cry_mpi_store_bin'])
    add('rand', ['v_rand(%d, %d)' % (b, r) for b in (0, 1, 7, 8, 9, 31, 32, 33, 64, 65) for r in (0, 1, 20)], 15, roots=['cry_mpi_rand'], stubs=['cry_prng_aes_rand'], pre='#define V_RAND\n')
    SST = ['cry_mpi_init_list', 'cry_mpi_clear_list', 'cry_mpi_mul', 'cry_mpi_add', 'cry_mpi_div_abs']
    add('lstr', ['v_loadstr(16, %d, %d, -128, -128)' % (n, r) for n in (0, 1, 2) for r in (0, 1)] + ['v_loadstr(16, %d, %d, \'1\', \'0\')' % (n, r) for n in (1, 3, 7, 8, 9, 16, 17) for r in (0, 1, 20)],
        9, roots=['cry_mpi_load_str'], pre='#define V_STR\n', post=LISTS, stubs=SST)
    D = B // 8
    add('sstr', ['v_storestr(%d, %d, %d, %d)' % (u, bc, hi, sg) for u in (1, 2, 3) for bc in range(1, D + 1) for hi in (0, 1) for sg in (0, 1)], 24, roots=['cry_mpi_store_str'],
        pre='#define V_STR\n#define V_SSTR\n', post=LISTS, stubs=SST + ['cry_mpi_count_bits'], slevel=0, opts=['-eva-min-loop-unroll', '64'], precision=0)
    add('sstr0', ['v_storestr0()'], 24, roots=['cry_mpi_store_str'], pre='#define V_STR\n', post=LISTS, stubs=SST)
    KST = ['cry_mpi_add_abs', 'cry_mpi_sub_abs', 'cry_mpi_mul_dig', 'cry_mpi_mul_abs', 'cry_mpi_mul', 'cry_mpi_sqr', 'cry_mpi_add', 'cry_mpi_sub', 'cry_mpi_shld', 'cry_mpi_shl', 'cry_mpi_shr', 'cry_mpi_init_list', 'cry_mpi_clear_list']
    kroots = ['cry_mpi_grow', 'cry_mpi_copy']
    add('kar', ['v_bin(cry_mpi_mul_karatsuba, %d, %d, %d, %d, %d)' % (al, ua, ub, ra, ex) for al in (0, 1, 4) for ua in (0, 1, 2, 3, 4, 5) for ub in (0, 1, 2, 3, 5) if (al < 3 or ua == ub) and (thorough or al == 0 or ua == 3)
                for ra, ex in (((0, 0), (20, 0)) if al == 0 and thorough else ((0, 0),))], 15, roots=['cry_mpi_mul_karatsuba'] + kroots, stubs=KST, post=LISTS + CONTRACT)
    add('sqrkar', ['v_un(cry_mpi_sqr_karatsuba, %d, %d, %d, 0)' % (al, ua, ra) for al in (0, 1) for ua in (0, 1, 2, 3, 4, 5) for ra in ((0, 20) if not al else (0,))], 30, roots=['cry_mpi_sqr_karatsuba'] + kroots, stubs=KST, post=LISTS + CONTRACT)
    add('div', ['v_div(%d, %d, %d, %d, %d, %d)' % (wq, wr, ua, ub, ca, mx) for ua, ub in ((1, 0), (0, 1), (1, 1), (2, 1), (2, 2), (3, 1), (3, 2)) + (((4, 2),) if thorough else ()) for wq, wr in ((1, 1), (0, 2), (2, 0)) for ca in range(4) for mx in (0, 1) if (wq == 1 and (thorough or mx or ca == 1) or (ca == 3 and mx and ua < 3)) and (ua > ub or ca in (0, 3))], 8, roots=['cry_mpi_div_abs', 'cry_mpi_init_copy'], post=LISTS + DIVC,
        stubs=['cry_mpi_cmp', 'cry_mpi_cmp_abs', 'cry_mpi_sub', 'cry_mpi_add', 'cry_mpi_sub_abs', 'cry_mpi_add_abs', 'cry_mpi_mul', 'cry_mpi_mul_abs', 'cry_mpi_shr', 'cry_mpi_mul_dig', 'cry_mpi_shl', 'cry_mpi_init_list', 'cry_mpi_clear_list'],
        pre='#define V_NZ 1\n', slevel=2000, opts=['-eva-no-alloc-returns-null'], precision=0)
    GST = ['cry_mpi_cmp_abs', 'cry_mpi_sub_abs', 'cry_mpi_sub', 'cry_mpi_shr', 'cry_mpi_shl', 'cry_mpi_mul', 'cry_mpi_sqr', 'cry_mpi_div', 'cry_mpi_div_abs', 'cry_mpi_init_list', 'cry_mpi_clear_list']
    add('lstr10', ['v_loadstr(%d, %d, %d, -128, -128)' % (rx, n, r) for rx in (10, 37) for n in (0, 1, 2) for r in (0, 20)], 12, roots=['cry_mpi_load_str', 'cry_mpi_init_int'] + kroots, pre='#define V_STR\n', post=LISTS + CONTRACT, stubs=KST)
    add('gcd', ['v_bin(cry_mpi_gcd, 0, %d, %d, 8, 0)' % (ua, ub) for ua, ub in ((0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2))], 3, roots=['cry_mpi_gcd'], stubs=GST, post=LISTS + GCDC, opts=['-eva-no-alloc-returns-null'])
    add('mexp', ['v_mexp(%d, %d)' % (u, m) for u in (0, 1, B - 1, B, B + 1, 2 * B) for m in (0, 1)], 12, roots=['cry_mpi_mod_exp', 'cry_mpi_exp'], stubs=GST + ['cry_mpi_count_bits'], pre='#define V_MEXP\n', post=LISTS + GCDC, opts=['-eva-no-alloc-returns-null'])
    for z in (0, 1):
        add('toom%d' % z, ['v_bin(cry_mpi_mul_toom3, %d, %d, %d, %d, %d)' % (al, ua, ub, ra, ex) for al in (0, 1, 4) for ua, ub in ((0, 3), (3, 0), (3, 3), (3, 4), (5, 3), (6, 6)) if (al < 3 or ua == ub) and (tier != 'quick' or al == 0 or (ua, ub) == (3, 3))
                for ra, ex in (((0, 0), (20, 0)) if al == 0 else ((0, 0),))], 2, roots=['cry_mpi_mul_toom3'] + kroots, stubs=KST, pre='#define V_ZERO %d\n#define V_NZ %d\n' % (z, 1 - z), post=LISTS + CONTRACT, slevel=100 if z == 0 else 20000, opts=['-eva-min-loop-unroll', '40', '-eva-no-alloc-returns-null'] if z == 0 else [])
    return js

def jobs(tier):
    js = leaf_jobs(tier, None, '')
    js.sort(key=lambda j: 0 if any(x in j['name'] for x in ('toom', 'div')) else 1)      # the long ones first
    widths = [(1, 'w1')] + ([(2, 'w2')] if tier != 'quick' else [])
    for d, tag in widths:
        js += [j for j in leaf_jobs('quick', build.Config('eva%d' % d, build.BASE, digit=d), tag) if tier != 'quick' or not any(x in j['name'] for x in ('toom', 'div', 'kar', 'gcd'))]
    return js
def run(tier):
    res = common.Result()
    seen = {}; ncases = ntriv = 0; ops = {}
    js = [j for j in jobs(tier) if os.environ.get('C11_ONLY', '') in j['name']]
    for j, o, v in eva.run_all(js):
        if o.err or o.unknown or not (v.reached or v.alarms or v.failed):
            res.undecided.append('%s: %s' % (j['name'], o.err or (o.unknown and 'unknown function ' + str(o.unknown[0])) or 'never returns')); continue
        ncases += j['ncases']; ntriv += sum(1 for c in j['cases'] if any(x.strip(' )') not in ('0', '') and x.strip(' )').isdigit() for x in c.split(',')[1:]))
        for x in j['ops']: ops[x] = ops.get(x, 0) + j['ncases']
        for r in v.alarms:
            k = (r.func, r.line)
            if k in seen: continue
            seen[k] = 1
            res.findings.append(common.Finding('storage', r.func, common.rel('%s:%d' % (r.file, r.line)), '%s (%s) may be violated  (cases %s)' % (r.text, r.kind, j['name']), [], 'storage:%s:%s' % (r.func, r.kind)))
        for nm, r in v.failed:
            k = (j['ops'][0], nm)
            if k in seen: continue
            seen[k] = 1
            res.findings.append(common.Finding('storage', j['ops'][0], j['name'], 'the result does not fit its storage after the call (obligation %s)' % nm, [], 'storage:%s:%s' % k))
    if not ncases and not res.findings: raise build.CheckError('no case could be analysed: ' + res.undecided[0])
    res.coverage = dict(evaluations=ncases, distinct_nontrivial=ntriv, operations=ops, undecided=len(res.undecided),
        rule='one evaluation = one case (operation, digit counts, prior capacity, aliasing, digit width) analysed for every digit content and sign at once; distinct_nontrivial = cases with a non-zero operand',
        samples=[c for j in js[:: max(1, len(js) // 10)] for c in j['cases'][-1:]][:10])
    res.assumptions = ['Frama-C Eva is sound', 'digit counts above those enumerated behave like them: the routines treat all digits alike', 'composite routines: leaf routines behave as their contracts say (each leaf is analysed itself)']
    return res
if __name__ == '__main__':
    import sys, time
    js = [j for j in jobs('quick') if len(sys.argv) < 2 or any(a in j['name'] for a in sys.argv[1:])]
    s = time.time()
    for j, o, v in eva.run_all(js):
        print(j['name'], j['ncases'], o.err, o.unknown, v and (v.reached, [(r.func, r.line, r.kind, r.text) for r in v.alarms], v.failed))
        if o.err and 'time' not in o.err: print(o.log[-800:])
    print(round(time.time() - s, 1))
