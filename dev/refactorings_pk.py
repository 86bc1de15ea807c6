# behaviour-preserving rewrites of the number, curve and public key part
G = 'pk'
refac('mpi-addsub-index', '*', [
 ('src/mpi/mpi_add_abs.c', 'fn:cry_mpi_add_abs', r'''
int cry_mpi_add_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
{
    const cry_mpi *big = a, *small = b;
    size_t max, min, i;
    cry_mpi_digit t, l, c = 0;

    if (a->used < b->used) {
        big = b;
        small = a;
    }
    max = big->used;
    min = small->used;

    if (cry_mpi_grow(r, max + 1) != 0)
        return -1;
    r->sign = 0;

    for (i = 0; i < max; i++) {
        t = big->data[i] + c;
        c = (t < c) ? 1 : 0;
        if (i < min) {
            l = t + small->data[i];
            if (l < t)
                c++;
            t = l;
        }
        r->data[i] = t;
    }
    r->used = max;
    if (c != 0) {
        r->data[max] = c;
        r->used = max + 1;
    }
    return 0;
}
'''),
 ('src/mpi/mpi_sub_abs.c', 'fn:cry_mpi_sub_abs', r'''
int cry_mpi_sub_abs(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
{
    size_t i;
    const size_t max = a->used;
    const size_t min = b->used;
    cry_mpi_digit x, y, d, c = 0;

    if (cry_mpi_cmp_abs(a, b) < 0)
        return -1;
    if (cry_mpi_grow(r, max) != 0)
        return -1;

    for (i = 0; i < max; i++) {
        x = a->data[i];
        y = (i < min) ? b->data[i] : 0;
        d = x - y - c;
        if (x != y)
            c = (x < y);
        r->data[i] = d;
    }
    r->used = max;
    r->sign = 0;
    if (c != 0)
        return -1;
    cry_mpi_adjust(r);
    return 0;
}
'''),
 ('src/mpi/mpi_cmp_abs.c', 'fn:cry_mpi_cmp_abs', r'''
int cry_mpi_cmp_abs(const cry_mpi *a, const cry_mpi *b)
{
    size_t i;

    if (a->used != b->used)
        return (a->used < b->used) ? -1 : 1;

    for (i = a->used; i > 0; i--) {
        if (a->data[i - 1] != b->data[i - 1])
            return (a->data[i - 1] < b->data[i - 1]) ? -1 : 1;
    }
    return 0;
}
'''),
 ('src/mpi/mpi_add.c', 'fn:cry_mpi_add', r'''
int cry_mpi_add(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
{
    int res, sign, cmp;

    CRY_ASSERT2(r != NULL);
    CRY_ASSERT2(a != NULL);
    CRY_ASSERT2(b != NULL);

    sign = a->sign;
    if (sign == b->sign) {
        res = cry_mpi_add_abs(r, a, b);
        if (res != 0)
            return res;
        r->sign = sign;
        return 0;
    }

    cmp = cry_mpi_cmp_abs(a, b);
    if (cmp == 0) {
        cry_mpi_zero(r);
        r->sign = 0;
        return 0;
    }
    if (cmp < 0) {
        sign = b->sign;
        res = cry_mpi_sub_abs(r, b, a);
    } else {
        res = cry_mpi_sub_abs(r, a, b);
    }
    if (res != 0)
        return res;
    r->sign = sign;
    return 0;
}
'''),
], G)
refac('mpi-shift-index', '*', [
 ('src/mpi/mpi_shl.c', 'fn:cry_mpi_shld', r'''
int cry_mpi_shld(cry_mpi *a, size_t n)
{
    int res;
    size_t i, old;

    if (n == 0 || cry_mpi_is_zero(a))
        return 0;

    old = a->used;
    if ((res = cry_mpi_grow(a, old + n)) != 0)
        return res;

    memmove(&a->data[n], &a->data[0], old * sizeof(a->data[0]));
    for (i = 0; i < n; i++)
        a->data[i] = 0;
    a->used = old + n;
    return 0;
}
'''),
 ('src/mpi/mpi_shl.c', '#include "mpi_pvt.h"\n', '#include "mpi_pvt.h"\n#include <string.h>\n'),
 ('src/mpi/mpi_shl.c', 'fn:cry_mpi_shl', r'''
int cry_mpi_shl(cry_mpi *c, const cry_mpi *a, size_t n)
{
    int res;
    const size_t digs = n / CRY_MPI_DIGIT_BITS;
    const unsigned int bits = n % CRY_MPI_DIGIT_BITS;

    if (a != c && (res = cry_mpi_copy(c, a)) != 0)
        return res;
    if (n == 0 || cry_mpi_is_zero(c))
        return 0;
    if ((res = cry_mpi_grow(c, c->used + digs + 1)) != 0)
        return res;
    if (digs != 0 && (res = cry_mpi_shld(c, digs)) != 0)
        return res;

    if (bits != 0) {
        cry_mpi_digit cur, carry = 0;
        size_t i;

        for (i = 0; i < c->used; i++) {
            cur = c->data[i];
            c->data[i] = (cur << bits) | carry;
            carry = cur >> (CRY_MPI_DIGIT_BITS - bits);
        }
        if (carry != 0) {
            c->data[c->used] = carry;
            c->used++;
        }
    }
    cry_mpi_adjust(c);
    return 0;
}
'''),
 ('src/mpi/mpi_shr.c', 'fn:cry_mpi_shrd', r'''
int cry_mpi_shrd(cry_mpi *a, size_t n)
{
    size_t i, left;

    if (n == 0 || cry_mpi_is_zero(a))
        return 0;
    if (n >= a->used) {
        cry_mpi_zero(a);
        return 0;
    }
    left = a->used - n;
    for (i = 0; i < left; i++)
        a->data[i] = a->data[i + n];
    while (i < a->used)
        a->data[i++] = 0;
    a->used = left;
    return 0;
}
'''),
 ('src/mpi/mpi_shr.c', 'fn:cry_mpi_shr', r'''
int cry_mpi_shr(cry_mpi *c, const cry_mpi *a, size_t n)
{
    int res;
    const unsigned int bits = n % CRY_MPI_DIGIT_BITS;
    cry_mpi_digit cur, carry = 0;
    size_t i;

    if (a != c && (res = cry_mpi_copy(c, a)) != 0)
        return res;
    if (n == 0 || cry_mpi_is_zero(c))
        return 0;

    if (n >= CRY_MPI_DIGIT_BITS)
        cry_mpi_shrd(c, n / CRY_MPI_DIGIT_BITS);

    if (bits != 0) {
        for (i = c->used; i > 0; i--) {
            cur = c->data[i - 1];
            c->data[i - 1] = (cur >> bits) | carry;
            carry = cur << (CRY_MPI_DIGIT_BITS - bits);
        }
    }
    cry_mpi_adjust(c);
    return 0;
}
'''),
], G)
refac('mpi-bin-str', '*', [
 ('src/mpi/mpi_bin.c', 'fn:cry_mpi_load_bin', r'''
int cry_mpi_load_bin(cry_mpi *x, const void *buf, size_t size)
{
    int res;
    size_t i, digs;
    const unsigned char *p = (const unsigned char *)buf;

    while (size > 0 && *p == 0) {
        p++;
        size--;
    }
    if (size == 0) {
        cry_mpi_zero(x);
        return 0;
    }

    digs = (size + CRY_MPI_DIGIT_BYTES - 1) / CRY_MPI_DIGIT_BYTES;
    if ((res = cry_mpi_grow(x, digs)) != 0)
        return res;
    for (i = 0; i < digs; i++)
        x->data[i] = 0;
    for (i = 0; i < size; i++)
        x->data[i / CRY_MPI_DIGIT_BYTES] |=
            (cry_mpi_digit)p[size - 1 - i] << (8 * (i % CRY_MPI_DIGIT_BYTES));
    x->used = digs;
    x->sign = 0;
    return 0;
}
'''),
 ('src/mpi/mpi_bin.c', 'fn:cry_mpi_store_bin', r'''
int cry_mpi_store_bin(const cry_mpi *x, void *buf,
                      size_t bufsiz, int pad)
{
    unsigned char *p = (unsigned char *)buf;
    const size_t len = cry_mpi_count_bytes(x);
    size_t i;

    if (len > bufsiz)
        return -1;
    if (pad) {
        for (i = 0; i < bufsiz - len; i++)
            *p++ = 0;
    }
    for (i = len; i > 0; i--) {
        cry_mpi_digit d = x->data[(i - 1) / CRY_MPI_DIGIT_BYTES];

        d >>= 8 * ((i - 1) % CRY_MPI_DIGIT_BYTES);
        *p++ = (unsigned char)d;
    }
    return 0;
}
'''),
 ('src/mpi/mpi_bin.c', 'fn:cry_mpi_init_bin', r'''
int cry_mpi_init_bin(cry_mpi *x, const void *b, size_t size)
{
    int res;

    if ((res = cry_mpi_init_size(x, CRY_MPI_BYTES_TO_DIGS(size))) != 0)
        return res;
    if ((res = cry_mpi_load_bin(x, b, size)) == 0)
        return 0;
    cry_mpi_clear(x);
    return res;
}
'''),
 ('src/mpi/mpi_str.c', 'fn:load_str_hex', r'''
static unsigned char hex_val(char c)
{
    return (unsigned char)ASC_TO_RAW_CHAR(c);
}

static int load_str_hex(cry_mpi *a, const char *s)
{
    int res;
    unsigned char *bin;
    const size_t len = strlen(s);
    const size_t siz = (len + 1) / 2;
    size_t i = 0;

    if ((bin = malloc(siz)) == NULL)
        return -1;
    if (len % 2 != 0)
        bin[i++] = hex_val(*s++);
    for (; i < siz; i++, s += 2)
        bin[i] = (unsigned char)((hex_val(s[0]) << 4) | hex_val(s[1]));

    res = cry_mpi_load_bin(a, bin, siz);
    free(bin);
    return res;
}
'''),
 ('src/mpi/mpi_str.c', 'fn:store_str_hex', r'''
static int store_str_hex(const cry_mpi *a, char *s)
{
    static const char digs[] = "0123456789abcdef";
    size_t i;
    unsigned char b;
    int skip = 1;

    for (i = cry_mpi_count_bytes(a); i > 0; i--) {
        b = (unsigned char)(a->data[(i - 1) / CRY_MPI_DIGIT_BYTES] >>
                            (8 * ((i - 1) % CRY_MPI_DIGIT_BYTES)));
        if (!skip || (b >> 4) != 0)
            *s++ = digs[b >> 4];
        skip = 0;
        *s++ = digs[b & 0x0F];
    }
    *s = '\0';
    return 0;
}
'''),
 ('src/mpi/mpi_str.c', r'''    /* string invert */
    i--;
    j = 0;
    while (j < i) {
        s[j] ^= s[i];
        s[i] ^= s[j];
        s[j] ^= s[i];
        j++;
        i--;
    }
''', r'''    /* string invert */
    for (j = 0; j < i / 2; j++) {
        char c = s[j];

        s[j] = s[i - 1 - j];
        s[i - 1 - j] = c;
    }
'''),
], G)
refac('mpi-core', '*', [
 ('src/mpi/mpi_core.c', 'fn:cry_mpi_grow', r'''
int cry_mpi_grow(cry_mpi *a, size_t digs)
{
    if (a->alloc < digs) {
        size_t siz = (digs / CRY_MPI_QUANTUM + 2) * CRY_MPI_QUANTUM;
        cry_mpi_digit *data = realloc(a->data, siz * sizeof(*data));

        if (data == NULL)
            return -1;
        a->data = data;
        a->alloc = siz;
    }
    return 0;
}
'''),
 ('src/mpi/mpi_core.c', 'fn:cry_mpi_init', r'''
int cry_mpi_init(cry_mpi *a)
{
    return cry_mpi_init_size(a, CRY_MPI_QUANTUM);
}
'''),
 ('src/mpi/mpi_core.c', 'fn:cry_mpi_init_int', r'''
int cry_mpi_init_int(cry_mpi *a, long val)
{
    int res = cry_mpi_init(a);

    if (res != 0)
        return res;
    res = cry_mpi_set_int(a, val);
    if (res != 0)
        cry_mpi_clear(a);
    return res;
}
'''),
 ('src/mpi/mpi_core.c', 'fn:cry_mpi_copy', r'''
int cry_mpi_copy(cry_mpi *d, const cry_mpi *s)
{
    int res;

    if (d != s) {
        if ((res = cry_mpi_grow(d, s->used)) != 0)
            return res;
        if (s->used != 0)
            memcpy(d->data, s->data, s->used * sizeof(cry_mpi_digit));
        d->sign = s->sign;
        d->used = s->used;
    }
    return 0;
}
'''),
 ('src/mpi/mpi_core.c', 'fn:cry_mpi_clear', r'''
void cry_mpi_clear(cry_mpi *a)
{
    if (a->alloc != 0)
        free(a->data);
    a->data = NULL;
    a->used = 0;
    a->sign = 0;
    a->alloc = 0;
}
'''),
 ('src/mpi/mpi_core.c', '#include <stdio.h>\n', '#include <stdio.h>\n#include <string.h>\n'),
], G)
refac('mpi-mul', '*', [
 ('src/mpi/mpi_mul_comba.c', r'''        /* setup temporary aliases */
        tmpx = a->data + tx;
        tmpy = b->data + ty;
''', ''),
 ('src/mpi/mpi_mul_comba.c', r'''            MULADD(c0, c1, c2, *tmpx, *tmpy);
            tmpx++;
            tmpy--;
''', r'''            dx = a->data[tx + iz];
            dy = b->data[ty - iz];
            MULADD(c0, c1, c2, dx, dy);
'''),
 ('src/mpi/mpi_mul_comba.c', 'cry_mpi_digit c0, c1, c2, *tmpx, *tmpy;', 'cry_mpi_digit c0, c1, c2, dx, dy;'),
 ('src/mpi/mpi_mul_baseline.c', 'fn:cry_mpi_mul_baseline', r'''
int cry_mpi_mul_baseline(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
{
    int res;
    cry_mpi t;
    size_t i, j;
    cry_mpi_digit carry;
    cry_mpi_dword dw;

    if (cry_mpi_is_zero(a) || cry_mpi_is_zero(b)) {
        cry_mpi_zero(r);
        return 0;
    }

    if ((res = cry_mpi_init_size(&t, a->used + b->used)) != 0)
        return res;
    cry_mpi_set_used(&t, a->used + b->used);

    for (i = 0; i < a->used; i++) {
        carry = 0;
        for (j = 0; j < b->used; j++) {
            dw = (cry_mpi_dword)a->data[i] * b->data[j];
            dw += t.data[i + j];
            dw += carry;
            t.data[i + j] = (cry_mpi_digit)dw;
            carry = (cry_mpi_digit)(dw >> CRY_MPI_DIGIT_BITS);
        }
        t.data[i + j] = carry;
    }
    cry_mpi_adjust(&t);
    cry_mpi_swap(&t, r);
    cry_mpi_clear(&t);
    return 0;
}
'''),
 ('src/mpi/mpi_mul.c', 'fn:cry_mpi_mul_dig', r'''
int cry_mpi_mul_dig(cry_mpi *r, const cry_mpi *a, cry_mpi_digit b)
{
    cry_mpi_digit dig = b;
    cry_mpi tmp = { .sign = 0, .alloc = 1, .used = 1, .data = &dig };

    return cry_mpi_mul(r, a, &tmp);
}
'''),
], G)
refac('mpi-numtheory', '*', [
 ('src/mpi/mpi_gcd.c', 'fn:cry_mpi_gcd', r'''
static int strip_twos(cry_mpi *x)
{
    return cry_mpi_shr(x, x, cry_mpi_lsb(x));
}

static int sub_half(cry_mpi *a, const cry_mpi *b)
{
    int res;

    if ((res = cry_mpi_sub_abs(a, a, b)) != 0)
        return res;
    return cry_mpi_shr(a, a, 1);
}

int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
{
    int res;
    cry_mpi tx, ty;
    size_t lx, ly, lz;

    if ((res = cry_mpi_init_list(&tx, &ty, (cry_mpi *)NULL)) != 0)
        return res;
    if ((res = cry_mpi_copy(&tx, x)) != 0)
        goto e;
    if ((res = cry_mpi_copy(&ty, y)) != 0)
        goto e;

    if (cry_mpi_is_zero(&tx) || cry_mpi_is_zero(&ty)) {
        cry_mpi_swap(r, cry_mpi_is_zero(&tx) ? &ty : &tx);
        r->sign = 0;
        goto e;
    }

    lx = cry_mpi_lsb(&tx);
    ly = cry_mpi_lsb(&ty);
    lz = (lx < ly) ? lx : ly;
    if ((res = cry_mpi_shr(&tx, &tx, lz)) != 0)
        goto e;
    if ((res = cry_mpi_shr(&ty, &ty, lz)) != 0)
        goto e;

    for (;;) {
        if (cry_mpi_is_zero(&tx))
            break;
        if ((res = strip_twos(&tx)) != 0)
            goto e;
        if ((res = strip_twos(&ty)) != 0)
            goto e;
        if (cry_mpi_cmp_abs(&tx, &ty) < 0)
            res = sub_half(&ty, &tx);
        else
            res = sub_half(&tx, &ty);
        if (res != 0)
            goto e;
    }
    res = cry_mpi_shl(&ty, &ty, lz);
    if (res == 0)
        cry_mpi_swap(r, &ty);
e:
    cry_mpi_clear_list(&tx, &ty, (cry_mpi *)NULL);
    return res;
}
'''),
 ('src/mpi/mpi_lcm.c', 'fn:cry_mpi_lcm', r'''
int cry_mpi_lcm(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
{
    int res;
    cry_mpi gcd, prod;

    if ((res = cry_mpi_init(&gcd)) != 0)
        return res;
    if ((res = cry_mpi_init(&prod)) != 0)
        goto e0;

    if ((res = cry_mpi_gcd(&gcd, x, y)) != 0)
        goto e1;
    if ((res = cry_mpi_mul(&prod, x, y)) != 0)
        goto e1;
    res = cry_mpi_div(r, NULL, &prod, &gcd);

e1: cry_mpi_clear(&prod);
e0: cry_mpi_clear(&gcd);
    return res;
}
'''),
 ('src/mpi/mpi_mod_exp.c', 'fn:cry_mpi_mod_exp', r'''
static int mul_mod(cry_mpi *r, const cry_mpi *a, const cry_mpi *b,
                   const cry_mpi *m)
{
    int res = cry_mpi_mul(r, a, b);

    if (res == 0 && m != NULL)
        res = cry_mpi_mod(r, r, m);
    return res;
}

int cry_mpi_mod_exp(cry_mpi *r, const cry_mpi *b, const cry_mpi *e,
                    const cry_mpi *m)
{
    int res;
    size_t i;
    cry_mpi acc;

    if (m != NULL && cry_mpi_is_neg(m))
        return -1;
    if (cry_mpi_is_neg(e))
        return -1;

    if ((res = cry_mpi_init_int(&acc, 1)) != 0)
        return res;
    for (i = cry_mpi_count_bits(e); res == 0 && i > 0; i--) {
        res = mul_mod(&acc, &acc, &acc, m);
        if (res == 0 && cry_mpi_is_bit_set(e, i - 1))
            res = mul_mod(&acc, &acc, b, m);
    }
    if (res == 0)
        cry_mpi_swap(r, &acc);
    cry_mpi_clear(&acc);
    return res;
}
'''),
 ('src/mpi/mpi_div.c', 'fn:cry_mpi_div', r'''
int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a,
                const cry_mpi *b)
{
    int res;
    cry_mpi tq, tr, one;
    cry_mpi_digit one_dig = 1;

    if (a->sign == b->sign)
        return cry_mpi_div_abs(q, r, a, b);

    if ((res = cry_mpi_init_list(&tq, &tr, (cry_mpi *)NULL)) != 0)
        return res;
    res = cry_mpi_div_abs(&tq, &tr, a, b);
    if (res != 0)
        goto e;
    if (!cry_mpi_is_zero(&tr)) {
        one.data = &one_dig;
        one.alloc = 1;
        one.used = 1;
        one.sign = 0;
        res = cry_mpi_add_abs(&tq, &tq, &one);
        if (res != 0)
            goto e;
        res = cry_mpi_sub_abs(&tr, b, &tr);
        if (res != 0)
            goto e;
    }
    if (r != NULL)
        cry_mpi_swap(&tr, r);
    if (q != NULL) {
        cry_mpi_swap(&tq, q);
        q->sign = (q->used != 0);
    }
e:
    cry_mpi_clear_list(&tr, &tq, (cry_mpi *)NULL);
    return res;
}
'''),
 ('src/mpi/mpi_rand.c', 'fn:cry_mpi_rand_range', r'''
int cry_mpi_rand_range(cry_mpi *a, const cry_mpi *max)
{
    int res;

    if ((res = cry_mpi_rand(a, cry_mpi_count_bits(max))) != 0)
        return res;
    if (cry_mpi_cmp_abs(a, max) < 0)
        return 0;
    return cry_mpi_mod(a, a, max);
}
'''),
 ('src/mpi/mpi_rand.c', 'fn:cry_mpi_rand', r'''
int cry_mpi_rand(cry_mpi *r, size_t bits)
{
    int res = -1;
    size_t digs, i, top;
    const size_t siz = (bits + 7) / 8;
    unsigned char *bin;

    if (bits == 0) {
        cry_mpi_zero(r);
        return 0;
    }
    bin = malloc(siz);
    if (bin == NULL)
        return res;
    digs = CRY_MPI_BITS_TO_DIGS(bits);
    if ((res = cry_prng_aes_rand(bin, siz)) == 0 &&
        (res = cry_mpi_grow(r, digs)) == 0 &&
        (res = cry_mpi_load_bin(r, bin, siz)) == 0) {
        for (i = r->used; i < digs; i++)
            r->data[i] = 0;
        r->used = digs;
        top = bits - (digs - 1) * CRY_MPI_DIGIT_BITS;
        if (top != CRY_MPI_DIGIT_BITS)
            r->data[digs - 1] &= ((cry_mpi_digit)1 << top) - 1;
        r->data[digs - 1] |= (cry_mpi_digit)1 << (top - 1);
    }
    free(bin);
    return res;
}
'''),
 ('src/mpi/mpi_prime.c', 'fn:is_obviously_not_prime', r'''
static int is_obviously_not_prime(const cry_mpi *p)
{
    int res;
    size_t i;
    cry_mpi m;

    if ((res = cry_mpi_init(&m)) < 0)
        return res;

    i = 0;
    while (i < CRY_ARRAY_LEN(small_primes)) {
        res = cry_mpi_set_int(&m, small_primes[i++]);
        if (res != 0)
            goto e;
        if (cry_mpi_cmp(p, &m) == 0) {
            res = 2;
            goto e;
        }
        res = cry_mpi_mod(&m, p, &m);
        if (res < 0)
            goto e;
        if (cry_mpi_is_zero(&m)) {
            res = 1;
            goto e;
        }
    }
    res = 0;
e:
    cry_mpi_clear(&m);
    return res;
}
'''),
], G)
refac('ecp', '*', [
 ('src/ecp/ecp_add.c', 'fn:cry_ecp_add', r'''
int cry_ecp_add(cry_ecp *pr, const cry_ecp *p1, const cry_ecp *p2,
                const cry_ecp_grp *grp)
{
    int res;
    cry_mpi num, den, lam;
    cry_ecp r;

    if (cry_ecp_is_zero(p1)) {
        if (pr == p2)
            return 0;
        return cry_ecp_copy(pr, p2);
    }
    if (cry_ecp_is_zero(p2)) {
        if (pr == p1)
            return 0;
        return cry_ecp_copy(pr, p1);
    }

    if ((res = cry_mpi_init_list(&num, &den, &lam, &r.x, &r.y, &r.z,
                                 (cry_mpi *)NULL)) != 0)
        return res;

    CHK0(cry_mpi_sub(&den, &p2->x, &p1->x));
    CHK0(cry_mpi_mod(&den, &den, &grp->p));
    CHK0(cry_mpi_sub(&num, &p2->y, &p1->y));
    CHK0(cry_mpi_mod(&num, &num, &grp->p));

    if (cry_mpi_is_zero(&den)) {
        if (!cry_mpi_is_zero(&num))
            cry_ecp_set_zero(pr);
        else
            res = cry_ecp_dbl(pr, p1, grp);
        goto e0;
    }
    CHK0(cry_mpi_inv(&den, &den, &grp->p));
    CHK0(cry_mpi_mul(&lam, &den, &num));
    CHK0(cry_mpi_mod(&lam, &lam, &grp->p));

    CHK0(cry_mpi_mul(&r.x, &lam, &lam));
    CHK0(cry_mpi_sub(&r.x, &r.x, &p2->x));
    CHK0(cry_mpi_sub(&r.x, &r.x, &p1->x));
    CHK0(cry_mpi_mod(&r.x, &r.x, &grp->p));

    CHK0(cry_mpi_sub(&r.y, &p1->x, &r.x));
    CHK0(cry_mpi_mul(&r.y, &lam, &r.y));
    CHK0(cry_mpi_sub(&r.y, &r.y, &p1->y));
    CHK0(cry_mpi_mod(&r.y, &r.y, &grp->p));

    CHK0(cry_mpi_set_int(&r.z, 1));

    cry_ecp_swap(&r, pr);
e0: cry_mpi_clear_list(&r.z, &r.y, &r.x, &lam, &den, &num, (cry_mpi *)NULL);
    return res;
}
'''),
 ('src/ecp/ecp_core.c', 'fn:cry_ecp_init_int', r'''
int cry_ecp_init_int(cry_ecp *p, long x, long y)
{
    int res;

    if ((res = cry_ecp_init(p)) != 0)
        return res;
    if ((res = cry_mpi_set_int(&p->x, x)) != 0)
        goto e;
    if ((res = cry_mpi_set_int(&p->y, y)) != 0)
        goto e;
    if ((res = cry_mpi_set_int(&p->z, 1)) != 0)
        goto e;
    return 0;
e:
    cry_ecp_clear(p);
    return res;
}
'''),
 ('src/ecp/ecp_core.c', 'fn:cry_ecp_copy', r'''
int cry_ecp_copy(cry_ecp *d, const cry_ecp *s)
{
    int res;

    if ((res = cry_mpi_copy(&d->x, &s->x)) != 0)
        return res;
    if ((res = cry_mpi_copy(&d->y, &s->y)) != 0)
        return res;
    return cry_mpi_copy(&d->z, &s->z);
}
'''),
 ('src/ecp/ecp_core.c', 'fn:cry_ecp_clear', r'''
void cry_ecp_clear(cry_ecp *p)
{
    cry_mpi_clear(&p->z);
    cry_mpi_clear(&p->y);
    cry_mpi_clear(&p->x);
}
'''),
 ('src/ecp/ecp_dbl.c', r'''    CHK(cry_mpi_set_int(&den, 2));          /* den =  2 */
    CHK(cry_mpi_mul(&den, &den, &p1->y));   /* den =  2 * y1 */
''', r'''    CHK(cry_mpi_add(&den, &p1->y, &p1->y)); /* den =  2 * y1 */
'''),
 ('src/ecp/ecp_curves.c', 'fn:ecp_mpi_load', r'''
static void ecp_mpi_load(cry_mpi *n, const cry_mpi_digit *d, size_t dlen)
{
    cry_mpi t;

    t.sign  = 0;
    t.used  = dlen / sizeof(*d);
    t.alloc = 0;
    t.data  = (cry_mpi_digit *)d;
    *n = t;
}
'''),
], G)
refac('rsa', '*', [
 ('src/crypt/rsa.c', 'fn:nozero_rand', r'''
static int nozero_rand(unsigned char *dst, size_t n)
{
    size_t i;
    int res = cry_prng_aes_rand(dst, n);

    if (res < 0)
        return res;
    for (i = 0; i < n; i++)
        dst[i] = (dst[i] != 0) ? dst[i] : 1;
    return res;
}
'''),
 ('src/crypt/rsa.c', 'fn:padding_add', r'''
static int padding_add(unsigned char *dst, size_t dlen,
                       const unsigned char *src, size_t slen,
                       int padding, int sign)
{
    int res;
    size_t pad;

    if (padding != CRY_RSA_PADDING_PKCS_V15)
        return -1; /* not implemented */
    if (dlen < 11 || dlen - 11 < slen)
        return -1;
    pad = dlen - slen - 3;

    dst[0] = 0;
    if (sign != 0) {
        dst[1] = 1;
        memset(&dst[2], 0xFF, pad);
    } else {
        dst[1] = 2;
        if ((res = nozero_rand(&dst[2], pad)) != 0)
            return res;
    }
    dst[2 + pad] = 0;
    memcpy(&dst[3 + pad], src, slen);
    return 0;
}
'''),
 ('src/crypt/rsa.c', 'fn:padding_del', r'''
static size_t padding_end(const unsigned char *src, size_t slen, int sign)
{
    size_t i = 2;

    while (i < slen && src[i] != 0) {
        if (sign != 0 && src[i] != 0xFF)
            return slen;
        i++;
    }
    return i;
}

static int padding_del(unsigned char *dst, size_t dlen,
                       const unsigned char *src, size_t slen,
                       int padding, int sign)
{
    size_t i, n;

    (void)padding; /* unused */

    if (slen < 11 || src[0] != 0)
        return -1;
    if (src[1] != ((sign != 0) ? 1 : 2))
        return -1;

    i = padding_end(src, slen, sign);
    if (i < 10 || i == slen)
        return -1;
    n = slen - (i + 1);
    if (n > dlen)
        n = dlen;
    memcpy(dst, &src[i + 1], n);
    return (int)n;
}
'''),
 ('src/crypt/rsa.c', 'fn:encrypt', r'''
static void drop_out(unsigned char **out, size_t *outlen)
{
    free(*out);
    *out = NULL;
    *outlen = 0;
}

static int more_room(unsigned char **out, size_t siz)
{
    unsigned char *p = realloc(*out, siz);

    if (p == NULL)
        return -1;
    *out = p;
    return 0;
}

static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
                   const unsigned char *in, size_t inlen, int sign)
{
    int res = -1; /* nothing to process is an error */
    const size_t mod_siz = cry_mpi_count_bytes(&ctx->n);
    size_t max, n;

    *outlen = 0;
    *out = NULL;
    if (ctx->padding == CRY_RSA_PADDING_NONE)
        max = mod_siz;
    else if (mod_siz > 11)
        max = mod_siz - 11;
    else
        max = 0;
    if (max == 0)
        return -1;

    for (; inlen > 0; inlen -= n, in += n) {
        n = (inlen < max) ? inlen : max;
        if ((res = more_room(out, *outlen + mod_siz)) != 0)
            break;
        if ((res = encrypt_block(ctx, *out + *outlen, in, n, sign)) != 0)
            break;
        *outlen += mod_siz;
    }
    if (res != 0)
        drop_out(out, outlen);
    return res;
}
'''),
 ('src/crypt/rsa.c', 'fn:decrypt', r'''
static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
                   const unsigned char *in, size_t inlen, int sign)
{
    int n;
    const size_t mod_siz = cry_mpi_count_bytes(&ctx->n);

    *outlen = 0;
    *out = NULL;
    if (inlen == 0)
        return -1;

    do {
        if (inlen < mod_siz)
            goto fail;
        if (more_room(out, *outlen + mod_siz) != 0)
            goto fail;
        n = decrypt_block(ctx, *out + *outlen, in, mod_siz, sign);
        if (n < 0)
            goto fail;
        *outlen += (size_t)n;
        in += mod_siz;
        inlen -= mod_siz;
    } while (inlen > 0);
    return 0;

fail:
    drop_out(out, outlen);
    return -1;
}
'''),
 ('src/crypt/rsa.c', 'fn:cry_rsa_verify', r'''
int cry_rsa_verify(cry_rsa_ctx *ctx, const unsigned char *sig, size_t siglen,
                   const unsigned char *in, size_t inlen)
{
    int res;
    unsigned char *out;
    size_t i, outlen;

    if ((res = decrypt(ctx, &out, &outlen, sig, siglen, 1)) != 0)
        return res;

    res = -1;
    if (outlen < inlen)
        goto e;
    if (outlen > inlen && ctx->padding != CRY_RSA_PADDING_NONE)
        goto e;
    if (memcmp(in, out, inlen) != 0)
        goto e;
    for (i = inlen; i < outlen; i++) {
        if (out[i] != 0)
            goto e;
    }
    res = 0;
e:
    free(out);
    return res;
}
'''),
 ('src/crypt/rsa.c', 'fn:decrypt_block', r'''
static int decrypt_block(cry_rsa_ctx *ctx, unsigned char *out,
                         const unsigned char *in, size_t inlen,
                         int sign)
{
    int res;
    unsigned char *buf;
    const size_t mod_len = cry_mpi_count_bytes(&ctx->n);
    const cry_mpi *key = (sign != 0) ? &ctx->e : &ctx->d;
    cry_mpi m;

    if (inlen != mod_len)
        return -1;

    if ((res = cry_mpi_init(&m)) != 0)
        return res;
    if ((buf = malloc(mod_len)) == NULL) {
        res = -1;
        goto e;
    }
    if ((res = cry_mpi_load_bin(&m, in, mod_len)) != 0)
        goto e1;
    if ((res = cry_mpi_mod_exp(&m, &m, key, &ctx->n)) != 0)
        goto e1;
    if ((res = cry_mpi_store_bin(&m, buf, mod_len, 1)) != 0)
        goto e1;
    if (ctx->padding == CRY_RSA_PADDING_NONE) {
        memcpy(out, buf, mod_len);
        res = (int)mod_len;
    } else {
        res = padding_del(out, mod_len, buf, mod_len, ctx->padding, sign);
    }

e1: free(buf);
e:  cry_mpi_clear(&m);
    return res;
}
'''),
], G)
refac('sigs', '*', [
 ('src/crypt/dsa.c', 'fn:cry_dsa_verify', r'''
static int in_range(const cry_mpi *v, const cry_mpi *q)
{
    if (cry_mpi_is_neg(v))
        return 0;
    if (cry_mpi_is_zero(v))
        return 0;
    return cry_mpi_cmp(v, q) < 0;
}

int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
                   const unsigned char *in, size_t len)
{
    int res;
    cry_mpi z, w, u1, u2;

    if (!in_range(&sig->s, &ctx->q) || !in_range(&sig->r, &ctx->q))
        return -1;

    if ((res = cry_mpi_init_list(&z, &w, &u1, &u2, (cry_mpi *)NULL)) != 0)
        return res;

    CHK(load_digest(&z, in, len, &ctx->q));

    /* w = inv(s) mod q */
    CHK(cry_mpi_inv(&w, &sig->s, &ctx->q));

    /* u1 = (z * w) mod q */
    CHK(cry_mpi_mul(&u1, &z, &w));
    CHK(cry_mpi_mod(&u1, &u1, &ctx->q));

    /* u2 = (r * w) mod q */
    CHK(cry_mpi_mul(&u2, &sig->r, &w));
    CHK(cry_mpi_mod(&u2, &u2, &ctx->q));

    CHK(cry_mpi_mod_exp(&u1, &ctx->g, &u1, &ctx->p));
    CHK(cry_mpi_mod_exp(&u2, &ctx->pub, &u2, &ctx->p));
    CHK(cry_mpi_mul(&w, &u2, &u1));
    CHK(cry_mpi_mod(&w, &w, &ctx->p));
    CHK(cry_mpi_mod(&w, &w, &ctx->q));

    if (cry_mpi_cmp(&sig->r, &w) != 0)
        res = -1;
e:  cry_mpi_clear_list(&z, &w, &u1, &u2, (cry_mpi *)NULL);
    return res;
}
'''),
 ('src/crypt/dsa.c', 'fn:cry_dsa_sign', r'''
static int load_digest(cry_mpi *z, const unsigned char *in, size_t len,
                       const cry_mpi *q)
{
    size_t max = cry_mpi_count_bytes(q);
    size_t excess;
    int res;

    if ((res = cry_mpi_load_bin(z, in, len < max ? len : max)) != 0)
        return res;
    if (len < max)
        return 0;
    excess = 8 * max - cry_mpi_count_bits(q);
    return (excess > 0) ? cry_mpi_shr(z, z, excess) : 0;
}

int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
                 const unsigned char *in, size_t len)
{
    int res;
    cry_mpi k, z;

    if ((res = cry_mpi_init_list(&k, &z, (cry_mpi *)NULL)) != 0)
        return res;

    CHK(secret_gen(&k, &ctx->q));
    CHK(load_digest(&z, in, len, &ctx->q));

    /* r = (g^k mod p) mod q */
    CHK(cry_mpi_mod_exp(&sig->r, &ctx->g, &k, &ctx->p));
    CHK(cry_mpi_mod(&sig->r, &sig->r, &ctx->q));

    /* s = (inv(k) * (z + d*r)) mod q */
    CHK(cry_mpi_mul(&sig->s, &sig->r, &ctx->pvt));
    CHK(cry_mpi_add(&sig->s, &z, &sig->s));
    CHK(cry_mpi_inv(&k, &k, &ctx->q));
    CHK(cry_mpi_mul(&sig->s, &k, &sig->s));
    CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));

e:  cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
    return res;
}
'''),
 ('src/crypt/dsa.c', 'fn:secret_gen', r'''
static int secret_gen(cry_mpi *k, const cry_mpi *q)
{
    int res;
    cry_mpi t, one;
    cry_mpi_digit dig = 1;

    one.data = &dig;
    one.alloc = 0;
    one.used = 1;
    one.sign = 0;

    if ((res = cry_mpi_init(&t)) != 0)
        return res;
    if ((res = cry_mpi_sub(&t, q, &one)) == 0 &&
        (res = cry_mpi_rand(k, cry_mpi_count_bits(q))) == 0 &&
        (res = cry_mpi_mod(k, k, &t)) == 0)
        res = cry_mpi_add(k, k, &one);
    cry_mpi_clear(&t);
    return res;
}
'''),
 ('src/crypt/ecdsa.c', 'fn:cry_ecdsa_verify', r'''
static int out_of_range(const cry_mpi *v, const cry_mpi *n)
{
    return cry_mpi_is_zero(v) || cry_mpi_is_neg(v) || cry_mpi_cmp(v, n) >= 0;
}

int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
                     const unsigned char *in, size_t len)
{
    int res;
    cry_mpi z, w;
    cry_ecp G, Q;

    if (out_of_range(&sig->r, &ctx->grp.n))
        return -1;
    if (out_of_range(&sig->s, &ctx->grp.n))
        return -1;

    if ((res = cry_ecp_init_list(&Q, &G, (cry_ecp *)NULL)) != 0)
        return res;
    if ((res = cry_mpi_init_list(&z, &w, (cry_mpi *)NULL)) != 0)
        goto e0;

    CHK1(digest_load(&z, in, len, &ctx->grp.n));
    CHK1(cry_mpi_inv(&w, &sig->s, &ctx->grp.n));
    CHK1(cry_mpi_mul(&z, &w, &z));
    CHK1(cry_mpi_mod(&z, &z, &ctx->grp.n));
    CHK1(cry_mpi_mul(&w, &w, &sig->r));
    CHK1(cry_mpi_mod(&w, &w, &ctx->grp.n));

    CHK1(cry_ecp_mul(&Q, &ctx->q, &w, &ctx->grp));
    CHK1(cry_ecp_mul(&G, &ctx->grp.g, &z, &ctx->grp));
    CHK1(cry_ecp_add(&G, &Q, &G, &ctx->grp));
    if (!cry_ecp_is_zero(&G)) {
        CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n));
        if (cry_mpi_cmp(&sig->r, &G.x) != 0)
            res = -1;
    } else {
        res = -1;
    }

e1: cry_mpi_clear_list(&w, &z, (cry_mpi *)NULL);
e0: cry_ecp_clear_list(&Q, &G, (cry_ecp *)NULL);
    return res;
}
'''),
 ('src/crypt/ecdsa.c', 'fn:cry_ecdsa_init', r'''
int cry_ecdsa_init(cry_ecdsa_ctx *ctx, int grp_id)
{
    int res;

    if ((res = cry_mpi_init(&ctx->d)) != 0)
        return res;
    if ((res = cry_ecp_init(&ctx->q)) == 0) {
        if (grp_id == -1)
            res = cry_ecp_grp_init(&ctx->grp);
        else
            res = cry_ecp_grp_load(&ctx->grp, grp_id);
        if (res == 0)
            return 0;
        cry_ecp_clear(&ctx->q);
    }
    cry_mpi_clear(&ctx->d);
    return res;
}
'''),
 ('src/crypt/elgamal.c', 'fn:cry_elgamal_verify2', r'''
static int elgamal_check(const cry_elgamal_ctx *ctx,
                         const cry_elgamal_sig *sign, cry_mpi *t)
{
    int res;

    if (cry_mpi_is_zero(&sign->r) || cry_mpi_is_zero(&sign->s))
        return -1;
    if (cry_mpi_is_neg(&sign->r) || cry_mpi_is_neg(&sign->s))
        return -1;
    if (cry_mpi_cmp(&sign->r, &ctx->p) >= 0)
        return -1;
    if ((res = cry_mpi_set_int(t, 1)) != 0)
        return res;
    if ((res = cry_mpi_sub(t, &ctx->p, t)) != 0)
        return res;
    return (cry_mpi_cmp(&sign->s, t) < 0) ? 0 : -1;
}

int cry_elgamal_verify2(cry_elgamal_ctx *ctx, const cry_elgamal_sig *sign,
                        const unsigned char *in, size_t len)
{
    int res;
    cry_mpi r, z;

    if (len > cry_mpi_count_bytes(&ctx->p))
        return -1;

    if ((res = cry_mpi_init_list(&z, &r, (cry_mpi *)NULL)) != 0)
        return res;

    CHK(elgamal_check(ctx, sign, &z));

    CHK(cry_mpi_mod_exp(&z, &sign->r, &sign->s, &ctx->p));
    CHK(cry_mpi_mod_exp(&r, &ctx->y, &sign->r, &ctx->p));
    CHK(cry_mpi_mul(&r, &z, &r));
    CHK(cry_mpi_mod(&r, &r, &ctx->p));

    CHK(cry_mpi_load_bin(&z, in, len));
    CHK(cry_mpi_mod_exp(&z, &ctx->g, &z, &ctx->p));

    res = (cry_mpi_cmp(&z, &r) == 0) ? 0 : -1;

e:  cry_mpi_clear_list(&r, &z, (cry_mpi *)NULL);
    return res;
}
'''),
 ('src/crypt/elgamal.c', 'fn:cry_elgamal_sign', r'''
int cry_elgamal_sign(cry_elgamal_ctx *ctx, unsigned char *sign,
                     const unsigned char *in, size_t len)
{
    int res;
    cry_elgamal_sig s;
    const size_t siz = cry_mpi_count_bytes(&ctx->p);

    res = cry_mpi_init_list(&s.r, &s.s, (cry_mpi *)NULL);
    if (res != 0)
        return res;
    if ((res = cry_elgamal_sign2(ctx, &s, in, len)) != 0)
        goto e;
    if ((res = cry_mpi_store_bin(&s.r, sign, siz, 1)) != 0)
        goto e;
    res = cry_mpi_store_bin(&s.s, &sign[siz], siz, 1);
e:
    cry_mpi_clear_list(&s.s, &s.r, (cry_mpi *)NULL);
    return res;
}
'''),
 ('src/crypt/ecdh.c', 'fn:cry_ecdh_init', r'''
int cry_ecdh_init(cry_ecdh_ctx *ctx)
{
    int res;

    if ((res = cry_mpi_init(&ctx->d)) != 0)
        return res;
    res = cry_ecp_init_list(&ctx->q, &ctx->z, (cry_ecp *)NULL);
    if (res != 0)
        goto e;
    res = cry_ecp_grp_init(&ctx->ec);
    if (res == 0)
        return 0;
    cry_ecp_clear_list(&ctx->q, &ctx->z, (cry_ecp *)NULL);
e:
    cry_mpi_clear(&ctx->d);
    return res;
}
'''),
], G)
