# behaviour-preserving edits of the point and public-key code, aimed at the term domain (C25, C26)
refac('ecp-mul-helper', '*', [
 ('src/ecp/ecp_mul.c', '''    i = k->used;
    while (i > 0) {
        i--;
        j = CRY_MPI_DIGIT_BITS;
        while (j > 0) {
            j--;
            if (!paf)
                CHK(cry_ecp_dbl(&r, &r, grp));

            if (!(k->data[i] & ((cry_mpi_digit)1 << j)))
                continue;

            if (i != 0 || j >= 3) { /* TODO: maybe j >= 3 is sufficient */
                w = 1;
                while (w < 8) {
                    if (j == 0) {
                        i--;
                        j = CRY_MPI_DIGIT_BITS;
                    }
                    j--;
                    if (!paf)
                        CHK(cry_ecp_dbl(&r, &r, grp));
                    w <<= 1;
                    if (k->data[i] & ((cry_mpi_digit)1 << j))
                        w |= 1;
                }
                w &= 0x7; /* -8 */
                // if (w >= 8)
                //    w -= 8;
                if (!paf) {
                    CHK(cry_ecp_add(&r, &r, &win[w], grp));
                } else {
                    paf = 0; /* First addition */
                    CHK(cry_ecp_copy(&r, &win[w]));
                }
            } else {
                /* special case */
                if (!paf) {
                    CHK(cry_ecp_add(&r, &r, p1, grp));
                } else {
                    paf = 0; /* First addition */
                    CHK(cry_ecp_copy(&r, p1));
                }
            }
        }
    }
''', '''    /* i counts the bits that are still to be processed */
    for (i = k->used * CRY_MPI_DIGIT_BITS; i > 0; ) {
        const cry_ecp *t = p1;

        i--;
        if (!paf)
            CHK(cry_ecp_dbl(&r, &r, grp));
        if (key_bit(k, i) == 0)
            continue;
        if (i >= 3) {
            w = 0;
            for (j = 0; j < 3; j++) {
                i--;
                if (!paf)
                    CHK(cry_ecp_dbl(&r, &r, grp));
                w = 2 * w + key_bit(k, i);
            }
            t = win + w;
        }
        if (paf)
            CHK(cry_ecp_copy(&r, t));
        else
            CHK(cry_ecp_add(&r, &r, t, grp));
        paf = 0;
    }
'''),
 ('src/ecp/ecp_mul.c', '#define WINPTS     8\n', '''#define WINPTS     8

static unsigned int key_bit(const cry_mpi *k, size_t pos)
{
    return (k->data[pos / CRY_MPI_DIGIT_BITS] >> (pos % CRY_MPI_DIGIT_BITS)) & 1;
}
'''),
], group='terms')
refac('ecp-dbl-order', '*', [
 ('src/ecp/ecp_dbl.c', '''    CHK(cry_mpi_set_int(&num, 3));          /* num = 3 */
    CHK(cry_mpi_mul(&num, &num, &p1->x));   /* num = 3 * x1 */
    CHK(cry_mpi_mul(&num, &num, &p1->x));   /* num = 3 * x1^2 */
    CHK(cry_mpi_mod(&num, &num, &grp->p));
''', '''    CHK(cry_mpi_sqr(&num, &p1->x));         /* num = x1^2 */
    CHK(cry_mpi_mod(&num, &num, &grp->p));
    CHK(cry_mpi_add(&lam, &num, &num));
    CHK(cry_mpi_add(&num, &num, &lam));     /* num = 3 * x1^2 */
'''),
 ('src/ecp/ecp_dbl.c', '''    CHK(cry_mpi_mul(&lam, &num, &den));     /* lam = num / den */
    CHK(cry_mpi_mod(&den, &den, &grp->p));
''', '''    CHK(cry_mpi_mul(&lam, &den, &num));     /* lam = num / den */
    CHK(cry_mpi_mod(&lam, &lam, &grp->p));
'''),
 ('src/ecp/ecp_dbl.c', '''    CHK(cry_mpi_sub(&r.x, &r.x, &p1->x));   /* x =  lam^2 - x1 */
    CHK(cry_mpi_sub(&r.x, &r.x, &p1->x));   /* x =  lam^2 - 2*x1 */
    CHK(cry_mpi_mod(&r.x, &r.x, &grp->p));  /* x = (lam^2 - 2*x1) % p */
''', '''    CHK(cry_mpi_shl(&num, &p1->x, 1));
    CHK(cry_mpi_sub(&r.x, &r.x, &num));     /* x =  lam^2 - 2*x1 */
    CHK(cry_mpi_mod(&r.x, &r.x, &grp->p));  /* x = (lam^2 - 2*x1) % p */
'''),
], group='terms')
refac('ecp-add-cmp', '*', [
 ('src/ecp/ecp_add.c', '''    if (cry_mpi_is_zero(&den)) {
        if (cry_mpi_is_zero(&num))
            res = cry_ecp_dbl(pr, p1, grp);
        else
            cry_ecp_set_zero(pr);
        goto e0;
    }
''', '''    if (cry_mpi_cmp(&p1->x, &p2->x) == 0) {
        if (cry_mpi_cmp(&p1->y, &p2->y) != 0)
            cry_ecp_set_zero(pr);
        else
            res = cry_ecp_dbl(pr, p2, grp);
        goto e0;
    }
'''),
], group='terms2')
refac('rsa-keygen-loop', '*', [
 ('src/crypt/rsa.c', 'fn:cry_rsa_keygen', r"""
static int totient(cry_mpi *phi, const cry_mpi *p, const cry_mpi *q)
{
    int res;
    cry_mpi a, b;

    if ((res = cry_mpi_init_list(&a, &b, (cry_mpi *)NULL)) != 0)
        return res;
    /* (p-1)(q-1) = pq - (p+q) + 1 */
    if ((res = cry_mpi_mul(phi, p, q)) == 0 &&
        (res = cry_mpi_add(&a, p, q)) == 0 &&
        (res = cry_mpi_set_int(&b, 1)) == 0 &&
        (res = cry_mpi_sub(phi, phi, &a)) == 0)
        res = cry_mpi_add(phi, phi, &b);
    cry_mpi_clear_list(&a, &b, (cry_mpi *)NULL);
    return res;
}

int cry_rsa_keygen(cry_rsa_ctx *ctx, size_t bits, long e)
{
    int res, found = 0;
    cry_mpi phi, g, one;
    cry_mpi_digit one_dig = 1;
    unsigned int i, j;

    one.alloc = 1;
    one.used = 1;
    one.sign = 0;
    one.data = &one_dig;

    if (e != 0) {
        if ((res = cry_mpi_set_int(&ctx->e, e)) != 0)
            return res;
    }
    if ((res = cry_mpi_init_list(&g, &phi, (cry_mpi *)NULL)) != 0)
        return res;

    for (j = 0; j < MAX_ITER && !found; j++) {
        i = MAX_ITER;
        if ((res = cry_mpi_prime(&ctx->q, bits >> 1, &i)) != 0)
            break;
        i = MAX_ITER;
        if ((res = cry_mpi_prime(&ctx->p, bits >> 1, &i)) != 0)
            break;
        if (cry_mpi_cmp_abs(&ctx->p, &ctx->q) == 0)
            continue;
        if ((res = cry_mpi_mul(&ctx->n, &ctx->q, &ctx->p)) != 0)
            break;
        if (cry_mpi_count_bits(&ctx->n) != bits)
            continue;
        if ((res = totient(&phi, &ctx->p, &ctx->q)) != 0)
            break;
        if (e == 0 && (res = cry_mpi_rand(&ctx->e, bits)) != 0)
            break;
        if ((res = cry_mpi_gcd(&g, &phi, &ctx->e)) != 0)
            break;
        found = cry_mpi_cmp(&g, &one) == 0;
    }
    if (res == 0)
        res = found ? cry_mpi_inv(&ctx->d, &ctx->e, &phi) : -1;
    cry_mpi_clear_list(&g, &phi, (cry_mpi *)NULL);
    return res;
}
"""),
], group='terms')
refac('elgamal-sign-order', '*', [
 ('src/crypt/elgamal.c', '''    CHK(cry_mpi_load_bin(&z, in, len));
    CHK(cry_mpi_mul(&sign->s, &ctx->d, &sign->r));
    CHK(cry_mpi_sub(&sign->s, &z, &sign->s));
    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
    CHK(cry_mpi_inv(&k, &k, &t));
    CHK(cry_mpi_mul(&sign->s, &sign->s, &k));
    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
''', '''    CHK(cry_mpi_inv(&k, &k, &t));
    CHK(cry_mpi_load_bin(&z, in, len));
    CHK(cry_mpi_mul(&sign->s, &sign->r, &ctx->d));
    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
    CHK(cry_mpi_sub(&sign->s, &z, &sign->s));
    CHK(cry_mpi_mul(&sign->s, &k, &sign->s));
    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
'''),
 ('src/crypt/dsa.c', '''            CHK(cry_mpi_add(&r, &ctx->q, &ctx->q));
''', '''            CHK(cry_mpi_shl(&r, &ctx->q, 1));
'''),
 ('src/crypt/ecdsa.c', '''    CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
    CHK1(cry_mpi_mul(&sig->s, &ctx->d, &sig->r));
    CHK1(cry_mpi_add(&sig->s, &sig->s, &z));
    CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
    CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
''', '''    CHK1(cry_mpi_mul(&sig->s, &ctx->d, &sig->r));
    CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
    CHK1(cry_mpi_add(&z, &z, &sig->s));
    CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
    CHK1(cry_mpi_mul(&z, &z, &k));
    CHK1(cry_mpi_mod(&sig->s, &z, &ctx->grp.n));
'''),
], group='terms')
