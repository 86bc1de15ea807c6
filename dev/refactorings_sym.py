# behaviour-preserving rewrites of the symmetric part
G = 'sym'
refac('gcm-helpers', '*', [
 ('src/crypt/gcm.c', 'fn:gcm_operate', r'''
static void gcm_ctr_next(struct cry_gcm_ctx *ctx)
{
    int i;

    for (i = CRY_GCM_BLOCK_SIZE - 1; i >= CRY_GCM_BLOCK_SIZE - 4; i--) {
        ctx->ctr[i]++;
        if (ctx->ctr[i] != 0)
            break;
    }
}

static void gcm_operate(struct cry_gcm_ctx *ctx, unsigned char *dst,
                        const unsigned char *src, size_t size)
{
    unsigned char ks[CRY_GCM_BLOCK_SIZE];
    size_t i, n;

    while (size > 0) {
        n = (size < CRY_GCM_BLOCK_SIZE) ? size : CRY_GCM_BLOCK_SIZE;
        ctx->ciph_itf->encrypt(ctx->ciph_ctx, ks, ctx->ctr,
                               CRY_GCM_BLOCK_SIZE);
        gcm_ctr_next(ctx);
        for (i = 0; i < n; i++)
            dst[i] = (unsigned char)(src[i] ^ ks[i]);
        dst += n;
        src += n;
        size -= n;
    }
}
'''),
 ('src/crypt/gcm.c', 'fn:gcm_hash', r'''
static void gcm_hash(unsigned char *hash, const unsigned char *key,
                     const unsigned char *data, size_t len)
{
    size_t off, n;

    for (off = 0; off < len; off += n) {
        n = CRY_MIN(len - off, (size_t)CRY_GCM_BLOCK_SIZE);
        cry_memxor(hash, &data[off], n);
        gcm_gf_mul(hash, key);
    }
}
'''),
 ('src/crypt/gcm.c', 'fn:gcm_hash_sizes', r'''
static void put_bits(unsigned char *p, size_t bytes)
{
    uint64_t v = (uint64_t)bytes * 8;
    int i;

    for (i = 7; i >= 0; i--) {
        p[i] = (unsigned char)v;
        v >>= 8;
    }
}

static void gcm_hash_sizes(unsigned char *hash, const unsigned char *key,
                           size_t auth_size, size_t ciph_size)
{
    unsigned char lens[CRY_GCM_BLOCK_SIZE];

    put_bits(lens, auth_size);
    put_bits(lens + 8, ciph_size);
    cry_memxor(hash, lens, sizeof(lens));
    gcm_gf_mul(hash, key);
}
'''),
 ('src/crypt/gcm.c', 'fn:gcm_gf_mul', r'''
static void gcm_gf_mul(unsigned char *x, const unsigned char *y)
{
    unsigned char v[CRY_GCM_BLOCK_SIZE], z[CRY_GCM_BLOCK_SIZE];
    unsigned char lsb;
    int i, k;

    memcpy(v, x, sizeof(v));
    memset(z, 0, sizeof(z));
    for (i = 0; i < 128; i++) {
        if ((y[i >> 3] & (0x80 >> (i & 7))) != 0) {
            for (k = 0; k < CRY_GCM_BLOCK_SIZE; k++)
                z[k] ^= v[k];
        }
        lsb = v[CRY_GCM_BLOCK_SIZE - 1] & 1;
        for (k = CRY_GCM_BLOCK_SIZE - 1; k > 0; k--)
            v[k] = (unsigned char)((v[k] >> 1) | (v[k - 1] << 7));
        v[0] >>= 1;
        if (lsb)
            v[0] ^= POLY;
    }
    memcpy(x, z, sizeof(z));
}
'''),
], G)
refac('ctr-single-loop', '*', [('src/crypt/ctr.c', 'fn:cry_ctr_encrypt', r'''
static void ctr_advance(unsigned char *ctr, size_t n)
{
    while (n-- > 0) {
        if (++ctr[n] != 0)
            return;
    }
}

void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
                     const unsigned char *src, size_t len)
{
    unsigned char ks[CRY_CTR_BLOCK_MAX];
    size_t n, done;

    for (done = 0; done < len; done += n) {
        n = CRY_MIN(ctx->ctrlen, len - done);
        ctx->ciph_itf->encrypt(ctx->ciph_ctx, ks, ctx->ctr, ctx->ctrlen);
        ctr_advance(ctx->ctr, ctx->ctrlen);
        cry_memxor2(dst + done, src + done, ks, n);
    }
}
'''), ('src/crypt/ctr.c', '''#define BUF_BLOCKS  4
#define BUF_LEN     (CRY_CTR_BLOCK_MAX * BUF_BLOCKS)
''', '')], G)
refac('cfb-helpers', '*', [
 ('src/crypt/cfb.c', 'fn:cry_cfb_crypt', r'''
void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
                   const unsigned char *src, size_t len)
{
    size_t i, n;

    while (len > 0) {
        ctx->ciph_itf->encrypt(ctx->ciph_ctx, ctx->v, ctx->v, ctx->vlen);
        n = (len >= ctx->vlen) ? ctx->vlen : len;
        for (i = 0; i < n; i++) {
            ctx->v[i] ^= src[i];
            dst[i] = ctx->v[i];
        }
        src += n;
        dst += n;
        len -= n;
    }
}
'''),
 ('src/crypt/cfb.c', 'fn:cry_cfb8_decrypt', r'''
void cry_cfb8_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
                      const unsigned char *src, size_t len)
{
    unsigned char o[CRY_CFB_BLOCK_MAX];
    unsigned char c;
    size_t i;

    for (i = 0; i < len; i++) {
        c = src[i];
        ctx->ciph_itf->encrypt(ctx->ciph_ctx, o, ctx->v, ctx->vlen);
        dst[i] = c ^ o[0];
        memmove(ctx->v, ctx->v + 1, ctx->vlen - 1);
        ctx->v[ctx->vlen - 1] = c;
    }
}
''')], G)
refac('cbc-blockwise', '*', [('src/crypt/cbc.c', 'fn:cry_cbc_decrypt', r'''
static void cbc_decrypt_block(struct cry_cbc_ctx *ctx, unsigned char *dst,
                              const unsigned char *src)
{
    unsigned char c[CRY_CBC_BLOCK_MAX], p[CRY_CBC_BLOCK_MAX];
    size_t i;

    memcpy(c, src, ctx->ctrlen);
    ctx->ciph_itf->decrypt(ctx->ciph_ctx, p, c, ctx->ctrlen);
    for (i = 0; i < ctx->ctrlen; i++)
        dst[i] = p[i] ^ ctx->ctr[i];
    memcpy(ctx->ctr, c, ctx->ctrlen);
}

void cry_cbc_decrypt(struct cry_cbc_ctx *ctx, unsigned char *dst,
                     const unsigned char *src, size_t size)
{
    size_t n = size & ~(ctx->ctrlen - 1);
    size_t off;

    for (off = 0; off < n; off += ctx->ctrlen)
        cbc_decrypt_block(ctx, dst + off, src + off);
}
''')], G)
refac('cmac-rewrite', '*', [
 ('src/crypt/cmac.c', 'fn:cbc_compute_subkeys', r'''
static void dbl(unsigned char *o, const unsigned char *in)
{
    unsigned char carry = 0, c;
    int i;

    for (i = CRY_CMAC_BLOCK_SIZE - 1; i >= 0; i--) {
        c = in[i] >> 7;
        o[i] = (unsigned char)((in[i] << 1) | carry);
        carry = c;
    }
    if (carry)
        o[CRY_CMAC_BLOCK_SIZE - 1] ^= 0x87;
}

static void cbc_compute_subkeys(cry_cmac_ctx *ctx,
                                unsigned char *k1, unsigned char *k2)
{
    unsigned char l[CRY_CMAC_BLOCK_SIZE];

    memset(l, 0, sizeof(l));
    ctx->ciph_itf->encrypt(ctx->ciph_ctx, l, l, CRY_CMAC_BLOCK_SIZE);
    dbl(k1, l);
    dbl(k2, k1);
}
'''),
 ('src/crypt/cmac.c', 'fn:cry_cmac_update', r'''
static void absorb(cry_cmac_ctx *ctx, const unsigned char *blk)
{
    xor_128(ctx->mac, ctx->mac, blk);
    ctx->ciph_itf->encrypt(ctx->ciph_ctx, ctx->mac, ctx->mac,
                           CRY_CMAC_BLOCK_SIZE);
}

void cry_cmac_update(cry_cmac_ctx *ctx, const unsigned char *data, size_t len)
{
    size_t n;

    while (len > 0) {
        if (ctx->blklen == CRY_CMAC_BLOCK_SIZE) {
            absorb(ctx, ctx->blk);
            ctx->blklen = 0;
        }
        n = CRY_CMAC_BLOCK_SIZE - ctx->blklen;
        if (n > len)
            n = len;
        memcpy(ctx->blk + ctx->blklen, data, n);
        ctx->blklen += n;
        data += n;
        len -= n;
    }
}
''')], G)
refac('hmac-pad-helper', '*', [
 ('src/crypt/hmac.c', 'fn:cry_hmac_init', r'''
static void start(cry_hmac_ctx *ctx, unsigned char fill)
{
    unsigned char pad[BLOCK_SIZE];
    size_t i;

    for (i = 0; i < BLOCK_SIZE; i++)
        pad[i] = (i < ctx->key_len) ? (unsigned char)(ctx->key[i] ^ fill) : fill;
    if (ctx->hash_itf->init)
        ctx->hash_itf->init(ctx->hash_ctx);
    ctx->hash_itf->update(ctx->hash_ctx, pad, sizeof(pad));
}

static void finish(cry_hmac_ctx *ctx, unsigned char *out)
{
    ctx->hash_itf->digest(ctx->hash_ctx, out);
    if (ctx->hash_itf->clear != NULL)
        ctx->hash_itf->clear(ctx->hash_ctx);
}

void cry_hmac_init(cry_hmac_ctx *ctx, void *hash_ctx,
                   const cry_hash_itf *hash_itf, size_t hash_len,
                   const unsigned char *key, size_t key_len)
{
    ctx->hash_ctx = hash_ctx;
    ctx->hash_itf = hash_itf;
    ctx->hash_len = hash_len;

    if (key_len > BLOCK_SIZE) {
        if (hash_itf->init)
            hash_itf->init(hash_ctx);
        hash_itf->update(hash_ctx, key, key_len);
        finish(ctx, ctx->key);
        key_len = hash_len;
    } else {
        memcpy(ctx->key, key, key_len);
    }
    ctx->key_len = key_len;
    start(ctx, 0x36);
}
'''),
 ('src/crypt/hmac.c', 'fn:cry_hmac_digest', r'''
void cry_hmac_digest(cry_hmac_ctx *ctx, unsigned char *mac)
{
    finish(ctx, mac);
    start(ctx, 0x5C);
    ctx->hash_itf->update(ctx->hash_ctx, mac, ctx->hash_len);
    finish(ctx, mac);
}
''')], G)
refac('sha256-chunks', '*', [
 ('src/hash/sha256.c', 'fn:cry_sha256_update', r'''
static void block_done(cry_sha256_ctx *ctx)
{
    cry_sha256_transform(ctx, ctx->data);
    ctx->bitlen += 8 * sizeof(ctx->data);
    ctx->datalen = 0;
}

void cry_sha256_update(cry_sha256_ctx *ctx, const unsigned char *data,
                       size_t size)
{
    size_t n;

    while (size > 0) {
        n = sizeof(ctx->data) - ctx->datalen;
        if (n > size)
            n = size;
        memcpy(ctx->data + ctx->datalen, data, n);
        ctx->datalen += (uint32_t)n;
        data += n;
        size -= n;
        if (ctx->datalen == sizeof(ctx->data))
            block_done(ctx);
    }
}
'''),
 ('src/hash/sha256.c', 'fn:cry_sha256_digest', r'''
void cry_sha256_digest(cry_sha256_ctx *ctx, unsigned char *digest)
{
    uint64_t bits = ctx->bitlen + (uint64_t)ctx->datalen * 8;
    size_t i = ctx->datalen;

    ctx->data[i++] = 0x80;
    if (i > 56) {
        memset(ctx->data + i, 0, 64 - i);
        cry_sha256_transform(ctx, ctx->data);
        i = 0;
    }
    memset(ctx->data + i, 0, 56 - i);
    for (i = 0; i < 8; i++)
        ctx->data[63 - i] = (unsigned char)(bits >> (8 * i));
    ctx->bitlen = bits;
    cry_sha256_transform(ctx, ctx->data);
    for (i = 0; i < 8; i++)
        CRY_WRITE32_BE(ctx->state[i], digest + 4 * i);
}
''')], G)
refac('sha1-bytewise', '*', [('src/hash/sha1.c', 'fn:cry_sha1_update', r'''
void cry_sha1_update(cry_sha1_ctx *ctx, const unsigned char *data, size_t len)
{
    size_t pos = ctx->len[0] & 0x3F;
    uint64_t total = (((uint64_t)ctx->len[1] << 32) | ctx->len[0]) + len;

    ctx->len[0] = (uint32_t)total;
    ctx->len[1] = (uint32_t)(total >> 32);
    while (len-- > 0) {
        ctx->data[pos++] = *data++;
        if (pos == 64) {
            cry_sha1_process(ctx, ctx->data);
            pos = 0;
        }
    }
}
''')], G)
refac('md5-read-macro', '*', [('src/hash/md5.c', 'fn:cry_md5_digest', r'''
static void load_words(uint32_t *in, const unsigned char *p, int n)
{
    int i;

    for (i = 0; i < n; i++)
        CRY_READ32_LE(in[i], p + 4*i);
}

void cry_md5_digest(struct cry_md5_ctx *ctx, unsigned char *digest)
{
    uint32_t in[16];
    const uint32_t lo = ctx->len[0], hi = ctx->len[1];
    unsigned int i, used;
    unsigned char pad[64];

    memset(pad, 0, sizeof(pad));
    pad[0] = 0x80;
    used = (lo / 8) % 64;
    if (used < 56)
        cry_md5_update(ctx, pad, 56 - used);
    else
        cry_md5_update(ctx, pad, 64 + 56 - used);

    load_words(in, ctx->data, 14);
    in[14] = lo;
    in[15] = hi;
    cry_md5_process(ctx->state, in);
    for (i = 0; i < 4; i++)
        CRY_WRITE32_LE(ctx->state[i], digest + 4*i);
}
''')], G)
refac('sha512-loops', '*', [('src/hash/sha512.c', 'fn:cry_sha512_digest', r'''
void cry_sha512_digest(cry_sha512_ctx *ctx, unsigned char *out)
{
    unsigned char tail[128 + 16] = { 0x80 };
    uint64_t v[2];
    size_t i, n, words;

    v[0] = (ctx->len[1] << 3) | (ctx->len[0] >> 61);
    v[1] = ctx->len[0] << 3;
    n = (size_t)(ctx->len[0] & 0x7F);
    n = ((n < 112) ? 112 : 240) - n;
    CRY_WRITE64_BE(v[0], tail + n);
    CRY_WRITE64_BE(v[1], tail + n + 8);
    cry_sha512_update(ctx, tail, n + 16);

    words = ctx->is384 ? 6 : 8;
    for (i = 0; i < words; i++)
        CRY_WRITE64_BE(ctx->state[i], out + 8 * i);
}
''')], G)
refac('aes-array', '*', [('src/crypt/aes.c', 'fn:cry_aes_encrypt', r'''
static void aes_block(const cry_aes_ctx *ctx, unsigned char *dst,
                      const unsigned char *src)
{
    uint32_t w[4], t[4];
    const uint32_t *rk = ctx->keys;
    unsigned int i, r;

    for (i = 0; i < 4; i++) {
        CRY_READ32_LE(w[i], src + 4*i);
        w[i] ^= rk[i];
    }
    for (r = 1; r < ctx->nr; r++) {
        rk += 4;
        for (i = 0; i < 4; i++)
            t[i] = ROUND(ftab, w[i], w[(i+1) & 3], w[(i+2) & 3], w[(i+3) & 3]) ^ rk[i];
        memcpy(w, t, sizeof(w));
    }
    rk += 4;
    for (i = 0; i < 4; i++) {
        t[i] = FINAL(fsbox, w[i], w[(i+1) & 3], w[(i+2) & 3], w[(i+3) & 3]) ^ rk[i];
        CRY_WRITE32_LE(t[i], dst + 4*i);
    }
}

void cry_aes_encrypt(struct cry_aes_ctx *ctx, unsigned char *dst,
                     const unsigned char *src, size_t size)
{
    size_t n;

    if (ctx->nr & DECRYPT_STATE) {
        key_invert(ctx);
        ctx->nr &= ~DECRYPT_STATE;
    }
    for (n = size / CRY_AES_BLOCK_SIZE; n > 0; n--) {
        aes_block(ctx, dst, src);
        src += CRY_AES_BLOCK_SIZE;
        dst += CRY_AES_BLOCK_SIZE;
    }
}
'''), ('src/crypt/aes.c', '''    for (i = nk; i < lk; i++) {
        tmp = ctx->keys[i-1];
        if (i % nk == 0)
            tmp = SBOX(CRY_ROTL32(tmp, 24)) ^ *rp++;
        else if (nk == 8 && (i%nk) == 4) /* Only for aes-256 */
            tmp = SBOX(tmp);
        ctx->keys[i] = ctx->keys[i-nk] ^ tmp;
    }''', '''    i = nk;
    while (i < lk) {
        unsigned int ph = i % nk;

        tmp = ctx->keys[i-1];
        if (ph == 4 && nk > 6) { /* Only for aes-256 */
            tmp = SBOX(tmp);
        } else if (ph == 0) {
            tmp = (tmp >> 8) | (tmp << 24);
            tmp = SBOX(tmp) ^ rp[i / nk - 1];
        }
        ctx->keys[i] = tmp ^ ctx->keys[i-nk];
        i++;
    }''')], G)
refac('arc4-local', '*', [('src/crypt/arc4.c', 'fn:cry_arc4_crypt', r'''
static unsigned char next_byte(cry_arc4_ctx *ctx)
{
    unsigned char t;

    ctx->x = (ctx->x + 1) & 0xFF;
    ctx->y = (ctx->y + ctx->s[ctx->x]) & 0xFF;
    t = ctx->s[ctx->x];
    ctx->s[ctx->x] = ctx->s[ctx->y];
    ctx->s[ctx->y] = t;
    return ctx->s[(ctx->s[ctx->x] + t) & 0xFF];
}

void cry_arc4_crypt(cry_arc4_ctx *ctx, unsigned char *dst,
                    const unsigned char *src, size_t size)
{
    while (size-- > 0)
        *dst++ = *src++ ^ next_byte(ctx);
}
'''), ('src/crypt/arc4.c', '''        a = ctx->s[i];
        j = (unsigned char)(j + a + key[k]);
        ctx->s[i] = ctx->s[j];
        ctx->s[j] = a;
        k++;
        if (k == size)
            k = 0;''', '''        k = (unsigned int)(i % size);
        a = ctx->s[i];
        j = (j + key[k] + a) & 0xFF;
        ctx->s[i] = ctx->s[j];
        ctx->s[j] = a;''')], G)
refac('trivium-tail', '*', [('src/crypt/trivium.c', '''    i *= 4;
    if (i < size) {
        UPDATE();
        ROTATE();
        for (; i < size; i++, z >>= 8)
            dst[i] = src[i] ^ (uint8_t)(z);
    }
''', '''    if ((size & 3) != 0) {
        size_t k;

        UPDATE();
        for (k = 0; k < (size & 3); k++)
            dst[4*i + k] = (unsigned char)(src[4*i + k] ^ (z >> (8*k)));
        ROTATE();
    }
'''), ('src/crypt/trivium.c', '''    for (i = 0; i < size; i++)
        ctx->key[i] = key[i];
    for (; i < CRY_TRIVIUM_KEYLEN; i++)
        ctx->key[i] = 0;''', '''    i = size;
    memset(ctx->key, 0, sizeof(ctx->key));
    memcpy(ctx->key, key, i);''')], G)
refac('crc-local', '*', [('src/crc/crc16.c', 'fn:cry_crc16_update', r'''
void cry_crc16_update(struct cry_crc16_ctx *ctx,
                      const unsigned char *buf, size_t size)
{
    uint16_t crc = ctx->crc;
    size_t i;

    for (i = 0; i < size; i++) {
        uint8_t ix = (uint8_t)(buf[i] ^ crc);

        crc >>= 8;
        crc ^= ctx->tab[ix];
    }
    ctx->crc = crc;
}
'''), ('src/crc/crc32.c', 'fn:cry_crc32_update', r'''
static uint32_t step(const uint32_t *tab, uint32_t crc, unsigned char b)
{
    return (crc >> 8) ^ tab[(crc & 0xFF) ^ b];
}

void cry_crc32_update(struct cry_crc32_ctx *ctx,
                      const unsigned char *buf, size_t size)
{
    const unsigned char *end = buf + size;

    for (; buf != end; buf++)
        ctx->crc = step(ctx->tab, ctx->crc, *buf);
}
'''), ('src/crc/crc32.c', '''        ctx->crc = (ctx->crc & 0x000000ff) << 24 |
                   (ctx->crc & 0x0000ff00) << 8 |
                   (ctx->crc & 0x00ff0000) >> 8 |
                   (ctx->crc & 0xff000000) >> 24;''', '''        ctx->crc = (ctx->crc << 24) | (ctx->crc >> 24) |
                   ((ctx->crc << 8) & 0x00ff0000) |
                   ((ctx->crc >> 8) & 0x0000ff00);''')], G)
refac('lfsr-func', '*', [('src/prng/prng_lfsr113.c', 'fn:cry_prng_lfsr113_rand', r'''
static uint32_t next(void)
{
    uint32_t r;

    RAND_GET(r);
    return r;
}

int cry_prng_lfsr113_rand(unsigned char *buf, size_t siz)
{
    size_t n = 0;
    uint32_t r = 0;

    if (!init)
        cry_prng_lfsr113_init(NULL, 0);

    while (n < siz) {
        if (n % 4 == 0)
            r = next();
        buf[n++] = (unsigned char)(r >> 24);
        r <<= 8;
    }
    return 0;
}
'''), ('src/prng/prng_lfsr113.c', 'fn:cry_prng_lfsr113_init', r'''
static void fix(uint32_t *v, uint32_t min)
{
    if (*v < min)
        *v = DEFAULT_SEED;
}

int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
{
    unsigned char raw[sizeof(z)] = { 0 };
    size_t i, k = 0;

    for (i = 0; i < seed_siz; i++) {
        raw[k++] ^= seed[i];
        if (k == sizeof(raw))
            k = 0;
    }
    memcpy(z, raw, sizeof(z));
    fix(&z[0], 2);
    fix(&z[1], 8);
    fix(&z[2], 16);
    fix(&z[3], 128);
    init = 1;
    return 0;
}
''')], G)
refac('prng-restructure', '*', [('src/prng/prng_aes.c', 'fn:cry_prng_aes_rand', r'''
static void gen_block(unsigned char *out)
{
    cry_aes_encrypt(&prng_ctx.aes, out, prng_ctx.ctr, BLOCK_SIZ);
    CTR_INC(prng_ctx.ctr);
}

int cry_prng_aes_rand(unsigned char *buf, size_t siz)
{
    if (!init)
        cry_prng_aes_init(NULL, 0);

    while (siz > 0) {
        if (prng_ctx.ix != 0) {
            *buf++ = prng_ctx.lo[prng_ctx.ix];
            prng_ctx.ix = (prng_ctx.ix + 1) % BLOCK_SIZ;
            siz--;
        } else if (siz < BLOCK_SIZ) {
            gen_block(prng_ctx.lo);
            memcpy(buf, prng_ctx.lo, siz);
            prng_ctx.ix = siz;
            siz = 0;
        } else {
            gen_block(buf);
            buf += BLOCK_SIZ;
            siz -= BLOCK_SIZ;
        }
    }
    return 0;
}
''')], G)
refac('base64-index', '*', [('src/crypt/base64.c', 'fn:cry_base64_encode', r'''
size_t cry_base64_encode(char *out, const char *in, size_t len)
{
    const unsigned char *p = (const unsigned char *)in;
    size_t o = 0, k;
    unsigned long v;

    for (; len > 0; len -= k, p += k) {
        k = (len < 3) ? len : 3;
        v = (unsigned long)p[0] << 16;
        if (k > 1)
            v |= (unsigned long)p[1] << 8;
        if (k > 2)
            v |= p[2];
        out[o++] = base64[(v >> 18) & 0x3F];
        out[o++] = base64[(v >> 12) & 0x3F];
        out[o++] = (k > 1) ? base64[(v >> 6) & 0x3F] : '=';
        out[o++] = (k > 2) ? base64[v & 0x3F] : '=';
    }
    return o;
}
''')], G)
refac('memxor-for', '*', [('src/crypt/memxor.c', 'fn:cry_memxor', r'''
void cry_memxor(unsigned char *dst, const unsigned char *src,
                size_t size)
{
    size_t i;

    if (dst > src) {
        for (i = size; i > 0; i--)
            dst[i - 1] ^= src[i - 1];
    } else {
        for (i = 0; i < size; i++)
            dst[i] = dst[i] ^ src[i];
    }
}
''')], G)
refac('wrap-index', '*', [('src/utils/aes_wrap.c', '''    for (i = 0; i <= 5; i++) {
        r = out + 8;
        for (j = 1; j <= blks; j++) {
            memcpy(b, a, 8);
            memcpy(b + 8, r, 8);
            cry_aes_encrypt(&aes, b, b, 16);
            memcpy(a, b, 8);
            step_xor(a, blks * i + j);
            memcpy(r, b + 8, 8);
            r += 8;
        }
    }''', '''    j = 0;
    for (i = 1; i <= 6 * blks; i++) {
        r = out + 8 * (j + 1);
        memcpy(b + 8, r, 8);
        memcpy(b, a, 8);
        cry_aes_encrypt(&aes, b, b, 16);
        memcpy(r, b + 8, 8);
        memcpy(a, b, 8);
        step_xor(a, i);
        if (++j == blks)
            j = 0;
    }''')], G)
refac('hill-loops', '*', [('src/crypt/hill.c', 'fn:mtx_vec_mul', r'''
static void mtx_vec_mul(unsigned char *r, const unsigned char *m,
                        const unsigned char *v, size_t n)
{
    size_t i, j;
    unsigned char acc;

    for (i = 0; i < n; i++, m += n) {
        acc = 0;
        for (j = 0; j < n; j++)
            acc = (unsigned char)(acc + m[j] * v[j]);
        r[i] = acc;
    }
}
'''), ('src/crypt/affine.c', 'fn:cry_affine_encrypt', r'''
void cry_affine_encrypt(struct cry_affine_ctx *ctx, unsigned char *out,
                        const unsigned char *in, size_t len)
{
    size_t i;

    for (i = 0; i < len; i++) {
        const size_t k = i % ctx->keylen;

        out[i] = (unsigned char)(ctx->keyb[k] + ctx->keya[k] * in[i]);
    }
}
''')], G)
