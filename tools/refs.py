"""Textbook definitions of the ciphers and digests, as C for the value numbering analysis (poly.py): written from the
standards, bit by bit or byte by byte, without any of the library's tables or macros."""
import tables, symm

def arr(ty, name, v): return 'static const %s %s[%d] = {%s};\n' % (ty, name, len(v), ','.join(str(x) + ('ull' if '64' in ty else 'u') for x in v))

def consts():
    D = tables.DES; a, b = tables.des_s(); pr = symm.primes(400)[:80]
    t = arr('u8', 'r_sbox', tables.aes_sbox())
    for k in ('ip', 'fp', 'e', 'pc1', 'pc2', 'p'): t += arr('u8', 'r_' + k, D[k])
    t += 'static const u8 r_s[8][64] = {%s};\n' % ','.join('{%s}' % ','.join(map(str, s)) for s in b)      # rows of sixteen
    t += arr('u8', 'r_b64', tables.B64)
    t += arr('uint32_t', 'r_t', tables.md5_t()) + arr('uint32_t', 'r_k1', tables.SHA1_K)
    t += arr('uint32_t', 'r_k2', [symm.frac_root(p, 3, 32) for p in pr[:64]]) + arr('uint64_t', 'r_k5', [symm.frac_root(p, 3, 64) for p in pr[:80]])
    t += arr('uint32_t', 'r_h2', symm.hash_iv('sha256')) + arr('uint64_t', 'r_h5', symm.hash_iv('sha512')) + arr('uint64_t', 'r_h3', symm.hash_iv('sha384'))
    return t

TEXT = r'''
/* ---- AES (FIPS 197) ---- */
static u8 r_x(u8 a) { return (u8)((a << 1) ^ ((a >> 7) * 0x1b)); }
static void r_aes(u8 *out, const u8 *in, const u8 *key, Z kl)
{
    u8 w[240], s[16], t[16], r = 1, x[4]; Z nk = kl / 4, nr = nk + 6, i, j, c;
    memcpy(w, key, kl);
    for (i = nk; i < 4 * (nr + 1); i++) {
        memcpy(x, w + 4 * (i - 1), 4);
        if (i % nk == 0) { u8 a = x[0]; x[0] = r_sbox[x[1]] ^ r; x[1] = r_sbox[x[2]]; x[2] = r_sbox[x[3]]; x[3] = r_sbox[a]; r = r_x(r); }
        else if (nk > 6 && i % nk == 4) for (j = 0; j < 4; j++) x[j] = r_sbox[x[j]];
        for (j = 0; j < 4; j++) w[4 * i + j] = w[4 * (i - nk) + j] ^ x[j];
    }
    for (i = 0; i < 16; i++) s[i] = in[i] ^ w[i];
    for (j = 1; j <= nr; j++) {
        for (i = 0; i < 16; i++) t[i] = r_sbox[s[(i + 4 * (i % 4)) % 16]];
        if (j < nr) for (c = 0; c < 16; c += 4) for (i = 0; i < 4; i++)
            s[c + i] = r_x(t[c + i]) ^ r_x(t[c + (i + 1) % 4]) ^ t[c + (i + 1) % 4] ^ t[c + (i + 2) % 4] ^ t[c + (i + 3) % 4];
        else memcpy(s, t, 16);
        for (i = 0; i < 16; i++) s[i] ^= w[16 * j + i];
    }
    memcpy(out, s, 16);
}
/* ---- DES (FIPS 46-3): one bit per byte ---- */
static void r_perm(u8 *o, const u8 *i, const u8 *t, Z n) { Z k; for (k = 0; k < n; k++) o[k] = i[t[k] - 1]; }
static void r_des(u8 *out, const u8 *in, const u8 *key, int dec)
{
    u8 kb[64], b[64], cd[56], ks[16][48], lr[64], e[48], f[32], g[32], c; Z i, j, k, n;
    for (i = 0; i < 64; i++) { kb[i] = (key[i / 8] >> (7 - i % 8)) & 1; b[i] = (in[i / 8] >> (7 - i % 8)) & 1; }
    r_perm(cd, kb, r_pc1, 56);
    for (i = 0; i < 16; i++) {
        n = i == 0 || i == 1 || i == 8 || i == 15 ? 1 : 2;
        for (k = 0; k < n; k++) {
            c = cd[0]; for (j = 0; j < 27; j++) cd[j] = cd[j + 1]; cd[27] = c;
            c = cd[28]; for (j = 28; j < 55; j++) cd[j] = cd[j + 1]; cd[55] = c;
        }
        r_perm(ks[i], cd, r_pc2, 48);
    }
    r_perm(lr, b, r_ip, 64);
    for (i = 0; i < 16; i++) {
        r_perm(e, lr + 32, r_e, 48);
        for (j = 0; j < 48; j++) e[j] ^= ks[dec ? 15 - i : i][j];
        for (j = 0; j < 8; j++) {
            const u8 *x = e + 6 * j; u8 y = r_s[j][32 * x[0] + 16 * x[5] + 8 * x[1] + 4 * x[2] + 2 * x[3] + x[4]];
            for (k = 0; k < 4; k++) f[4 * j + k] = (y >> (3 - k)) & 1;
        }
        r_perm(g, f, r_p, 32);
        for (j = 0; j < 32; j++) { c = lr[j] ^ g[j]; lr[j] = lr[32 + j]; lr[32 + j] = c; }
    }
    for (j = 0; j < 32; j++) { c = lr[j]; lr[j] = lr[32 + j]; lr[32 + j] = c; }
    r_perm(b, lr, r_fp, 64);
    for (i = 0; i < 8; i++) { out[i] = 0; for (j = 0; j < 8; j++) out[i] |= (u8)(b[8 * i + j] << (7 - j)); }
}
static void r_tdes(u8 *o, const u8 *i, const u8 *k, Z kl, int dec)
{
    u8 a[8], b[8];
    if (kl < 24) { r_des(o, i, k, dec); return; }
    if (!dec) { r_des(a, i, k, 0); r_des(b, a, k + 8, 1); r_des(o, b, k + 16, 0); }
    else { r_des(a, i, k + 16, 1); r_des(b, a, k + 8, 0); r_des(o, b, k, 1); }
}
/* ---- ARC4 ---- */
static void r_arc4(u8 *S, u8 *x, u8 *y, u8 *o, const u8 *in, Z n)
{
    Z k; u8 a, b;
    for (k = 0; k < n; k++) { *x = *x + 1; a = S[*x]; *y = *y + a; b = S[*y]; S[*x] = b; S[*y] = a; o[k] = in[k] ^ S[(u8)(a + b)]; }
}
/* ---- MD5 (RFC 1321) ---- */
static uint32_t r_rl(uint32_t x, unsigned n) { return n ? (x << n) | (x >> (32 - n)) : x; }
static uint32_t r_rr(uint32_t x, unsigned n) { return r_rl(x, 32 - n); }
static uint64_t r_rr6(uint64_t x, unsigned n) { return (x >> n) | (x << (64 - n)); }
static void r_md5b(uint32_t *h, const u8 *m)
{
    static const u8 sh[16] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21};
    uint32_t x[16], a = h[0], b = h[1], c = h[2], d = h[3], f; unsigned i, g;
    for (i = 0; i < 16; i++) x[i] = m[4 * i] | (uint32_t)m[4 * i + 1] << 8 | (uint32_t)m[4 * i + 2] << 16 | (uint32_t)m[4 * i + 3] << 24;
    for (i = 0; i < 64; i++) {
        switch (i / 16) {
        case 0: f = (b & c) | (~b & d); g = i; break;
        case 1: f = (b & d) | (c & ~d); g = (5 * i + 1) % 16; break;
        case 2: f = b ^ c ^ d; g = (3 * i + 5) % 16; break;
        default: f = c ^ (b | ~d); g = (7 * i) % 16;
        }
        f = a + f + x[g] + r_t[i];
        a = d; d = c; c = b; b = b + r_rl(f, sh[4 * (i / 16) + i % 4]);
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
/* ---- SHA (FIPS 180-4) ---- */
static uint32_t r_be(const u8 *p) { return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3]; }
static void r_sha1b(uint32_t *h, const u8 *m)
{
    uint32_t w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f, t; unsigned i;
    for (i = 0; i < 16; i++) w[i] = r_be(m + 4 * i);
    for (; i < 80; i++) w[i] = r_rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    for (i = 0; i < 80; i++) {
        f = i < 20 ? (b & c) ^ (~b & d) : i < 40 ? b ^ c ^ d : i < 60 ? (b & c) ^ (b & d) ^ (c & d) : b ^ c ^ d;
        t = r_rl(a, 5) + f + e + r_k1[i / 20] + w[i];
        e = d; d = c; c = r_rl(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
static void r_sha2b(uint32_t *h, const u8 *m)
{
    uint32_t w[64], v[8], t1, t2; unsigned i;
    for (i = 0; i < 16; i++) w[i] = r_be(m + 4 * i);
    for (; i < 64; i++) w[i] = (r_rr(w[i - 2], 17) ^ r_rr(w[i - 2], 19) ^ w[i - 2] >> 10) + w[i - 7] + (r_rr(w[i - 15], 7) ^ r_rr(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 16];
    for (i = 0; i < 8; i++) v[i] = h[i];
    for (i = 0; i < 64; i++) {
        t1 = v[7] + (r_rr(v[4], 6) ^ r_rr(v[4], 11) ^ r_rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + r_k2[i] + w[i];
        t2 = (r_rr(v[0], 2) ^ r_rr(v[0], 13) ^ r_rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (i = 0; i < 8; i++) h[i] += v[i];
}
static void r_sha5b(uint64_t *h, const u8 *m)
{
    uint64_t w[80], v[8], t1, t2; unsigned i;
    for (i = 0; i < 16; i++) w[i] = (uint64_t)r_be(m + 8 * i) << 32 | r_be(m + 8 * i + 4);
    for (; i < 80; i++) w[i] = (r_rr6(w[i - 2], 19) ^ r_rr6(w[i - 2], 61) ^ w[i - 2] >> 6) + w[i - 7] + (r_rr6(w[i - 15], 1) ^ r_rr6(w[i - 15], 8) ^ w[i - 15] >> 7) + w[i - 16];
    for (i = 0; i < 8; i++) v[i] = h[i];
    for (i = 0; i < 80; i++) {
        t1 = v[7] + (r_rr6(v[4], 14) ^ r_rr6(v[4], 18) ^ r_rr6(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + r_k5[i] + w[i];
        t2 = (r_rr6(v[0], 28) ^ r_rr6(v[0], 34) ^ r_rr6(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (i = 0; i < 8; i++) h[i] += v[i];
}
/* alg: 0 md5 1 sha1 2 sha256 3 sha384 4 sha512 */
static void r_hash(Z alg, u8 *out, const u8 *in, Z n)
{
    Z B = alg < 3 ? 64 : 128, L = alg < 3 ? 8 : 16, T = (n + 1 + L + B - 1) / B * B, i, j; u8 *m = calloc(T, 1);
    uint32_t h[8]; uint64_t g[8];
    memcpy(m, in, n); m[n] = 0x80;
    for (i = 0; i < 8; i++) { if (alg == 0) m[T - 8 + i] = (8 * n) >> (8 * i); else m[T - 1 - i] = (8 * n) >> (8 * i); }
    if (alg == 0 || alg == 1) { h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476; h[4] = 0xc3d2e1f0; }
    else for (i = 0; i < 8; i++) { h[i] = r_h2[i]; g[i] = alg == 3 ? r_h3[i] : r_h5[i]; }
    for (i = 0; i < T; i += B) { if (alg == 0) r_md5b(h, m + i); else if (alg == 1) r_sha1b(h, m + i); else if (alg == 2) r_sha2b(h, m + i); else r_sha5b(g, m + i); }
    L = alg == 0 ? 16 : alg == 1 ? 20 : alg == 2 ? 32 : alg == 3 ? 48 : 64;
    for (i = 0; i < L; i++) out[i] = alg == 0 ? h[i / 4] >> (8 * (i % 4)) : alg < 3 ? h[i / 4] >> (24 - 8 * (i % 4)) : g[i / 8] >> (56 - 8 * (i % 8));
    free(m);
}
/* ---- GHASH and GCM (SP 800-38D) ---- */
static void r_gmul(u8 *x, const u8 *y)
{
    u8 v[128], z[128], c; Z i, j;
    for (i = 0; i < 128; i++) { v[i] = (x[i / 8] >> (7 - i % 8)) & 1; z[i] = 0; }
    for (i = 0; i < 128; i++) {
        u8 b = (y[i / 8] >> (7 - i % 8)) & 1;
        for (j = 0; j < 128; j++) z[j] ^= v[j] & b;
        c = v[127]; for (j = 127; j > 0; j--) v[j] = v[j - 1];
        v[0] = c; v[1] ^= c; v[2] ^= c; v[7] ^= c;
    }
    for (i = 0; i < 16; i++) { x[i] = 0; for (j = 0; j < 8; j++) x[i] |= (u8)(z[8 * i + j] << (7 - j)); }
}
static void r_ghash(u8 *y, const u8 *h, const u8 *d, Z n) { Z i; for (i = 0; i < n; i++) { y[i % 16] ^= d[i]; if (i % 16 == 15 || i + 1 == n) r_gmul(y, h); } }
static void r_len(u8 *b, Z a, Z c) { Z i; for (i = 0; i < 8; i++) { b[i] = (8 * (uint64_t)a) >> (56 - 8 * i); b[8 + i] = (8 * (uint64_t)c) >> (56 - 8 * i); } }
static void r_gcm(const u8 *key, const u8 *iv, Z il, const u8 *ad, Z al, const u8 *in, Z n, u8 *out, u8 *tag, int dec)
{
    char e[8]; u8 h[16] = {0}, j0[16] = {0}, c[16], k[16], y[16] = {0}, b[16]; Z i, j;
    v_key(e, key, 16); v_enc(e, h, h, 16);
    if (il == 12) { memcpy(j0, iv, 12); j0[15] = 1; } else { r_ghash(j0, h, iv, il); r_len(b, 0, il); r_ghash(j0, h, b, 16); }
    memcpy(c, j0, 16);
    for (i = 0; i < n; i += 16) {
        for (j = 15; j >= 12; j--) if (++c[j]) break;
        v_enc(e, k, c, 16);
        for (j = i; j < n && j < i + 16; j++) out[j] = in[j] ^ k[j - i];
    }
    r_ghash(y, h, ad, al); r_ghash(y, h, dec ? in : out, n); r_len(b, al, n); r_ghash(y, h, b, 16);
    v_enc(e, k, j0, 16); for (i = 0; i < 16; i++) tag[i] = y[i] ^ k[i];
}
void h_gcmr(Z dec, Z il, Z a1, Z a2, Z n1, Z n2, Z inplace, Z reuse)
{
    cry_gcm_ctx c; char cc[8]; Z n = n1 + n2, al = a1 + a2; u8 *key = marked(16, "key"), *iv = marked(il, "iv"), *ad = marked(al, "aad"), *in = marked(n, "in"), *t = malloc(n), *ref = malloc(n + 16), *out = inplace ? in : outbuf(n), *res = malloc(n + 16);
    memcpy(t, in, n);
    r_gcm(key, iv, il, ad, al, t, n, ref, ref + n, dec);
    cry_gcm_init(&c, cc, &E); cry_gcm_key_set(&c, key, 16);
    if (reuse) { u8 b[32], g[16]; memset(b, 3, 32); cry_gcm_iv_set(&c, b, 12); cry_gcm_update(&c, b, 5); cry_gcm_encrypt(&c, b, b, 20); if (reuse == 2) cry_gcm_digest(&c, g, 16); }
    cry_gcm_iv_set(&c, iv, il);
    if (a1) cry_gcm_update(&c, ad, a1); if (a2) cry_gcm_update(&c, ad + a1, a2);
    if (dec) { cry_gcm_decrypt(&c, out, in, n1); if (n2) cry_gcm_decrypt(&c, out + n1, in + n1, n2); }
    else { cry_gcm_encrypt(&c, out, in, n1); if (n2) cry_gcm_encrypt(&c, out + n1, in + n1, n2); }
    memcpy(res, out, n); cry_gcm_digest(&c, res + n, 16);
    v_dump(res, n + 16, "out"); v_dump(ref, n + 16, "ref");
}
/* ---- base64 (RFC 4648) ---- */
void h_b64(Z n, Z back)
{
    char *in = (char *)marked(n, "in"), *t = malloc((n + 2) / 3 * 4), *ref = malloc(n + 8); Z i, j, l = cry_base64_encode(t, in, n);
    if (back) {
        Z m; char *o = malloc(n); m = cry_base64_decode(o, t, (n + 2) / 3 * 4); v_same(m, n); v_dump(o, n, "out"); v_dump(in, n, "ref"); return;
    }
    v_same(l, (n + 2) / 3 * 4);
    for (i = j = 0; i < n; i += 3) {
        uint32_t v = (uint32_t)(u8)in[i] << 16 | (i + 1 < n ? (uint32_t)(u8)in[i + 1] << 8 : 0) | (i + 2 < n ? (u8)in[i + 2] : 0);
        ref[j++] = r_b64[v >> 18]; ref[j++] = r_b64[(v >> 12) & 63]; ref[j++] = i + 1 < n ? r_b64[(v >> 6) & 63] : '='; ref[j++] = i + 2 < n ? r_b64[v & 63] : '=';
        if (j > n) { v_dump(t + j - 4, 4, "out"); v_dump(ref + j - 4, 4, "ref"); }
    }
}
/* ---- classic ciphers ---- */
void h_affx(Z a0, Z kl, Z n, Z what, Z inplace)
{
    cry_affine_ctx c; u8 ka[16], *kb = marked(kl, "keyb"), *in = marked(n, "in"), *o = inplace ? in : outbuf(n), *ref = malloc(n), *t = malloc(n); Z i;
    for (i = 0; i < kl; i++) ka[i] = a0 + 2 * i;
    memcpy(t, in, n); memset(&c, 0x55, sizeof(c)); v_same(cry_affine_init(&c, ka, kb, kl), 0);
    cry_affine_encrypt(&c, o, in, n);
    if (what) { cry_affine_decrypt(&c, o, o, n); memcpy(ref, t, n); }
    else for (i = 0; i < n; i++) ref[i] = t[i] * ka[i % kl] + kb[i % kl];
    v_dump(o, n, "out"); v_dump(ref, n, "ref");
}
void h_hillx(Z d, Z seed, Z blocks, Z what, Z given)
{
    cry_hill_ctx c, c2; u8 k[64], ik[64]; Z i, j, b, n = d * blocks, odd; u8 *in = marked(n, "in"), *o = outbuf(n), *ref = malloc(n), *p = malloc(n);
    /* an invertible matrix: product of triangular ones with odd diagonals */
    for (i = 0; i < d; i++) for (j = 0; j < d; j++) {
        u8 s = 0; for (b = 0; b <= (i < j ? i : j); b++) { u8 lo = b == i ? 1 : (u8)(seed * 7 + 13 * i + 5 * b + 1), up = b == j ? (u8)(2 * (seed + 3 * j) + 1) : (u8)(seed * 11 + 17 * j + 3 * b); s += lo * up; }
        k[i * d + j] = s;
    }
    memset(&c, 0x55, sizeof(c));
    v_same(cry_hill_init(&c, k, NULL, d * d), 0);
    cry_hill_encrypt(&c, o, in, n);
    if (what) { cry_hill_decrypt(&c, p, o, n); v_dump(p, n, "out"); v_dump(in, n, "ref"); return; }
    for (b = 0; b < n; b += d) for (i = 0; i < d; i++) { ref[b + i] = 0; for (j = 0; j < d; j++) ref[b + i] += k[i * d + j] * in[b + j]; }
    v_dump(o, n, "out"); v_dump(ref, n, "ref");
}
/* ---- modes: decryption gives back the data (the block cipher and its inverse are uninterpreted) ---- */
static Z r_run(int mode, int dec, void *c, u8 *o, const u8 *i, Z n, Z n1) { mode_run(mode, dec, c, o, i, n1); if (n > n1) mode_run(mode, dec, c, o + n1, i + n1, n - n1); return 0; }
void h_modert(Z mode, Z blk, Z n, Z n1, Z m1, Z inplace, Z two)
{
    union { cry_cbc_ctx a; cry_cfb_ctx b; cry_ctr_ctx c; } c, d, *q = two ? &d : &c;
    char cc[8], cd[8]; u8 *key = marked(16, "key"), *iv = marked(blk, "iv"), *in = marked(n, "in"), *t = malloc(n), *o = inplace ? in : outbuf(n), *p = inplace ? o : outbuf(n);
    memcpy(t, in, n);
    mode_init(mode, &c, cc, &E, key, 16); mode_iv(mode, &c, iv, blk); r_run(mode, 0, &c, o, in, n, n1);
    if (two) mode_init(mode, &d, cd, &E, key, 16);
    mode_iv(mode, q, iv, blk); r_run(mode, 1, q, p, o, n, m1);
    v_dump(p, n, "out"); v_dump(t, n, "ref");
}
void h_gcmrt(Z il, Z al, Z n, Z n1, Z m1, Z inplace)
{
    cry_gcm_ctx c; char cc[8]; u8 *key = marked(16, "key"), *iv = marked(il, "iv"), *ad = marked(al, "aad"), *in = marked(n, "in"), *t = malloc(n + 16), *o = inplace ? in : outbuf(n), *p = inplace ? o : outbuf(n), *r = malloc(n + 16);
    memcpy(t, in, n);
    cry_gcm_init(&c, cc, &E); cry_gcm_key_set(&c, key, 16);
    cry_gcm_iv_set(&c, iv, il); cry_gcm_update(&c, ad, al); cry_gcm_encrypt(&c, o, in, n1); if (n > n1) cry_gcm_encrypt(&c, o + n1, in + n1, n - n1); cry_gcm_digest(&c, t + n, 16);
    cry_gcm_iv_set(&c, iv, il); cry_gcm_update(&c, ad, al); cry_gcm_decrypt(&c, p, o, m1); if (n > m1) cry_gcm_decrypt(&c, p + m1, o + m1, n - m1); memcpy(r, p, n); cry_gcm_digest(&c, r + n, 16);
    v_dump(r, n + 16, "out"); v_dump(t, n + 16, "ref");
}
void h_wraprt(Z kl, Z n)
{
    u8 *key = marked(kl, "key"), *in = marked(n, "in"), *o = malloc(n + 8), *p = malloc(n);
    v_same(cry_aes_wrap(o, in, n, key, kl), 0); v_same(cry_aes_unwrap(p, o, n, key, kl), 0); v_dump(p, n, "out"); v_dump(in, n, "ref");
}
/* ---- whole against split ---- */
void h_trivs(Z n, Z n1, Z n2)
{
    cry_trivium_ctx c; u8 *key = marked(10, "key"), *iv = marked(10, "iv"), *in = marked(n, "in"), *o = outbuf(n), *p = outbuf(n);
    cry_trivium_init(&c); cry_trivium_key_set(&c, key, 10); cry_trivium_iv_set(&c, iv, 10); cry_trivium_crypt(&c, o, in, n);
    cry_trivium_iv_set(&c, iv, 10); cry_trivium_crypt(&c, p, in, n1); cry_trivium_crypt(&c, p + n1, in + n1, n2 - n1); cry_trivium_crypt(&c, p + n2, in + n2, n - n2);
    v_dump(p, n, "out"); v_dump(o, n, "ref");
}
#ifndef V_NOFIELDS
void h_arc4s(Z n, Z n1, Z n2, Z x0)
{
    cry_arc4_ctx c, d; u8 *s = marked(256, "state"), *y = marked(1, "y"), *in = marked(n, "in"), *o = outbuf(n), *p = outbuf(n);
    cry_arc4_init(&c); memcpy(c.s, s, 256); c.x = x0; c.y = *y; d = c;
    cry_arc4_crypt(&c, o, in, n);
    cry_arc4_crypt(&d, p, in, n1); cry_arc4_crypt(&d, p + n1, in + n1, n2 - n1); cry_arc4_crypt(&d, p + n2, in + n2, n - n2);
    v_dump(p, n, "out"); v_dump(o, n, "ref");
}
void h_arc4rt(Z n, Z m1, Z x0)
{
    cry_arc4_ctx c, d; u8 *s = marked(256, "state"), *y = marked(1, "y"), *in = marked(n, "in"), *o = outbuf(n), *p = outbuf(n);
    cry_arc4_init(&c); memcpy(c.s, s, 256); c.x = x0; c.y = *y; d = c;
    cry_arc4_encrypt(&c, o, in, n); cry_arc4_decrypt(&d, p, o, m1); cry_arc4_decrypt(&d, p + m1, o + m1, n - m1);
    v_dump(p, n, "out"); v_dump(in, n, "ref");
}
#endif
void h_modes(Z mode, Z dec, Z blk, Z n, Z n1, Z n2)
{
    union { cry_cbc_ctx a; cry_cfb_ctx b; cry_ctr_ctx c; } c; char cc[8]; u8 *key = marked(16, "key"), *iv = marked(blk, "iv"), *in = marked(n, "in"), *o = outbuf(n), *p = outbuf(n);
    mode_init(mode, &c, cc, &E, key, 16); mode_iv(mode, &c, iv, blk); mode_run(mode, dec, &c, o, in, n);
    mode_iv(mode, &c, iv, blk); mode_run(mode, dec, &c, p, in, n1); if (n2 > n1) mode_run(mode, dec, &c, p + n1, in + n1, n2 - n1); mode_run(mode, dec, &c, p + n2, in + n2, n - n2);
    v_dump(p, n, "out"); v_dump(o, n, "ref");
}
static void r_hrun(Z alg, u8 *o, const u8 *in, Z n, Z n1, Z n2)
{
    switch (alg) {
    case 0: { cry_md5_ctx c; cry_md5_init(&c); cry_md5_update(&c, in, n1); cry_md5_update(&c, in + n1, n2 - n1); cry_md5_update(&c, in + n2, n - n2); cry_md5_digest(&c, o); break; }
    case 1: { cry_sha1_ctx c; cry_sha1_init(&c); cry_sha1_update(&c, in, n1); cry_sha1_update(&c, in + n1, n2 - n1); cry_sha1_update(&c, in + n2, n - n2); cry_sha1_digest(&c, o); break; }
    case 2: { cry_sha256_ctx c; cry_sha256_init(&c); cry_sha256_update(&c, in, n1); cry_sha256_update(&c, in + n1, n2 - n1); cry_sha256_update(&c, in + n2, n - n2); cry_sha256_digest(&c, o); break; }
    default: { cry_sha512_ctx c; cry_sha512_init(&c, alg == 3); cry_sha512_update(&c, in, n1); cry_sha512_update(&c, in + n1, n2 - n1); cry_sha512_update(&c, in + n2, n - n2); cry_sha512_digest(&c, o); break; } }
}
void h_hashs(Z alg, Z n, Z n1, Z n2, Z oneshot)
{
    u8 *in = marked(n, "in"), *o = outbuf(64), *p = outbuf(64); Z L = alg == 0 ? 16 : alg == 1 ? 20 : alg == 2 ? 32 : alg == 3 ? 48 : 64;
    r_hrun(alg, p, in, n, n1, n2);
    if (!oneshot) r_hrun(alg, o, in, n, n, n);
    else switch (alg) { case 0: cry_md5(o, in, n); break; case 1: cry_sha1(o, in, n); break; case 2: cry_sha256(o, in, n); break; case 3: cry_sha384(o, in, n); break; default: cry_sha512(o, in, n); }
    v_dump(p, L, "out"); v_dump(o, L, "ref");
}
static void r_mac(Z hmac, u8 *o, const u8 *key, const u8 *in, Z n, Z n1, Z n2)
{
    char cc[8];
    if (hmac) { cry_hmac_ctx c; cry_hmac_init(&c, cc, &H, 20, key, 16); cry_hmac_update(&c, in, n1); cry_hmac_update(&c, in + n1, n2 - n1); cry_hmac_update(&c, in + n2, n - n2); cry_hmac_digest(&c, o); }
    else { cry_cmac_ctx c; cry_cmac_init(&c, cc, &E, key, 16); cry_cmac_update(&c, in, n1); cry_cmac_update(&c, in + n1, n2 - n1); cry_cmac_update(&c, in + n2, n - n2); cry_cmac_digest(&c, o); }
}
void h_macs(Z hmac, Z n, Z n1, Z n2)
{
    u8 *key = marked(16, "key"), *in = marked(n, "in"), *o = outbuf(20), *p = outbuf(20);
    r_mac(hmac, p, key, in, n, n1, n2); r_mac(hmac, o, key, in, n, n, n);
    v_dump(p, hmac ? 20 : 16, "out"); v_dump(o, hmac ? 20 : 16, "ref");
}
static void r_gcms(u8 *o, u8 *tag, const u8 *key, const u8 *iv, const u8 *ad, Z al, Z a1, const u8 *in, Z n, Z n1, int dec)
{
    cry_gcm_ctx c; char cc[8]; cry_gcm_init(&c, cc, &E); cry_gcm_key_set(&c, key, 16); cry_gcm_iv_set(&c, iv, 12);
    cry_gcm_update(&c, ad, a1); if (al > a1) cry_gcm_update(&c, ad + a1, al - a1);
    if (dec) { cry_gcm_decrypt(&c, o, in, n1); if (n > n1) cry_gcm_decrypt(&c, o + n1, in + n1, n - n1); }
    else { cry_gcm_encrypt(&c, o, in, n1); if (n > n1) cry_gcm_encrypt(&c, o + n1, in + n1, n - n1); }
    cry_gcm_digest(&c, tag, 16);
}
void h_gcms(Z al, Z a1, Z n, Z n1, Z dec)
{
    u8 *key = marked(16, "key"), *iv = marked(12, "iv"), *ad = marked(al, "aad"), *in = marked(n, "in"), *o = malloc(n + 16), *p = malloc(n + 16);
    r_gcms(o, o + n, key, iv, ad, al, al, in, n, n, dec); r_gcms(p, p + n, key, iv, ad, al, a1, in, n, n1, dec);
    v_dump(p, n + 16, "out"); v_dump(o, n + 16, "ref");
}
void h_crcs(Z w, Z fl, Z n, Z n1, Z n2)
{
    uint16_t *t16 = malloc(512); uint32_t *t32 = malloc(1024); Z i, j; uint32_t r; u8 *in = marked(n, "in"), *o = outbuf(4), *p = outbuf(4);
    for (i = 0; i < 256; i++) { for (r = i, j = 0; j < 8; j++) r = (r & 1) ? (r >> 1) ^ (w == 16 ? 0x8408 : 0xedb88320) : r >> 1; t16[i] = r; t32[i] = r; }
    if (w == 16) {
        cry_crc16_ctx x; uint16_t s; v_mark(&s, 2, "start"); cry_crc16_init(&x, s, t16, fl); cry_crc16_update(&x, in, n); cry_crc16_digest(&x, o);
        cry_crc16_init(&x, s, t16, fl); cry_crc16_update(&x, in, n1); cry_crc16_update(&x, in + n1, n2 - n1); cry_crc16_update(&x, in + n2, n - n2); cry_crc16_digest(&x, p);
    } else {
        cry_crc32_ctx x; uint32_t s; v_mark(&s, 4, "start"); cry_crc32_init(&x, s, t32, fl); cry_crc32_update(&x, in, n); cry_crc32_digest(&x, o);
        cry_crc32_init(&x, s, t32, fl); cry_crc32_update(&x, in, n1); cry_crc32_update(&x, in + n1, n2 - n1); cry_crc32_update(&x, in + n2, n - n2); cry_crc32_digest(&x, p);
    }
    v_dump(p, w / 8, "out"); v_dump(o, w / 8, "ref");
}
/* ---- scenarios ---- */
/* what: 0 encrypt, 1 decrypt, 2 decrypt(encrypt), 3 encrypt, decrypt, encrypt; n blocks */
void h_aesx(Z kl, Z what, Z n, Z inplace)
{
    cry_aes_ctx c; u8 *key = marked(kl, "key"), *in = marked(16 * n, "in"), *o = inplace ? in : outbuf(16 * n), *ref = outbuf(16 * n), *t; Z i;
    t = malloc(16 * n); memcpy(t, in, 16 * n);
    cry_aes_init(&c); cry_aes_key_set(&c, key, kl);
    if (what == 0) { cry_aes_encrypt(&c, o, in, 16 * n); for (i = 0; i < n; i++) r_aes(ref + 16 * i, t + 16 * i, key, kl); }
    if (what == 1) { u8 *x = malloc(16 * n); for (i = 0; i < n; i++) r_aes(x + 16 * i, t + 16 * i, key, kl); if (inplace) o = x; cry_aes_decrypt(&c, o, x, 16 * n); memcpy(ref, t, 16 * n); }
    if (what == 2) { cry_aes_encrypt(&c, o, in, 16 * n); cry_aes_decrypt(&c, o, o, 16 * n); memcpy(ref, t, 16 * n); }
    if (what == 3) { u8 x[16], y[16]; cry_aes_encrypt(&c, x, in, 16); cry_aes_decrypt(&c, y, x, 16); cry_aes_encrypt(&c, o, in, 16 * n); for (i = 0; i < n; i++) r_aes(ref + 16 * i, t + 16 * i, key, kl); }
    v_dump(o, 16 * n, "out"); v_dump(ref, 16 * n, "ref");
}
void h_desx(Z kl, Z what, Z n, Z inplace)
{
    cry_des_ctx c; u8 *key = marked(kl, "key"), *in = marked(8 * n, "in"), *o = inplace ? in : outbuf(8 * n), *ref = outbuf(8 * n), *t; Z i;
    t = malloc(8 * n); memcpy(t, in, 8 * n);
    cry_des_init(&c); cry_des_key_set(&c, key, kl);
    if (what == 0) { cry_des_encrypt(&c, o, in, 8 * n); for (i = 0; i < n; i++) r_tdes(ref + 8 * i, t + 8 * i, key, kl, 0); }
    if (what == 1) { cry_des_decrypt(&c, o, in, 8 * n); for (i = 0; i < n; i++) r_tdes(ref + 8 * i, t + 8 * i, key, kl, 1); }
    if (what == 2) { cry_des_encrypt(&c, o, in, 8 * n); cry_des_decrypt(&c, o, o, 8 * n); memcpy(ref, t, 8 * n); }
    if (what == 3) { cry_des_decrypt(&c, o, in, 8 * n); cry_des_encrypt(&c, o, o, 8 * n); memcpy(ref, t, 8 * n); }
    v_dump(o, 8 * n, "out"); v_dump(ref, 8 * n, "ref");
}
void h_trivx(Z kl, Z il, Z n1, Z n2, Z inplace, Z reuse)
{
    cry_trivium_ctx c; Z n = n1 + n2, w = (n + 3) / 4, i; u8 *key = marked(kl, "key"), *iv = marked(il, "iv"), *in = marked(n, "in"), *o = inplace ? in : outbuf(n), *z = malloc(4 * w), *t = malloc(n), *ref = malloc(n);
    memcpy(t, in, n);
    cry_trivium_init(&c); cry_trivium_key_set(&c, key, kl);
    if (reuse) { u8 b[9]; memset(b, 5, 9); cry_trivium_iv_set(&c, b, 9); cry_trivium_crypt(&c, b, b, 9); }
    cry_trivium_iv_set(&c, iv, il);
    cry_trivium_crypt(&c, o, in, n1); if (n2) cry_trivium_crypt(&c, o + n1, in + n1, n2);
    v_triv(z, w, key, kl, iv, il);
    for (i = 0; i < n; i++) ref[i] = t[i] ^ z[i];
    v_dump(o, n, "out"); v_dump(ref, n, "ref");
}
void h_hashx(Z alg, Z n, Z n1, Z oneshot)
{
    u8 *in = marked(n, "in"), *o = outbuf(64), *ref = outbuf(64); Z L = alg == 0 ? 16 : alg == 1 ? 20 : alg == 2 ? 32 : alg == 3 ? 48 : 64;
    if (oneshot) { switch (alg) { case 0: cry_md5(o, in, n); break; case 1: cry_sha1(o, in, n); break; case 2: cry_sha256(o, in, n); break; case 3: cry_sha384(o, in, n); break; default: cry_sha512(o, in, n); } }
    else switch (alg) {
    case 0: { cry_md5_ctx c; cry_md5_init(&c); cry_md5_update(&c, in, n1); cry_md5_update(&c, in + n1, n - n1); cry_md5_digest(&c, o); break; }
    case 1: { cry_sha1_ctx c; cry_sha1_init(&c); cry_sha1_update(&c, in, n1); cry_sha1_update(&c, in + n1, n - n1); cry_sha1_digest(&c, o); break; }
    case 2: { cry_sha256_ctx c; cry_sha256_init(&c); cry_sha256_update(&c, in, n1); cry_sha256_update(&c, in + n1, n - n1); cry_sha256_digest(&c, o); break; }
    default: { cry_sha512_ctx c; cry_sha512_init(&c, alg == 3); cry_sha512_update(&c, in, n1); cry_sha512_update(&c, in + n1, n - n1); cry_sha512_digest(&c, o); break; } }
    r_hash(alg, ref, in, n);
    v_dump(o, L, "out"); v_dump(ref, L, "ref");
}
#ifndef V_NOFIELDS
void h_arc4x(Z n1, Z n2, Z x0, Z inplace)
{
    cry_arc4_ctx c; Z n = n1 + n2; u8 *s = marked(256, "state"), *y = marked(1, "y"), x = x0, *in = marked(n, "in"), *o = inplace ? in : outbuf(n), *t = malloc(n), *ref = malloc(n);
    memcpy(t, in, n); cry_arc4_init(&c); memcpy(c.s, s, 256); c.x = x0; c.y = *y;
    cry_arc4_crypt(&c, o, in, n1); if (n2) cry_arc4_crypt(&c, o + n1, in + n1, n2);
    r_arc4(s, &x, y, ref, t, n);
    v_dump(o, n, "out"); v_dump(ref, n, "ref");
}
#endif
'''
def harness():
    H = symm.HARNESS; a = H.index('static void ivfill'); b = H.index('void h_mode(')
    return H[:a] + 'void v_same(Z, Z); void v_triv(u8 *, Z, const u8 *, Z, const u8 *, Z);\n' + H[a:b] + consts() + TEXT
