"""Scenarios of the symmetric part of the library for the dependence analysis (flow.py): a C harness that only says which
routine is called on which buffers, and what every run must produce, whatever the data.

In the wiring scenarios the primitive (block cipher, hash) is left uninterpreted: each call stands for a term made of the
key and the exact input bytes, so the order and number of calls an implementation makes does not matter, only what its
output finally is."""
import flow, build, time, affine
from flow import UNSET, D, m_, Limit, Fault

HARNESS = r'''
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <cry/aes.h>
#include <cry/des.h>
#include <cry/arc4.h>
#include <cry/trivium.h>
#include <cry/affine.h>
#include <cry/hill.h>
#include <cry/cbc.h>
#include <cry/cfb.h>
#include <cry/ctr.h>
#include <cry/gcm.h>
#include <cry/cmac.h>
#include <cry/hmac.h>
#include <cry/md5.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>
#include <cry/crc.h>
#include <cry/base64.h>
#include <cry/prng.h>
#include <cry/memxor.h>
#include <cry/utils.h>
typedef unsigned char u8; typedef size_t Z;
void v_mark(void *, Z, const char *); void v_dump(const void *, Z, const char *);
void v_marki(void *, Z, const char *, Z); void v_dumpi(const void *, Z, const char *, Z);
void v_key(void *, const u8 *, Z); void v_enc(void *, u8 *, const u8 *, Z); void v_dec(void *, u8 *, const u8 *, Z);
void v_hinit(void *); void v_hupd(void *, const u8 *, Z); void v_hdig(void *, u8 *);
void v_watch(void *, Z); void v_huge(void *, Z); void v_ret(long); void v_fill(void *, Z, Z);
static const cry_ciph_itf E = { NULL, NULL, v_key, v_enc, v_dec };
static const cry_ciph_itf AES = { (cry_ciph_init_f)cry_aes_init, (cry_ciph_clear_f)cry_aes_clear, (cry_ciph_key_set_f)cry_aes_key_set,
                                  (cry_ciph_encrypt_f)cry_aes_encrypt, (cry_ciph_decrypt_f)cry_aes_decrypt };
static const cry_hash_itf H = { v_hinit, NULL, v_hupd, v_hdig };
static const cry_hash_itf MD5 = { (cry_hash_init_f)cry_md5_init, (cry_hash_clear_f)cry_md5_clear, (cry_hash_update_f)cry_md5_update, (cry_hash_digest_f)cry_md5_digest };
static const cry_hash_itf SHA1 = { (cry_hash_init_f)cry_sha1_init, (cry_hash_clear_f)cry_sha1_clear, (cry_hash_update_f)cry_sha1_update, (cry_hash_digest_f)cry_sha1_digest };
static const cry_hash_itf SHA256 = { (cry_hash_init_f)cry_sha256_init, (cry_hash_clear_f)cry_sha256_clear, (cry_hash_update_f)cry_sha256_update, (cry_hash_digest_f)cry_sha256_digest };
static u8 *marked(Z n, const char *nm) { u8 *p = malloc(n); v_mark(p, n, nm); return p; }
static u8 *outbuf(Z n) { return malloc(n); }
static void ivfill(u8 *p, Z n, Z k)
{
    Z i;
    if (k == 0) { v_mark(p, n, "iv"); return; }
    for (i = 0; i < n; i++) p[i] = k == 1 ? 0 : k == 2 ? 0xff : k == 3 ? (i < n / 2 ? 7 : 0xff) : i + 1 < n ? 0x11 * (i + 1) : 0xfe;
}
/* mode: 0 cbc 1 cfb 2 cfb8 3 ctr */
static void mode_iv(int mode, void *c, const u8 *iv, Z n)
{
    switch (mode) {
    case 0: cry_cbc_iv_set(c, iv, n); break;
    case 1: case 2: cry_cfb_iv_set(c, iv, n); break;
    case 3: cry_ctr_iv_set(c, iv, n); break;
    }
}
static void mode_run(int mode, int dec, void *c, u8 *o, const u8 *i, Z n)
{
    switch (mode) {
    case 0: if (dec) cry_cbc_decrypt(c, o, i, n); else cry_cbc_encrypt(c, o, i, n); break;
    case 1: if (dec) cry_cfb_decrypt(c, o, i, n); else cry_cfb_encrypt(c, o, i, n); break;
    case 2: if (dec) cry_cfb8_decrypt(c, o, i, n); else cry_cfb8_encrypt(c, o, i, n); break;
    case 3: if (dec) cry_ctr_decrypt(c, o, i, n); else cry_ctr_encrypt(c, o, i, n); break;
    }
}
static void mode_key(int mode, void *c, const u8 *k, Z kn)
{
    switch (mode) {
    case 0: cry_cbc_key_set(c, k, kn); break;
    case 1: case 2: cry_cfb_key_set(c, k, kn); break;
    case 3: cry_ctr_key_set(c, k, kn); break;
    }
}
static void mode_init(int mode, void *c, void *cc, const cry_ciph_itf *itf, const u8 *k, Z kn)
{
    switch (mode) {
    case 0: cry_cbc_init(c, cc, itf); cry_cbc_key_set(c, k, kn); break;
    case 1: case 2: cry_cfb_init(c, cc, itf); cry_cfb_key_set(c, k, kn); break;
    case 3: cry_ctr_init(c, cc, itf); cry_ctr_key_set(c, k, kn); break;
    }
}
void h_mode(Z mode, Z dec, Z blk, Z ivk, Z n1, Z n2, Z n3, Z inplace, Z reuse)
{
    union { cry_cbc_ctx a; cry_cfb_ctx b; cry_ctr_ctx c; } c;
    char cc[8]; u8 *key = marked(16, "key"), *iv = malloc(blk), *in, *out; Z n = n1 + n2 + n3;
    ivfill(iv, blk, ivk);
    mode_init(mode, &c, cc, &E, key, 16);
    if (reuse) {
        u8 *iv2 = marked(blk, "iv2"), *in2 = marked(32, "in2"), *out2 = malloc(32);
        if (reuse == 3) { u8 *k2 = marked(16, "key2"); mode_key(mode, &c, k2, 16); }
        mode_iv(mode, &c, iv2, blk); mode_run(mode, dec, &c, out2, in2, reuse == 2 ? 21 : 32);
        if (reuse == 3) mode_key(mode, &c, key, 16);
    }
    mode_iv(mode, &c, iv, blk);
    in = marked(n, "in"); out = inplace ? in : outbuf(n);
    mode_run(mode, dec, &c, out, in, n1);
    if (n2) mode_run(mode, dec, &c, out + n1, in + n1, n2);
    if (n3) mode_run(mode, dec, &c, out + n1 + n2, in + n1 + n2, n3);
    v_dump(out, n, "out");
    if (!inplace) v_dump(in, n, "inafter");
}
void h_gcm(Z real, Z dec, Z ivl, Z ivk, Z a1, Z a2, Z n1, Z n2, Z tl, Z inplace, Z reuse)
{
    cry_gcm_ctx c; cry_aes_ctx aes; char cc[8]; u8 *key = marked(16, "key"), *iv = malloc(ivl), *aad, *in, *out, *tag = outbuf(tl); Z n = n1 + n2;
    ivfill(iv, ivl, ivk);
    cry_gcm_init(&c, real ? (void *)&aes : (void *)cc, real ? &AES : &E);
    cry_gcm_key_set(&c, key, 16);
    if (reuse) {
        u8 *iv2 = marked(12, "iv2"), *in2 = marked(32, "in2"), *out2 = malloc(32), *ad2 = marked(9, "aad2"), t2[16];
        if (reuse == 3) { u8 *k2 = marked(16, "key2"); cry_gcm_key_set(&c, k2, 16); }
        cry_gcm_iv_set(&c, iv2, 12); cry_gcm_update(&c, ad2, 9); cry_gcm_encrypt(&c, out2, in2, 32);
        if (reuse == 2) cry_gcm_digest(&c, t2, 16);
        if (reuse == 3) cry_gcm_key_set(&c, key, 16);
    }
    cry_gcm_iv_set(&c, iv, ivl);
    aad = marked(a1 + a2, "aad"); in = marked(n, "in"); out = inplace ? in : outbuf(n);
    if (a1) cry_gcm_update(&c, aad, a1);
    if (a2) cry_gcm_update(&c, aad + a1, a2);
    if (dec) cry_gcm_decrypt(&c, out, in, n1); else cry_gcm_encrypt(&c, out, in, n1);
    if (n2) { if (dec) cry_gcm_decrypt(&c, out + n1, in + n1, n2); else cry_gcm_encrypt(&c, out + n1, in + n1, n2); }
    v_dump(out, n, "out");
    cry_gcm_digest(&c, tag, tl);
    v_dump(tag, tl, "tag");
}
void h_gcmx(Z dec, Z ivl, Z a1, Z a2, Z n1, Z n2, Z tl, Z inplace, Z reuse)
{
    cry_gcm_ctx c; char cc[8]; u8 *key = marked(16, "key"), *iv = malloc(ivl), *aad = malloc(a1 + a2), *in, *out, *tag = outbuf(tl); Z n = n1 + n2;
    in = malloc(n); out = inplace ? in : outbuf(n);
    v_fill(iv, ivl, 0); v_fill(aad, a1 + a2, 1); v_fill(in, n, 2);
    cry_gcm_init(&c, cc, &E);
    cry_gcm_key_set(&c, key, 16);
    if (reuse) {
        u8 *iv2 = marked(12, "iv2"), *in2 = marked(32, "in2"), *out2 = malloc(32), *ad2 = marked(9, "aad2"), t2[16];
        cry_gcm_iv_set(&c, iv2, 12); cry_gcm_update(&c, ad2, 9); cry_gcm_encrypt(&c, out2, in2, 32);
        if (reuse == 2) cry_gcm_digest(&c, t2, 16);
    }
    cry_gcm_iv_set(&c, iv, ivl);
    if (a1) cry_gcm_update(&c, aad, a1);
    if (a2) cry_gcm_update(&c, aad + a1, a2);
    if (dec) cry_gcm_decrypt(&c, out, in, n1); else cry_gcm_encrypt(&c, out, in, n1);
    if (n2) { if (dec) cry_gcm_decrypt(&c, out + n1, in + n1, n2); else cry_gcm_encrypt(&c, out + n1, in + n1, n2); }
    v_dump(out, n, "out");
    cry_gcm_digest(&c, tag, tl);
    v_dump(tag, tl, "tag");
}
/* the same message, and one with one part (0 nonce, 1 associated data, 2 data) longer by a zero byte */
static void gcm1(const u8 *key, const u8 *iv, Z ivl, const u8 *ad, Z al, const u8 *in, Z n, u8 *tag)
{
    cry_gcm_ctx c; char cc[8]; u8 *out = malloc(n);
    cry_gcm_init(&c, cc, &E); cry_gcm_key_set(&c, key, 16); cry_gcm_iv_set(&c, iv, ivl); cry_gcm_update(&c, ad, al); cry_gcm_decrypt(&c, out, in, n); cry_gcm_digest(&c, tag, 16);
}
void h_gcmpair(Z which, Z ivl, Z al, Z n)
{
    u8 *key = marked(16, "key"), *iv = malloc(ivl + 1), *ad = malloc(al + 1), *in = malloc(n + 1), tag[16];
    v_fill(iv, ivl, 0); v_fill(ad, al, 1); v_fill(in, n, 2); iv[ivl] = ad[al] = in[n] = 0;
    gcm1(key, iv, ivl, ad, al, in, n, tag); v_dump(tag, 16, "tag");
    gcm1(key, iv, ivl + (which == 0), ad, al + (which == 1), in, n + (which == 2), tag); v_dump(tag, 16, "tag2");
}
void h_crcx(Z w, Z poly, Z fl, Z how, Z n1, Z n2)
{
    uint16_t *t16 = malloc(512); uint32_t *t32 = malloc(1024); Z i, j; uint32_t r; u8 *in = marked(n1 + n2, "in"), *out = outbuf(w / 8);
    for (i = 0; i < 256; i++) { for (r = i, j = 0; j < 8; j++) r = (r & 1) ? (r >> 1) ^ poly : r >> 1; t16[i] = r; t32[i] = r; }
    if (w == 16) {
        cry_crc16_ctx x; uint16_t s, v; v_mark(&s, 2, "start"); cry_crc16_init(&x, s, t16, fl); cry_crc16_update(&x, in, n1); cry_crc16_update(&x, in + n1, n2);
        if (how) { v = cry_crc16_final(&x); memcpy(out, &v, 2); } else cry_crc16_digest(&x, out);
    } else {
        cry_crc32_ctx x; uint32_t s, v; v_mark(&s, 4, "start"); cry_crc32_init(&x, s, t32, fl); cry_crc32_update(&x, in, n1); cry_crc32_update(&x, in + n1, n2);
        if (how) { v = cry_crc32_final(&x); memcpy(out, &v, 4); } else cry_crc32_digest(&x, out);
    }
    v_dump(out, w / 8, "out");
}
void h_lfsrx(Z s, Z n1, Z n2)
{
    u8 *seed = malloc(s), *out = outbuf(n1 + n2);
    v_fill(seed, s, 3);
    cry_prng_lfsr113_init(seed, s); cry_prng_lfsr113_rand(out, n1); if (n2) cry_prng_lfsr113_rand(out + n1, n2);
    v_dump(out, n1 + n2, "out");
}
#ifndef V_NOFIELDS
/* the recorded lengths must reach the tag in full */
void h_gcm_len(Z which)
{
    cry_gcm_ctx c; char cc[8]; u8 key[16], iv[12], tag[16]; memset(key, 1, 16); memset(iv, 2, 12);
    cry_gcm_init(&c, cc, &E); cry_gcm_key_set(&c, key, 16); cry_gcm_iv_set(&c, iv, 12);
    if (which == 0) v_mark(&c.auth_len, sizeof(c.auth_len), "len"); else v_mark(&c.ciph_len, sizeof(c.ciph_len), "len");
    cry_gcm_digest(&c, tag, 16); v_dump(tag, 16, "tag");
}
/* lengths are counted over several calls */
void h_gcm_count(Z a1, Z a2, Z n1, Z n2, Z dec)
{
    cry_gcm_ctx c; char cc[8]; u8 key[16], iv[12], *b = marked(a1 + a2 + n1 + n2, "in"); memset(key, 1, 16); memset(iv, 2, 12);
    cry_gcm_init(&c, cc, &E); cry_gcm_key_set(&c, key, 16); cry_gcm_iv_set(&c, iv, 12);
    cry_gcm_update(&c, b, a1); cry_gcm_update(&c, b + a1, a2);
    if (dec) { cry_gcm_decrypt(&c, b, b, n1); cry_gcm_decrypt(&c, b + n1, b + n1, n2); }
    else { cry_gcm_encrypt(&c, b, b, n1); cry_gcm_encrypt(&c, b + n1, b + n1, n2); }
    v_dump(&c.auth_len, sizeof(c.auth_len), "alen"); v_dump(&c.ciph_len, sizeof(c.ciph_len), "clen");
}
#endif
void h_cmac(Z real, Z kl, Z n1, Z n2, Z n3)
{
    cry_cmac_ctx c; cry_aes_ctx aes; char cc[8]; u8 *key = marked(kl, "key"), *in = marked(n1 + n2 + n3, "in"), *mac = outbuf(16);
    cry_cmac_init(&c, real ? (void *)&aes : (void *)cc, real ? &AES : &E, key, kl);
    cry_cmac_update(&c, in, n1);
    if (n2) cry_cmac_update(&c, in + n1, n2);
    if (n3) cry_cmac_update(&c, in + n1 + n2, n3);
    cry_cmac_digest(&c, mac);
    v_dump(mac, 16, "tag");
}
void h_hmac(Z real, Z hl, Z kl, Z n1, Z n2, Z n3)
{
    cry_hmac_ctx c; union { cry_md5_ctx m; cry_sha1_ctx s; cry_sha256_ctx t; } hc; u8 *key = marked(kl, "key"), *in = marked(n1 + n2 + n3, "in"), *mac = outbuf(hl);
    cry_hmac_init(&c, &hc, real == 0 ? &H : real == 1 ? &MD5 : real == 2 ? &SHA1 : &SHA256, hl, key, kl);
    cry_hmac_update(&c, in, n1);
    if (n2) cry_hmac_update(&c, in + n1, n2);
    if (n3) cry_hmac_update(&c, in + n1 + n2, n3);
    cry_hmac_digest(&c, mac);
    v_dump(mac, hl, "tag");
}
void h_wrap(Z dec, Z kl, Z n, Z inplace)
{
    u8 *key = marked(kl, "key"), *in, *out; int r;
    if (!dec) {
        in = inplace ? malloc(n + 8) : malloc(n); v_mark(in, n, "in");
        out = inplace ? in : outbuf(n + 8);
        r = cry_aes_wrap(out, in, n, key, kl); v_ret(r); v_dump(out, n + 8, "out");
    } else {
        in = marked(n + 8, "in"); out = outbuf(n);
        r = cry_aes_unwrap(out, in, n, key, kl); v_ret(r); v_dump(out, n, "out");
    }
}
void h_prng(Z s, Z sk, Z n1, Z n2, Z n3, Z used)
{
    u8 *seed = malloc(s), *out = outbuf(n1 + n2 + n3); Z i;
    v_mark(seed, s, "seed");
    if (sk) for (i = 16; i < s; i++) seed[i] = sk == 1 ? 0xff : sk == 2 ? 0x10 + i : 0xfe;
    if (used) { u8 *s2 = marked(20, "seed2"), *o2 = malloc(64); cry_prng_aes_init(s2, 20); cry_prng_aes_rand(o2, used); }
    cry_prng_aes_init(s ? seed : NULL, s);
    cry_prng_aes_rand(out, n1);
    if (n2) cry_prng_aes_rand(out + n1, n2);
    if (n3) cry_prng_aes_rand(out + n1 + n2, n3);
    v_dump(out, n1 + n2 + n3, "out");
}
void h_prng0(Z n) { u8 *out = outbuf(n); cry_prng_aes_rand(out, n); v_dump(out, n, "out"); }
void h_lfsr(Z s, Z n1, Z n2)
{
    u8 *seed = marked(s, "seed"), *out = outbuf(n1 + n2);
    cry_prng_lfsr113_init(s ? seed : NULL, s); cry_prng_lfsr113_rand(out, n1); if (n2) cry_prng_lfsr113_rand(out + n1, n2);
    v_dump(out, n1 + n2, "out");
}
void h_lfsr0(Z n) { u8 *out = outbuf(n); cry_prng_lfsr113_rand(out, n); v_dump(out, n, "out"); }
/* c: 0 aes 1 des */
void h_block(Z c, Z dec, Z kl, Z n, Z inplace, Z both)
{
    cry_aes_ctx a; cry_des_ctx d; u8 *key = marked(kl, "key"), *in = marked(n, "in"), *out = inplace ? in : outbuf(n), *t;
    if (c == 0) {
        cry_aes_init(&a); cry_aes_key_set(&a, key, kl);
        if (both) { t = marked(16, "t"); if (dec) cry_aes_encrypt(&a, t, t, 16); else cry_aes_decrypt(&a, t, t, 16); }
        if (dec) cry_aes_decrypt(&a, out, in, n); else cry_aes_encrypt(&a, out, in, n);
    } else {
        cry_des_init(&d); cry_des_key_set(&d, key, kl);
        if (both) { t = marked(8, "t"); if (dec) cry_des_encrypt(&d, t, t, 8); else cry_des_decrypt(&d, t, t, 8); }
        if (dec) cry_des_decrypt(&d, out, in, n); else cry_des_encrypt(&d, out, in, n);
    }
    v_dump(out, n, "out");
}
/* c: 0 arc4 1 trivium 2 affine 3 hill (with both matrices) 4 hill (inverse computed) */
static Z hd(Z kl) { Z d = 0; while ((d + 1) * (d + 1) <= kl) d++; return d; }
void h_stream(Z c, Z dec, Z kl, Z ivl, Z n1, Z n2, Z inplace)
{
    cry_arc4_ctx a; cry_trivium_ctx t; cry_affine_ctx f; cry_hill_ctx h; Z n = n1 + n2;
    u8 *key = marked(kl, "key"), *iv = marked(ivl, "iv"), *in = marked(n, "in"), *out = inplace ? in : outbuf(c == 3 && hd(kl) ? (n + hd(kl) - 1) / hd(kl) * hd(kl) : n);
    if (c == 0) { cry_arc4_init(&a); cry_arc4_key_set(&a, key, kl); cry_arc4_crypt(&a, out, in, n1); if (n2) cry_arc4_crypt(&a, out + n1, in + n1, n2); }
    if (c == 1) { cry_trivium_init(&t); cry_trivium_key_set(&t, key, kl); cry_trivium_iv_set(&t, iv, ivl); cry_trivium_crypt(&t, out, in, n1); if (n2) cry_trivium_crypt(&t, out + n1, in + n1, n2); }
    if (c == 2) { Z i; for (i = 0; i < kl; i++) key[i] = 2 * i + 1; v_ret(cry_affine_init(&f, key, iv, kl)); if (dec) cry_affine_decrypt(&f, out, in, n1); else cry_affine_encrypt(&f, out, in, n1); }
    if (c == 3) { v_ret(cry_hill_init(&h, key, iv, kl)); if (dec) cry_hill_decrypt(&h, out, in, n1); else cry_hill_encrypt(&h, out, in, n1); }
    v_dump(out, n, "out");
}
/* c: 0 md5 1 sha1 2 sha256 3 sha512 4 sha384; how: 0 streamed 1 one call 2 streamed after an earlier message on the same context */
static void hh(Z c, int op, void *x, const u8 *p, Z n, u8 *o)
{
    switch (c) {
    case 0: if (op == 0) cry_md5_init(x); else if (op == 1) cry_md5_update(x, p, n); else if (op == 2) cry_md5_digest(x, o); else cry_md5(o, p, n); break;
    case 1: if (op == 0) cry_sha1_init(x); else if (op == 1) cry_sha1_update(x, p, n); else if (op == 2) cry_sha1_digest(x, o); else cry_sha1(o, p, n); break;
    case 2: if (op == 0) cry_sha256_init(x); else if (op == 1) cry_sha256_update(x, p, n); else if (op == 2) cry_sha256_digest(x, o); else cry_sha256(o, p, n); break;
    case 3: if (op == 0) cry_sha512_init(x, 0); else if (op == 1) cry_sha512_update(x, p, n); else if (op == 2) cry_sha512_digest(x, o); else cry_sha512(o, p, n); break;
    case 4: if (op == 0) cry_sha512_init(x, 1); else if (op == 1) cry_sha512_update(x, p, n); else if (op == 2) cry_sha512_digest(x, o); else cry_sha384(o, p, n); break;
    }
}
void h_hash(Z c, Z how, Z ds, Z n1, Z n2, Z n3)
{
    union { cry_md5_ctx m; cry_sha1_ctx s; cry_sha256_ctx t; cry_sha512_ctx u; } x; u8 *in = marked(n1 + n2 + n3, "in"), *out = outbuf(ds), *t, *o2;
    if (how == 1) { hh(c, 3, NULL, in, n1 + n2 + n3, out); v_dump(out, ds, "out"); return; }
    hh(c, 0, &x, NULL, 0, NULL);
    if (how == 2) { t = marked(77, "t"); o2 = outbuf(ds); hh(c, 1, &x, t, 77, NULL); hh(c, 2, &x, NULL, 0, o2); hh(c, 0, &x, NULL, 0, NULL); }
    hh(c, 1, &x, in, n1, NULL);
    if (n2) hh(c, 1, &x, in + n1, n2, NULL);
    if (n3) hh(c, 1, &x, in + n1 + n2, n3, NULL);
    v_dump(&x, c == 0 ? sizeof(x.m) : c == 1 ? sizeof(x.s) : c == 2 ? sizeof(x.t) : sizeof(x.u), "ctx");
    hh(c, 2, &x, NULL, 0, out);
    v_dump(out, ds, "out");
}
#ifndef V_NOFIELDS
/* a message of which hi:lo bytes (whole blocks) have been counted, then n1 and n2 more; how 1: n1 is huge, looked at when the first block is processed */
void h_hashlen(Z c, Z how, Z ds, Z hi, Z lo, Z n1, Z n2)
{
    union { cry_md5_ctx m; cry_sha1_ctx s; cry_sha256_ctx t; cry_sha512_ctx u; } x; Z block = c < 3 ? 64 : 128, w, fs, v, i; u8 *f, *in0 = marked(block, "in0"), *in = marked(how ? 256 : n1 + n2, "in"), *out = outbuf(ds);
    hh(c, 0, &x, NULL, 0, NULL); hh(c, 1, &x, in0, block, NULL);
    if (c == 0) { f = (u8 *)&x.m.len; fs = sizeof(x.m.len); } else if (c == 1) { f = (u8 *)&x.s.len; fs = sizeof(x.s.len); }
    else if (c == 2) { f = (u8 *)&x.t.bitlen; fs = sizeof(x.t.bitlen); } else { f = (u8 *)&x.u.len; fs = sizeof(x.u.len); }
    for (v = 0, i = 0; i < fs && i < 8; i++) v |= (Z)f[i] << (8 * i);
    w = v == block ? 0 : v == 8 * block ? 3 : 99;
    if (w == 99 || (fs != 8 && fs != 16)) { v_ret(99); return; }
    v_ret(w);
    for (i = 0; i < 8; i++) f[i] = (lo << w) >> (8 * i);
    for (; i < fs; i++) f[i] = (w ? hi << w | lo >> (64 - w) : hi) >> (8 * (i - 8));
    if (how) { v_huge(in, n1); v_watch(f, fs); hh(c, 1, &x, in, n1, NULL); return; }
    hh(c, 1, &x, in, n1, NULL);
    if (n2) hh(c, 1, &x, in + n1, n2, NULL);
    hh(c, 2, &x, NULL, 0, out);
    v_dump(out, ds, "out");
}
#endif
/* c: 0 ccitt 1 ibm 2 dnp 3 eth */
void h_crc(Z c, Z how, Z n1, Z n2)
{
    u8 *in = marked(n1 + n2, "in"), *out = outbuf(c == 3 ? 4 : 2); cry_crc16_ctx x; cry_crc32_ctx y; uint16_t r16; uint32_t r32;
    if (how == 1) {
        if (c == 3) { r32 = cry_crc32_eth(in, n1 + n2); memcpy(out, &r32, 4); }
        else { r16 = c == 0 ? cry_crc16_ccitt(in, n1 + n2) : c == 1 ? cry_crc16_ibm(in, n1 + n2) : cry_crc16_dnp(in, n1 + n2); memcpy(out, &r16, 2); }
    } else {
        if (c == 0) cry_crc16_ccitt_init(&x);
        if (c == 1) cry_crc16_ibm_init(&x);
        if (c == 2) cry_crc16_dnp_init(&x);
        if (c == 3) cry_crc32_eth_init(&y);
        if (c == 3) { cry_crc32_update(&y, in, n1); if (n2) cry_crc32_update(&y, in + n1, n2); }
        else { cry_crc16_update(&x, in, n1); if (n2) cry_crc16_update(&x, in + n1, n2); }
        if (how == 0) { if (c == 3) cry_crc32_digest(&y, out); else cry_crc16_digest(&x, out); }
        else { if (c == 3) { r32 = cry_crc32_final(&y); memcpy(out, &r32, 4); } else { r16 = cry_crc16_final(&x); memcpy(out, &r16, 2); } }
    }
    v_dump(out, c == 3 ? 4 : 2, "out");
}
void h_b64e(Z n) { u8 *in = marked(n, "in"), *out = outbuf((n + 2) / 3 * 4); v_ret(cry_base64_encode((char *)out, (char *)in, n)); v_dump(out, (n + 2) / 3 * 4, "out"); }
void h_b64d(Z n, Z pad) { u8 *in = marked(n, "in"), *out = outbuf(n / 4 * 3); Z i; for (i = 0; i < pad && i < n; i++) in[n - 1 - i] = '='; v_ret(cry_base64_decode((char *)out, (char *)in, n)); }
/* memxor: places of the buffers inside one block of memory */
void h_memxor(Z n, Z d, Z s, Z total) { u8 *b = marked(total, "m"); cry_memxor(b + d, b + s, n); v_dump(b, total, "out"); }
void h_memxor2(Z n, Z d, Z s1, Z s2, Z total) { u8 *b = marked(total, "m"); cry_memxor2(b + d, b + s1, b + s2, n); v_dump(b, total, "out"); }
void h_memxor_sep(Z n, Z two) { u8 *d = marked(n, "d"), *s = marked(n, "s"), *t = marked(n, "t"); if (two) cry_memxor2(d, s, t, n); else cry_memxor(d, s, n); v_dump(d, n, "out"); }
'''

# ---- terms ------------------------------------------------------------------
class Terms:
    """uninterpreted results: name in the analysis -> canonical term"""
    def __init__(self, F): self.F = F; self.ids = {}; self.of = {}; self.keys = {}; self.streams = {}; self.n = 0; self.e0 = None; self.lastd = None
    def intern(self, t): return self.ids.setdefault(t, 'T%d' % len(self.ids))
    def canon(self, e):
        if type(e) is int: return e
        if e[1] is None: return ('dep', e[0])
        return (frozenset((self.of.get(n, n), i) for n, i in e[1][0]), e[1][1])
    def app(self, kind, key, data): return self.intern((kind, key, tuple(data)))
    def fresh(self, tid, n):
        """bytes that stand for a term in the analysis"""
        self.n += 1; nm = 'E#%d' % self.n; self.of[nm] = tid
        return [self.F.fresh(nm, i) for i in range(n)]
def X(name, n, a=0): return [(frozenset([(name, i)]), 0) for i in range(a, a + n)]
def xor(a, b):
    out = []
    for p, q in zip(a, b):
        if type(p) is int and type(q) is int: out.append(p ^ q); continue
        ps, pc = (frozenset(), p) if type(p) is int else p
        qs, qc = (frozenset(), q) if type(q) is int else q
        st = ps ^ qs
        out.append((st, pc ^ qc) if st else pc ^ qc)
    return out
def setb(F, p, bs):
    if not bs: return
    F.check(p, len(bs), True); o = F.w(p[1]); o.b[p[2]:p[2] + len(bs)] = bs
def getb(F, p, n):
    if n == 0: return []
    o = F.check(p, n, False); return o.b[p[2]:p[2] + n]
def kid(p): return p[1:3] if p[0] == 'p' else p
class Bad(Exception): pass
class Done(Exception): pass
class AffTerms(Terms):
    """terms in the affine domain: a byte is given by its eight forms"""
    def canon(self, e):
        if type(e) is int: return e
        if e[1] is None: return ('dep', e[0])
        return e[1]
    def fresh(self, tid, n): return [self.F.fresh(tid, i) for i in range(n)]
def make(mod, blk=16, e0=None, lastd=None, nomalloc=False, hl=None, aff=False, fill=None):
    F = affine.Affine(mod) if aff else flow.Flow(mod); T = F.T_ = (AffTerms if aff else Terms)(F); F.fill = fill or {}
    if aff: F.max_steps = 20000000
    T.e0 = e0; T.lastd = lastd
    def v_key(F, a): T.keys[kid(a[0])] = tuple(T.canon(e) for e in getb(F, a[1], F.size_arg(a[2])))
    def crypt(kind):
        def f(F, a):
            n = F.size_arg(a[3]); B = F.blk
            if n % B: raise Bad('hands %d bytes to a cipher with blocks of %d' % (n, B))
            for o in range(0, n, B):
                d = ('p', a[1][1], a[1][2] + o); s = ('p', a[2][1], a[2][2] + o)
                if a[1][0] != 'p' or a[2][0] != 'p': raise Limit('address')
                x = [T.canon(e) for e in getb(F, s, B)]
                F.ncalls += 1
                if kind == 'E' and T.e0 is not None and all(e == 0 for e in x): setb(F, d, list(T.e0)); continue
                r = T.fresh(T.app(kind, T.keys.get(kid(a[0])), x), B)
                if T.lastd and F.ncalls == T.lastd[0]: r[:8] = T.lastd[1]
                setb(F, d, r)
        return f
    F.blk = blk; F.ncalls = 0; F.ret = None
    def v_hinit(F, a): T.streams[kid(a[0])] = []
    def v_hupd(F, a):
        if kid(a[0]) not in T.streams: raise Bad('updates a hash that was not initialised')
        T.streams[kid(a[0])] += [T.canon(e) for e in getb(F, a[1], F.size_arg(a[2]))]
    def v_hdig(F, a):
        if T.streams.get(kid(a[0])) is None: raise Bad('finishes a hash that was not initialised')
        setb(F, a[1], T.fresh(T.app('H', None, T.streams[kid(a[0])]), hl)); T.streams[kid(a[0])] = None
    def v_ret(F, a): F.ret = a[0]
    def v_watch(F, a): F.watch = (a[0], F.size_arg(a[1]))
    def v_huge(F, a): F.mem[a[0][1]].size = F.size_arg(a[1])
    F.watch = None; F.hooks.update(v_watch=v_watch, v_huge=v_huge)
    def v_fill(F, a):
        bs = F.fill.get(F.size_arg(a[2]))
        if bs is None: return flow.h_mark(F, [a[0], a[1]], {0: 'iv', 1: 'aad', 2: 'in', 3: 'seed'}[F.size_arg(a[2])])
        setb(F, a[0], [F.fresh({0: 'iv', 1: 'aad', 2: 'in', 3: 'seed'}[a[2][1]], i) if b is None else b for i, b in enumerate(bs)][:F.size_arg(a[1])])
    F.hooks.update(v_key=v_key, v_enc=crypt('E'), v_dec=crypt('D'), v_hinit=v_hinit, v_hupd=v_hupd, v_hdig=v_hdig, v_ret=v_ret, v_fill=v_fill)
    F.aes_hooks = dict(cry_aes_key_set=v_key, cry_aes_encrypt=crypt('E'), cry_aes_decrypt=crypt('D'), cry_aes_init=lambda F, a: None, cry_aes_clear=lambda F, a: None)
    if nomalloc:
        F.nomalloc = True
        om = F.hooks['malloc']
        F.hooks['malloc'] = lambda F, a: ('k', 0) if F.where().split(':')[0].endswith('cbc.c') else om(F, a)
    return F

# ---- scenarios --------------------------------------------------------------
class Case:
    """fn(args): `func` is the routine a finding is attributed to; verify(F) -> [(property, rule, message)]"""
    def __init__(self, func, fn, args, verify, aes=False, **opts):
        self.func = func; self.fn = fn; self.args = args; self.verify = verify; self.aes = aes; self.opts = opts
    def label(self): return '%s(%s)' % (self.fn, ', '.join(map(str, self.args)))

def fshow(T, f):
    out = []; k = 1; x = f >> 1; inv = {v: k for k, v in T.ids.items()}
    base = {b: n for n, b in T.F.atoms.items()}
    while x and len(out) < 7:
        if x & 1:
            for b in range(k, k - 8, -1):
                if b in base: nm, i = base[b]; out.append('%s[%d].%d' % ('E(..)' if nm in inv else nm, i, k - b)); break
        x >>= 1; k += 1
    if x: out.append('...')
    if f & 1: out.append('1')
    return '^'.join(out) or '0'
def show(T, c, depth=0):
    if type(c) is int: return '%#04x' % c
    if len(c) == 8 and type(c[0]) is int:
        m = 0
        for f in c: m |= f
        return 'the combination [%s]' % '; '.join(fshow(T, f) for f in c)
    if c[0] == 'dep':
        return 'a mix of ' + (', '.join(sorted({n for n, i in T.F.names(c[1])})) or 'nothing')
    inv = {v: k for k, v in T.ids.items()}
    s = []
    for n, i in sorted(c[0]):
        if n in inv:
            k = inv[n]
            s.append('%s[%s](%s)[%d]' % (k[0], '' , '...' if depth else show(T, k[2][0], 1) + ',..' if k[2] else '', i))
        else: s.append('%s[%d]' % (n, i))
    if c[1]: s.append('%#04x' % c[1])
    return ' ^ '.join(s)
def unset(e): return type(e) is not int and bool(e[0] & UNSET)
def differs(F, dump, exp, what):
    """[(index, got, expected)] of the first byte that is not the expected one"""
    T = F.T_; got = F.dumps.get(dump)
    if got is None: return ['%s was not produced' % what]
    for i, (g, e) in enumerate(zip(got, exp)):
        if e is None: continue
        if e == 'unset':
            if not (type(g) is not int and g == flow.UB): return ['byte %d of the %s is written although it is not part of the result' % (i, what)]
            continue
        c = T.canon(g)
        if c != e:
            if c != 'ptr' and type(c) is tuple and c[0] == 'dep' and not c[1] & UNSET:
                # the analysis lost the exact combination: a missing input is still a certain difference
                have = {}
                for (n, k), b in F.names(c[1]).items(): have[(T.of.get(n, n), k)] = have.get((T.of.get(n, n), k), 0) | b
                if len(e if type(e) is tuple else ()) == 8:
                    w = 0
                    for f in e: w |= f
                    if w & ~1 & ~c[1]: return ['byte %d of the %s is %s, but must be %s' % (i, what, show(T, c), show(T, e))]
                    F.vague = 'byte %d of the %s: the combination is not followed exactly' % (i, what)
                    continue
                want = [] if type(e) is int else e[0]
                miss = [x for x in want if x not in have]
                if not miss:
                    F.vague = 'byte %d of the %s: the combination is not followed exactly' % (i, what)
                    continue
            return ['byte %d of the %s is %s, but must be %s' % (i, what, show(T, c), show(T, e))]
    return []
def wire(dump, exp, what='output', prop='C16'):
    def v(F):
        return [(prop, 'wiring', m) for m in differs(F, dump, exp(F), what)]
    return v
def blocks(l, b): return [l[i:i + b] for i in range(0, len(l), b)]
def inc(c, n=None):
    n = n or len(c); x = (int.from_bytes(bytes(c[-n:]), 'big') + 1) % (1 << (8 * n))
    return list(c[:-n]) + list(x.to_bytes(n, 'big'))
def ivbytes(n, k):
    if k == 0: return X('iv', n)
    return [0 if k == 1 else 255 if k == 2 else (7 if i < n // 2 else 255) if k == 3 else (0x11 * (i + 1) & 255 if i + 1 < n else 0xfe) for i in range(n)]

def exp_mode(mode, dec, blk, ivk, ns, inplace):
    n = sum(ns)
    def f(F):
        T = F.T_; key = tuple(X('key', 16))
        def P(kind, x): t = T.app(kind, key, x); return [(frozenset([(t, i)]), 0) for i in range(blk)]
        iv = ivbytes(blk, ivk); out = []; off = 0
        for m in ns:
            data = X('in', m, off); off += m
            if mode == 0:
                full = m - m % blk
                for b in blocks(data[:full], blk):
                    if dec: out += xor(P('D', b), iv); iv = b
                    else: iv = P('E', xor(b, iv)); out += iv
                out += data[full:] if inplace else ['unset'] * (m - full)
            elif mode == 1:
                for b in blocks(data, blk):
                    o = xor(b, P('E', iv)); out += o
                    iv = b if dec else o
            elif mode == 2:
                for b in data:
                    o = xor([b], P('E', iv)); out += o
                    iv = iv[1:] + ([b] if dec else o)
            elif mode == 3:
                for b in blocks(data, blk): out += xor(b, P('E', iv)); iv = inc(iv) if ivk else ['?'] * blk
        return out
    return f

MODES = [('cry_cbc_encrypt', 'cry_cbc_decrypt'), ('cry_cfb_encrypt', 'cry_cfb_decrypt'), ('cry_cfb8_encrypt', 'cry_cfb8_decrypt'), ('cry_ctr_encrypt', 'cry_ctr_decrypt')]
def mode_cases(tier):
    th = tier == 'thorough'
    for mode in range(4):
        for dec in (0, 1):
            if mode == 3 and dec: continue
            for blk in (16, 8):
                step = 1 if mode == 2 else blk
                lens = list(range(0, 3 * blk + 2)) + [4 * blk - 1, 4 * blk, 4 * blk + 1, 5 * blk - 3, 8 * blk, 8 * blk + 5, 9 * blk]
                if mode == 3 and blk == 16: lens = [l for l in lens if l <= 17 or l % 5 == 1 or l % 16 in (0, 1, 15)]
                if th: lens = list(range(0, 10 * blk + 2)) + [16 * blk, 16 * blk + 3, 17 * blk]
                if mode == 0: lens += [496, 512, 528, 512 + blk, 1024, 1024 + blk, 1056]
                if mode == 2: lens = [l for l in lens if l <= 50]
                for ivk in ([0] if mode != 3 else [0, 1, 2, 3, 4]):
                    for n in lens:
                        if mode == 3 and ivk == 0 and n > blk: continue
                        for ip in (0, 1):
                            yield mode, dec, blk, ivk, (n, 0, 0), ip, 0
                    if mode == 3 and ivk == 0: continue
                    for a, b, c in [(1, 1, 0), (1, 2, 3), (2, 1, 1), (3, 2, 0), (4, 1, 0), (1, 4, 1), (0, 1, 2)]:
                        for tail in (0, blk // 2 + 1):
                            ns = [a * blk, b * blk, c * blk] if mode != 2 else [a * 3, b * 5, c * 7]
                            if mode == 2: pass
                            elif c: ns[2] += tail
                            else: ns[1] += tail
                            for ip in (0, 1): yield mode, dec, blk, ivk, tuple(ns), ip, 0
                    if mode == 2:
                        for ns in ((blk, 1, 1), (blk, blk + 8, 0), (blk - 1, 1, blk), (blk - 1, 2, 3), (1, blk, 1), (1, blk - 1, 2 * blk), (2 * blk, 3, 0), (blk + 3, 2 * blk - 3, 2), (3, blk - 3, blk + 1)):
                            for ip in (0, 1): yield mode, dec, blk, ivk, ns, ip, 0
                    if mode == 3:
                        for ns in ((5, blk, 3), (1, 1, 1), (blk + 1, 2, blk), (2 * blk - 1, 2 * blk - 1, 1), (4 * blk + 3, 4 * blk + 3, 2)):
                            for ip in (0, 1): yield mode, dec, blk, ivk, ns, ip, 0
                    for r in (1, 2, 3) if mode != 0 else (1, 3):
                        yield mode, dec, blk, ivk, (2 * blk, blk, 0) if mode != 2 else (9, 4, 0), 0, r
def wiring_cases(tier):
    for mode, dec, blk, ivk, ns, ip, reuse in mode_cases(tier):
        if mode == 0 and any(x % blk for x in ns[:1 if not ns[1] else 2 if not ns[2] else 3][:-1]): continue
        nm = MODES[mode][dec]
        yield Case(nm, 'h_mode', (mode, dec, blk, ivk) + ns + (ip, reuse), wire('out', exp_mode(mode, dec, blk, ivk, ns, ip)), blk=blk)
        if mode == 0 and dec and ip and sum(ns) <= 160:
            yield Case(nm, 'h_mode', (mode, dec, blk, ivk) + ns + (ip, reuse), wire('out', exp_mode(mode, dec, blk, ivk, ns, ip)), blk=blk, nomalloc=True)
    th = tier == 'thorough'
    # GCM keystream
    lens = [0, 1, 15, 16, 17, 31, 32, 33, 48, 65] if not th else list(range(0, 70)) + [128, 131]
    def gexp(ivk, ns):
        def f(F):
            T = F.T_; key = tuple(X('key', 16)); c = ivbytes(12, ivk) + [0, 0, 0, 1]; out = []; off = 0
            for m in ns:
                for b in blocks(X('in', m, off), 16):
                    c = c[:12] + inc(c[12:]); t = T.app('E', key, c); out += xor(b, [(frozenset([(t, i)]), 0) for i in range(16)])
                off += m
            return out
        return f
    for dec in (0, 1):
        for n in lens:
            for ip in (0, 1):
                yield Case('cry_gcm_decrypt' if dec else 'cry_gcm_encrypt', 'h_gcm', (0, dec, 12, 0, 3, 0, n, 0, 16, ip, 0), wire('out', gexp(0, (n, 0))))
        for n1, n2 in ((16, 16), (32, 5), (16, 33), (48, 1), (5, 16), (17, 3), (1, 1)):
            for ip in (0, 1): yield Case('cry_gcm_decrypt' if dec else 'cry_gcm_encrypt', 'h_gcm', (0, dec, 12, 2, 0, 0, n1, n2, 16, ip, 0), wire('out', gexp(2, (n1, n2))))
        for r in (1, 2, 3): yield Case('cry_gcm_iv_set', 'h_gcm', (0, dec, 12, 0, 5, 0, 40, 0, 16, 0, r), wire('out', gexp(0, (40, 0))))
    # empty message, no associated data: the tag is the encrypted initial counter
    for tl in (16, 12, 4):
        yield Case('cry_gcm_digest', 'h_gcm', (0, 0, 12, 0, 0, 0, 0, 0, tl, 0, 0), wire('tag', lambda F, tl=tl: (lambda t: [(frozenset([(t, i)]), 0) for i in range(tl)])(F.T_.app('E', tuple(X('key', 16)), X('iv', 12) + [0, 0, 0, 1])), 'tag'))
    # CMAC; the encrypted zero block is pinned so that the subkeys are constants
    def dbl(b): x = int.from_bytes(bytes(b), 'big') << 1; x = (x ^ 0x87 if x >> 128 else x) & ((1 << 128) - 1); return list(x.to_bytes(16, 'big'))
    def cexp(e0, n, kl):
        def f(F):
            T = F.T_; key = tuple(X('key', kl)); k1 = dbl(e0); k2 = dbl(k1); d = X('in', n); bl = blocks(d, 16) or [[]]
            mac = [0] * 16
            for b in bl[:-1]: t = T.app('E', key, xor(b, mac)); mac = [(frozenset([(t, i)]), 0) for i in range(16)]
            l = bl[-1]
            l = xor(l, k1) if len(l) == 16 else xor(l + [0x80] + [0] * (15 - len(l)), k2)
            t = T.app('E', key, xor(l, mac)); return [(frozenset([(t, i)]), 0) for i in range(16)]
        return f
    E0 = [[0x11 * i & 255 for i in range(16)], [0x80 | i for i in range(16)], [0x40] + [0xff] * 15, [0xc0, 1] + [0x80] * 14]
    for e0 in E0:
        for n in ((0, 1, 7, 15, 16, 17, 31, 32, 33, 48, 50, 64) if not th else range(0, 70)):
            for s in ((n, 0, 0), (n // 2, n - n // 2, 0), (max(0, n - 16), min(n, 16), 0), (min(16, n), n - min(16, n), 0), (min(5, n), min(11, n - min(5, n)), n - min(5, n) - min(11, n - min(5, n)))):
                yield Case('cry_cmac_digest', 'h_cmac', (0, 16) + s, wire('tag', cexp(e0, n, 16), 'tag'), e0=e0)
    # HMAC over an uninterpreted hash
    def hexp(hl, kl, n):
        def f(F):
            T = F.T_; k = X('key', kl)
            if kl > 64: t = T.app('H', None, k); k = [(frozenset([(t, i)]), 0) for i in range(hl)]
            k = k + [0] * (64 - len(k))
            t = T.app('H', None, xor(k, [0x36] * 64) + X('in', n))
            t = T.app('H', None, xor(k, [0x5c] * 64) + [(frozenset([(t, i)]), 0) for i in range(hl)])
            return [(frozenset([(t, i)]), 0) for i in range(hl)]
        return f
    for hl in (16, 20, 32):
        for kl in (0, 1, 20, 63, 64, 65, 131) if not th else range(0, 132):
            for s in ((0, 0, 0), (1, 0, 0), (70, 0, 0), (5, 60, 7)):
                yield Case('cry_hmac_digest', 'h_hmac', (0, hl, kl) + s, wire('tag', hexp(hl, kl, sum(s)), 'tag'), hl=hl)
    # key wrap
    def wexp(kl, n):
        def f(F):
            T = F.T_; key = tuple(X('key', kl)); a = [0xa6] * 8; r = blocks(X('in', n), 8)
            for j in range(6):
                for i in range(len(r)):
                    t = T.app('E', key, a + r[i]); b = [(frozenset([(t, x)]), 0) for x in range(16)]
                    a = xor(b[:8], list((len(r) * j + i + 1).to_bytes(8, 'big'))); r[i] = b[8:]
            return a + sum(r, [])
        return f
    def uexp(kl, n):
        def f(F):
            T = F.T_; key = tuple(X('key', kl)); a = X('in', 8); r = blocks(X('in', n, 8), 8); N = len(r)
            for j in reversed(range(6)):
                for i in reversed(range(N)):
                    t = T.app('D', key, xor(a, list((N * j + i + 1).to_bytes(8, 'big'))) + r[i]); b = [(frozenset([(t, x)]), 0) for x in range(16)]
                    a, r[i] = b[:8], b[8:]
            return sum(r, [])
        return f
    for kl in (16, 24, 32):
        for n in (8, 16, 24, 40, 64) + ((344, 400) if kl == 16 or th else ()):
            yield Case('cry_aes_wrap', 'h_wrap', (0, kl, n, 0), wire('out', wexp(kl, n)), aes=True)
            yield Case('cry_aes_unwrap', 'h_wrap', (1, kl, n, 0), wire('out', uexp(kl, n)), aes=True, lastd=(6 * n // 8, [0xa6] * 8))
    # generator: counter mode over the seed
    def pexp(s, sk, n):
        def f(F):
            T = F.T_; sd = X('seed', min(s, 16)); key = tuple(sd + [0] * (16 - len(sd)))
            c = [0xff if sk == 1 else (0x10 + i) & 255 if sk == 2 else 0xfe for i in range(16, min(s, 32))]; c += [0] * (16 - len(c)); out = []
            while len(out) < n: t = T.app('E', key, c); out += [(frozenset([(t, i)]), 0) for i in range(16)]; c = inc(c)
            return out[:n]
        return f
    for s, sk in ((0, 1), (5, 1), (16, 1), (32, 1), (32, 2), (25, 3), (40, 2)):
        for ns in ((16, 0, 0), (1, 0, 0), (40, 0, 0), (5, 11, 3), (5, 12, 20), (3, 4, 5), (16, 1, 31), (15, 1, 1), (7, 0, 40), (33, 15, 17)):
            yield Case('cry_prng_aes_rand', 'h_prng', (s, sk) + ns + (0,), wire('out', pexp(s, sk, sum(ns))), aes=True)
        for used in (1, 5, 16, 23): yield Case('cry_prng_aes_init', 'h_prng', (s, sk, 20, 3, 0, used), wire('out', pexp(s, sk, 23)), aes=True)

# ---- runner -----------------------------------------------------------------
class Out:
    __slots__ = ('case', 'found', 'limit', 'steps')
# an influence that must not exist is only claimed when the finer analysis (bit by bit) sees it too
MAY = {('C18', 'block'), ('C18', 'stale'), ('C18', 'stream'), ('C18', 'classic'), ('C14', 'encoding'), ('C12', 'plaintext'), ('C12', 'stale'), ('C12', 'mixed'),
       ('C10', 'bounds-data'), ('C10', 'unset'), ('C14', 'unwritten')}
def run_case(mod, c):
    r = run_once(mod, c, c.opts)
    may = [x for x in r.found if x[:2] in MAY]
    if may and not c.opts.get('aff') and not getattr(c, 'setup', None):
        q = run_once(mod, c, dict(c.opts, aff=True)); keep = {x[:2] for x in q.found}
        lost = [x for x in may if x[:2] not in keep]
        r.found = [x for x in r.found if x not in lost]
        if lost and q.limit: r.limit = r.limit or 'not confirmed by the finer analysis: ' + lost[0][2]
        r.steps += q.steps
    return r
def run_once(mod, c, opts):
    r = Out(); r.case = None; r.found = []; r.limit = None
    F = make(mod, **opts)
    if c.aes: F.hooks.update(F.aes_hooks)
    if getattr(c, 'setup', None): c.setup(F)
    try:
        F.call(c.fn, [('k', a) for a in c.args])
        r.found += [(p, rule, m, F.where()) for p, rule, m in c.verify(F)]
    except Done: r.found += [(p, rule, m, F.where()) for p, rule, m in c.verify(F)]
    except Limit as e: r.limit = str(e)
    except Bad as e: r.found.append(('C16', 'wiring', str(e), F.where()))
    except Fault as e: 
        r.found.append(('C10', 'bounds', e.what, e.where))
        if e.what.startswith('writes') and 'outside' in e.what: r.found.append(('C14', 'beyond', e.what, e.where))
        for p in ('C12', 'C16', 'C17', 'C18'): r.found.append((p, 'undefined', 'no defined result: ' + e.what, e.where))
        r.limit = 'stopped: ' + str(e)
    for m, w in F.faults: r.found.append(('C10', 'unset', m, w))
    for m, w in sorted(F.wild): r.found.append(('C10', 'bounds-data', m, w))
    r.steps = F.steps
    if getattr(F, 'vague', None) and not r.found: r.limit = r.limit or F.vague
    return r

# ---- what must (not) influence what -----------------------------------------
def deps(F, e): return {} if type(e) is int else F.names(e[0])
def cover(F, dump, need, prop, what, each=True, bits=255):
    """every byte (each) / the whole (not each) of a result depends on all these input bytes"""
    got = F.dumps.get(dump)
    if got is None: return [(prop, 'coverage', 'the %s was not produced' % what)]
    out = []
    if not each:
        m = 0
        for e in got: m |= m_(e)
        got = [D(m)]
    for j, e in enumerate(got):
        d = deps(F, e)
        miss = [(n, i, bits & ~d.get((n, i), 0)) for n, i in need if bits & ~d.get((n, i), 0)]
        if miss:
            n, i, b = miss[0]
            out.append((prop, 'coverage', '%s does not depend on %s byte %d (of %d)%s' % ('byte %d of the %s' % (j, what) if each else 'the ' + what, n, i, len(need), '' if b == bits else ', bits %#04x' % b)))
            break
    return out
def written(F, dump, what, n=None):
    got = F.dumps.get(dump)
    if got is None: return [('C14', 'unwritten', 'the %s was not produced' % what)]
    bad = [i for i, e in enumerate(got[:n]) if e != 'ptr' and unset(e)]
    return [('C14', 'unwritten', 'byte %d of the %s (of %d) is not written, or made from unset memory' % (bad[0], what, len(got)))] if bad else []
def without(F, dump, what, bad, prop, rule, msg):
    for i, e in enumerate(F.dumps.get(dump) or []):
        for k in deps(F, e):
            if bad(i, k): return [(prop, rule, 'byte %d of the %s depends on %s byte %d: %s' % (i, what, k[0], k[1], msg))]
    return []
def B(name, n, a=0): return [(name, i) for i in range(a, a + n)]

def mac_cases(tier):
    """C12"""
    th = tier == 'thorough'
    # GCM over an uninterpreted cipher: which results of the cipher and which inputs reach the tag
    def gv(dec, ivl, ivk, al, ns, tl, reuse):
        n = sum(ns)
        def v(F):
            T = F.T_; key = tuple(X('key', 16)); inv = {v: k for k, v in T.ids.items()}
            out = []
            tag = F.dumps.get('tag') or []
            def atoms(e):
                r = {}
                for (nm, i), b in deps(F, e).items(): r.setdefault(T.of.get(nm, nm), {})[i] = b
                return r
            if ivl == 12: ctr = [tuple(ivbytes(12, ivk) + [0, 0, 0, 1 + j]) for j in range(3 + n // 16)]
            Hs = T.app('E', key, [0] * 16)
            for j, e in enumerate(tag):
                a = atoms(e)
                if ivl == 12:
                    t0 = T.app('E', key, ctr[0])
                    if j not in a.get(t0, {}): out.append(('C12', 'coverage', 'byte %d of the tag is not masked with the encrypted initial counter' % j)); break
                    if [x for x in a.get(t0, {}) if x != j]: out.append(('C12', 'mixed', 'byte %d of the tag mixes other bytes of the encrypted initial counter' % j)); break
                if al + n and len(a.get(Hs, {})) < 16: out.append(('C12', 'coverage', 'byte %d of the tag does not depend on the hash key (the encrypted zero block)' % j)); break
                need = B('aad', al)
                if dec: need += B('in', n)
                else:
                    need += B('in', n)
                miss = [k for k in need if k[1] not in a.get(k[0], {}) or a[k[0]][k[1]] != 255]
                if miss: out.append(('C12', 'coverage', 'byte %d of the tag does not depend on %s byte %d' % (j, 'associated data' if miss[0][0] == 'aad' else 'ciphertext', miss[0][1]))); break
                if ivl == 12:
                    for q in range(1, len(ctr)):
                        tq = T.app('E', key, ctr[q]); first = 16 * (q - 1)
                        used = [i for i in range(min(16, n - first))] if not dec and first < n else []
                        have = a.get(tq, {})
                        if dec and have: out.append(('C12', 'plaintext', 'byte %d of the tag depends on the keystream of block %d when decrypting: it is computed over plaintext, not ciphertext' % (j, q))); break
                        if [i for i in used if i not in have]: out.append(('C12', 'coverage', 'byte %d of the tag does not depend on the ciphertext of block %d (only on its plaintext)' % (j, q - 1))); break
                    if out: break
                else:
                    # the masked initial counter: some encryption whose input depends on the whole nonce
                    ok = False
                    for t, x in a.items():
                        k = inv.get(t)
                        if k and k[0] == 'E' and all(c == 0 or type(c) is tuple for c in k[2]):
                            for c in k[2]:
                                if type(c) is tuple and c[0] == 'dep':
                                    dd = F.names(c[1])
                                    if all(dd.get(('iv', i)) == 255 for i in range(ivl)): ok = True
                    if not ok and ivk == 0: out.append(('C12', 'coverage', 'byte %d of the tag does not depend on the whole nonce of %d bytes' % (j, ivl))); break
                if reuse:
                    old = [nm for nm in a if nm in ('in2', 'aad2', 'iv2')]
                    if old: out.append(('C12', 'stale', 'byte %d of the tag depends on the previous message (%s) after a new nonce was set' % (j, old[0]))); break
            return out + written(F, 'tag', 'tag') + written(F, 'out', 'output')
        return v
    for dec in (0, 1):
        for al, ns in [(0, (1, 0)), (1, (0, 0)), (5, (17, 0)), (16, (16, 0)), (17, (33, 0)), (32, (48, 0)), (20, (32, 9)), (40, (16, 16)), (3, (15, 0)), (15, (31, 0))] + ([(a, (n, 0)) for a in range(0, 34, 3) for n in range(0, 50, 7)] if th else []):
            for ip in (0, 1):
                for tl in (16,) if ip else (16, 13, 4):
                    a1 = al if al < 17 else 16
                    yield Case('cry_gcm_decrypt' if dec else 'cry_gcm_encrypt', 'h_gcm', (0, dec, 12, 0, a1, al - a1, ns[0], ns[1], tl, ip, 0), gv(dec, 12, 0, al, ns, tl, 0))
        for ivl in (1, 8, 11, 13, 16, 17, 20, 32, 33):
            yield Case('cry_gcm_iv_set', 'h_gcm', (0, dec, ivl, 0, 4, 0, 20, 0, 16, 0, 0), gv(dec, ivl, 0, 4, (20, 0), 16, 0))
        for r in (1, 2, 3):
            yield Case('cry_gcm_iv_set', 'h_gcm', (0, dec, 12, 0, 5, 0, 20, 0, 16, 0, r), gv(dec, 12, 0, 5, (20, 0), 16, r))
            yield Case('cry_gcm_iv_set', 'h_gcm', (0, dec, 16, 0, 5, 0, 20, 0, 16, 0, r), gv(dec, 16, 0, 5, (20, 0), 16, r))
    for w in (0, 1):
        def lv(F, w=w):
            # the recorded byte count is hashed as a bit count: its top three bits may be lost
            out = []
            for j, e in enumerate(F.dumps.get('tag') or []):
                d = deps(F, e); miss = [i for i in range(8) if (31 if i == 7 else 255) & ~d.get(('len', i), 0)]
                if miss: out.append(('C12', 'coverage', 'byte %d of the tag does not depend on byte %d of the %s length' % (j, miss[0], 'ciphertext' if w else 'associated data'))); break
            return out
        yield Case('cry_gcm_digest', 'h_gcm_len', (w,), lv)
    for a1, a2, n1, n2 in ((16, 4, 16, 5), (0, 3, 0, 1), (32, 16, 48, 0)):
        for dec in (0, 1):
            def cv(F, a=a1 + a2, n=n1 + n2):
                out = []
                for nm, x in (('alen', a), ('clen', n)):
                    g = F.dumps.get(nm)
                    v = sum(e << (8 * k) for k, e in enumerate(g)) if all(type(e) is int for e in g) else None
                    if v not in (x, 8 * x): out.append(('C12', 'length', 'after %d bytes the context has counted %s' % (x, v)))
                return out
            yield Case('cry_gcm_update', 'h_gcm_count', (a1, a2, n1, n2, dec), cv)
    # real primitives
    def rv(n, kl, prop='C12'):
        def v(F): return cover(F, 'tag', B('key', kl) + B('in', n), prop, 'tag') + written(F, 'tag', 'tag')
        return v
    for kl in (16, 24, 32):
        for n in (0, 1, 15, 16, 17, 32, 40, 64, 70): yield Case('cry_cmac_digest', 'h_cmac', (1, kl, n, 0, 0), rv(n, kl))
    for real, hl in ((1, 16), (2, 20), (3, 32)):
        for kl in (1, 20, 64, 65, 100):
            for s in ((0, 0, 0), (1, 0, 0), (55, 0, 0), (64, 0, 0), (40, 50, 7)): yield Case('cry_hmac_digest', 'h_hmac', (real, hl, kl) + s, rv(sum(s), kl))
    def rg(F): return cover(F, 'tag', B('key', 16) + B('in', 35) + B('aad', 21) + B('iv', 12), 'C12', 'tag')
    for dec in (0, 1):
        for ip in (0, 1): yield Case('cry_gcm_digest', 'h_gcm', (1, dec, 12, 0, 16, 5, 32, 3, 16, ip, 0), rg)

def cipher_cases(tier):
    """C18: block and stream ciphers"""
    th = tier == 'thorough'
    def bv(bs, kl, kbits, n, t):
        def v(F):
            out = written(F, 'out', 'output')
            for j, e in enumerate(F.dumps.get('out') or []):
                d = deps(F, e); b = j // bs * bs
                for i in range(kl):
                    if kbits & ~d.get(('key', i), 0): out.append(('C18', 'key', 'output byte %d does not depend on key byte %d (bits %#04x)' % (j, i, kbits & ~d.get(('key', i), 0)))); break
                else:
                    for i in range(n):
                        x = d.get(('in', i), 0)
                        if b <= i < b + bs:
                            if x != 255: out.append(('C18', 'block', 'output byte %d does not depend on input byte %d of its block (bits %#04x)' % (j, i, 255 & ~x))); break
                        elif x: out.append(('C18', 'block', 'output byte %d depends on input byte %d of another block' % (j, i))); break
                    else:
                        if any(k[0] == 't' for k in d): out.append(('C18', 'stale', 'output byte %d depends on data processed before' % j))
                if out: break
            return out
        return v
    for dec in (0, 1):
        for kl in (16, 24, 32):
            for n in (0, 16, 32, 48): 
                for ip in (0, 1): yield Case('cry_aes_decrypt' if dec else 'cry_aes_encrypt', 'h_block', (0, dec, kl, n, ip, 0), bv(16, kl, 255, n, 0))
            yield Case('cry_aes_decrypt' if dec else 'cry_aes_encrypt', 'h_block', (0, dec, kl, 16, 0, 1), bv(16, kl, 255, 16, 1))
        for kl in (8, 24):
            for n in (0, 8, 16, 24):
                for ip in (0, 1): yield Case('cry_des_decrypt' if dec else 'cry_des_encrypt', 'h_block', (1, dec, kl, n, ip, 0), bv(8, kl, 0xfe, n, 0))
            yield Case('cry_des_decrypt' if dec else 'cry_des_encrypt', 'h_block', (1, dec, kl, 8, 0, 1), bv(8, kl, 0xfe, 8, 1))
    # stream ciphers: output = input xor something that depends on the whole key (and iv) and on no data
    def sv(kl, ivl, n, skip=0, last=255):
        def v(F):
            out = written(F, 'out', 'output')
            for j, e in enumerate(F.dumps.get('out') or []):
                d = deps(F, e)
                for i in range(n):
                    x = d.get(('in', i), 0)
                    if i == j and x != 255: out.append(('C18', 'stream', 'output byte %d does not carry input byte %d' % (j, i))); break
                    if i != j and x: out.append(('C18', 'stream', 'output byte %d depends on input byte %d: the keystream depends on data' % (j, i))); break
                else:
                    for nm, c in (('key', kl), ('iv', ivl)):
                        miss = [i for i in range(c) if d.get((nm, i), 0) != 255]
                        if miss: out.append(('C18', 'key', 'output byte %d does not depend on %s byte %d' % (j, nm, miss[0]))); break
                if out: break
            return out
        return v
    for kl in (1, 5, 16, 255, 256) if not th else (1, 2, 5, 16, 32, 100, 255, 256):
        for n1, n2 in ((0, 0), (1, 0), (20, 0), (7, 9)):
            for ip in (0, 1): yield Case('cry_arc4_crypt', 'h_stream', (0, 0, kl, 0, n1, n2, ip), sv(kl, 0, n1 + n2))
    for kl, ivl in ((10, 10), (10, 4), (7, 10), (1, 0)):
        for n1, n2 in ((0, 0), (1, 0), (3, 0), (4, 0), (9, 0), (16, 0), (18, 0), (8, 13)):
            for ip in (0, 1): yield Case('cry_trivium_crypt', 'h_stream', (1, 0, kl, ivl, n1, n2, ip), sv(kl, ivl, n1 + n2))
    # affine: byte i uses key byte i mod length (multiplier constant here), hill: block by block
    def av(kl, n):
        def v(F):
            out = written(F, 'out', 'output')
            for j, e in enumerate(F.dumps.get('out') or []):
                d = {k for k in deps(F, e)}
                exp = {('in', j), ('iv', j % kl)}
                if d != exp: out.append(('C18', 'classic', 'output byte %d depends on %s, expected input byte %d and key byte %d' % (j, sorted(d), j, j % kl))); break
            return out
        return v
    for dec in (0, 1):
        for kl in (1, 2, 7, 32):
            for n in (0, 1, 6, 7, 8, 33, 300) if kl != 1 else (0, 1, 2, 33):
                for ip in (0, 1): yield Case('cry_affine_decrypt' if dec else 'cry_affine_encrypt', 'h_stream', (2, dec, kl, kl, n, 0, ip), av(kl, n))
    def hv(dim, n, dec):
        def v(F):
            out = written(F, 'out', 'output')
            for j, e in enumerate(F.dumps.get('out') or []):
                d = set(deps(F, e)); b = j // dim * dim; r = j % dim
                exp = set(B('in', min(dim, n - b), b)) | set(B('iv' if dec else 'key', min(dim, n - b), r * dim))
                if d != exp: out.append(('C18', 'classic', 'output byte %d depends on %s, expected its block and row %d of the key matrix' % (j, sorted(d)[:6], r))); break
            return out
        return v
    for dec in (0, 1):
        for dim in (1, 2, 3, 4, 5, 10):
            for nb in (0, 1, 3):
                for ip in (0, 1): yield Case('cry_hill_decrypt' if dec else 'cry_hill_encrypt', 'h_stream', (3, dec, dim * dim, dim * dim, nb * dim, 0, ip), hv(dim, nb * dim, dec))
            for n in sorted({1, dim - 1, dim + 1, 2 * dim - 1, 3 * dim - 1} - {0}):
                yield Case('cry_hill_decrypt' if dec else 'cry_hill_encrypt', 'h_stream', (3, dec, dim * dim, dim * dim, n, 0, 0), hv(dim, n, dec))

# ---- digests: the compression function is uninterpreted ----------------------
HASHES = [  # name, api prefix, block, state bytes (written by compression), digest, word, big endian digest, length field, initial value
    ('md5', 64, 16, 16, 4, False, 8, '0123456789abcdeffedcba9876543210'),
    ('sha1', 64, 20, 20, 4, True, 8, None),
    ('sha256', 64, 32, 32, 4, True, 8, None),
    ('sha512', 128, 64, 64, 8, True, 16, None),
    ('sha384', 128, 64, 48, 8, True, 16, None),
]
def primes(n):
    out = []; k = 2
    while len(out) < n:
        if all(k % p for p in out): out.append(k)
        k += 1
    return out
def iroot(x, k):
    lo, hi = 0, 1 << (x.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= x: lo = m
        else: hi = m - 1
    return lo
def frac_root(p, k, bits): return iroot(p << (bits * k), k) & ((1 << bits) - 1)
def hash_iv(name):
    """initial state words, from their definition"""
    if name == 'md5' or name == 'sha1':
        b = bytes.fromhex('0123456789abcdeffedcba9876543210' + ('f0e1d2c3' if name == 'sha1' else ''))
        return [int.from_bytes(b[i:i + 4], 'little') for i in range(0, len(b), 4)]
    if name == 'sha256': return [frac_root(p, 2, 32) for p in primes(8)]
    if name == 'sha512': return [frac_root(p, 2, 64) for p in primes(8)]
    if name == 'sha384': return [frac_root(p, 2, 64) for p in primes(16)[8:]]
def hash_pad(name, n, block, lf):
    pad = [0x80] + [0] * ((block - lf - 1 - n) % block)
    return pad + list((8 * n).to_bytes(lf, 'little' if name == 'md5' else 'big'))
def compressors(mod, name):
    """functions that may be the compression function, best guess first"""
    pre = 'cry_' + ('sha512' if name == 'sha384' else name)
    own = {pre + x for x in ('_update', '_digest', '_init', '_clear', '')} | {'cry_sha384'}
    size = {}; cg = {}
    def callees(f):
        if f not in cg:
            cg[f] = {I.x[1] for b in mod.funcs[f].blocks.values() for I in b if I.op == 'call' and I.x[0] == 'g' and I.x[1] in mod.funcs}
        return cg[f]
    def reach(f):
        seen = set(); st = [f]
        while st:
            x = st.pop()
            if x in seen or x not in mod.funcs: continue
            seen.add(x); st += callees(x)
        return seen
    c = (reach(pre + '_update') | reach(pre + '_digest')) - own
    w = lambda f: sum(sum(len(b) for b in mod.funcs[g].blocks.values()) for g in reach(f) - own)
    return sorted((f for f in c if len(mod.funcs[f].params) >= 2), key=lambda f: -w(f))
def hash_case(hi, how, ns, cand):
    name, block, st, ds, word, be, lf, _ = HASHES[hi]
    n = sum(ns)
    def setup(F):
        F.absfun = cand; F.blocks = []; F.chain = []
        def do(F, R):
            T = F.T_
            state = sorted(x for x in R.w if x in R.r); blk = sorted(x for x in R.r if x not in R.w)
            if len(state) != st or len(blk) != block or len({x[0] for x in blk}) != 1: raise Limit('%s is not a compression function' % cand)
            sin = tuple(T.canon(R.r[x]) for x in state); bin_ = tuple(T.canon(R.r[x]) for x in blk)
            if name == 'md5' and 0: pass
            tid = T.app('C', sin, bin_)
            for x, e in zip(state, T.fresh(tid, st)): F.w(x[0]).b[x[1]] = e
        F.absdo = do
    def v(F):
        T = F.T_
        iv = [b for w in hash_iv(name) for b in w.to_bytes(word, 'little')]
        msg = X('in', n) + hash_pad(name, n, block, lf)
        s = tuple(iv)
        for i in range(0, len(msg), block):
            b = msg[i:i + block]
            t = T.app('C', s, tuple(b)); s = tuple((frozenset([(t, k)]), 0) for k in range(st))
        exp = []
        for k in range(ds):
            w, o = divmod(k, word); exp.append(s[w * word + (word - 1 - o if be else o)])
        return [('C17', 'padding', m) for m in differs(F, 'out', exp, 'digest')] + written(F, 'out', 'digest')
    c = Case('cry_%s' % name + ('' if how == 1 else '_digest'), 'h_hash', (hi, how, ds) + tuple(ns), v)
    c.setup = setup; c.block = block; c.hi = hi
    return c
def hash_len_case(hi, how, T, ns, cand):
    name, block, st, ds, word, be, lf, _ = HASHES[hi]
    base = hash_case(hi, 0, (1, 0, 0), cand)
    def setup(F):
        base.setup(F); do = F.absdo
        def do2(F, R):
            if F.watch:
                F.dumps['count'] = getb(F, F.watch[0], F.watch[1]); raise Done()
            do(F, R)
        F.absdo = do2
    def v(F):
        if F.ret is None or F.ret == ('k', 99): F.vague = 'the counter of the context is not understood'; return []
        w = F.ret[1]
        if how:
            g = F.dumps.get('count')
            if g is None or any(type(e) is not int for e in g): F.vague = 'the counter is not followed'; return []
            c = sum(e << (8 * k) for k, e in enumerate(g)); M = (1 << (8 * len(g))) - 1
            if c not in [x << w & M for x in (T, T + block, T + ns[0])]:
                return [('C17', 'length', 'after %d bytes, a call with %d bytes leaves the counter at %d%s' % (T, ns[0], c, ' bits' if w else ''))]
            return []
        Tm = F.T_; iv = tuple(b for x in hash_iv(name) for b in x.to_bytes(word, 'little'))
        t = Tm.app('C', iv, tuple(X('in0', block))); s = tuple((frozenset([(t, k)]), 0) for k in range(st))
        n = sum(ns); msg = X('in', n) + hash_pad(name, n, block, lf)[:-lf] + list((8 * (T + n) & ((1 << (8 * lf)) - 1)).to_bytes(lf, 'little' if name == 'md5' else 'big'))
        for i in range(0, len(msg), block):
            t = Tm.app('C', s, tuple(msg[i:i + block])); s = tuple((frozenset([(t, k)]), 0) for k in range(st))
        exp = []
        for k in range(ds):
            q, o = divmod(k, word); exp.append(s[q * word + (word - 1 - o if be else o)])
        return [('C17', 'length', 'after %d bytes: %s' % (T, m)) for m in differs(F, 'out', exp, 'digest')]
    c = Case('cry_%s_update' % ('sha512' if name == 'sha384' else name), 'h_hashlen', (hi, how, ds, T >> 64, T & ((1 << 64) - 1)) + tuple(ns), v)
    c.setup = setup
    return c
def splits(n, block):
    yield (n, 0, 0)
    for a in (1, block // 2, block - 1, block, block + 1):
        if 0 < a < n: yield (a, n - a, 0)
    if n > 5: yield (3, n - 5, 2)
    if n > block + 5: yield (block - 3, 5, n - block - 2)
def hash_lens(block, lf, th):
    l = [0, 1, 3, block - lf - 2, block - lf - 1, block - lf, block - lf + 1, block - 1, block, block + 1, 2 * block - lf - 1, 2 * block - lf, 2 * block - 1, 2 * block, 2 * block + 1, 3 * block + 5]
    return sorted(set(l)) if not th else list(range(0, 3 * block + 7))
def hash_cases(tier, mod):
    th = tier == 'thorough'
    for hi, h in enumerate(HASHES):
        cands = compressors(mod, h[0])
        if not cands: continue
        good = cands[0]
        for cd in cands:           # the first that behaves like one
            try:
                c = hash_case(hi, 0, (h[1] + 1, 0, 0), cd); r = run_case(mod, c)
            except KeyError: continue
            if not r.limit: good = cd; break
        for n in hash_lens(h[1], h[6], th):
            for s in splits(n, h[1]): yield hash_case(hi, 0, s, good)
            yield hash_case(hi, 1, (n, 0, 0), good)
        for n in (5, h[1] + 9): yield hash_case(hi, 2, (n, 0, 0), good)
        b = h[1]; top = 1 << (61 if h[6] == 8 else 125)
        for e in (16, 24, 28, 29, 30, 31, 32, 33, 35, 40, 48, 56, 60, 61, 62, 63, 64, 65, 70, 100) if th else (28, 29, 31, 32, 33, 40, 60, 61, 64, 70):
            for T in ((1 << e) - b, 1 << e, (3 << e) - b):
                if T + 4 * b >= top: continue
                for ns in ((3, 0), (b, 0), (b + 5, 0), (b - 8, 16), (b - 1, 1)): yield hash_len_case(hi, 0, T, ns, good)
        for T in (b, (1 << 29) - b, (1 << 32) - b, (1 << 61) - (1 << 40), (1 << 64) - b):
            for n in ((1 << 28) + 7, (1 << 29) - 1, (1 << 29) + 7, (1 << 30) + 100, (1 << 31) + 64, (1 << 32) - 1, (1 << 32) + 5, (1 << 35) + 9, 1 << 36):
                if T + n < top: yield hash_len_case(hi, 1, T, (n, 0), good)
def hash_dep_cases(tier):
    """with the real compression function: every digest byte depends on every message bit"""
    for hi, h in enumerate(HASHES):
        for n in (1, h[1] - 1, h[1], 2 * h[1] + 1):
            def v(F, n=n): return cover(F, 'out', B('in', n), 'C17', 'digest') + written(F, 'out', 'digest')
            yield Case('cry_%s_digest' % h[0], 'h_hash', (hi, 0, h[3], n, 0, 0), v)
def crc_cases(tier):
    nm = ['cry_crc16_ccitt', 'cry_crc16_ibm', 'cry_crc16_dnp', 'cry_crc32_eth']
    for c in range(4):
        for how in (0, 1, 2):
            for n1, n2 in ((0, 0), (1, 0), (2, 0), (5, 0), (3, 4), (16, 1)):
                if how == 1 and n2: continue
                def v(F, n=n1 + n2): return cover(F, 'out', B('in', n), 'C17', 'checksum', each=False) + written(F, 'out', 'checksum')
                yield Case(nm[c], 'h_crc', (c, how, n1, n2), v)

def misc_cases(tier):
    th = tier == 'thorough'
    for n in range(0, 20 if not th else 60):
        def v(F, n=n):
            out = written(F, 'out', 'text')
            if F.ret != ('k', (n + 2) // 3 * 4): out.append(('C14', 'length', 'returns %s for %d bytes, must be %d' % (F.ret, n, (n + 2) // 3 * 4)))
            for j, e in enumerate(F.dumps.get('out') or []):
                d = deps(F, e); g = j // 4 * 3; k = j % 4
                exp = {}
                for i, b in (((g, 0xfc),), ((g, 3), (g + 1, 0xf0)), ((g + 1, 0x0f), (g + 2, 0xc0)), ((g + 2, 0x3f),))[k]:
                    if i < n: exp[('in', i)] = b
                if d != exp: out.append(('C14', 'encoding', 'character %d depends on %s, expected the bits %s' % (j, d, exp))); break
            return out
        yield Case('cry_base64_encode', 'h_b64e', (n,), v)
    for n in (0, 4, 8, 12, 1, 2, 3, 5, 7):
        for pad in (0, 1, 2): yield Case('cry_base64_decode', 'h_b64d', (n, pad), lambda F: [])
    for n in range(0, 24):
        def v(F, n=n): return written(F, 'out', 'output')
        yield Case('cry_prng_lfsr113_rand', 'h_lfsr0', (n,), v)
        yield Case('cry_prng_aes_rand', 'h_prng0', (n,), v, aes=True)
        for s in (0, 1, 7, 16, 17, 40) if n < 9 else (7, 17):
            yield Case('cry_prng_lfsr113_rand', 'h_lfsr', (s, n, 3), v)
    for s in (0, 1, 15, 16, 20, 32, 50):
        for ns in ((5, 11, 3), (40, 0, 0), (16, 1, 31)):
            def v(F): return written(F, 'out', 'output')
            yield Case('cry_prng_aes_rand', 'h_prng', (s, 1) + ns + (0,), v, aes=True)
    # xor helpers: any layout of the operands inside one block of memory
    def xv(n, d, srcs, tot):
        def v(F):
            for j, g in enumerate(F.dumps.get('out') or []):
                e = X('m', 1, j)[0]
                if d <= j < d + n:
                    x = [0]
                    for s in srcs: x = xor(x, X('m', 1, s + j - d))
                    e = x[0]
                c = F.T_.canon(g)
                if c != e: return [('C14', 'xor', 'with the result at offset %d and operands at %s (%d bytes), byte %d becomes %s instead of %s' % (d, list(srcs), n, j, show(F.T_, c), show(F.T_, e)))]
            return []
        return v
    for n in (0, 1, 2, 3, 5) if not th else range(0, 8):
        for d in range(0, 2 * n + 2):
            for s in range(0, 2 * n + 2):
                tot = max(d, s) + n
                yield Case('cry_memxor', 'h_memxor', (n, d, s, tot), xv(n, d, (d, s), tot))
    for n in (1, 2, 3, 4) if not th else range(0, 7):
        for d in range(0, 2 * n + 1):
            for s1 in range(0, 2 * n + 1):
                for s2 in range(0, 2 * n + 1):
                    tot = max(d, s1, s2) + n
                    yield Case('cry_memxor2', 'h_memxor2', (n, d, s1, s2, tot), xv(n, d, (s1, s2), tot))
    # key wrap: sizes
    for kl in (16, 24, 32):
        for n in (0, 1, 7, 8, 9, 16, 24):
            ok = n and n % 8 == 0
            def v(F, ok=ok, n=n): return (written(F, 'out', 'output') if ok else []) + ([] if ok or F.ret == ('k', (1 << 64) - 1) or (F.ret and F.ret[0] == 'k' and F.ret[1]) else [('C14', 'length', 'accepts %d bytes' % n)])
            yield Case('cry_aes_wrap', 'h_wrap', (0, kl, n, 0), v, aes=True)
            yield Case('cry_aes_wrap', 'h_wrap', (0, kl, n, 1), v, aes=True)
            yield Case('cry_aes_unwrap', 'h_wrap', (1, kl, n, 0), v, aes=True)

# ---- exact results in the affine domain ---------------------------------------
GPOLY = 0xe1 << 120
def galpha(v): return (v >> 1) ^ (GPOLY if v & 1 else 0)
def gmul(x, y):
    z = 0
    for i in range(128):
        if x >> (127 - i) & 1: z ^= y
        y = galpha(y)
    return z
def ginv(x):
    r = 1 << 127; e = (1 << 128) - 2; b = x
    while e:
        if e & 1: r = gmul(r, b)
        b = gmul(b, b); e >>= 1
    return r
def fbits(bs):
    """forms of a list of canonical bytes, first bit first"""
    out = []
    for b in bs:
        f = affine.forms(b if type(b) is int else (0, b, 0))
        out += reversed(f)
    return out
def funbits(fs):
    out = []
    for i in range(0, len(fs), 8):
        e = affine.norm(list(reversed(fs[i:i + 8])))
        out.append(e if type(e) is int else e[1])
    return out
def xf(p, q): return [a ^ b for a, b in zip(p, q)]
_vs = {}
def mulh(fs, h):
    if h not in _vs:
        v = h; t = []
        for i in range(128): t.append([j for j in range(128) if v >> (127 - j) & 1]); v = galpha(v)
        _vs[h] = t
    r = [0] * 128
    for f, js in zip(fs, _vs[h]):
        if f:
            for j in js: r[j] ^= f
    return r
def ghash(h, parts, lens):
    x = [0] * 128
    for p in parts:
        for b in blocks(p, 16): x = mulh(xf(x, fbits(b + [0] * (16 - len(b)))), h)
    return mulh(xf(x, fbits(list((8 * lens[0]).to_bytes(8, 'big')) + list((8 * lens[1]).to_bytes(8, 'big')))), h)
def cx(a, b):
    """exclusive-or of canonical bytes of the affine domain"""
    return funbits(xf(fbits(a), fbits(b)))
def linear_cases(tier):
    th = tier == 'thorough'
    HK = [list(range(1, 17)), [0x80] + [0] * 15, [0] * 15 + [1], [0xe3 ^ (37 * i & 255) for i in range(16)]]
    def AX(F, nm, n, a=0): return [F.T_.canon(F.fresh(nm, i)) for i in range(a, a + n)]
    def given(F, k, n):
        v = F.fill.get(k); nm = {0: 'iv', 1: 'aad', 2: 'in'}[k]
        return AX(F, nm, n) if v is None else [AX(F, nm, 1, i)[0] if b is None else b for i, b in enumerate(v[:n])]
    def spec(hk, dec, ivl, aads, ns):
        h = int.from_bytes(bytes(hk), 'big')
        def f(F):
            T = F.T_; key = tuple(AX(F, 'key', 16)); iv = given(F, 0, ivl)
            def E(c): t = T.app('E', key, c); return AX(F, t, 16)
            j0 = iv + [0, 0, 0, 1] if ivl == 12 else funbits(ghash(h, [iv], (0, ivl)))
            al = sum(aads); n = sum(ns); aad = given(F, 1, al); data = given(F, 2, n); out = []; c = j0; ct = []
            for m in ns:
                for b in blocks(data[len(out):len(out) + m], 16):
                    if any(type(x) is not int for x in c[12:]): c = c[:12] + ['?'] * 4
                    else: c = c[:12] + inc(c[12:])
                    out += cx(b, E(c)[:len(b)]) if '?' not in c else [None] * len(b)
            ct = data if dec else out
            if None in ct: return out, None
            pa = [aad[i:j] for i, j in ((0, aads[0]), (aads[0], al))]; pc = [ct[i:j] for i, j in ((0, ns[0]), (ns[0], n))]
            tag = cx(funbits(ghash(h, [x for x in pa + pc if x], (al, n))), E(j0))
            return out, tag
        return f
    def gv(hk, dec, ivl, aads, ns, tl):
        sp = spec(hk, dec, ivl, aads, ns)
        def v(F):
            out, tag = sp(F); r = [('C16', 'wiring', m) for m in differs(F, 'out', out, 'output')]
            if tag is not None: r += [('C16', 'wiring', m) for m in differs(F, 'tag', tag[:tl], 'tag')]
            got = F.dumps.get('tag') or []
            if tag is not None and tl == 16 and all(type(e) is int or e != 'ptr' and e[1] is not None for e in got):
                # input bits that do not reach the tag at all, though they should
                m = 0; w = 0
                for e in got: m |= m_(e)
                for e in tag:
                    if type(e) is not int:
                        for x in e: w |= x
                lost = [k for k in F.names(w & ~m & ~1) if k[0] in ('aad', 'in', 'iv')]
                if lost: r.append(('C12', 'coverage', 'the tag does not depend on %s byte %d' % ({'aad': 'associated data', 'in': 'message'}.get(lost[0][0], 'nonce'), lost[0][1])))
            return r
        return v
    def case(fn, hk, dec, ivl, aads, ns, tl=16, ip=0, reuse=0, fill=None):
        return Case(fn, 'h_gcmx', (dec, ivl) + aads + ns + (tl, ip, reuse), gv(hk, dec, ivl, aads, ns, tl), e0=hk, aff=True, fill=fill or {})
    for dec in (0, 1):
        fn = 'cry_gcm_decrypt' if dec else 'cry_gcm_encrypt'
        for hk in HK if th else HK[:1] + HK[3:]:
            for al, ns in (((0, 0), (16, 0)), ((5, 0), (17, 0)), ((16, 3), (32, 5)), ((20, 0), (0, 0)), ((0, 0), (33, 0))) + ((((16, 16), (48, 16)), ((1, 0), (15, 0)), ((31, 0), (31, 0))) if th else ()):
                for ip in (0, 1): yield case(fn, hk, dec, 12, al, ns, ip=ip)
        for hk in HK[1:3]: yield case(fn, hk, dec, 12, (17, 0), (20, 0))
        for tl in (4, 12, 15): yield case('cry_gcm_digest', HK[0], dec, 12, (3, 0), (5, 0), tl=tl)
        for r in (1, 2): yield case('cry_gcm_iv_set', HK[0], dec, 12, (3, 0), (18, 0), reuse=r)
        # other nonce lengths: nonce unknown and empty message, or nonce fixed
        for ivl in (1, 8, 11, 13, 16, 17, 31, 32, 33):
            yield case('cry_gcm_iv_set', HK[0], dec, ivl, (0, 0), (0, 0))
            yield case('cry_gcm_iv_set', HK[3], dec, ivl, (2, 0), (18, 0), fill={0: [(7 * i + 3) & 255 for i in range(ivl)]})
        for r in (1, 2): yield case('cry_gcm_iv_set', HK[0], dec, 16, (3, 0), (18, 0), reuse=r, fill={0: [(9 * i + 1) & 255 for i in range(16)]})
        # the 32 bit counter wraps without touching the rest
        for hk in HK[:1] + HK[3:]:
            h = int.from_bytes(bytes(hk), 'big'); hi = ginv(h)
            for low in (0xffffffff, 0xfffffffe, 0x00ffffff, 0xfffffffd):
                j0 = (0x5a5aff00ffffffff77ffffff << 32) | low
                iv = gmul(gmul(j0, hi) ^ 128, hi)
                for ns in ((50, 0), (16, 33)):
                    yield case(fn, hk, dec, 16, (0, 0), ns, fill={0: list(iv.to_bytes(16, 'big'))})
    # recorded lengths, whatever they are (as far as a count of bits fits 64 bits)
    for w in (0, 1):
        for hk in HK[:1] + HK[3:]:
            def lspec(F, w=w, h=int.from_bytes(bytes(hk), 'big')):
                l = fbits(AX(F, 'len', 8)); l = [l[8 * i + b] for i in range(7, -1, -1) for b in range(8)]      # most significant bit first
                l = l[3:] + [0] * 3; z = [0] * 64
                return cx(funbits(mulh(z + l if w else l + z, h)), AX(F, F.T_.app('E', tuple([1] * 16), [2] * 12 + [0, 0, 0, 1]), 16))
            yield Case('cry_gcm_digest', 'h_gcm_len', (w,), wire('tag', lspec, 'tag'), e0=hk, aff=True)
    # a longer nonce, associated data or message never gives the same tag
    def pv(which):
        def v(F):
            a, b = F.dumps['tag'], F.dumps['tag2']
            if a == b and all(type(e) is int or e[1] is not None for e in a): return [('C12', 'length', 'a zero byte appended to the %s leaves the tag as it is: its length is not covered' % ('nonce', 'associated data', 'ciphertext')[which])]
            return []
        return v
    for which in (0, 1, 2):
        for ivl, al, n in ((8, 5, 7), (13, 3, 20), (20, 17, 3)) if which == 0 else ((12, 5, 7), (12, 14, 30), (12, 0, 0), (12, 20, 1)):
            yield Case('cry_gcm_digest', 'h_gcmpair', (which, ivl, al, n), pv(which), e0=HK[0], aff=True, fill={0: [(5 * i + 9) & 255 for i in range(ivl)]} if which else {})
    # CMAC with the encrypted zero block unknown
    def cspec(n, kl):
        def f(F):
            T = F.T_; key = tuple(AX(F, 'key', kl))
            def E(c): return AX(F, T.app('E', key, c), 16)
            def dbl(b):
                f = fbits(b); r = f[1:] + [0]
                for k in (0, 1, 2, 7): r[127 - k] ^= f[0]
                return funbits(r)
            k1 = dbl(E([0] * 16)); k2 = dbl(k1); bl = blocks(AX(F, 'in', n), 16) or [[]]; mac = [0] * 16
            for b in bl[:-1]: mac = E(cx(b, mac))
            l = bl[-1]; l = cx(l, k1) if len(l) == 16 else cx(l + [0x80] + [0] * (15 - len(l)), k2)
            return E(cx(l, mac))
        return f
    for kl in (16, 24, 32):
        for n in (0, 3, 15, 16, 17, 32, 41):
            yield Case('cry_cmac_digest', 'h_cmac', (0, kl, n, 0, 0), wire('tag', cspec(n, kl), 'tag'), aff=True)
            if n > 2: yield Case('cry_cmac_digest', 'h_cmac', (0, kl, n - 2, 2, 0), wire('tag', cspec(n, kl), 'tag'), aff=True)

# CRC: reflected polynomial, start value, complemented, bytes swapped
CRCS = [('cry_crc16_ccitt', 16, 0x8408, 0xffff, True, True), ('cry_crc16_ibm', 16, 0xa001, 0xffff, False, False),
        ('cry_crc16_dnp', 16, 0xa6bc, 0, True, True), ('cry_crc32_eth', 32, 0xedb88320, 0xffffffff, True, False)]
def crc_forms(w, poly, crc, data, compl, swap):
    """crc: list of w forms (lowest bit first); data: bytes as eight forms"""
    for d in data:
        for i in range(8): crc[i] ^= d[i]
        for _ in range(8):
            lo = crc[0]; crc = crc[1:] + [0]
            for i in range(w):
                if poly >> i & 1: crc[i] ^= lo
    if compl: crc = [f ^ 1 for f in crc]
    by = [crc[i:i + 8] for i in range(0, w, 8)]
    return by[::-1] if swap else by            # lowest byte first
def canon8(by): return [(lambda e: e if type(e) is int else e[1])(affine.norm(b)) for b in by]
LF = ((6, 13, 1, 18), (2, 27, 7, 2), (13, 21, 15, 7), (3, 12, 127, 13))
def lfsr_forms(z):
    """one step; z: four lists of 32 forms -> (new z, 32 forms of the output)"""
    out = [0] * 32; nz = []
    for (a, b, low, c), x in zip(LF, z):
        t = [x[i] ^ (x[i - a] if i >= a else 0) for i in range(32)]
        t = t[b:] + [0] * b
        k = low.bit_length(); y = [0 if i < k else x[i] for i in range(32)]
        y = [0] * c + y[:32 - c]
        y = [p ^ q for p, q in zip(y, t)]
        nz.append(y); out = [p ^ q for p, q in zip(out, y)]
    return nz, out
def poly_cases(tier):
    """C19"""
    th = tier == 'thorough'
    def AF(F, nm, n, a=0): return [affine.forms(F.fresh(nm, i)) for i in range(a, a + n)]
    def verify(exp, what):
        def v(F):
            r = [('C19', 'polynomial', m) for m in differs(F, 'out', exp(F), what)]
            if not r and F.bent:
                o, k, w = F.bent[0]
                return [('C19', 'table', 'the value taken from %s is not an exclusive-or of the bits that select it: entry %d does not fit the others' % (o, k))]
            return r
        return v
    for c, (nm, w, poly, start, compl, swap) in enumerate(CRCS):
        for how in (0, 1, 2):
            for n1, n2 in ((0, 0), (1, 0), (2, 0), (3, 0), (5, 0), (3, 4), (1, 1), (16, 1), (0, 2)) + (((40, 7), (64, 0)) if th else ()):
                if how == 1 and n2: continue
                def exp(F, n=n1 + n2, how=how, w=w, poly=poly, start=start, compl=compl, swap=swap):
                    by = crc_forms(w, poly, [start >> i & 1 for i in range(w)], AF(F, 'in', n), compl, swap)
                    return canon8(by[::-1] if how == 0 else by)
                yield Case(nm, 'h_crc', (c, how, n1, n2), verify(exp, 'checksum'), aff=True)
    # any start value and flags, with a table of the caller
    for w, poly in ((16, 0xd3c1), (32, 0x82f63b78)):
        for fl in range(4):
            for how in (0, 2):
                for n1, n2 in ((0, 0), (1, 0), (4, 0), (2, 3)):
                    def exp(F, n=n1 + n2, how=how, w=w, poly=poly, fl=fl):
                        st = sum((list(f) for f in AF(F, 'start', w // 8)), [])
                        by = crc_forms(w, poly, st, AF(F, 'in', n), fl & 1, fl & 2)
                        return canon8(by[::-1] if how == 0 else by)
                    yield Case('cry_crc%d_final' % w if how else 'cry_crc%d_digest' % w, 'h_crcx', (w, poly, fl, how, n1, n2), verify(exp, 'checksum'), aff=True)
    # LFSR113: one high bit of every component is fixed, so that the seed is taken as it is
    for s in (16, 17, 24, 32, 40):
        seed = [0x80 if i < 16 and i % 4 == 3 else 0 if i % 4 == 3 else None for i in range(s)]
        for n1, n2 in ((4, 0), (1, 0), (7, 0), (8, 8), (5, 6), (3, 16)):
            def exp(F, s=s, n1=n1, n2=n2, seed=seed):
                z = [[0] * 8 for _ in range(16)]
                for i, b in enumerate(seed):
                    f = affine.forms(F.fresh('seed', i)) if b is None else affine.forms(b)
                    z[i % 16] = [p ^ q for p, q in zip(z[i % 16], f)]
                z = [sum(z[4 * k:4 * k + 4], []) for k in range(4)]
                return lfsr_out(z, (n1, n2))
            yield Case('cry_prng_lfsr113_rand', 'h_lfsrx', (s, n1, n2), verify(exp, 'output'), aff=True, fill={3: seed})
    # seeds a component cannot use are replaced by the documented default, all others are kept
    for k, (a, b, low, c) in enumerate(LF):
        for v in sorted({0, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 126, 127, 128, 129, 256, 1 << 31, low, low + 1}):
            seed = [None] * 16
            for j in range(4): seed[4 * j + 3] = 0x80
            for i in range(4): seed[4 * k + i] = v >> (8 * i) & 255
            def exp(F, k=k, v=v, low=low, seed=seed):
                z = [sum((list(affine.forms(F.fresh('seed', i) if seed[i] is None else seed[i])) for i in range(4 * j, 4 * j + 4)), []) for j in range(4)]
                if v <= low: z[k] = [987654321 >> i & 1 for i in range(32)]
                return lfsr_out(z, (12, 0))
            yield Case('cry_prng_lfsr113_init', 'h_lfsrx', (16, 12, 0), verify(exp, 'output'), aff=True, fill={3: seed})
    def exp0(F): return lfsr_out([[987654321 >> i & 1 for i in range(32)]] * 4, (20, 0))
    yield Case('cry_prng_lfsr113_rand', 'h_lfsr0', (20,), verify(exp0, 'output'), aff=True)
def lfsr_out(z, ns):
    out = []
    for n in ns:
        o = []
        while len(o) < n:
            z, r = lfsr_forms(z); o += [r[i:i + 8] for i in (24, 16, 8, 0)]
        out += o[:n]
    return canon8(out)
