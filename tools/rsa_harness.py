"""Harness text for the RSA block operations: the number routines are stubbed (arbitrary results, may fail), see C03, C05, C15."""
STUBS = ('cry_mpi_count_bits', 'cry_mpi_init', 'cry_mpi_init_list', 'cry_mpi_clear', 'cry_mpi_clear_list', 'cry_mpi_load_bin', 'cry_mpi_mod_exp',
         'cry_mpi_store_bin', 'cry_prng_aes_rand', 'cry_mpi_init_bin', 'cry_mpi_init_size', 'cry_mpi_cmp', 'cry_mpi_cmp_abs', 'cry_mpi_copy', 'cry_mpi_init_copy')
def head(ml, fail=True, store='fill(buf, n);', load=''):
    f = '-nd()' if fail else '0'
    return r'''
#include <cry/rsa.h>
#include <cry/prng.h>
#define ML %(ml)d
#define FAIL %(f)s
static cry_rsa_ctx ctx;
static size_t nload, nstore;
size_t cry_mpi_count_bits(const cry_mpi *a) { return ML * 8 - 3; }
int cry_mpi_init(cry_mpi *a) { a->sign = 0; a->used = 0; a->alloc = 0; a->data = NULL; return FAIL; }
int cry_mpi_init_size(cry_mpi *a, size_t n) { a->sign = 0; a->used = 0; a->alloc = 0; a->data = NULL; return FAIL; }
int cry_mpi_init_copy(cry_mpi *a, const cry_mpi *b) { a->sign = 0; a->used = 0; a->alloc = 0; a->data = NULL; return FAIL; }
int cry_mpi_copy(cry_mpi *a, const cry_mpi *b) { return FAIL; }
int cry_mpi_init_list(cry_mpi *i, ...) { return FAIL; }
void cry_mpi_clear(cry_mpi *a) { }
void cry_mpi_clear_list(cry_mpi *i, ...) { }
int cry_mpi_cmp(const cry_mpi *a, const cry_mpi *b) { return Frama_C_interval(-1, 1); }
int cry_mpi_cmp_abs(const cry_mpi *a, const cry_mpi *b) { return Frama_C_interval(-1, 1); }
static void loaded(const u8 *buf, size_t n) {
    %(load)s
    nload++;
}
int cry_mpi_load_bin(cry_mpi *x, const void *b, size_t n) { loaded(b, n); return FAIL; }
int cry_mpi_init_bin(cry_mpi *a, const void *b, size_t n) { a->sign = 0; a->used = 0; a->alloc = 0; a->data = NULL; loaded(b, n); return FAIL; }
int cry_mpi_mod_exp(cry_mpi *r, const cry_mpi *a, const cry_mpi *e, const cry_mpi *m) { return FAIL; }
static void stored(u8 *buf, size_t n) {
    %(store)s
    nstore++;
}
int cry_mpi_store_bin(const cry_mpi *x, void *b, size_t n, int pad) {
    if (pad) stored(b, n);
    else { size_t m = Frama_C_interval_split(0, n); fill(b, m); }
    return FAIL;
}
int cry_prng_aes_rand(unsigned char *d, size_t n) { fill(d, n); return FAIL; }
''' % dict(ml=ml, f=f, store=store, load=load)

def pkcs1(ml, msg):
    """the only block that verification of msg may accept"""
    return [0, 1] + [0xFF] * (ml - 3 - len(msg)) + [0] + list(msg)
def raw(ml, msg): return list(msg) + [0] * (ml - len(msg))

def verify(ml, msg, pos, padding, exps):
    """some recovered block differs from the expected one at `pos` (counted over all blocks, all other bytes unknown): verification must fail"""
    blk, off = divmod(pos, ml)
    st = 'size_t i; for (i = 0; i < n; i++) buf[i] = Frama_C_unsigned_char_interval(0, 255);\n    if (nstore == %d) { int x = Frama_C_interval(0, 255); if (x == %d) Frama_C_abort(); buf[%d] = x; }' % (blk, exps[blk][off], off)
    t = head(ml, False, st) + 'static u8 sig[%d * ML]; static const u8 msg[] = { %s };\n' % (len(exps), ', '.join(map(str, msg)))
    return t + r"""
int main(void) {
    int r;
    ctx.padding = %s;
    fill(sig, sizeof sig);
    r = cry_rsa_verify(&ctx, sig, sizeof sig, msg, %d);
    //@ check REACH: \false;
    //@ check rejected: r != 0;
    return 0;
}
""" % (padding, len(msg))
def blocks(ml, msg, pkcs):
    """the only recovered blocks that verification of msg may accept"""
    n = ml - 11 if pkcs else ml
    return [pkcs1(ml, msg[i:i + n]) if pkcs else raw(ml, msg[i:i + n]) for i in range(0, len(msg), n)]
def verify_short(ml, padding):
    """fewer than eight padding bytes"""
    t = head(ml, False, 'size_t i; memset(buf, 0xFF, n); buf[0] = 0; buf[1] = 1; buf[n - 1 - mlen] = 0; for (i = 0; i < mlen; i++) buf[n - mlen + i] = msg[i];').replace('static cry_rsa_ctx ctx;', 'static cry_rsa_ctx ctx; static u8 msg[ML]; static size_t mlen;')
    t += 'static u8 sig[ML];\nint main(void) {\n    int r;\n    ctx.padding = %s;\n    fill(sig, sizeof sig); memset(msg, 0x77, sizeof msg);\n' % padding
    for k in range(ml - 10, ml - 2): t += '    mlen = %d; r = cry_rsa_verify(&ctx, sig, ML, msg, mlen);\n    //@ check REACH%d: \\false;\n    //@ check short%d: r != 0;\n' % (k, k, k)
    return t + '    return 0;\n}\n'
def verify_len(ml, msg, padding, exp, siglens):
    """signatures of the wrong length, whatever they recover to"""
    st = 'static const u8 e[] = { %s }; memcpy(buf, e, n);' % ', '.join(map(str, exp))
    t = head(ml, False, st) + 'static u8 sig[%d]; static const u8 msg[] = { %s };\nint main(void) {\n    int r;\n    ctx.padding = %s;\n    fill(sig, sizeof sig);\n' % (max(siglens) + 1, ', '.join(map(str, msg)), padding)
    for n in siglens:
        t += '    r = cry_rsa_verify(&ctx, sig, %d, msg, %d);\n    //@ check REACH%d: \\false;\n    //@ check siglen%d: r != 0;\n' % (n, len(msg), n, n)
    # message of another length than the recovered one
    for k in range(0, len(msg)):
        t += '    r = cry_rsa_verify(&ctx, sig, ML, msg, %d);\n    //@ check REACHm%d: \\false;\n    //@ check msglen%d: r != 0;\n' % (k, k, k)
    return t + '    return 0;\n}\n'
def verify_fault(ml, msg, padding, exp):
    """the right block, but some internal step fails"""
    st = 'static const u8 e[] = { %s }; memcpy(buf, e, n);' % ', '.join(map(str, exp))
    t = head(ml, True, st)
    t = t.replace('#define FAIL -nd()', 'static int anyfail;\nstatic int may(void) { if (nd()) { anyfail = 1; return -1; } return 0; }\n#define FAIL may()')
    t += 'static u8 sig[ML]; static const u8 msg[] = { %s };\n' % ', '.join(map(str, msg))
    return t + r'''
int main(void) {
    int r;
    ctx.padding = %s;
    fill(sig, sizeof sig);
    r = cry_rsa_verify(&ctx, sig, ML, msg, %d);
    //@ check REACH: \false;
    //@ check fault: !(anyfail == 1 && r == 0);
    return 0;
}
''' % (padding, len(msg))
