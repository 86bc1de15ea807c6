"""C04: key unwrap fails closed (value analysis of the unwrap routine over arbitrary cipher output)."""
import build, common, eva
LEVEL = 'other'
IV = 0xA6
STUBS = ('cry_aes_key_set', 'cry_aes_encrypt', 'cry_aes_decrypt', 'cry_aes_init', 'cry_aes_clear')
HEAD = r'''
#include <cry/utils.h>
#include <cry/aes.h>
static size_t calls;
void cry_aes_init(cry_aes_ctx *c) { memset(c, 0, sizeof *c); }
void cry_aes_clear(cry_aes_ctx *c) { memset(c, 0, sizeof *c); }
void cry_aes_key_set(cry_aes_ctx *c, const unsigned char *k, size_t n) { fill(c, sizeof *c); }
void cry_aes_encrypt(cry_aes_ctx *c, unsigned char *o, const unsigned char *i, size_t n) { fill(o, n); }
void cry_aes_decrypt(cry_aes_ctx *c, unsigned char *o, const unsigned char *i, size_t n) {
    fill(o, n);
    calls++;
    if (calls == 6 * (LEN / 8)) {
        int x = Frama_C_interval(0, 255);
        if (x == %d) Frama_C_abort();
        o[WRONG] = x;
    }
}
''' % IV
def tamper(n, k):
    t = '#define LEN %d\n#define WRONG %d\n' % (n, k) + HEAD + r'''
static unsigned char in[LEN + 8], out[LEN], key[32];
int main(void) {
    int r, kl = Frama_C_nondet(16, Frama_C_nondet(24, 32));
    fill(in, sizeof in); fill(key, sizeof key); memset(out, 0x5A, sizeof out);
    r = cry_aes_unwrap(out, in, LEN, key, kl);
    //@ check REACH: \false;
    //@ check rejected: r < 0;
'''
    for i in range(n): t += '    //@ check wiped%d: out[%d] == 0 || out[%d] == 0x5A || out[%d] == 0xFF;\n' % (i, i, i, i)
    return t + '    return 0;\n}\n'
def badlen(ns):
    t = '#define LEN 64\n#define WRONG 0\n' + HEAD + 'static unsigned char in[LEN + 8], out[LEN], key[32];\nint main(void) {\n    int r;\n'
    for n in ns:
        t += '    fill(in, sizeof in); fill(key, sizeof key); memset(out, 0x5A, sizeof out); calls = 0;\n'
        t += '    r = cry_aes_unwrap(out, in, %d, key, 16);\n    //@ check REACH%d: \\false;\n    //@ check badlen%d: r < 0;\n' % (n, n, n)
    return t + '    return 0;\n}\n'

def run(tier):
    res = common.Result()
    m = build.module('default')
    if 'cry_aes_unwrap' not in m.funcs: raise build.CheckError('cry_aes_unwrap is gone')
    f = m.funcs['cry_aes_unwrap']
    where = common.rel('%s:%d' % (f.file, f.line))
    lens = (8, 16, 24, 40) if tier == 'quick' else (8, 16, 24, 32, 40, 48, 56, 64, 72)
    jobs = [('len%d_byte%d' % (n, k), tamper(n, k)) for n in lens for k in range(8)]
    jobs.append(('badlen', badlen([n for n in range(0, 60) if n == 0 or n % 8])))
    jobs = [dict(name=n, text=t, roots=['cry_aes_unwrap'], stubs=STUBS) for n, t in jobs]
    tot = 0; ok = []
    for j, o, v in eva.run_all(jobs):
        if o.err or o.unknown or (v.unreached and not v.reached):
            res.undecided.append('%s: %s' % (j['name'], o.err or (o.unknown and 'unknown function ' + str(o.unknown[0])) or 'the call never returns')); continue
        tot += v.obligations
        ok.append(j['name'])
        if v.failed:
            n = v.failed[0][0]
            if n.startswith('wiped'): rule, msg = 'key-data-after-failure', 'byte %s of the output may hold unwrapped data although the check value is wrong' % n[5:]
            elif n.startswith('badlen'): rule, msg = 'bad-length-accepted', 'a blob of %s bytes of key data is accepted' % n[6:]
            else: rule, msg = 'accepted', 'a recovered check value wrong in one byte is accepted'
            if not any(x.rule == rule for x in res.findings):
                res.findings.append(common.Finding(rule, 'cry_aes_unwrap', where, '%s [case %s]' % (msg, j['name']), (), rule + ':cry_aes_unwrap'))
    if not ok: raise build.CheckError('no case could be analysed: ' + (res.undecided or ['?'])[0])
    res.coverage = dict(evaluations=tot, distinct_nontrivial=len(ok), rule='evaluations = proof obligations (rejection, every output byte) over all key, blob and cipher-output values; distinct_nontrivial = cases (length, wrong check byte)', samples=ok[:10], lengths=list(lens))
    res.assumptions = ['the AES routines are replaced by arbitrary output; key data up to %d bytes' % max(lens), 'Frama-C Eva is sound']
    return res
