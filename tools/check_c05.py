"""C05: what the library draws comes from the cryptographic generator, is fresh, is as wide as the group, and reaches the value in use."""
import build, common, eva, flow, affine, symm, nummodel as nm, rsa_harness as rsa
from check_c03 import CTX
LEVEL = 'other'
# other sources of (pseudo) randomness
WEAK = {'cry_prng_lfsr113_rand', 'cry_prng_lfsr113_init', 'rand', 'rand_r', 'random', 'srand', 'srandom', 'drand48', 'lrand48', 'mrand48', 'erand48', 'nrand48', 'jrand48', 'srand48',
        'time', 'clock', 'gettimeofday', 'clock_gettime', 'getpid', 'getrandom', 'getentropy', 'arc4random', 'arc4random_buf', 'arc4random_uniform', 'times', 'rdtsc'}
SEED = {'cry_prng_aes_init'}
GENERATOR = {'cry_prng_aes_rand', 'cry_prng_aes_init', 'cry_prng_lfsr113_rand', 'cry_prng_lfsr113_init'}
HARN = r'''
#include <cry/mpi.h>
#include <cry/hill.h>
#include <stdlib.h>
#include <string.h>
typedef size_t Z;
void v_num(const cry_mpi *, const char *); void v_ret(long); void v_dump(const void *, size_t, const char *);
void h_rand(Z bits, Z junk)
{
    cry_mpi a; long r; cry_mpi_init(&a); if (junk) cry_mpi_set_int(&a, 0x1234567); r = cry_mpi_rand(&a, bits); v_ret(r); v_num(&a, "a");
}
#ifndef V_NOFIELDS
void h_hill(Z kl)
{
    cry_hill_ctx c; v_ret(cry_hill_init(&c, NULL, NULL, kl)); v_dump(c.key, kl, "key");
}
#endif
'''
def callers(mod, res):
    """no function outside the generators themselves reaches for another source, or for the seed of the generator"""
    n = 0
    def body(f): return f.file or ''
    inside = set(GENERATOR)
    for g in GENERATOR:
        if g in mod.funcs:
            inside |= {f.name for f in mod.funcs.values() if f.file == mod.funcs[g].file}
    for f in mod.funcs.values():
        if f.name in inside: continue
        for I in f.instrs():
            refs = [v[1] for t, v in I.args if isinstance(v, tuple) and v[0] == 'g']
            if I.op == 'call' and I.x and I.x[0] == 'g': refs.append(I.x[1]); n += 1
            for r in refs:
                if r in WEAK or r in SEED:
                    what = 'reseeds the generator (%s)' if r in SEED else 'uses %s, not the cryptographic generator'
                    w = common.rel('%s:%d' % mod.loc(I)); idn = 'source:%s:%s' % (f.name, r)
                    if not any(x.ident == idn for x in res.findings): res.findings.append(common.Finding('source', f.name, w, what % r, [], idn))
    # a table that names another source counts as well
    for g in mod.globals.values():
        def walk(v):
            if isinstance(v, tuple):
                if v[0] == 'g' and v[1] in WEAK | SEED: yield v[1]
                for x in v[1:]:
                    if isinstance(x, (tuple, list)): yield from walk(x)
            elif isinstance(v, list):
                for x in v: yield from walk(x)
        if g.init is not None and g.init[0] not in ('bytes', 'i', 'zero'):
            for r in walk(g.init): res.findings.append(common.Finding('source', g.name if hasattr(g, 'name') else '?', 'src', 'a constant table refers to ' + r, [], 'source:table:' + r))
    return n
def model(hdr, body, defs=(), real=(), qbits=160, pbits=192):
    t = nm.text('0', qbits, pbits, defs=['MAYFAIL 0', 'DRAWLIMIT 8'] + list(defs))
    for f in real: t = t.replace('int %s(' % f, 'static int model_%s(' % f)
    return ''.join('#include <cry/%s.h>\n' % h for h in hdr) + t + body
def twice(pre, call, oks):
    """the operation twice in a row: each time, what it yields depends on what was drawn in that run"""
    t = 'int main(void) {\n    int r; markers(); msgneed = 64;\n    %s\n' % pre
    for k in (1, 2):
        t += '    epoch();\n    r = %s;\n    if (r != 0) return 0;\n    //@ check REACH%d: \\false;\n' % (call, k)
        for n, c in oks: t += '    //@ check %s_%d: %s;\n' % (n, k, c) if '(' not in c else '    { int c = %s;\n    //@ check %s_%d: c != 0;\n    }\n' % (c, n, k)
    return t + '    return 0;\n}\n'
def operations():
    sig = 'input(&sig.r, R, 2, 0); input(&sig.s, S, 2, 0);'
    Q, P = 'QBITS - 2', 'PBITS - 2'
    yield 'cry_dsa_sign', ['dsa'], 'static cry_dsa_ctx ctx; static cry_dsa_sig sig;\n', (), CTX['dsa'] + sig, 'cry_dsa_sign(&ctx, &sig, msg, 20)', [('r', 'fresh_enough(&sig.r, %s)' % Q), ('s', 'fresh_enough(&sig.s, %s)' % Q)]
    yield 'cry_ecdsa_sign', ['ecdsa'], 'static cry_ecdsa_ctx ctx; static cry_ecdsa_sig sig;\n', (), CTX['ecdsa'] + sig, 'cry_ecdsa_sign(&ctx, &sig, msg, 20)', [('r', 'fresh_enough(&sig.r, %s)' % Q), ('s', 'fresh_enough(&sig.s, %s)' % Q)]
    yield 'cry_elgamal_sign2', ['elgamal'], 'static cry_elgamal_ctx ctx; static cry_elgamal_sig sig;\n', (), CTX['elgamal'] + sig, 'cry_elgamal_sign2(&ctx, &sig, msg, 20)', [('r', 'fresh_enough(&sig.r, %s)' % P), ('s', 'fresh_enough(&sig.s, %s)' % P)]
    yield 'cry_elgamal_sign', ['elgamal'], 'static cry_elgamal_ctx ctx; static u8 sg[48];\n', (), CTX['elgamal'], 'cry_elgamal_sign(&ctx, sg, msg, 20)', [('stored', 'nstored >= 2 && (storedrnd[0] >> since) != 0 && (storedrnd[1] >> since) != 0 && storedent[0] >= %s && storedent[1] >= %s' % (P, P))]
    yield 'cry_ecdsa_keygen', ['ecdsa'], 'static cry_ecdsa_ctx ctx;\n', (), CTX['ecdsa'], 'cry_ecdsa_keygen(&ctx)', [('private', 'fresh_enough(&ctx.d, %s)' % Q), ('public', 'fresh_enough(&ctx.q.x, %s)' % Q), ('pair', '(rn(&ctx.q.x) & rn(&ctx.d)) == rn(&ctx.d)')]
    yield 'cry_dsa_keygen', ['dsa'], 'static cry_dsa_ctx ctx;\n', (), CTX['dsa'], 'cry_dsa_keygen(&ctx, 8)', [('private', 'fresh_enough(&ctx.pvt, 158)'), ('p', 'fresh_enough(&ctx.p, 1020)'), ('q', 'fresh_enough(&ctx.q, 158)'), ('public', 'fresh_enough(&ctx.pub, 158)'), ('own', '(rn(&ctx.pvt) & ~rn(&ctx.p) & ~rn(&ctx.q) & ~rn(&ctx.g)) != 0')]
    for e in (0, 3):
        yield 'cry_rsa_keygen', ['rsa'], 'static cry_rsa_ctx ctx;\n', (), 'fresh(&ctx.n); fresh(&ctx.p); fresh(&ctx.q); fresh(&ctx.e); fresh(&ctx.d);', 'cry_rsa_keygen(&ctx, 128, %d)' % e, [('p', 'fresh_enough(&ctx.p, 62)'), ('q', 'fresh_enough(&ctx.q, 62)'), ('own', '(rn(&ctx.p) & rn(&ctx.q)) == 0'), ('d', 'fresh_enough(&ctx.d, 62)')]
    for b in (64, 128):
        yield 'cry_mpi_prime', [], 'static cry_mpi num; static unsigned it;\n', ('cry_mpi_prime',), 'fresh(&num); it = 9;', 'cry_mpi_prime(&num, %d, %s)' % (b, '&it' if b == 64 else 'NULL'), [('candidate', 'fresh_enough(&num, %d)' % (b - 4))]
    yield 'cry_mpi_rand_range', [], 'static cry_mpi num, max;\n', ('cry_mpi_rand_range',), 'fresh(&num); input(&max, Q, 5, 0);', 'cry_mpi_rand_range(&num, &max)', [('value', 'fresh_enough(&num, %s)' % Q)]
MSG = dict(r='the first signature component', s='the second signature component', stored='the signature', private='the private key', public='the public key', p='the prime p', q='the prime q', own='the parts of the key', pair='the key pair', n='the modulus', d='the private exponent', candidate='the prime', value='the number')
def padding_text(ml, mlen, sc):
    """encryption of two messages; blk[k] is the k-th padded block"""
    t = rsa.head(ml, False, load='size_t i; if (nload < 4) for (i = 0; i < n && i < ML; i++) blk[nload][i] = buf[i];')
    t = t.replace('static cry_rsa_ctx ctx;', 'static cry_rsa_ctx ctx; static u8 blk[4][ML]; static int sc; static unsigned char ctr; static int zero;', 1)
    gen = {'const': 'for (i = 0; i < n; i++) d[i] = sc;', 'count': 'for (i = 0; i < n; i++) d[i] = ++ctr;', 'any': 'for (i = 0; i < n; i++) d[i] = Frama_C_unsigned_char_interval(0, 255);'}[sc]
    a = t.index('int cry_prng_aes_rand'); t = t[:a] + 'int cry_prng_aes_rand(unsigned char *d, size_t n) { size_t i; %s return 0; }\n' % gen
    ps = ml - 3 - mlen
    t += 'static u8 m[%d], *out; static size_t outlen;\nint main(void) {\n    int r, c; size_t i, j;\n    ctx.padding = CRY_RSA_PADDING_PKCS_V15; memset(m, 0x61, sizeof m);\n' % max(mlen, 1)
    for k in (0, 1):
        t += '    sc = %d; r = cry_rsa_encrypt(&ctx, &out, &outlen, m, %d); if (r != 0) return 0;\n    //@ check REACH%d: \\false;\n    if (nload != %d) return 0;\n    //@ check REACHb%d: \\false;\n' % ((0xA7, 0x5B)[k], mlen, k, k + 1, k)
    t += '    for (i = 2; i < %d; i++) {\n' % (2 + ps)
    if sc == 'const': t += '        c = blk[0][i] != blk[1][i];\n        //@ check drawn: c != 0;\n    }\n'
    if sc == 'any': t += '        c = blk[0][i] != 0 && blk[1][i] != 0;\n        //@ check nonzero: c != 0;\n    }\n'
    if sc == 'count': t += '        for (j = 2; j < %d; j++) {\n            c = blk[0][i] != blk[1][j] && (i == j || blk[0][i] != blk[0][j]);\n            //@ check fresh: c != 0;\n        }\n    }\n' % (2 + ps)
    return t + '    return 0;\n}\n'
PAD = dict(const='a byte of the encryption padding does not come from the generator', any='a byte of the encryption padding can be zero', count='a drawn byte is used twice in the encryption padding')
def numbers(res, tier):
    """cry_mpi_rand followed exactly: its bits are independent combinations of drawn bits"""
    done = 0
    for cn, d in (('default', None), ('c05d1', 1), ('c05d4', 4)):
        if d: build.module(cn, build.Config(cn, build.BASE, d))
        mod = build.module_with(HARN, cn); dig = mod.cfg.digit
        fn = mod.funcs.get('cry_mpi_rand')
        if fn is None: res.undecided.append('cry_mpi_rand is gone'); return done
        wh = common.rel('%s:%s' % (fn.file, fn.line)); import check_c09 as c9
        bl = [1, 2, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 160, 161, 192, 255, 256, 257, 384, 521] if tier != 'quick' else [1, 8, 9, 32, 33, 63, 64, 65, 128, 160, 257, 521]
        for bits in bl:
            for top in ((0x01, 0x80, 0xff, 0x5a) if bits % 8 == 0 or True else ()):
                F = affine.Affine(mod); F.ret = None; num = {}
                F.nd = 0
                def rnd(F, a, top=top):
                    if a[1][0] != 'k': raise flow.Limit('length')
                    o = F.check(a[0], a[1][1], True)
                    for k in range(a[1][1]): o.b[a[0][2] + k] = top if k == 0 and F.nd == 0 else F.fresh('rnd', F.nd + k)
                    F.nd += a[1][1]
                    return ('k', 0)
                def v_ret(F, a): F.ret = a[0]
                def v_num(F, a, mod=mod):
                    f = c9.NUM(mod)[1]
                    u = F.load(('p', a[0][1], a[0][2] + f['used'][0]), ('i', 8 * f['used'][1])); dp = F.load(('p', a[0][1], a[0][2] + f['data'][0]), ('ptr',))
                    if u[0] != 'k': raise flow.Limit('used is not constant')
                    num['a'] = F.check(dp, u[1] * dig, False).b[dp[2]:dp[2] + u[1] * dig] if u[1] else []
                F.hooks.update(cry_prng_aes_rand=rnd, v_ret=v_ret, v_num=v_num)
                try: F.call('h_rand', [('k', bits), ('k', 1 if top == 0x80 else 0)])
                except flow.Limit as e: res.undecided.append('cry_mpi_rand(%d bits, %d byte digits): %s' % (bits, dig, e)); continue
                except flow.Fault as e:
                    # where the accesses go is decided by C11
                    res.undecided.append('cry_mpi_rand(%d bits): %s' % (bits, e)); continue
                if F.ret != ('k', 0): res.undecided.append('cry_mpi_rand(%d bits): fails' % bits); continue
                forms = []; bad = False
                for b in num['a']:
                    f = affine.forms(b) if type(b) is int or b[1] is not None else None
                    if f is None: bad = True; break
                    forms += f
                if bad: res.undecided.append('cry_mpi_rand(%d bits): the digits are not followed exactly' % bits); continue
                done += 1
                rank = rankof([x >> 1 for x in forms[:bits]])
                lost = (8 if F.nd else 0)                                # the first drawn byte is fixed in the scenario
                want = bits - 1 - min(lost, bits - 1)
                if rank < want:
                    ident = 'number:cry_mpi_rand'
                    if not any(x.ident == ident for x in res.findings):
                        res.findings.append(common.Finding('number', 'cry_mpi_rand', wh, 'a number of %d bits carries only %d independent drawn bits (%d byte digits), at least %d are required' % (bits, rank + (8 if F.nd else 0), dig, bits - 1), [], ident))
    return done
def rankof(rows):
    piv = {}; r = 0
    for x in rows:
        while x:
            h = x.bit_length()
            if h in piv: x ^= piv[h]
            else: piv[h] = x; r += 1; break
    return r
def hill(res):
    mod = build.module_with(HARN); n = 0
    if 'h_hill' not in mod.funcs or 'cry_hill_init' not in mod.funcs: res.undecided.append('cry_hill_init: the key is not a field of the context'); return 0
    fn = mod.funcs['cry_hill_init']; wh = common.rel('%s:%s' % (fn.file, fn.line))
    good = {4: [[1, 2, 2, 5], [0x93, 0x44, 0x10, 0x77]], 9: [[1, 2, 4, 0, 1, 6, 0, 0, 1], [0x83, 0x22, 0x40, 0x10, 0x91, 0x36, 8, 4, 0x51]]}
    for kl, keys in good.items():
        for key in keys:
            for miss in (0, 1, 2):
                F = flow.Flow(mod); F.ret = None; seq = [[2] * kl] * miss + [key]; st = [0]
                def rnd(F, a):
                    if a[1][0] != 'k': raise flow.Limit('length')
                    o = F.check(a[0], a[1][1], True); src = seq[min(st[0] // kl, len(seq) - 1)]
                    for k in range(a[1][1]): o.b[a[0][2] + k] = seq[min((st[0] + k) // kl, len(seq) - 1)][(st[0] + k) % kl]
                    st[0] += a[1][1]
                    return ('k', 0)
                def v_ret(F, a): F.ret = a[0]
                F.hooks.update(cry_prng_aes_rand=rnd, v_ret=v_ret)
                try: F.call('h_hill', [('k', kl)])
                except (flow.Limit, flow.Fault) as e: res.undecided.append('cry_hill_init: %s' % e); continue
                if F.ret != ('k', 0): continue
                n += 1
                d = F.dumps['key']
                if d != key and not any(x.ident == 'hill' for x in res.findings):
                    k = next(i for i in range(kl) if d[i] != key[i])
                    res.findings.append(common.Finding('hill-key', 'cry_hill_init', wh, 'byte %d of a generated key is not the byte the generator gave' % k, [], 'hill'))
    return n
def run(tier):
    res = common.Result()
    mod = build.module('default')
    nc = callers(mod, res)
    jobs = []; info = {}
    for k, (fn, hdr, decl, real, pre, call, oks) in enumerate(operations()):
        if fn not in mod.funcs: res.undecided.append(fn + ' is gone'); continue
        n = 'c05_%d_%s' % (k, fn[4:])
        jobs.append(dict(name=n, text=model(hdr, decl + twice(pre, call, oks), real=real), roots=[fn], stubs=[s for s in nm.STUBS if s not in real], slevel=3000)); info[n] = (fn, None)
    if 'cry_rsa_encrypt' in mod.funcs:
        for ml, mlen in ((16, 5), (12, 1), (24, 3)) if tier == 'quick' else ((16, 5), (12, 1), (20, 9), (24, 2), (32, 21), (40, 3)):
            for sc in ('const', 'any', 'count'):
                n = 'c05_pad%d_%d_%s' % (ml, mlen, sc)
                jobs.append(dict(name=n, text=padding_text(ml, mlen, sc), roots=['cry_rsa_encrypt'], stubs=rsa.STUBS, slevel=5000)); info[n] = ('cry_rsa_encrypt', sc)
    tot = 0; ok = []
    for j, o, v in eva.run_all(jobs):
        n = j['name']; fn, sc = info[n]
        if sc and not o.err and not o.unknown and any('initiali' in a.kind for a in v.alarms):
            a = next(a for a in v.alarms if 'initiali' in a.kind); ident = 'padding-unset:' + fn; f = mod.funcs[fn]
            if not any(x.ident == ident for x in res.findings): res.findings.append(common.Finding('padding-unset', fn, common.rel('%s:%d' % (f.file, f.line)), 'a byte of the padded block is never set (used at line %d) [case %s]' % (a.line, n), (), ident))
            ok.append(n); continue
        if o.err or o.unknown or not v.reached or v.unreached:
            res.undecided.append('%s: %s' % (n, o.err or (o.unknown and 'unknown function ' + str(o.unknown[0])) or 'not reached: ' + ', '.join(v.unreached))); continue
        tot += v.obligations; ok.append(n)
        for nme, row in v.failed:
            b = nme.split('_')[0]
            rule = 'padding-' + sc if sc else 'fresh-' + b
            ident = '%s:%s' % (rule, fn)
            if any(x.ident == ident for x in res.findings): continue
            f = mod.funcs[fn]
            msg = PAD[sc] if sc else ('%s shares a draw with another part of the key, or misses one' % MSG[b] if b in ('own', 'pair', 'n') else '%s need not depend on a fresh draw of full width from the generator' % MSG[b])
            res.findings.append(common.Finding(rule, fn, common.rel('%s:%d' % (f.file, f.line)), '%s [case %s, obligation %s]' % (msg, n, nme), (), ident))
    nr = numbers(res, tier); nh = hill(res)
    if len(ok) * 2 < len(jobs): raise build.CheckError('too few cases could be analysed: ' + (res.undecided or ['?'])[0])
    res.coverage = dict(evaluations=tot + nc + nr + nh, distinct_nontrivial=len(ok) + nr + nh, call_sites=nc, operations=len(ok), numbers=nr, undecided=len(res.undecided),
        rule='evaluations = call sites examined for other sources, obligations of the operations (each run twice in a row over every outcome of the number routines, up to eight draws), sizes of random numbers followed bit by bit; distinct_nontrivial = scenarios',
        samples=ok[:10])
    res.assumptions = ['number and point routines are modelled by what their result depends on and by an upper bound of the unpredictable bits it carries', 'the generator itself is decided by C16', 'Frama-C Eva is sound']
    return res
