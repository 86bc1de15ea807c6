"""C03: signature verification fails closed (value analysis of the verification routines over a model of the number routines)."""
import build, common, eva, nummodel as nm, rsa_harness as rsa
LEVEL = 'other'
NEED = dict(dsa='BIT(R)|BIT(S)|BIT(MSG)|BIT(P)|BIT(Q)|BIT(G)|BIT(PUB)', ecdsa='BIT(R)|BIT(S)|BIT(MSG)|BIT(P)|BIT(Q)|BIT(G)|BIT(PUB)', elgamal2='BIT(R)|BIT(S)|BIT(MSG)|BIT(P)|BIT(G)|BIT(PUB)')
NEED['elgamal'] = NEED['elgamal2']
HDR = dict(dsa='dsa', ecdsa='ecdsa', elgamal='elgamal', elgamal2='elgamal')
FUN = dict(dsa='cry_dsa_verify', ecdsa='cry_ecdsa_verify', elgamal='cry_elgamal_verify', elgamal2='cry_elgamal_verify2')
CTX = dict(
 dsa='input(&ctx.p, P, 6, 0); input(&ctx.q, Q, 5, 0); input(&ctx.g, G, 6, 0); input(&ctx.pub, PUB, 6, 0); input(&ctx.pvt, PVT, 5, 0);',
 ecdsa='grp(&ctx.grp); input(&ctx.d, PVT, 5, 0); input(&ctx.q.x, PUB, 6, 0); input(&ctx.q.y, PUB, 6, 0); input(&ctx.q.z, PUB, 1, 0);',
 elgamal='input(&ctx.p, P, 6, 0); input(&ctx.g, G, 6, 0); input(&ctx.y, PUB, 6, 0); input(&ctx.d, PVT, 6, 0);')
CTX['elgamal2'] = CTX['elgamal']
def harness(s, scen, ln, rused='2', rsign='0', sused='2', ssign='0', defs=(), oblig='r != 0'):
    t = nm.text(NEED[s], defs=list(defs) + (['EQ_UNION'] if s.startswith('elgamal') else []))
    typ = HDR[s]
    t = '#include <cry/%s.h>\n' % typ + t
    raw = s == 'elgamal'
    t += 'static cry_%s_ctx ctx;\n' % typ
    t += 'int main(void) {\n    int r; %s\n    markers();\n    %s\n    msgneed = %s;\n' % ('' if raw else 'cry_%s_sig sig;' % typ, CTX[s], 'mn(%d, 20)' % ln if not s.startswith('elg') else ln)
    if raw:
        t += '    size_t i; signeed = 24; for (i = 0; i < 24; i++) { sigb[i] = 0x80 + i; sigb[24 + i] = 0xC0 + i; }\n    sc_rused = %s; sc_sused = %s;\n' % (rused, sused)
        t += '    r = cry_elgamal_verify(&ctx, sigb, msg, %d);\n' % ln
    else:
        t += '    input(&sig.r, R, %s, %s); input(&sig.s, S, %s, %s);\n' % (rused, rsign, sused, ssign)
        t += '    r = %s(&ctx, &sig, msg, %d);\n' % (FUN[s], ln)
    t += '    //@ check REACH: \\false;\n    //@ check rejected: %s;\n' % oblig
    if scen == 'fault': t += '    //@ check ACCEPTS: r != 0;\n'
    return t + '    return 0;\n}\n'
def cases(s):
    any_ = dict(rused='Frama_C_interval(1, 9)', sused='Frama_C_interval(1, 9)')
    lens = (16, 20, 32)
    L = []
    for n in lens: L.append(('diff%d' % n, harness(s, 'diff', n, defs=['SC_DIFF'], rused='Frama_C_interval(0, 9)', sused='Frama_C_interval(0, 9)', rsign='nd()', ssign='nd()'), 'accepts although the recomputed value (message, key and signature) differs from the signature'))
    L.append(('fault', harness(s, 'fault', 20, oblig='!(fault == 1 && r == 0)', **any_), 'accepts after an internal step failed'))
    for c, u in (('R', 'r'), ('S', 's')):
        kw = dict(any_); kw[u + 'used'] = '0'
        L.append((u + 'zero', harness(s, u + 'zero', 20, defs=['SC_ZERO ' + c], **kw), 'accepts a signature with %s = 0' % u))
        if s != 'elgamal':
            kw = dict(any_); kw[u + 'sign'] = '1'
            L.append((u + 'neg', harness(s, u + 'neg', 20, defs=['SC_NEG ' + c], **kw), 'accepts a signature with negative ' + u))
        b, low, txt = ('Q', 0, 'the group order') if s in ('dsa', 'ecdsa') else ('P', 0, 'the modulus') if c == 'R' else ('P', -1, 'the modulus less one')
        L.append((u + 'big', harness(s, u + 'big', 20, defs=['SC_BIG ' + c, 'BOUND ' + b, 'LOW (%d)' % low], **any_), 'accepts a signature with %s not below %s' % (u, txt)))
    if s == 'ecdsa': L.append(('infinity', harness(s, 'inf', 20, defs=['SC_INF'], **any_), 'accepts although the recomputed point is at infinity'))
    return L
def run(tier):
    res = common.Result()
    m = build.module('default')
    jobs = []; msgs = {}; sch = {}
    for s in ('dsa', 'ecdsa', 'elgamal2', 'elgamal'):
        if FUN[s] not in m.funcs: res.undecided.append(FUN[s] + ' is gone'); continue
        for n, t, msg in cases(s):
            nme = 'c03_%s_%s' % (s, n)
            jobs.append(dict(name=nme, text=t, roots=[FUN[s]], stubs=nm.STUBS, slevel=5000)); msgs[nme] = msg; sch[nme] = FUN[s]
    if 'cry_rsa_verify' in m.funcs:
        quick = tier == 'quick'
        PK, NO = 'CRY_RSA_PADDING_PKCS_V15', 'CRY_RSA_PADDING_NONE'
        for padding, ml, msg in [(PK, 16, [0x11, 0, 0x33]), (NO, 8, [0x11, 0, 0x33]), (PK, 13, [1, 2, 3]), (NO, 4, [1, 2, 3, 4, 5])] + ([] if quick else [(PK, 20, [9, 8, 7, 6, 5, 4, 3, 2, 1]), (NO, 8, list(range(1, 9))), (PK, 16, list(range(1, 14))), (NO, 4, list(range(1, 12)))]):
            pk = padding == PK
            exps = rsa.blocks(ml, msg, pk)
            tag = '%s%d_%d' % ('pkcs' if pk else 'raw', ml, len(msg))
            def add(n, t, mm):
                n = 'c03_rsa_%s_%s' % (tag, n); jobs.append(dict(name=n, text=t, roots=['cry_rsa_verify'], stubs=rsa.STUBS, slevel=5000)); msgs[n] = mm; sch[n] = 'cry_rsa_verify'
            for k in range(ml * len(exps)):
                if pk and len(exps) > 1 and k % ml not in (0, 1) and k != ml * len(exps) - 1: continue   # blocks may split the message elsewhere
                add('byte%d' % k, rsa.verify(ml, msg, k, padding, exps), 'accepts although byte %d of the recovered blocks is not the one the message and the padding require' % k)
            if len(exps) > 1: continue
            e = exps[0]
            add('len', rsa.verify_len(ml, msg, padding, e, [0, 1, ml - 1, ml + 1, 2 * ml - 1]), 'accepts a signature or message of the wrong length')
            add('fault', rsa.verify_fault(ml, msg, padding, e), 'accepts after an internal step failed')
            if pk: add('short', rsa.verify_short(ml, padding), 'accepts a block with fewer than eight bytes of padding')
    else: res.undecided.append('cry_rsa_verify is gone')
    if len(set(sch.values())) < 3: raise build.CheckError('the verification functions are gone')
    tot = 0; ok = []
    for j, o, v in eva.run_all(jobs):
        n = j['name']
        if o.err or o.unknown or not v.reached:
            res.undecided.append('%s: %s' % (n, o.err or (o.unknown and 'unknown function ' + str(o.unknown[0])) or 'the call never returns')); continue
        tot += v.obligations; ok.append(n)
        bad = [x for x in v.failed if not x[0].startswith('ACCEPT')]
        if n.endswith('_fault') and '_rsa_' not in n and not any(x[0] == 'ACCEPTS' for x in v.failed): res.undecided.append('%s: nothing is ever accepted' % sch[n])
        if bad:
            f = m.funcs[sch[n]]
            rule = 'fail-open-' + n.split('_')[-1].rstrip('0123456789')
            if any(x.rule == rule and x.func == sch[n] for x in res.findings): continue
            res.findings.append(common.Finding(rule, sch[n], common.rel('%s:%d' % (f.file, f.line)), '%s [case %s, obligation %s]' % (msgs[n], n, bad[0][0]), (), rule + ':' + sch[n]))
    if len(ok) < len(jobs) // 2: raise build.CheckError('too few cases could be analysed: ' + (res.undecided or ['?'])[0])
    res.coverage = dict(evaluations=tot, distinct_nontrivial=len(ok), rule='evaluations = obligations (rejection in the scenario, over every outcome of every number routine); distinct_nontrivial = scenarios', samples=ok[:10])
    res.assumptions = ['number and point routines are modelled by what their result depends on, may fail, and comparisons are free except as the scenario fixes them', 'RSA: modulus of 8..20 bytes, the message is a fixed sample, recovered block arbitrary', 'Frama-C Eva is sound']
    return res
