"""C15: an RSA operation hands over a complete result or nothing (path-sensitive analysis of the IR)."""
import build, own, ir, api, common
from engine import *
LEVEL = 'other'
FUNCS = ('cry_rsa_encrypt', 'cry_rsa_decrypt', 'cry_rsa_sign')

class Out(own.Own):
    """follows *out and *outlen to every return"""
    def __init__(self, mod):
        super().__init__(mod)
        self.bad = []
        self.npaths = dict(ok=0, fail=0)
    def finish(self, eng, f, sig, st, r, pobjs, init, clr, rootd):
        file, line = f.file, f.line
        byarg = {k: oi for k, oi, o, c in pobjs}
        out = st.mem[byarg[1]].cells.get(0)
        n = st.mem[byarg[2]].cells.get(0)
        ov = out[1] if out else None
        nv = n[1] if n else None
        lo, hi, nz = eng.rng(st, r) if r[0] in ('i', 's') else (-INF, INF, False)
        can_fail = not (lo == hi == 0)
        can_ok = lo <= 0 <= hi and not nz
        def add(rule, msg):
            self.bad.append((rule, f.name, '%s:%d' % (file, line), msg, trace_list(st.trace)))
        if r == U: add('unset-result', 'returns an unset status')
        if can_fail:
            self.npaths['fail'] += 1
            if ov is None or not (ov == Z or ov == ('i', 0) or (ov[0] == 'q' and eng.ptr_null(st, ov))):
                add('result-after-failure', 'fails and leaves *out %s' % ('as the caller passed it' if ov is None else 'pointing to released memory' if ov[0] == 'p' and ov[1] in st.mem and not st.mem[ov[1]].live else 'set'))
            a, b, _ = eng.rng(st, nv) if nv is not None and nv[0] in ('i', 's') else (-INF, INF, False)
            if not (a == b == 0): add('length-after-failure', 'fails and leaves *outlen %s' % ('as the caller passed it' if nv is None else 'not zero'))
            for oi, o in st.mem.items():
                if o.kind == 'heap' and o.live: add('memory-after-failure', 'fails with memory obtained at %s not released' % common.rel(str(o.site)))
        if can_ok:
            self.npaths['ok'] += 1
            if ov is None or ov[0] != 'p' or ov[1] not in st.mem: 
                add('success-without-result', 'reports success without handing over a result')
            elif not st.mem[ov[1]].live: add('success-without-result', 'reports success and hands over released memory')
            elif st.mem[ov[1]].kind != 'heap' or ov[2] not in (0, None): add('success-without-result', 'reports success with a result the caller cannot release')
            if nv is None: add('success-without-length', 'reports success without a length')
            if st.failed: add('success-after-failure', 'reports success although a nested step failed: ' + common.rel(st.failed))
    # the operations differ only in a flag: everything is inlined, number routines by contract

def run(tier):
    res = common.Result()
    mods = {c: build.module(c) for c in (('default',) if tier == 'quick' else ('default', 'alt', 'win'))}
    work = [(c, n) for c in mods for n in FUNCS if n in mods[c].funcs]
    if len(work) < 2: raise build.CheckError('the RSA operations are gone')
    def one(w):
        c, n = w
        o = Out(mods[c])
        try: o.top = n; o.variant = ''; o.run_variant(mods[c].funcs[n], mods[c].signature(mods[c].funcs[n]), dict(name='', alias={}, null=()))
        except Limit as e: return w, [], o.npaths, str(e), []
        return w, o.bad, o.npaths, None, sorted(o.stats['fail_points'])
    ok = fail = 0; fps = set(); seen = set()
    for w, bad, np, err, fp in common.pmap(one, work):
        ok += np['ok']; fail += np['fail']; fps |= {(w[1],) + tuple(x) for x in fp}
        if err: res.undecided.append('%s: %s' % (w[1], err))
        for rule, func, where, msg, trace in bad:
            if (rule, func, msg) in seen: continue
            seen.add((rule, func, msg))
            res.findings.append(common.Finding(rule, func, common.rel(where), msg, [common.rel(t) for t in trace], '%s:%s' % (rule, func)))
    res.coverage = dict(evaluations=ok + fail, distinct_nontrivial=len(fps), success_paths=ok, failure_paths=fail,
        rule='one evaluation = one abstract path to a return of an RSA operation; distinct_nontrivial = (operation, call site) pairs at which a failure was injected',
        samples=['%s: %s' % (x[0], x[1:]) for x in sorted(fps)[:10]])
    res.assumptions = ['number routines by contract (succeed or fail; decided in C01)']
    return res
