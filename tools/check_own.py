"""C01 / C02: failure propagation and ownership on every path (path-sensitive abstract interpretation of the IR)."""
import time
import build, own, api, common

def configs(tier):
    return ['default', 'alt', 'win']

SLOW = ('cry_mpi_mul_karatsuba', 'cry_mpi_mul_toom3', 'cry_ecp_mul', 'cry_rsa_encrypt', 'cry_rsa_sign')
def run(prop, tier):
    res = common.Result()
    mods = {}
    for c in configs(tier):
        try: mods[c] = build.module(c)
        except build.CheckError as e:
            if c == 'default': raise
            res.undecided.append('configuration %s: %s' % (c, str(e).split('\n')[0]))
    work = []
    seen = set()
    for c, m in mods.items():
        for n in own.relevant(m):
            # analysed again only where the function or something it inlines differs between configurations
            work.append((c, n))
    work.sort(key=lambda x: x[1] not in SLOW)
    def one(w):
        c, n = w
        t = time.time()
        o, done, errs = own.analyse_all(mods[c], [n])
        fs = [(f.rule, f.func, '%s:%d' % (f.file, f.line), f.msg, f.trace, f.cfg, f.variant, f.step) for f in o.findings.values() if f.prop == prop]
        st = dict(paths=o.stats['paths'], contract_calls=o.stats['contract_calls'], fail_points=sorted(o.stats['fail_points']),
                  call_sites=len(o.stats['call_sites']), mpi_checked=o.stats['mpi_checked'])
        return w, fs, st, errs, time.time() - t
    out = common.pmap(one, work)
    if len(mods['default'].funcs) < 150 or len(work) < 60:
        raise build.CheckError('only %d functions to analyse: the interface is not where it was' % len(work))
    uniq = {}
    paths = calls = checks = sites = 0
    fps = set()
    for w, fs, st, errs, dt in out:
        paths += st['paths']; calls += st['contract_calls']; checks += st['mpi_checked']; sites += st['call_sites']
        for fp in st['fail_points']: fps.add((w[0],) + tuple(fp))
        for n, e in errs: res.undecided.append('%s [%s]: %s' % (n, w[0], e))
        for rule, func, where, msg, trace, cfg, variant, step in fs:
            k = (rule, func, where, step if prop == 'C01' else msg)
            if k not in uniq:
                f = common.Finding(rule, func, common.rel(where), '%s [config %s; arguments %s]' % (msg, cfg, variant), [common.rel(t) for t in trace],
                                   '%s:%s:%s' % (rule, func, step.split(' ')[0] if step else ''))
                uniq[k] = f
    res.findings = sorted(uniq.values(), key=lambda f: (f.where, f.rule))
    res.coverage = dict(evaluations=paths, distinct_nontrivial=len(fps),
        rule='one evaluation = one abstract path to a return of a public function (all aliasing and NULL variants, every allocation and nested call both succeeding and failing); distinct_nontrivial = distinct (configuration, function, call site) at which a failure was injected',
        samples=['%s: %s:%d %s fails' % (c, f, l, n) for c, f, l, n in sorted(fps)[:12]],
        functions=len(work), configurations=sorted(mods), nested_calls=calls, object_checks=checks, call_sites=sites)
    res.assumptions = ['nested public functions behave by contract: succeed or fail, keep caller objects valid (each is itself analysed)',
                       'clang -O0 IR represents the source; calls through cipher/hash interface tables do not release caller memory']
    return res
