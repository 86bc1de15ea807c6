"""C06: inputs declared read-only are never written (effect analysis over all paths of every public function)."""
import time
import build, effects, api, ir, common, readonly
from engine import Limit
LEVEL = 'other'

def run(tier):
    res = common.Result()
    mods = {}
    for c in ('default', 'alt', 'win'):
        try: mods[c] = build.module(c)
        except build.CheckError as e:
            if c == 'default': raise
            res.undecided.append('configuration %s: %s' % (c, str(e).split('\n')[0]))
    work = []
    for c, m in mods.items():
        for n in sorted(api.ALL):
            f = m.funcs.get(n)
            if f is None or n in ('cry_list_init', 'cry_list_clear'): continue
            sig = m.signature(f)
            ro = {k for k, t in enumerate(sig[1:]) if ir.strip_t(t)[0] == 'ptr' and ir.is_const(ir.strip_t(t)[1])}
            for fn, k, npar in readonly.TABLE:
                if fn == n and npar == len(sig) - 1: ro.add(k)
            if ro: work.append((c, n, tuple(sorted(ro))))
    if len(work) < 150: raise build.CheckError('only %d functions with read-only parameters found' % len(work))
    slow = ('cry_mpi_mul_toom3', 'cry_mpi_mul_karatsuba', 'cry_ecp_mul', 'cry_rsa_sign', 'cry_rsa_encrypt', 'cry_mpi_prime', 'cry_mpi_is_prime')
    work.sort(key=lambda w: w[1] not in slow)
    def one(w):
        c, n, ro = w
        e = effects.Eff(mods[c])
        try: e.go(n, alias=c == 'default' or tier == 'thorough')
        except Limit as x: return w, {}, str(x), 0, 0
        return w, {k: v for k, v in e.writes.items() if k[0] in ro}, None, e.npaths, e.nwrites
    paths = writes = 0
    seen = set()
    for (c, n, ro), ws, err, np, nw in common.pmap(one, work):
        paths += np; writes += nw
        if err: res.undecided.append('%s [%s]: %s' % (n, c, err))
        for (k, part), (where, fn, how, trace) in sorted(ws.items()):
            key = (n, k, part, where)
            if key in seen: continue
            seen.add(key)
            what = 'read-only argument %d of %s' % (k + 1, n) if part == 'obj' else 'memory owned by read-only argument %d of %s' % (k + 1, n)
            res.findings.append(common.Finding('readonly-written', n, common.rel(where), '%s writes %s (%s) [config %s]' % (fn, what, how, c),
                                               [common.rel(t) for t in trace], 'readonly-written:%s:%d:%s' % (n, k + 1, part)))
    res.coverage = dict(evaluations=sum(len(w[2]) for w in work), distinct_nontrivial=len({(n, k) for c, n, ro in work for k in ro}),
        rule='one evaluation = one read-only parameter of one public function in one configuration, decided over all abstract paths: no store, block write, release or nested call may write the object or the memory it owns',
        samples=['%s argument %d' % (n, k + 1) for c, n, ro in work[:10] for k in ro][:12],
        functions=len(work), paths=paths, writes_examined=writes, configurations=sorted(mods))
    res.assumptions = ['distinct arguments (aliasing output and input is the stated exception)', 'calls through cipher/hash interface tables write only their documented output',
                       'callees are summarised by the same analysis; clang -O0 IR represents the source']
    return res
