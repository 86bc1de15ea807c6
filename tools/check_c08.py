"""C08: clear functions wipe every byte with stores that stay; local contexts are cleared."""
import re
import build, wipe, api, ir, common
from engine import Limit
LEVEL = 'other'

def run(tier):
    res = common.Result()
    m = build.module('default')
    types = wipe.ctx_types(m)
    clears = []
    for n in sorted(m.funcs):
        if not re.match(r'cry_\w+_clear$', n) or api.lifecycle(n): continue
        sig = m.signature(m.funcs[n])
        if not sig or len(sig) < 2: continue
        t = ir.strip_t(sig[1])
        if t[0] == 'ptr' and ir.strip_t(t[1])[0] == 'struct' and ir.strip_t(t[1])[1] in types: clears.append(n)
    if len(clears) < 10: raise build.CheckError('only %d clear functions found' % len(clears))
    cs = set(clears)
    # public functions with a context on their own (or a helper's) stack
    loc = []
    holders = set()
    for n, f in m.funcs.items():
        for i in f.instrs():
            if i.op == 'alloca' and i.ty[0] == 'named':
                nm = re.sub(r'\.\d+$', '', i.ty[1].replace('struct.', ''))
                if nm in types and 'cry_%s_clear' % nm[4:-4] in cs or nm in ('cry_cmac_ctx', 'cry_hmac_ctx'): holders.add(n)
    reach = {}
    def reaches(n, stack=()):
        if n in holders: return True
        if n in reach: return reach[n]
        if n in stack: return False
        r = False
        for i in m.funcs[n].instrs():
            if i.op == 'call' and i.x and i.x[0] == 'g' and i.x[1] in m.funcs and i.x[1] not in api.ALL and reaches(i.x[1], stack + (n,)): r = True
        reach[n] = r
        return r
    loc = [n for n in sorted(m.funcs) if (n in api.ALL or not m.funcs[n].internal) and reaches(n)]
    def one(w):
        kind, n = w
        try:
            if kind == 'clear': return w, wipe.check_clear(m, n, cs), None
            return w, wipe.check_locals(m, n, cs), None
        except Limit as e: return w, None, str(e)
    paths = nbytes = wired = checked = 0
    seen = set()
    for (kind, n), r, err in common.pmap(one, [('clear', n) for n in clears] + [('loc', n) for n in loc]):
        if err: res.undecided.append('%s: %s' % (n, err)); continue
        fs = r[0]; paths += r[1]
        if kind == 'clear':
            nbytes += r[2]; wired += r[3]
            if r[1] == 0: res.undecided.append('%s: never returns' % n)
        else: checked += r[2]
        for fn, where, msg, tr, rule in fs:
            if (fn, where, rule) in seen: continue
            seen.add((fn, where, rule))
            res.findings.append(common.Finding(rule, fn, common.rel(where), msg, [common.rel(t) for t in tr]))
    res.coverage = dict(evaluations=nbytes + checked, distinct_nontrivial=len(clears) + len(loc),
        rule='evaluations = context bytes proved overwritten with a constant by a non-elidable store on every path, plus returns of functions holding a context on their stack; distinct_nontrivial = clear functions and context-holding functions analysed',
        samples=clears + loc, paths=paths, clear_functions=len(clears), context_bytes=nbytes, modes_forwarding=wired, local_contexts=len(loc))
    res.assumptions = ['volatile stores, compiler barriers and explicit_bzero/memset_s are kept by the compiler', 'a nested public function that receives a local context leaves secrets in it']
    return res
