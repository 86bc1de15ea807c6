"""C07: no hidden shared state (writes to static storage, retained caller pointers, stateful library calls)."""
import build, effects, modref, api, ir, common, own
from engine import Limit
LEVEL = 'other'
STATEFUL = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'strtok', 'setlocale', 'setenv', 'putenv', 'unsetenv', 'localtime', 'gmtime', 'ctime', 'asctime',
            'strerror', 'getenv', 'tmpnam', 'signal', 'atexit', 'chdir', 'umask', 'fesetround', 'setbuf', 'setvbuf', 'srand48', 'initstate', 'setstate', 'erand48', 'time', 'clock'}

def generator_functions(m):
    """the random generators: their entry points and helpers only they call"""
    callers = {}
    for f in m.funcs.values():
        for i in f.instrs():
            refs = [v[1] for t, v in i.args if v[0] == 'g']
            if i.op == 'call' and i.x and i.x[0] == 'g': refs.append(i.x[1])
            for r in refs: callers.setdefault(r, set()).add(f.name)
    gen = {n for n in m.funcs if n.startswith('cry_prng_')}
    ch = True
    while ch:
        ch = False
        for n, f in m.funcs.items():
            if n not in gen and n not in api.ALL and callers.get(n) and callers[n] <= gen: gen.add(n); ch = True
    return gen

def run(tier):
    res = common.Result()
    nstores = nglob = 0
    mods = {}
    for c in ('default', 'alt', 'win'):
        try: mods[c] = build.module(c)
        except build.CheckError as e:
            if c == 'default': raise
            res.undecided.append('configuration %s: %s' % (c, str(e).split('\n')[0]))
    if len(mods['default'].funcs) < 150: raise build.CheckError('only %d functions' % len(mods['default'].funcs))
    seen = set()
    def add(rule, func, where, msg, ident):
        if (rule, func, ident) in seen: return
        seen.add((rule, func, ident))
        res.findings.append(common.Finding(rule, func, common.rel(where), msg, (), '%s:%s:%s' % (rule, func, ident)))
    gstate = 0
    for c, m in mods.items():
        mr = modref.ModRef(m)
        gen = generator_functions(m)
        mut = {g.name for g in m.globals.values() if not g.const and not g.name.startswith('llvm.')}
        nglob += len(m.globals)
        if not any(('G', g) in mr.sum[n]['w'] for n in gen for g in mut):
            raise build.CheckError('the generators keep no state: the rule no longer sees what it saw')
        for n, f in m.funcs.items():
            nstores += sum(1 for i in f.instrs() if i.op in ('store', 'call'))
            for r in mr.sum[n]['w']:
                if r[0] != 'G' or r[1] not in mut: continue
                where, how = mr.sites[(n, r)]
                if how.startswith('call of ') and r in mr.sum.get(how[8:], dict(w=()))['w']: continue     # reported at its origin
                if n in gen: gstate += 1; continue
                add('static-written', n, where, 'writes static storage %s (%s)' % (r[1], how), r[1])
            for key in list(mr.sites):
                if key[0] == n and len(key) == 4 and key[1] == 'esc':
                    v = key[3]
                    if v[0] == 'G' and v[1] in mut and n not in gen and not table_only(m, v[1]):
                        add('static-address-stored', n, mr.sites[key], 'stores the address of mutable static storage %s in an object' % v[1], v[1])
            for i in f.instrs():
                if i.op == 'call' and i.x and i.x[0] == 'g' and i.x[1] in STATEFUL and n not in gen:
                    add('stateful-library-call', n, '%s:%d' % m.loc(i), 'calls %s, which keeps process-wide state' % i.x[1], i.x[1])
    # retained pointers
    m = mods['default']
    names = []
    for n in sorted(api.ALL):
        if n in m.funcs and n not in ('cry_list_init', 'cry_list_clear') and not m.funcs[n].vararg: names.append(n)
    def one(n):
        e = effects.Eff(m)
        try: e.go(n)
        except Limit as x: return n, {}, str(x)
        return n, e.kept, None
    nk = 0
    for n, kept, err in common.pmap(one, names):
        if err: res.undecided.append('%s: %s' % (n, err))
        f = m.funcs[n]
        sig = m.signature(f)
        for (k, off, kind, what), tr in kept.items():
            where = '%s:%d' % (f.file, f.line)
            if kind == 'arg':
                nk += 1
                t = ir.strip_t(ir.strip_t(sig[what + 1])[1])
                wired = t[0] in ('void', 'func') or (t[0] == 'struct' and t[1].endswith('_itf')) or (t[0] == 'base' and t[2] > 1)
                if '_init' in n and wired: continue       # the cipher / hash / table the caller plugs into the context
                res.findings.append(common.Finding('pointer-retained', n, common.rel(where), 'leaves in argument %d a pointer to the memory of argument %d' % (k + 1, what + 1),
                                                   tr, 'pointer-retained:%s:%d:%d' % (n, k + 1, what + 1)))
            elif kind == 'stack':
                res.findings.append(common.Finding('pointer-retained', n, common.rel(where), 'leaves in argument %d a pointer to a local of the call' % (k + 1), tr))
            elif kind == 'global' and not table_only(m, what):
                res.findings.append(common.Finding('pointer-retained', n, common.rel(where), 'leaves in argument %d a pointer to mutable static storage %s' % (k + 1, what), tr))
    res.coverage = dict(evaluations=nstores, distinct_nontrivial=nglob,
        rule='evaluations = stores and calls whose targets were resolved to arguments, locals, heap or static storage; distinct_nontrivial = static objects examined; only the random generators may write static storage',
        samples=sorted(g.name for g in m.globals.values() if not g.const)[:12], functions=sum(len(x.funcs) for x in mods.values()), generator_state_writes=gstate,
        interface_functions=len(names), wired_pointers=nk, configurations=sorted(mods))
    res.assumptions = ['the C library is reentrant apart from the listed stateful functions', 'clang -O0 IR represents the source']
    return res

def table_only(m, name):
    """a mutable object of pointers to constants only (interface tables)"""
    g = m.globals.get(name)
    if g is None: return True
    t = m.types.resolve(g.ty)
    return t[0] == 'ptr' or (t[0] == 'struct' and all(x[0] == 'ptr' for x in t[1]))
