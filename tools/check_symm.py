"""Shared runner of the checks that rest on the dependence analysis of the symmetric part (flow.py, symm.py)."""
import build, symm, common, flow

GENS = ('wiring_cases', 'mac_cases', 'cipher_cases', 'hash_cases', 'hash_dep_cases', 'crc_cases', 'misc_cases', 'poly_cases')
RULE = ('one evaluation = one scenario (routine, lengths, split into calls, in place or separate, context fresh or reused) analysed for every data content at once; '
        'distinct_nontrivial = scenarios with a non-empty input')
ASSUME = ['control (lengths, counters, addresses) is followed with constants: lengths and splits are enumerated, data contents are not',
          'standard C library memory routines behave as specified', 'the IR front end (clang 18, -O0, mem2reg) preserves meaning']

def cases(gens, tier, mod):
    out = []
    for g in gens:
        f = getattr(symm, g)
        out += list(f(tier, mod) if g == 'hash_cases' else f(tier))
    return out

def analyse(prop, gens, tier, skip=()):
    mod = build.module_with(symm.HARNESS)
    cs = [c for c in cases(gens, tier, mod) if c.func not in skip and c.fn in mod.funcs]
    if not cs: raise build.CheckError('no scenario')
    # neighbouring cases cost about the same: deal them round robin
    n = 64
    groups = [list(range(k, len(cs), n)) for k in range(n)]
    def work(g):
        out = []
        for k in g:
            try: r = symm.run_case(mod, cs[k])
            except RecursionError: out.append((k, [], 'recursion', 0)); continue
            out.append((k, r.found, r.limit, r.steps))
        return out
    res = common.Result(); seen = set(); und = {}; steps = 0; nd = 0; per = {}
    results = sorted(x for g in common.pmap(work, groups) for x in g)
    for k, found, limit, st in results:
        c = cs[k]; steps += st
        per.setdefault(c.func, [0, 0]); per[c.func][0] += 1
        mine = [x for x in found if x[0] == prop]
        if not mine and limit:
            nd += 1; per[c.func][1] += 1
            und.setdefault(c.func, []).append('%s: %s' % (c.label(), limit))
        for p, rule, msg, where in mine:
            if (c.func, rule) in seen: continue
            seen.add((c.func, rule))
            w = common.rel(str(where)); f = mod.funcs.get(c.func)
            if '/harness/' in w or not w.startswith('src'):
                w = common.rel('%s:%s' % (f.file, f.line)) if f else 'src'
            res.findings.append(common.Finding(rule, c.func, w, '%s  (scenario %s)' % (msg, c.label()), [], '%s:%s' % (rule, c.func)))
    for f, l in und.items(): res.undecided.append('%s: %d scenario(s), e.g. %s' % (f, len(l), l[0]))
    if nd * 2 > len(cs) and not res.findings: raise build.CheckError('most scenarios are not decided, e.g. ' + res.undecided[0])
    res.coverage = dict(evaluations=len(cs), distinct_nontrivial=sum(1 for c in cs if any(c.args[-4:])), abstract_steps=steps, undecided=nd, rule=RULE,
        scenarios_per_function={f: v[0] for f, v in sorted(per.items())}, samples=[c.label() for c in cs[:: max(1, len(cs) // 10)]][:10])
    res.assumptions = list(ASSUME)
    return res
