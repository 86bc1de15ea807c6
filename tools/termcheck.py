"""Shared runner of the checks that compare terms over whole numbers (terms.py): C25, C26.  A scenario is a C harness that
hands unknown numbers to the library and notes what comes back; `judge` states what the definition says, on the same terms."""
import random
import flow, terms, build, common
from terms import Terms, Cut, NoValue, C, ONE, ZERO, padd, pmul, pconst, paths, holds, curve_add, curve_mul
from flow import Limit, Fault

RULE = ('one evaluation = one scenario (routine, aliasing, special operands, concrete scalar or lengths, configuration) with every combination of decisions on unknown numbers, '
        'decided for every value of the unknown numbers by equality of normal forms; distinct_nontrivial = scenarios with at least one compared value')
ASSUME = ['the number routines underneath (add, sub, mul, div, mod_exp, inv, gcd, cmp, load/store) mean what their names say and do not fail (failure handling is C01, C03)',
          'control is followed with constants; scalars of point multiplication and lengths are enumerated, other numbers are not',
          'the IR front end (clang 18, -O0, mem2reg) preserves meaning', 'the definitions in the judge functions state the standards']

HEAD = r'''
#include <stddef.h>
#include <stdarg.h>
#include <string.h>
#include <cry/mpi.h>
#include <cry/ecp.h>
#include <cry/dsa.h>
#include <cry/ecdsa.h>
#include <cry/elgamal.h>
#include <cry/dh.h>
#include <cry/ecdh.h>
#include <cry/rsa.h>
typedef size_t Z; typedef unsigned char u8;
void v_num(cry_mpi *, const char *, long); void v_range(cry_mpi *, cry_mpi *); void v_out(cry_mpi *, const char *); void v_ret(long); void v_set(cry_mpi *, ...); void v_mem(const u8 *, Z, const char *);
void v_in(u8 *, Z, const char *);
unsigned long v_off[5] = { offsetof(cry_mpi, sign), offsetof(cry_mpi, used), offsetof(cry_mpi, alloc), offsetof(cry_mpi, data), sizeof(cry_mpi) };
unsigned long v_ecpoff[4] = { offsetof(cry_ecp, x), offsetof(cry_ecp, y), offsetof(cry_ecp, z), offsetof(cry_ecp_grp, n) };
static void num(cry_mpi *a, const char *n, long k) { cry_mpi_init(a); v_num(a, n, k); }
'''
class TCase:
    """one scenario: harness function and arguments, the judged routine, judge(F) -> alternatives, each a list of (what, got, want)"""
    def __init__(self, func, fn, args, judge, sample, **o): self.func = func; self.fn = fn; self.args = args; self.judge = judge; self.sample = sample; self.opts = o
    def label(self): return '%s(%s)%s' % (self.fn, ', '.join(map(str, self.args)), ' [%s]' % self.opts['cfg'] if self.opts.get('cfg', 'default') != 'default' else '')

class R: pass
def run_case(mods, c):
    r = R(); r.found = None; r.limit = None; r.steps = r.paths = r.values = 0; mod = mods[c.opts.get('cfg', 'default')]
    def make(script):
        F = Terms(mod, script, inline=c.opts.get('inline', ()), points=c.opts.get('points', False)); F.useorder = c.opts.get('useorder', True); F.hooks.update(c.opts.get('hooks', {})); F.maxdec = c.opts.get('maxdec', 14); F.bitopts = c.opts.get('bits')
        return F
    def start(F):
        F.rets = []
        try: F.call(c.fn, [('k', a & ((1 << 64) - 1)) for a in c.args]); F.stop = None
        except Fault as e: F.stop = e
        if F.stop is None: F.judged = c.judge(F)
    try:
        for F, st in paths(make, start):
            r.paths += 1; r.steps += F.steps
            if st == 'cut' and c.opts.get('loops'): continue
            if st == 'cut': r.limit = r.limit or 'too many decisions on one path'; continue
            if F.stop is not None:
                if confirm(F, c, [('', ONE, ZERO)]): r.found = ('no defined result: ' + F.stop.what, F.stop.where); return r
                r.limit = r.limit or F.stop.what; continue
            alts = F.judged
            if alts is None: continue             # outside the property (e.g. an inverse that cannot be missing)
            best = None
            for alt in alts:
                r.values += len(alt)
                bad = [x for x in alt if not equal(F, x)]
                if not bad: best = None; break
                if best is None or len(bad) < len(best): best = bad
            else:
                m = confirm(F, c, best)
                if m: r.found = (m, None); return r
                r.limit = r.limit or '%s: terms differ, no difference in value found' % best[0][0]
    except Limit as e: r.limit = r.limit or str(e)
    except RecursionError: r.limit = 'recursion'
    return r
def equal(F, x):
    what, got, want = x
    if got is None: return False
    return got == want
def confirm(F, c, bad, tries=400):
    rnd = random.Random(7); hit = 0
    for t in range(tries):
        env0 = c.sample(rnd, F)
        if env0 is None: continue
        env = dict(env0); env['rnd'] = rnd
        try:
            if not all(holds(F.A, k, v, env) for k, v in F.path): continue
            hit += 1
            for what, got, want in bad:
                if got is None: return '%s is not set' % what
                a, b = F.A.value(got, env), F.A.value(want, env)
                if a != b:
                    return '%s is %d, not %d, for %s' % (what or 'result', a, b, ', '.join('%s=%d' % (k, v) for k, v in env0.items() if type(k) is str))
        except (NoValue, ZeroDivisionError, ValueError): continue
    return None

def analyse(prop, text, cases):
    mods = {}
    for k in sorted({c.opts.get('cfg', 'default') for c in cases}): mods[k] = build.module_with(text, k)
    cs = [c for c in cases if c.fn in mods[c.opts.get('cfg', 'default')].funcs and c.func in mods[c.opts.get('cfg', 'default')].funcs]
    if not cs: raise build.CheckError('no scenario')
    order = list(range(len(cs)))
    def work(k): return k, run_case(mods, cs[k])
    res = common.Result(); seen = set(); und = {}; nd = steps = vals = ps = nt = 0; per = {}
    for k, r in sorted(common.pmap(work, order), key=lambda x: x[0]):
        c = cs[k]; steps += r.steps; vals += r.values; ps += r.paths; nt += r.values > 0; per[c.func] = per.get(c.func, 0) + 1
        if r.found:
            rule = c.opts.get('rule', 'value')
            if (c.func, rule) in seen: continue
            seen.add((c.func, rule)); msg, w = r.found; w = common.rel(str(w or ''))
            f = mods[c.opts.get('cfg', 'default')].funcs.get(c.func)
            if not w.startswith('src'): w = common.rel('%s:%s' % (f.file, f.line)) if f else 'src'
            res.findings.append(common.Finding(rule, c.func, w, '%s  (scenario %s)' % (msg, c.label()), [], '%s:%s' % (rule, c.func)))
        elif r.limit: nd += 1; und.setdefault(c.func, []).append('%s: %s' % (c.label(), r.limit))
    for f, l in und.items(): res.undecided.append('%s: %d scenario(s), e.g. %s' % (f, len(l), l[0]))
    res.coverage = dict(evaluations=len(cs), distinct_nontrivial=nt, values_compared=vals, paths=ps, abstract_steps=steps, undecided=nd, rule=RULE,
        scenarios_per_function=dict(sorted(per.items())), samples=[c.label() for c in cs[:: max(1, len(cs) // 10)]][:10])
    res.assumptions = list(ASSUME)
    return res

# toy curves: all points have the same prime order
def curves():
    out = []
    for p in (23, 29, 37, 43, 53):
        for a in range(p):
            for b in range(1, p, 5):
                if (4 * a ** 3 + 27 * b * b) % p == 0: continue
                pts = [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]; n = len(pts) + 1
                if n > 10 and n != p and all(n % q for q in range(2, n)): out.append((p, a, b, n, pts))
            if len(out) > 8 * (1 + (23, 29, 37, 43, 53).index(p)): break
    return out
_C = []
def curve(rnd):
    if not _C: _C.extend(curves())
    return rnd.choice(_C)
