"""Shared runner of the checks that compare normal forms (poly.py): C21, C22, C23.  A scenario is a C harness (refs.py) that
leaves two results, `out` (the library) and `ref` (the textbook definition, the original data, or the unsplit run); both are
analysed in one value-numbering run, for every content of keys and data at once."""
import flow, poly, symm, build, common, refs, time
from flow import Limit, Fault
from symm import Case, Bad

RULE = ('one evaluation = one scenario (routine, key size, lengths, split into calls, in place or separate, context fresh or reused), decided for every content of key, '
        'nonce and data at once by equality of normal forms; distinct_nontrivial = scenarios whose compared output is not empty')
ASSUME = ['control (lengths, split points, address offsets) is followed with constants: lengths are enumerated, contents are not',
          'standard C library memory routines behave as specified', 'the IR front end (clang 18, -O0, mem2reg) preserves meaning',
          'the textbook definitions in tools/refs.py state the standards']

def make(mod):
    F = poly.Poly(mod); F.max_steps = 30000000
    T = F.T_ = symm.AffTerms(F); inv = {}
    def v_key(F, a): T.keys[symm.kid(a[0])] = tuple(T.canon(e) for e in symm.getb(F, a[1], F.size_arg(a[2])))
    def crypt(kind):
        def f(F, a):
            n = F.size_arg(a[3]); B = F.blk
            if a[1][0] != 'p' or a[2][0] != 'p': raise Limit('address')
            if n % B: raise Bad('hands %d bytes to a cipher with blocks of %d' % (n, B))
            for o in range(0, n, B):
                raw = symm.getb(F, ('p', a[2][1], a[2][2] + o), B); x = tuple(T.canon(e) for e in raw); k = T.keys.get(symm.kid(a[0]))
                back = inv.get((kind, k, x))
                if back is None:
                    back = T.fresh(T.app(kind, k, x), B)
                    inv[('D' if kind == 'E' else 'E', k, tuple(T.canon(e) for e in back))] = raw
                symm.setb(F, ('p', a[1][1], a[1][2] + o), list(back))
        return f
    F.blk = 16; F.same = []
    def v_hinit(F, a): T.streams[symm.kid(a[0])] = []
    def v_hupd(F, a):
        if T.streams.get(symm.kid(a[0])) is None: raise Bad('updates a hash that was not initialised')
        T.streams[symm.kid(a[0])] += [T.canon(e) for e in symm.getb(F, a[1], F.size_arg(a[2]))]
    def v_hdig(F, a):
        if T.streams.get(symm.kid(a[0])) is None: raise Bad('finishes a hash that was not initialised')
        symm.setb(F, a[1], T.fresh(T.app('H', None, T.streams[symm.kid(a[0])]), 20)); T.streams[symm.kid(a[0])] = None
    def v_same(F, a):
        if a[0] != a[1]: F.same.append(a)
    F.hooks.update(v_key=v_key, v_enc=crypt('E'), v_dec=crypt('D'), v_hinit=v_hinit, v_hupd=v_hupd, v_hdig=v_hdig, v_same=v_same, v_triv=trivium)
    F.aes_hooks = dict(cry_aes_key_set=v_key, cry_aes_encrypt=crypt('E'), cry_aes_decrypt=crypt('D'), cry_aes_init=lambda F, a: None, cry_aes_clear=lambda F, a: None)
    return F

def trivium(F, a):
    """the eSTREAM definition, cell by cell; bit j of a 32 bit word of output is step 31 - j (the library's convention)"""
    words = F.size_arg(a[1])
    def bits(p, n): return [f for e in symm.getb(F, p, n) for f in poly.forms(e)]
    kb = bits(a[2], F.size_arg(a[3])); iv = bits(a[4], F.size_arg(a[5]))
    A = (kb + [0] * 93)[:93]; B = (iv + [0] * 84)[:84]; C = [0] * 108 + [1] * 3
    P = F.prod; z = []
    for i in range(4 * 288 + 32 * words):
        t1 = A[65] ^ A[92]; t2 = B[68] ^ B[83]; t3 = C[65] ^ C[110]
        if i >= 4 * 288: z.append(t1 ^ t2 ^ t3)
        t1 ^= P(A[90], A[91]) ^ B[77]; t2 ^= P(B[81], B[82]) ^ C[86]; t3 ^= P(C[108], C[109]) ^ A[68]
        A = [t3] + A[:-1]; B = [t1] + B[:-1]; C = [t2] + C[:-1]
    out = []
    for w in range(words):
        x = z[32 * w:32 * w + 32][::-1]
        out += [poly.norm(x[k:k + 8]) for k in (0, 8, 16, 24)]
    symm.setb(F, a[0], out)

class R: pass
def run_case(mod, c):
    r = R(); r.found = None; r.limit = None; r.bits = 0; r.same = 0
    F = make(mod); F.blk = c.opts.get('blk', 16)
    if c.aes: F.hooks.update(F.aes_hooks)
    try: F.call(c.fn, [('k', a) for a in c.args])
    except Limit as e: r.limit = str(e)
    except Bad as e: r.found = (str(e), F.where())
    except Fault as e: r.found = ('no defined result: ' + e.what, e.where)
    r.steps = F.steps; r.atoms = len(F.bits)
    if r.found or r.limit: return r
    for a, b in F.same:
        if a[0] == 'k' and b[0] == 'k': r.found = ('returns %d, not %d' % (poly.flow.sg(a[1], 64), poly.flow.sg(b[1], 64)), None); return r
        r.limit = 'a returned value depends on data'
    o = F.dumps.get('out'); e = F.dumps.get('ref')
    if o is None or e is None: r.limit = r.limit or 'nothing to compare'; return r
    ps = []; at = []
    for i, (x, y) in enumerate(zip(o, e)):
        p, q = forms(x), forms(y)
        if p is None or q is None:
            if x is not y: r.limit = 'byte %d has no normal form' % i
            continue
        for k in range(8):
            r.bits += 1
            if p[k] == q[k]: r.same += 1
            else: ps.append((p[k], q[k])); at.append((i, k))
    if ps:
        try: j = F.differ(ps)
        except Limit as e: j = None
        if j is None: r.limit = r.limit or '%d of %d bits have different normal forms, no difference in value found' % (len(ps), r.bits)
        else: r.found = ('bit %d of byte %d (of %d) is not %s; %d of %d bits differ' % (at[j][1], at[j][0], len(o), c.opts.get('want', 'what the definition says'), len(ps), r.bits), None)
    return r
def forms(e): return None if e == (0, 'ptr') else poly.forms(e)

def analyse(prop, cases):
    mod = build.module_with(refs.harness())
    cs = [c for c in cases if c.fn in mod.funcs]
    if not cs: raise build.CheckError('no scenario')
    order = sorted(range(len(cs)), key=lambda k: -cs[k].opts.get('cost', 1))
    def work(k):
        try: return k, run_case(mod, cs[k])
        except RecursionError:
            r = R(); r.found = None; r.limit = 'recursion'; r.bits = r.same = r.steps = r.atoms = 0; return k, r
    res = common.Result(); seen = set(); und = {}; nd = steps = bits = same = 0; per = {}
    for k, r in sorted(common.pmap(work, order), key=lambda x: x[0]):
        c = cs[k]; steps += r.steps; bits += r.bits; same += r.same; per[c.func] = per.get(c.func, 0) + 1
        if r.found:
            rule = c.opts.get('rule', 'value')
            if (c.func, rule) in seen: continue
            seen.add((c.func, rule)); msg, w = r.found; w = common.rel(str(w or ''))
            f = mod.funcs.get(c.func)
            if not w.startswith('src'): w = common.rel('%s:%s' % (f.file, f.line)) if f else 'src'
            res.findings.append(common.Finding(rule, c.func, w, '%s  (scenario %s)' % (msg, c.label()), [], '%s:%s' % (rule, c.func)))
        elif r.limit: nd += 1; und.setdefault(c.func, []).append('%s: %s' % (c.label(), r.limit))
    for f, l in und.items(): res.undecided.append('%s: %d scenario(s), e.g. %s' % (f, len(l), l[0]))
    if nd * 2 > len(cs) and not res.findings: raise build.CheckError('most scenarios are not decided, e.g. ' + res.undecided[0])
    res.coverage = dict(evaluations=len(cs), distinct_nontrivial=sum(1 for c in cs if c.args), output_bits_compared=bits, output_bits_equal=same, abstract_steps=steps, undecided=nd, rule=RULE,
        scenarios_per_function=dict(sorted(per.items())), samples=[c.label() for c in cs[:: max(1, len(cs) // 10)]][:10])
    res.assumptions = list(ASSUME)
    return res
