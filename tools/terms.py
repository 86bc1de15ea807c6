"""Value numbering of multi-precision numbers: an abstract domain for the routines above the digit level.

A number is an exact integer polynomial over atoms: inputs, random draws, and interned results of modular reduction, modular
inverse, exponentiation, integer quotient, gcd, curve point coordinates.  Reductions are kept as residues, so their place and
number does not matter; residues with inverses are compared as fractions (cross-multiplied), exponents of equal bases are
added, points are combinations of base points.  The number routines underneath are taken by their meaning (hooks).
Conditions on unknown numbers (zero, negative, order) split the state; every combination is a path condition.
Equal terms are equal for all operands; a difference is claimed only when the two terms take different values for operands
that satisfy the path condition (toy parameters, evaluated on the terms, nothing is run)."""
import math, random
import flow, poly
from flow import Limit, Fault

class Cut(Exception): pass
class NoValue(Exception): pass
ONE = (((), 1),)
ZERO = ()
def C(c): return (((), c),) if c else ZERO
def padd(a, b, k=1):
    d = dict(a)
    for m, c in b:
        x = d.get(m, 0) + k * c
        if x: d[m] = x
        else: d.pop(m, None)
    return tuple(sorted(d.items()))
def mmul(m, n):
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))
def pmul(a, b):
    if len(a) * len(b) > 200000: raise Limit('terms')
    d = {}
    for m, c in a:
        for n, k in b:
            x = mmul(m, n); d[x] = d.get(x, 0) + c * k
    return tuple(sorted((m, c) for m, c in d.items() if c))
def ppow(a, e):
    r = ONE
    for _ in range(e): r = pmul(r, a)
    return r
def pconst(a):
    if not a: return 0
    return a[0][1] if len(a) == 1 and a[0][0] == () else None

class Algebra:
    def __init__(self):
        self.defs = []; self.ids = {}; self.mods = {}; self.range = {}; self.kind = {}
        self.draws = 0; self.bits = {}; self.inverse = {}
    def atom(self, d):
        i = self.ids.get(d)
        if i is None: i = self.ids[d] = len(self.defs); self.defs.append(d)
        return (((((i, 1),)), 1),)
    def inp(self, name): return self.atom(('in', name))
    def single(self, p):
        """the atom a value consists of"""
        return p[0][0][0][0] if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1 and p[0][0][0][1] == 1 else None
    def d(self, p):
        i = self.single(p)
        return self.defs[i] if i is not None else None
    def residue(self, p, m):
        mc = pconst(m); ma = self.single(m)
        for _ in range(50):
            out = {}; ch = False
            for mono, c in p:
                if mc is not None: c %= mc
                if c == 0: continue
                if ma is not None and any(a == ma for a, e in mono): ch = True; continue
                sub = None
                for a, e in mono:
                    d = self.defs[a]
                    if d[0] == 'mod' and (d[1] == m or mc is None and ma is not None and len(d[1]) == 1 and ma in [z[0] for z in d[1][0][0]]): sub = (a, e, d[2]); break
                if sub:
                    ch = True; rest = tuple(x for x in mono if x[0] != sub[0])
                    for n, k in pmul(((rest, c),), ppow(sub[2], sub[1])): out[n] = out.get(n, 0) + k
                    continue
                mono2 = self.powers(mono, m)
                if mono2 != mono: ch = True
                out[mono2] = out.get(mono2, 0) + c
            if mc is not None: out = {n: k % mc for n, k in out.items()}
            p = tuple(sorted((n, k) for n, k in out.items() if k))
            if not ch: break
        return p
    def powers(self, mono, m):
        g = {}; rest = []; n = 0
        for a, e in mono:
            d = self.defs[a]
            if d[0] == 'pow' and d[1] == m: g[d[2]] = padd(g.get(d[2], ZERO), pmul(d[3], C(e))); n += 1
            else: rest.append((a, e))
        if not n: return mono
        for b, e in g.items():
            x = self.atom(('pow', m, b, e))
            if e != ZERO: rest = mmul(tuple(rest), x[0][0])
        return tuple(sorted(rest))
    def clear(self, p, m):
        """multiplies the inverses of m away"""
        for _ in range(40):
            p = self.residue(p, m); best = None
            for mono, c in p:
                for a, e in mono:
                    if self.defs[a][0] == 'inv' and self.defs[a][1] == m and (best is None or a > best): best = a
            if best is None: return p
            W = self.defs[best][2]; K = max(e for mono, c in p for a, e in mono if a == best); out = ZERO
            for mono, c in p:
                k = sum(e for a, e in mono if a == best)
                out = padd(out, pmul(((tuple(x for x in mono if x[0] != best), c),), ppow(W, K - k)))
            p = out
        raise Limit('nested inverses')
    def congruent(self, a, b, m): return a == b or self.clear(padd(a, b, -1), m) == ZERO
    def mod(self, p, m):
        R = self.residue(p, m); c = pconst(R); mc = pconst(m)
        if c is not None and (mc is not None or c in (0, 1)): return C(c)
        i = self.single(R)
        if i is not None and self.range.get(i) == m: return R
        for R2 in self.mods.setdefault(m, []):
            if self.congruent(R, R2, m): return R2 if self.range.get(self.single(R2)) == m else self.atom(('mod', m, R2))
        self.mods[m].append(R)
        return self.atom(('mod', m, R))
    def inv(self, p, m):
        R = self.residue(p, m)
        d = self.d(R)
        if d and d[0] == 'inv' and d[1] == m: return self.mod(d[2], m)
        if R == ONE: return ONE
        for i, d in enumerate(self.defs):
            if d[0] == 'inv' and d[1] == m and self.congruent(d[2], R, m): return self.mod((((((i, 1),)), 1),), m)
        return self.mod(self.atom(('inv', m, R)), m)
    def pow(self, b, e, m):
        ec = pconst(e)
        if m is not None:
            R = self.residue(b, m)
            if ec is not None and 0 <= ec <= 3: return self.mod(ppow(R, ec), m)
            d = self.d(R)
            if d and d[0] == 'mod' and d[1] == m and self.d(d[2]) and self.d(d[2])[0] == 'pow': d = self.d(d[2])
            if d and d[0] == 'pow' and d[1] == m:
                x = pmul(d[3], e)
                if m in self.inverse and x == self.inverse[m]: return self.mod(d[2], m)
                return self.mod(self.atom(('pow', m, d[2], x)), m)
            if pconst(R) in (0, 1): return R
            rc = self.mod(R, m); rc = self.d(rc)[2] if self.d(rc) and self.d(rc)[0] == 'mod' else rc
            return self.mod(self.atom(('pow', m, rc, e)), m)
        if ec is not None and 0 <= ec <= 40: return ppow(b, ec)
        return self.atom(('exp', b, e))
    def quot(self, a, b):
        ca, cb = pconst(a), pconst(b)
        if ca is not None and cb: return C(ca // cb)
        if b == ONE: return a
        return self.atom(('quot', a, b))
    def abs0(self, a): return a
    def gcd(self, a, b):
        if a == ZERO: return b
        if b == ZERO: return a
        return self.atom(('gcd',) + tuple(sorted((a, b))))
    NONNEG = ('mod', 'gcd', 'bin', 'rand', 'px', 'py', 'pz', 'abs', 'inv', 'pow')
    def big(self, p):
        '''a known size minus a small constant'''
        k = [c for m, c in p if m == ()]; r = [(m, c) for m, c in p if m]
        return len(r) == 1 and bool(k) and r[0][1] >= 1 and len(r[0][0]) == 1 and r[0][0][0][1] == 1 and self.bits.get(r[0][0][0][0], 0) > abs(k[0]).bit_length() + 1
    def nonneg(self, p):
        if self.big(p): return True
        return all(c > 0 and all(e % 2 == 0 or self.defs[a][0] in self.NONNEG or self.kind.get(a, 0) & 1 or self.defs[a][0] == 'quot' and self.nonneg(self.defs[a][1]) and self.nonneg(self.defs[a][2]) for a, e in m) for m, c in p)
    def positive(self, p):
        if self.big(p): return True
        return self.nonneg(p) and any(all(self.kind.get(a, 0) & 2 for a, e in m) for m, c in p)
    # points: sorted tuple of (base, exponent residue mod n); base = (x, y, z)
    def point(self, terms, n):
        d = {}
        for b, e in terms: d[b] = self.residue(padd(d.get(b, ZERO), e), n) if n is not None else padd(d.get(b, ZERO), e)
        return tuple(sorted((b, e) for b, e in d.items() if e != ZERO))
    def coords(self, pt, env=None):
        if not pt: return ONE, ONE, ZERO
        if len(pt) == 1 and pt[0][1] == ONE: return pt[0][0]
        return tuple(self.atom((k, pt)) for k in ('px', 'py', 'pz'))
    # values
    def value(self, p, env):
        t = 0
        for m, c in p:
            for a, e in m: c *= self.avalue(a, env) ** e
            t += c
        return t
    def avalue(self, a, env):
        v = env.get(a)
        if v is None: v = env[a] = self.compute(self.defs[a], env)
        return v
    def compute(self, d, env):
        k = d[0]; V = lambda p: self.value(p, env)
        if k == 'in':
            if d[1] not in env: raise NoValue(d[1])
            return env[d[1]]
        if k == 'mod':
            m = V(d[1])
            if m == 0: raise NoValue('modulus')
            return V(d[2]) % m
        if k == 'inv':
            m = V(d[1]); x = V(d[2])
            if m == 0 or math.gcd(x, m) != 1: raise NoValue('inverse')
            return pow(x, -1, m)
        if k in ('pow', 'exp'):
            b, e = V(d[-2]), V(d[-1])
            if k == 'exp':
                if not 0 <= e < 60: raise NoValue('power')
                return b ** e
            m = V(d[1])
            if m == 0 or e < 0: raise NoValue('power')
            return pow(b, e, m)
        if k == 'quot':
            b = V(d[2])
            if b == 0: raise NoValue('quotient')
            return V(d[1]) // b
        if k == 'gcd': return math.gcd(V(d[1]), V(d[2]))
        if k == 'abs': return abs(V(d[1]))
        if k == 'rand':
            r = env['rnd']; key = ('draw', d[1])
            if d[2] == 'prime':
                if key not in env: env[key] = r.choice((3, 5, 7, 11, 13, 17, 19, 23))
                return env[key]
            if key not in env: env[key] = r.random()
            u = env[key]
            if d[2] == 'range': return 1 + int(u * max(1, V(d[3]) - 1))
            return int(u * 97) + 1
        if k == 'bin':
            v = 0
            for x in d[1]:
                if type(x) is int: b = x
                else:
                    if x not in env: env[x] = env['rnd'].choice((0, 1, 2, 3, 5, 7, 255, 128, env['rnd'].randrange(256)))
                    b = env[x]
                v = v * 256 + b
            return v
        if k in ('px', 'py', 'pz'):
            key = ('pt', d[1])
            if key not in env: env[key] = self.ptvalue(d[1], env)
            P = env[key]
            return {'px': P[0] if P else 1, 'py': P[1] if P else 1, 'pz': 1 if P else 0}[k]
        raise NoValue(k)
    def ptvalue(self, pt, env):
        p, a = env['p'], env['a']; R = None
        for b, e in pt:
            x, y, z = (self.value(c, env) for c in b); P = (x, y) if z else None
            R = curve_add(R, curve_mul(self.value(e, env), P, p, a), p, a)
        return R
def curve_add(P, Q, p, a):
    if P is None: return Q
    if Q is None: return P
    if (P[0] - Q[0]) % p == 0:
        if (P[1] + Q[1]) % p == 0: return None
        l = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p)
    else: l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p)
    x = (l * l - P[0] - Q[0]) % p
    return x, (l * (P[0] - x) - P[1]) % p
def curve_mul(k, P, p, a):
    R = None
    if k < 0: k = -k; P = P and (P[0], -P[1] % p)
    while k:
        if k & 1: R = curve_add(R, P, p, a)
        P = curve_add(P, P, p, a); k >>= 1
    return R

class Terms(poly.Poly):
    """the analysis: control with constants, numbers as terms"""
    def __init__(self, mod, script, inline=(), points=False):
        super().__init__(mod)
        self.A = Algebra(); self.script = script; self.taken = []; self.path = []; self.known = {}
        self.objs = {}; self.outs = {}; self.ret = None; self.flags = {}; self.store_ = {}; self.bits_ = {}; self.msgs = {}
        for k, f in HOOKS.items():
            if k not in inline: self.hooks[k] = f
        if points: self.hooks.update({k: f for k, f in PHOOKS.items() if k not in inline})
    # decisions
    def choose(self, key, opts):
        if key in self.known: return self.known[key]
        i = len(self.taken)
        if i >= self.maxdec: raise Cut()
        c = self.script[i] if i < len(self.script) else 0
        self.taken.append((c, len(opts))); self.known[key] = opts[c]; self.path.append((key, opts[c]))
        return opts[c]
    def zero(self, v):
        c = pconst(v)
        if c is not None: return c == 0
        if self.A.positive(v): return False
        d = self.A.d(v)
        if d and d[0] == 'abs': return self.zero(d[1])
        if d and d[0] == 'mod':
            R = d[2]
            if R and R[0][1] < 0: v = self.A.mod(tuple((m, -k) for m, k in R), d[1])
        elif v[0][1] < 0: v = tuple((m, -k) for m, k in v)
        for s in (-1, 0, 1):
            if self.known.get(('neg', v)): return False
        return self.choose(('zero', v), [False, True])
    def neg(self, v):
        c = pconst(v)
        if c is not None: return c < 0
        if self.A.nonneg(v): return False
        w = tuple((m, -k) for m, k in v)
        if self.A.nonneg(w): return not self.zero(v)
        if self.zero(v): return False
        if ('neg', w) in self.known: return not self.known[('neg', w)]
        return self.choose(('neg', v), [False, True])
    def abs(self, v):
        return tuple((m, -k) for m, k in v) if self.neg(v) else v
    def cmpknown(self, a, b):
        for k, s in ((('cmp', a, b), 1), (('cmp', b, a), -1)):
            if k in self.known: return s * self.known[k]
        return None
    def cmp(self, a, b):
        if a == b: return 0
        c = pconst(padd(a, b, -1))
        if c is not None: return -1 if c < 0 else 1
        if b == ZERO: return 0 if self.zero(a) else -1 if self.neg(a) else 1
        if a == ZERO: return -self.cmp(b, a)
        d = padd(a, b, -1)
        if d[0][1] < 0 or b < a and False: pass
        if a > b: return -self.cmp(b, a)
        if b == ONE and self.A.nonneg(a) or a == ONE and self.A.nonneg(b):        # gcd(x, y) = 1, or more
            d = self.A.d(a if b == ONE else b)
            if d and d[0] == 'gcd': return self.choose(('cmp', a, b), [0, 1 if b == ONE else -1])
        for x, y, s in ((a, b, -1), (b, a, 1)):                                   # a residue is below its modulus
            d = self.A.d(x)
            if self.A.range.get(self.A.single(x)) == y or d and d[0] == 'mod' and d[1] == y: return s
        return self.choose(('cmp', a, b), [0, 1, -1])
    def below(self, v, m):
        '''v < m by their sizes'''
        d = self.A.d(v); i = self.A.single(m)
        return bool(d and d[0] == 'bin' and i is not None and self.A.bits.get(i, 0) > 8 * len(d[1]))
    # fields
    def off(self):
        o = getattr(self, 'off_', None)
        if o is None:
            oi = self.glob('v_off'); b = self.mem[oi].b
            o = self.off_ = [sum(b[8 * i + k] << (8 * k) for k in range(8)) for i in range(5)]
        return o
    def flag(self, kind, v):
        """a bit that says whether v is negative / not zero"""
        c = pconst(v)
        if c is not None: return int(c < 0) if kind == 'neg' else int(c != 0)
        if kind == 'neg' and self.A.nonneg(v): return 0
        if kind == 'nz' and self.A.positive(v): return 1
        if (kind, v) in self.known: pass
        f = self.opaque(('flag', kind, v), 1)[0]; self.flags[f] = (kind, v)
        return f
    def setnum(self, p, v, used=None):
        if p[0] != 'p': raise Limit('number at an unknown place')
        so, uo, ao, do, sz = self.off()
        s = self.flag('neg', v); c = pconst(v)
        if c is not None:
            x = abs(c); n = (x.bit_length() + 63) // 64; o = self.new('heap', max(8 * n, 8), 'digits', 0)
            for i in range(8 * n): self.mem[o].b[i] = (x >> (8 * i)) & 255
            u = [n >> i & 1 for i in range(64)]
        else:
            o = self.new('heap', 8, 'digits', 0)
            b = self.opaque(('digits', v), 64)
            self.mem[o].b[:] = [poly.norm(b[8 * i:8 * i + 8]) for i in range(8)]
            u = [self.flag('nz', v)] + [0] * 63 if used is None else [used >> i & 1 for i in range(64)]
        self.objs[o] = (v, s, tuple(u))
        self.put(p, so, [s] + [0] * 31); self.put(p, uo, u); self.put(p, ao, [64 >> i & 1 for i in range(64)])
        self.store(('p', p[1], p[2] + do), ('p', o, 0), ('ptr',))
    def put(self, p, off, fs):
        n = len(fs) // 8
        self.store(('p', p[1], p[2] + off), flow.mk(tuple(poly.norm(fs[8 * i:8 * i + 8]) for i in range(n)), ('i', 8 * n)), ('i', 8 * n))
    def field(self, p, off, n):
        o = self.check(('p', p[1], p[2] + off), n, False); fs = []
        for e in o.b[p[2] + off:p[2] + off + n]:
            f = poly.forms(e)
            if f is None: raise Limit('number field')
            fs += f
        return fs
    def num(self, p):
        if p[0] != 'p': raise Limit('number at an unknown place')
        so, uo, ao, do, sz = self.off()
        o = self.check(('p', p[1], p[2] + do), 8, False); q = o.ptr.get(p[2] + do)
        s = self.field(p, so, 4); u = self.field(p, uo, 8)
        uc = sum(x << i for i, x in enumerate(u)) if all(x < 2 for x in u) else None
        if uc == 0: return ZERO
        if q is None: raise Limit('number without digits')
        if q[1] in self.objs:
            v, s0, u0 = self.objs[q[1]]
            if tuple(u) != u0 and not (uc is not None): raise Limit('digits counted anew')
            sgn = s[0]
            for x in s[1:]:
                if x: raise Limit('sign')
            if sgn == s0: return v
            if sgn > 1: sgn = self.truth(sgn)
            if s0 > 1: s0 = self.truth(s0)
            return v if sgn == s0 else tuple((m, -k) for m, k in v)
        if uc is None: raise Limit('digits')
        D = self.mem[q[1]]; x = 0
        for i in range(8 * uc):
            e = D.b[q[2] + i]
            if type(e) is not int: raise Limit('digits depend on data')
            x |= e << (8 * i)
        if any(f > 1 for f in s): raise Limit('sign')
        return C(-x if any(s) else x)
    def truth(self, f):
        """decides a form made of flags"""
        v = f & 1
        for b in poly.iterbits(f & ~1):
            k = self.flags.get(1 << b)
            if k is None:
                s = self.monof.get(b)
                if s is None: raise Limit('decision on data at ' + self.where())
                x = 1
                for y in s:
                    g = self.defs[y][1] if y >= 1 << 40 else 1 << y
                    x &= self.truth(g)
                v ^= x; continue
            v ^= int(self.neg(k[1])) if k[0] == 'neg' else int(not self.zero(k[1]))
        return v
    def decided(self, c):
        """conditions made of flags split the state: each run follows one side"""
        if c[0] != 'b': return c
        v = 0
        for i, e in enumerate(c[1]):
            fs = poly.forms(e)
            if fs is None: raise Limit('decision on data at ' + self.where())
            for k, f in enumerate(fs): v |= (f if f < 2 else self.truth(f)) << (8 * i + k)
        return ('k', v)

def K(F, v, w=32): return ('k', v & ((1 << w) - 1))
def op2(g):
    def f(F, a):
        F.setnum(a[0], g(F, F.num(a[1]), F.num(a[2]))); return K(F, 0)
    return f
def op1(g):
    def f(F, a):
        F.setnum(a[0], g(F, F.num(a[1]))); return K(F, 0)
    return f
def plist(F, a):
    for p in a:
        if p == ('k', 0): return
        yield p
def h_init(F, a): F.setnum(a[0], ZERO); return K(F, 0)
def h_initl(F, a):
    for p in plist(F, a): F.setnum(p, ZERO)
    return K(F, 0)
def h_clear(F, a):
    return None
def h_int(F, a):
    F.setnum(a[0], C(flow.sg(F.size_arg(a[1]), 64))); return K(F, 0)
def h_load(F, a):
    n = F.size_arg(a[2])
    if n == 0: F.setnum(a[0], ZERO); return K(F, 0)
    o = F.check(a[1], n, False); bs = o.b[a[1][2]:a[1][2] + n]; key = tuple(bs)
    while key and key[0] == 0: key = key[1:]
    if all(type(e) is int for e in key): v = C(int.from_bytes(bytes(key), 'big'))
    else:
        key = tuple(e if type(e) is int else e[1] if e[1] is not None else None for e in key)
        if any(type(e) is not int and e[0] & flow.UNSET for e in bs): raise Fault('a number is loaded from bytes that were never set', F.where())
        if None in key: raise Limit('bytes')
        v = F.store_.get(key)
        if v is None: v = F.A.atom(('bin', key))
    F.setnum(a[0], v); return K(F, 0)
def h_storeb(F, a):
    v = F.num(a[0]); n = F.size_arg(a[2]); pad = F.size_arg(a[3])
    c = pconst(v); d = F.A.d(v)
    if not pad: raise Limit('unpadded store')
    if d and d[0] == 'mod' and F.A.d(d[2]) and F.A.d(d[2])[0] == 'bin' and F.below(d[2], d[1]): d = F.A.d(d[2])
    if d and d[0] == 'bin' and len(d[1]) <= n:
        bs = [0] * (n - len(d[1])) + [x if type(x) is int else poly.norm(list(x)) for x in d[1]]
        F.check(a[1], n, True); o = F.w(a[1][1]); o.b[a[1][2]:a[1][2] + n] = bs
        return K(F, 0)
    if c is not None: bs = list(abs(c).to_bytes(n, 'big'))
    else:
        b = F.opaque(('bytes', v, n), 8 * n); bs = [poly.norm(b[8 * i:8 * i + 8]) for i in range(n)]
        F.store_[tuple(e[1] for e in bs)] = v
    if n:
        F.check(a[1], n, True); o = F.w(a[1][1]); o.b[a[1][2]:a[1][2] + n] = bs
    return K(F, 0)
def h_div(F, a):
    x, y = F.num(a[2]), F.num(a[3])
    if F.zero(y): return K(F, -1)
    if F.neg(y): raise Limit('negative divisor')
    q, r = F.A.quot(x, y), F.A.mod(x, y)
    if a[0][0] == 'p': F.setnum(a[0], q)
    if a[1][0] == 'p': F.setnum(a[1], r)
    return K(F, 0)
def h_divabs(F, a):
    x, y = F.abs(F.num(a[2])), F.abs(F.num(a[3]))
    if F.zero(y): return K(F, -1)
    q, r = F.A.quot(x, y), F.A.mod(x, y)
    if a[0][0] == 'p': F.setnum(a[0], q)
    if a[1][0] == 'p': F.setnum(a[1], r)
    return K(F, 0)
def h_subabs(F, a):
    x, y = F.abs(F.num(a[1])), F.abs(F.num(a[2]))
    d = F.A.d(y)
    if not (d and d[0] == 'mod' and d[1] == x) and F.cmp(x, y) < 0: return K(F, -1)
    v = padd(x, y, -1)
    i = v
    F.setabs(a[0], v); return K(F, 0)
def setabs(F, p, v):
    """a difference that is known not to be negative"""
    if v and ('neg', v) not in F.known and not F.A.nonneg(v):
        w = tuple((m, -k) for m, k in v)
        F.known[('neg', v)] = False; F.known[('neg', w)] = True
    F.setnum(p, v)
Terms.setabs = setabs
def h_inv(F, a):
    x, m = F.num(a[1]), F.num(a[2])
    g = F.A.gcd(*sorted((F.A.abs0(x), m))); one = F.cmpknown(g, ONE)
    if one is None: one = not F.choose(('unit', m, F.A.mod(x, m)), [True, False])
    if one: return K(F, -1)
    F.setnum(a[0], F.A.inv(x, m)); return K(F, 0)
def h_modexp(F, a):
    m = None if a[3] == ('k', 0) else F.num(a[3]); e = F.num(a[2]); b = F.num(a[1])
    if F.neg(e): return K(F, -1)
    if m is not None and pconst(m) is None and pconst(e) == 0: F.setnum(a[0], F.A.mod(ONE, m))
    else: F.setnum(a[0], F.A.pow(b, e, m))
    return K(F, 0)
def h_cmp(F, a): return K(F, F.cmp(F.num(a[0]), F.num(a[1])))
def h_cmpabs(F, a): return K(F, F.cmp(F.abs(F.num(a[0])), F.abs(F.num(a[1]))))
def h_bits(F, a):
    v = F.num(a[0]); c = pconst(v)
    if c is not None: return K(F, abs(c).bit_length(), 64)
    i = F.A.single(v)
    if i is not None and F.bits_.get(i): return K(F, F.bits_[i], 64)
    if F.bitopts: return K(F, F.choose(('bits', v), F.bitopts), 64)
    b = F.opaque(('bits', v), 16)
    return F.pack(list(b) + [0] * 48, ('i', 64))
def h_rand(F, a):
    F.A.draws += 1
    if a[1][0] not in 'kb': raise Limit('width')
    v = F.A.atom(('rand', F.A.draws, 'bits')); i = F.A.single(v)
    if a[1][0] == 'k' and a[1][1]: F.A.kind[i] = 3; F.A.bits[i] = a[1][1]     # its most significant bit is set
    F.setnum(a[0], v); return K(F, 0)
def h_rrange(F, a):
    F.A.draws += 1; v = F.A.atom(('rand', F.A.draws, 'range', F.num(a[1]))); F.A.range[F.A.single(v)] = F.num(a[1]); F.A.kind[F.A.single(v)] = 3
    F.setnum(a[0], v); return K(F, 0)
def h_prime(F, a):
    F.A.draws += 1; v = F.A.atom(('rand', F.A.draws, 'prime')); F.A.kind[F.A.single(v)] = 3
    if a[1][0] == 'k': F.A.bits[F.A.single(v)] = a[1][1]
    F.setnum(a[0], v); return K(F, 0)
def h_isprime(F, a): return K(F, F.choose(('prime', F.num(a[0])), [1, 0]))
def h_shr(F, a):
    n = F.size_arg(a[2]); v = F.num(a[1]); d = F.A.d(v)
    if d and d[0] == 'bin' and n >= 8:
        k = d[1][:-(n // 8)]; v = F.A.atom(('bin', k)) if any(x != 0 for x in k) else ZERO; n %= 8
        while v and F.A.d(v)[1][0] == 0: v = F.A.atom(('bin', F.A.d(v)[1][1:]))
        F.setnum(a[0], F.A.quot(v, C(1 << n)) if v else ZERO); return K(F, 0)
    F.setnum(a[0], F.A.quot(F.num(a[1]), C(1 << n))); return K(F, 0)
def h_shl(F, a):
    n = F.size_arg(a[2]); F.setnum(a[0], pmul(F.num(a[1]), C(1 << n))); return K(F, 0)
def h_lcm(F, a):
    x, y = F.num(a[1]), F.num(a[2]); F.setnum(a[0], F.A.quot(pmul(x, y), F.gcd(x, y))); return K(F, 0)
def h_dig(F, a):
    F.setnum(a[0], pmul(F.num(a[1]), C(F.size_arg(a[2])))); return K(F, 0)
SUB = lambda F, x, y: padd(x, y, -1)
MUL = lambda F, x, y: pmul(x, y)
ABSMUL = lambda F, x, y: pmul(F.abs(x), F.abs(y))
HOOKS = dict(cry_mpi_init=h_init, cry_mpi_clear=h_clear, cry_mpi_init_list=h_initl, cry_mpi_clear_list=h_clear, cry_mpi_init_size=h_init,
    cry_mpi_copy=op1(lambda F, x: x), cry_mpi_init_copy=op1(lambda F, x: x), cry_mpi_set_int=h_int, cry_mpi_init_int=h_int,
    cry_mpi_load_bin=h_load, cry_mpi_init_bin=h_load, cry_mpi_store_bin=h_storeb, cry_mpi_abs=op1(lambda F, x: F.abs(x)),
    cry_mpi_add=op2(lambda F, x, y: padd(x, y)), cry_mpi_sub=op2(SUB), cry_mpi_mul=op2(MUL), cry_mpi_sqr=op1(lambda F, x: pmul(x, x)),
    cry_mpi_add_abs=op2(lambda F, x, y: padd(F.abs(x), F.abs(y))), cry_mpi_sub_abs=h_subabs, cry_mpi_div_abs=h_divabs, cry_mpi_div=h_div,
    cry_mpi_mod_exp=h_modexp, cry_mpi_exp=lambda F, a: h_modexp(F, a + [('k', 0)]), cry_mpi_inv=h_inv, cry_mpi_gcd=op2(lambda F, x, y: F.A.gcd(F.abs(x), F.abs(y))), cry_mpi_lcm=h_lcm,
    cry_mpi_cmp=h_cmp, cry_mpi_cmp_abs=h_cmpabs, cry_mpi_count_bits=h_bits, cry_mpi_rand=h_rand, cry_mpi_rand_range=h_rrange, cry_mpi_prime=h_prime, cry_mpi_is_prime=h_isprime,
    cry_mpi_shl=h_shl, cry_mpi_shr=h_shr, cry_mpi_mul_dig=h_dig)
for n in ('mul_abs', 'mul_baseline', 'mul_comba', 'mul_karatsuba', 'mul_toom3'): HOOKS['cry_mpi_' + n] = op2(ABSMUL)
for n in ('sqr_baseline', 'sqr_comba', 'sqr_karatsuba'): HOOKS['cry_mpi_' + n] = op1(lambda F, x: pmul(x, x))
# points
def pt(F, p):
    off = F.ecp()[:3]; c = [F.num(('p', p[1], p[2] + o)) for o in off]
    if c[2] == ZERO: return ()
    d = F.A.d(c[0])
    if d and d[0] == 'px' and F.A.d(c[1]) == ('py', d[1]) and (F.A.d(c[2]) == ('pz', d[1]) or c[2] == ONE): return d[1]
    if c[2] != ONE and F.zero(c[2]): return ()
    return (((c[0], c[1], c[2]), ONE),)
def ecp(F):
    oi = F.glob('v_ecpoff'); b = F.mem[oi].b
    return [sum(b[8 * i + k] << (8 * k) for k in range(8)) for i in range(4)]
Terms.ecp = ecp
def setpt(F, p, P):
    off = F.ecp()
    for o, v in zip(off, F.A.coords(P)): F.setnum(('p', p[1], p[2] + o), v)
def order(F, g): return F.num(('p', g[1], g[2] + F.ecp()[3])) if F.useorder else None
Terms.useorder = True; Terms.bitopts = None; Terms.maxdec = 14
def h_padd(F, a): setpt(F, a[0], F.A.point(pt(F, a[1]) + pt(F, a[2]), order(F, a[3]))); return K(F, 0)
def h_pdbl(F, a): P = pt(F, a[1]); setpt(F, a[0], F.A.point(P + P, order(F, a[2]))); return K(F, 0)
def h_pmul(F, a):
    P = pt(F, a[1]); k = F.num(a[2]); setpt(F, a[0], F.A.point(tuple((b, pmul(e, k)) for b, e in P), order(F, a[3]))); return K(F, 0)
PHOOKS = dict(cry_ecp_add=h_padd, cry_ecp_dbl=h_pdbl, cry_ecp_mul=h_pmul)
# harness
def v_num(F, a):
    """v_num(p, name, bits): an unknown number; bits > 0: positive, of that size; -1: not negative; 0: any"""
    name = flow.cstr(F, a[1]); bits = flow.sg(F.size_arg(a[2]), 64); v = F.A.inp(name); i = F.A.single(v)
    if bits > 0: F.A.kind[i] = 3; F.bits_[i] = F.A.bits[i] = bits
    elif bits == -1: F.A.kind[i] = 1
    elif bits == -2: F.A.kind[i] = 3
    F.setnum(a[0], v, (bits + 63) // 64 if bits > 0 else None)
def v_range(F, a): F.A.range[F.A.single(F.num(a[0]))] = F.num(a[1])
def v_out(F, a): F.outs[flow.cstr(F, a[1])] = F.num(a[0])
def v_ret(F, a): F.ret = flow.sg(F.size_arg(a[0]), 64)
def v_mem(F, a):
    n = F.size_arg(a[1]); o = F.check(a[0], n, False) if n else None
    F.outs[flow.cstr(F, a[2])] = [e if type(e) is int else e[1] for e in (o.b[a[0][2]:a[0][2] + n] if n else [])]
def v_in(F, a):
    '''v_in(p, n, name): unknown bytes'''
    n = F.size_arg(a[1]); nm = flow.cstr(F, a[2]); F.check(a[0], n, True); o = F.w(a[0][1])
    for i in range(n):
        b = poly.norm(F.opaque(('msg', nm, i), 8)); o.b[a[0][2] + i] = b
        F.msgs.setdefault(nm, []).append(b[1])
def v_set(F, a):
    '''v_set(p, n, words...): a constant, most significant word first'''
    v = 0
    for x in a[1:]: v = (v << 64) | (F.size_arg(x) & ((1 << 64) - 1))
    F.setnum(a[0], C(v))
def v_numv(F, a):
    """v_value(p, n): the constant with digits given as bytes, most significant first"""
    n = F.size_arg(a[2]); o = F.check(a[1], n, False); F.setnum(a[0], C(int.from_bytes(bytes(o.b[a[1][2]:a[1][2] + n]), 'big')))
HOOKS.update(v_num=v_num, v_range=v_range, v_out=v_out, v_ret=v_ret, v_mem=v_mem, v_value=v_numv, v_set=v_set, v_in=v_in)

def paths(make, start, limit=400):
    """every combination of decisions"""
    script = []; n = 0
    while True:
        F = make(script); n += 1; st = None
        try: start(F)
        except Cut: st = 'cut'
        yield F, st
        t = F.taken
        while t and t[-1][0] + 1 >= t[-1][1]: t.pop()
        if not t: return
        if n >= limit: raise Limit('too many paths')
        script = [c for c, k in t[:-1]] + [t[-1][0] + 1]
def holds(A, key, val, env):
    k = key[0]
    if k == 'zero': return (A.value(key[1], env) == 0) == val
    if k == 'neg': return (A.value(key[1], env) < 0) == val
    if k == 'cmp':
        x, y = A.value(key[1], env), A.value(key[2], env); return (0 if x == y else -1 if x < y else 1) == val
    if k == 'unit': return (math.gcd(A.value(key[2], env), A.value(key[1], env)) == 1) == val
    if k == 'bits': return True                  # sizes are those of the real parameters, not of the sample values
    if k == 'prime': x = A.value(key[1], env); return (x > 1 and all(x % q for q in range(2, int(x ** .5) + 1))) == bool(val)
    raise NoValue(k)
