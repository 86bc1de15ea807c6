"""Value numbering over GF(2) polynomials: an abstract domain on top of the affine one (affine.py).

Every bit is an exclusive-or of atoms.  An atom is an input bit, a product of two or more variables, or an interned value
(a carry chain of a sum, an entry of a table picked by data, a comparison); a variable is an atom or an abbreviation of a
longer exclusive-or.  Equal operations on equal operands get the same atom (value numbering), and
  - products of short forms are multiplied out,
  - a lookup in a constant table becomes the polynomial of the index bits (the composition with an inner table is
    simplified first, so a table and its inverse cancel),
  - sums are kept as multisets of addends (modulo the word size), so their order and nesting does not matter,
so two computations of the same value usually get the same form.  Equal forms mean equal values for every input; different
forms do not yet mean different values, a difference is only claimed when the normal forms take different values at some
assignment of the atoms' variables (ev)."""
import flow, affine, hashlib, bisect
from flow import m_, pos, D, mk, bytes_of, Limit
from affine import norm, forms, Affine, maj

SHORT = 160
def iterbits(x):
    if x.bit_length() <= 4096:
        while x:
            l = x & -x; yield l.bit_length() - 1; x ^= l
        return
    for k in range(0, x.bit_length(), 2048):
        y = (x >> k) & CH
        while y:
            l = y & -y; yield k + l.bit_length() - 1; y ^= l
CH = (1 << 2048) - 1

class Poly(Affine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.mono = {}; self.monof = {}      # frozenset of variables <-> atom
        self.abbr = {}; self.defs = {}       # form -> variable; variable/atom -> definition
        self.nv = 1 << 40                    # abbreviations are numbered above the atoms
        self.wids = {}; self.words = []      # words <-> numbers
        self.sums = {}                       # word number -> (constant, ((word number, coefficient), ...))
        self.interned = {}; self.bysum = {}
        self.anfs = {}; self.blocks = []     # blocks of products made by one lookup: (first atom, number, forms of the index)
        self.termsof = {}; self.base = {}; self.basev = []
        self.seed = 0; self.forced = {}
    # atoms
    def newatoms(self, n):
        b = len(self.bits); self.bits += [('$', 0)] * n
        return b
    def opaque(self, key, n):
        """n bits that are a function of key"""
        b = self.interned.get((key, n))
        if b is None:
            b = self.interned[(key, n)] = self.newatoms(n)
            for i in range(n): self.defs[b + i] = (key, i)
        return [1 << (b + i) for i in range(n)]
    def monom(self, s):
        if len(s) == 1:
            v = next(iter(s))
            return self.defs[v][1] if v >= 1 << 40 else 1 << v
        b = self.mono.get(s)
        if b is None: b = self.mono[s] = self.newatoms(1); self.monof[b] = s
        return 1 << b
    def var(self, f):
        """the variables whose product is the form f (constant part removed, not zero)"""
        if f & (f - 1) == 0:
            b = f.bit_length() - 1
            return self.monof.get(b) or frozenset([b])
        v = self.abbr.get(f)
        if v is None: v = self.abbr[f] = self.nv; self.nv += 1; self.defs[v] = ('form', f)
        return frozenset([v])
    def prod(self, p, q):
        r = affine.prod(p, q)
        if r is not None: return r
        cp, cq = p & 1, q & 1; p ^= cp; q ^= cq
        r = cp & cq
        if cp: r ^= q
        if cq: r ^= p
        if p == q: return r ^ p
        P = self.terms(p); Q = self.terms(q)
        if len(P) * len(Q) <= 4096 and max(map(len, P)) + max(map(len, Q)) <= 64:
            for x in P:
                for y in Q: r ^= self.monom(x | y)
            return r
        return r ^ self.monom(self.var(p) | self.var(q))
    def terms(self, f):
        """a form as an exclusive-or of products of variables: its own when short, abbreviations otherwise (few abbreviations,
        kept as a basis, so that a combination of abbreviated forms is written with their names)"""
        r = self.termsof.get(f)
        if r is None:
            if f.bit_count() <= SHORT: r = [self.monof.get(b) or frozenset([b]) for b in iterbits(f)]
            else:
                c = 0; g = f
                while g:
                    e = self.base.get(g.bit_length())
                    if e is None: break
                    g ^= e[0]; c ^= e[1]
                if g:
                    g = f; i = len(self.basev); c = 0
                    v = next(iter(self.var(f))); h = f; d = 1 << i
                    while h:
                        e = self.base.get(h.bit_length())
                        if e is None: break
                        h ^= e[0]; d ^= e[1]
                    self.base[h.bit_length()] = (h, d); self.basev.append(v); r = [frozenset([v])]
                else: r = [frozenset([self.basev[i]]) for i in iterbits(c)]
            self.termsof[f] = r
        return r
    # bytes
    def and1(self, p, q):
        if type(p) is int and type(q) is int: return p & q
        a, b = forms(p), forms(q)
        if a is None or b is None: return super().and1(p, q)
        return norm([self.prod(x, y) for x, y in zip(a, b)])
    def or1(self, p, q):
        if type(p) is int and type(q) is int: return p | q
        a, b = forms(p), forms(q)
        if a is None or b is None: return super().or1(p, q)
        return norm([x ^ y ^ self.prod(x, y) for x, y in zip(a, b)])
    def join1(self, a, b, m, cond):
        if flow.same(a, b): return a
        c = self.condform(cond)
        if c is not None:
            x, y = forms(a), forms(b)
            if x is not None and y is not None: return norm([q ^ self.prod(c, p ^ q) for p, q in zip(x, y)])
        return flow.join(a, b, m)
    # words
    def word(self, v, w, n):
        p = self.allforms(v, n)
        return None if p is None else tuple(p[:w])
    def addbits(self, p, q, sub):
        """a sum without real carries"""
        c = 0; r = []
        if sub: q = [x ^ 1 for x in q]; c = 1
        for x, y in zip(p, q):
            r.append(x ^ y ^ c)
            if c == 0 and x > 1 and y > 1:
                if x.bit_count() + y.bit_count() > 12 or self.prod(x, y): return None if len(r) < len(p) else r
                continue
            c = maj(x, y, c)
            if c is None: return None if len(r) < len(p) else r
        return r
    def wid(self, p):
        i = self.wids.get(p)
        if i is None: i = self.wids[p] = len(self.words); self.words.append(p)
        return i
    def lin(self, p):
        """constant and addends (word number -> coefficient) of a word"""
        if all(x < 2 for x in p): return sum(x << i for i, x in enumerate(p)), {}
        i = self.wid(p); s = self.sums.get(i)
        if s is not None: return s[0], dict(s[1])
        if p[0] == 0:
            z = 1
            while p[z] == 0: z += 1
            c, ts = self.lin(p[z:] + (0,) * z)
            return c << z, {t: k << z for t, k in ts.items()}
        return 0, {i: 1}
    def sumword(self, c, ts, w):
        M = (1 << w) - 1; c &= M; ts = {t: k & M for t, k in ts.items() if k & M}
        if not ts: return tuple((c >> i) & 1 for i in range(w))
        if len(ts) == 1:
            (t, k), = ts.items(); t = self.words[t]
            if c == 0 and k == 1: return t
            if c == 0 and k & (k - 1) == 0: s = k.bit_length() - 1; return (0,) * s + t[:w - s]
            if k == M and c == M: return tuple(x ^ 1 for x in t)
            if k == 1 and c & (c - 1) == 0:
                r = list(t); j = c.bit_length() - 1; u = r[j]; r[j] ^= 1
                for j in range(j + 1, w):
                    if u == 0: break
                    x = r[j]; r[j] = x ^ u; u = self.prod(u, x)
                r = tuple(r); self.sums.setdefault(self.wid(r), (c, tuple(ts.items())))
                return r
        key = ('sum', w, c, frozenset(ts.items()))
        r = tuple(self.opaque(key, w))
        v = self.most(c, ts.items(), w)
        if v is not None: r = r[:v.bit_length()] + (0,) * (w - v.bit_length())
        self.sums[self.wid(r)] = (c, tuple(ts.items()))
        return r
    def addwords(self, p, q, op, w):
        c, ts = self.lin(p); d, us = self.lin(q); s = 1 if op == 'add' else -1; M = (1 << w) - 1
        for t, k in us.items(): ts[t] = ts.get(t, 0) + s * k
        c = (c + s * d) & M; ts = {t: k & M for t, k in ts.items() if k & M}
        key = (w, c, frozenset(ts.items())); r = self.bysum.get(key)       # the same addends: the same word
        if r is None:
            r = self.addbits(p, q, op == 'sub')
            if r is None: r = self.sumword(c, ts, w)
            else:
                r = tuple(r); i = self.wid(r)
                if max(r) > 1 and i not in ts: self.sums.setdefault(i, (c, tuple(ts.items())))
            self.bysum[key] = r
        return r
    def most(self, c, ts, w):
        """the largest value of a sum that cannot wrap around"""
        for t, k in ts:
            p = self.words[t]; n = len(p)
            while n and p[n - 1] == 0: n -= 1
            c += k * ((1 << n) - 1)
            if c >> w: return None
        return c
    def sumof(self, p, v):
        """the sum a word stands for, when more than v bits of it are used"""
        while len(p) > v and p[-1] == 0 and self.wids.get(p) not in self.sums: p = p[:-1]
        return self.sums.get(self.wids.get(p)) if len(p) > v else None
    def cut(self, s, w):
        out = {}; c = s[0]
        for t, k in s[1]:
            d, us = self.lin(self.words[t][:w]); c += d * k
            for u, l in us.items(): out[u] = out.get(u, 0) + l * k
        return self.sumword(c, out, w)
    def cast(self, op, bs, wi, wo, n, ty):
        if op == 'trunc' and wo >= 8:
            p = self.word(('b', bs), wi, len(bs)); t = p and self.sumof(p, wo)
            if t: return self.pack(self.cut(t, wo), ty)
        if op != 'trunc' and wi > 8:
            p = self.word(('b', bs), wi, len(bs)); s = self.sums.get(self.wids.get(p)) if p and p[-1] == 0 else None
            if s and self.most(s[0], s[1], wi) is not None:
                z = (0,) * (wo - wi); self.sums.setdefault(self.wid(p + z), (s[0], tuple((self.wid(self.words[t] + z), k) for t, k in s[1])))
        return super().cast(op, bs, wi, wo, n, ty)
    def exact(self, op, a, b, w, n, ty):
        if op == 'and' and w > 8:
            for x, y in ((a, b), (b, a)):
                if y[0] == 'k' and y[1] & (y[1] + 1) == 0 and 8 <= y[1].bit_length() < w:
                    p = self.word(x, w, n); v = y[1].bit_length(); t = p and self.sumof(p, v)
                    if t: return self.pack(tuple(self.cut(t, v)) + (0,) * (w - v), ty)
        if w == 1 and op in ('xor', 'and', 'or'):
            p = self.allforms(a, n); q = self.allforms(b, n)
            if p is None or q is None: return None
            z = p[0] ^ q[0] if op == 'xor' else self.prod(p[0], q[0])
            return self.pack([z if op != 'or' else p[0] ^ q[0] ^ z], ty)
        if op == 'mul' and (a[0] == 'k' or b[0] == 'k'):
            if a[0] == 'k': a, b = b, a
            p = self.word(a, w, n); x = b[1]
            if p is None: return None
            if not any(p[1:]): return self.pack([self.prod(p[0], (x >> i) & 1) for i in range(w)], ty)
            if x & (x - 1):
                c, ts = self.lin(p)
                return self.pack(self.sumword(c * x, {t: k * x for t, k in ts.items()}, w), ty)
        if op == 'srem' and b[0] == 'k' and 0 < b[1] < 1 << (w - 1) and b[1] & (b[1] - 1) == 0:
            v = b[1].bit_length() - 1; p = self.word(a, w, n)
            if p is None: return None
            t = self.sumof(p, v); lo = self.cut(t, v) if t else p[:v]
            hi = [0] * (w - v) if p[-1] == 0 else [self.prod(p[-1], self.opaque(('any', tuple(lo)), 1)[0])] * (w - v)
            return self.pack(tuple(lo) + tuple(hi), ty)
        if op in ('add', 'sub'):
            p = self.word(a, w, n); q = self.word(b, w, n)
            if p is not None and q is not None:
                return self.pack(self.addwords(p, q, op, w), ty)
        else:
            r = super().exact(op, a, b, w, n, ty)
            if r is not None: return r
        if w == 1: return None
        if op in ('add', 'sub'): return None
        if op == 'mul':
            if a[0] == 'k': a, b = b, a
            p = self.word(a, w, n)
            if p is None: return None
            if b[0] == 'k':
                c, ts = self.lin(p)
                return self.pack(self.sumword(c * b[1], {t: k * b[1] for t, k in ts.items()}, w), ty)
            q = self.word(b, w, n)
            if q is None: return None
            for s, t in ((p, q), (q, p)):
                if not any(s[1:]): return self.pack([self.prod(s[0], f) for f in t], ty)
            return self.pack(self.opaque(('mul', w) + tuple(sorted((p, q))), w), ty)
        if op in ('shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            p = self.word(a, w, n); q = self.word(b, w, n)
            if p is None or q is None: return None
            return self.small(p, q, lambda x, y: opval(op, x, y, w), w, ty) or self.pack(self.opaque((op, w, p, q), w), ty)
        return None
    def small(self, p, q, g, w, ty):
        """a function of few unknown bits: its polynomial"""
        fs = list(dict.fromkeys([f & ~1 for f in p + q if f > 1]))
        if len(fs) > 8 or not affine.independent(fs): return None
        ix = {f: i for i, f in enumerate(fs)}
        def at(fs_, z):
            v = 0
            for i, f in enumerate(fs_):
                x = f & 1
                if f > 1: x ^= (z >> ix[f & ~1]) & 1
                v |= x << i
            return v
        tt = [0] * w
        for z in range(1 << len(fs)):
            v = g(at(p, z), at(q, z))
            if v is None: return None
            for i in range(w): tt[i] |= ((v >> i) & 1) << z
        return self.pack(self.bool(tt, fs), ty)
    def icmp(self, x, a, b, ty):
        r = super().icmp(x, a, b, ty)
        if r[0] == 'b' and a[0] in 'kb' and b[0] in 'kb' and len(a[0]) == 1 and len(b[0]) == 1 and r[1][0][1] is None:
            w = ty[1] if ty[0] == 'i' else 64; n = self.T.size(ty)
            p = self.word(a, w, n); q = self.word(b, w, n)
            if p is None or q is None: return r
            if x in ('eq', 'ne'):
                d = sorted({u ^ v for u, v in zip(p, q)} - {0}, key=lambda f: (f.bit_count(), f)); e = 1
                for f in d: e = self.prod(e, f ^ 1)
                return self.pack([e ^ 1 if x == 'ne' else e], ('i', 1))
            s = self.small(p, q, lambda u, v: cmpval(x, u, v, w), 1, ('i', 1))
            if s is not None: return s
            # one relation for all: p < q
            neg = x in ('uge', 'ule', 'sge', 'sle'); k = x[0]
            if x in ('ugt', 'ule', 'sgt', 'sle'): p, q = q, p
            f = self.opaque(('lt' + k, w, p, q), 1)[0]
            return self.pack([f ^ 1 if neg else f], ('i', 1))
        return r
    # tables
    def bool(self, tt, fs):
        """forms of functions given by truth tables over independent forms fs (no constants)"""
        k = len(fs); N = 1 << k
        out = [moebius(t, k) for t in tt]
        vs = [self.var(f) for f in fs]
        flat = all(len(v) == 1 for v in vs)
        key = tuple(fs); base = self.anfs.get(key)
        if base is None:
            base = [None] * N
            for z in range(1, N):
                s = frozenset().union(*(vs[i] for i in range(k) if z >> i & 1))
                base[z] = s
            new = flat and all(base[z] not in self.mono for z in range(1, N) if z & (z - 1))
            if new:
                b = self.newatoms(N)
                for z in range(1, N):
                    if z & (z - 1): self.mono[base[z]] = b + z; self.monof[b + z] = base[z]
                base = b; self.blocks.append((b, N, tuple(fs)))
            else: base = [self.monom(s) if z & (z - 1) else None for z, s in enumerate(base) if s is not None or True]
            self.anfs[key] = base
        res = []
        lowm = 1
        for i in range(k): lowm |= 1 << (1 << i)
        for t in out:
            f = t & 1
            for i in range(k):
                if t >> (1 << i) & 1: f ^= fs[i]
            if type(base) is int: f ^= (t & ~lowm) << base
            else:
                for z in iterbits(t & ~lowm): f ^= base[z]
            res.append(f)
        return res
    def table(self, o, off, var, n):
        r = super().table(o, off, var, n)
        if r is not None: return r
        def at(x):
            if x < 0 or x + n > o.size: return None
            v = 0
            for i, e in enumerate(o.b[x:x + n]):
                if type(e) is not int: return None
                v |= e << (8 * i)
            return v
        self.bent.clear()
        z0 = 0
        inner = self.inner([f for f, w in var])
        if inner is not None: vs, how = inner            # how: per index bit (constant, truth table over vs)
        else:
            vs = []
            for f, w in var:
                g = f & ~1
                if g not in vs: vs.append(g)
            if not affine.independent(vs): vs = basis(vs)
            how = [express(f, vs) for f, w in var]
        if len(vs) > 10: return None
        tt = [0] * (8 * n)
        for z in range(1 << len(vs)):
            a = off
            for (f, w), h in zip(var, how):
                if h[z]: a += w
            v = at(a)
            if v is None: return None
            for i in iterbits(v): tt[i] |= 1 << z
        return self.bool(tt, vs)
    def inner(self, fs):
        """the index bits as functions of few common variables, or None"""
        r = self.inner2(fs)
        if r is not None: return r
        V = set(); hi = []
        for f in fs:
            h = []
            if f.bit_count() > 400: return None
            for b in iterbits(f & ~1):
                s = self.monof.get(b)
                if s: h.append(s)
            hi.append(h)
        # the variables of an inner lookup occur in products of nearly all of them; keep it simple: all products, if few variables
        for h in hi:
            for s in h:
                V |= s
                if len(V) > 8: return None
        if len(V) < 2: return None
        return self.span(fs, V)
    def inner2(self, fs):
        """the newest table lookup that all index bits are made of"""
        top = max(f.bit_length() for f in fs) - 1
        k = bisect.bisect_right(self.blocks, (top, 1 << 60)) - 1
        if k < 0: return None
        b, N, vf = self.blocks[k]
        if top >= b + N: return None
        how = []
        for f in fs:
            anf = (f >> b) & ((1 << N) - 1)
            c = solve(f ^ (anf << b) ^ (f & 1), vf)
            if c is None: return None
            anf |= f & 1
            for i in range(len(vf)):
                if c >> i & 1: anf |= 1 << (1 << i)
            how.append(anf)
        return vf, [truth(a, len(vf)) for a in how]
    def span(self, fs, V):
        V = sorted(V); vf = [self.defs[v][1] if v >= 1 << 40 else 1 << v for v in V]
        if not affine.independent(vf): return None
        ix = {v: i for i, v in enumerate(V)}; how = []
        for f in fs:
            t = f & 1; lin = 0; anf = f & 1
            for b in iterbits(f & ~1):
                s = self.monof.get(b)
                if s:
                    z = 0
                    for v in s: z |= 1 << ix[v]
                    anf ^= 1 << z
                else: lin ^= 1 << b
            c = solve(lin, vf)
            if c is None: return None
            for i in range(len(V)):
                if c >> i & 1: anf ^= 1 << (1 << i)
            # truth table
            tab = []
            for z in range(1 << len(V)):
                x = 0
                for s in iterbits(anf):
                    if s & z == s: x ^= 1
                tab.append(x)
            how.append(tab)
        return vf, how
    def load(self, p, ty):
        if p[0] == 'pd' and len(p) == 5:
            r = self.picked(p, ty)
            if r is not None: return r
        return super().load(p, ty)
    def picked(self, p, ty):
        """an entry of an array with unknown content"""
        off, var = p[4]; n = self.T.size(ty); o = self.mem[p[1]]
        if len(var) <= 10 and all(type(e) is int for e in o.b): return None
        if self.rec is not None or p[3] is None: return None
        lo, hi, st = self.reach(p, n, o, False)
        if any(lo <= x < hi + n for x in o.ptr): return None
        reg = []
        for e in o.b[lo:hi + n - 1]:
            f = forms(e)
            if f is None: return None
            reg.append(f)
        r = self.mux(off - lo, var, reg, n)
        if r is not None: return self.pack(r, ty)
        key = ('pick', self.idx(off - lo, var), tuple(reg), n)
        return self.pack(self.opaque(key, 8 * n), ty)
    def mux(self, off, var, reg, n):
        """an entry as a polynomial of the index bits, when few of its coefficients are not zero (tables that are linear)"""
        k = len(var)
        if k > 8: return None
        co = []
        for z in range(1 << k):
            a = off + sum(w for i, (f, w) in enumerate(var) if z >> i & 1)
            if a < 0 or a + n > len(reg): return None
            co.append([f for e in reg[a:a + n] for f in e])
        for i in range(k):
            for z in range(1 << k):
                if z >> i & 1: co[z] = [x ^ y for x, y in zip(co[z], co[z ^ (1 << i)])]
        nz = [z for z in range(1 << k) if any(co[z])]
        if len(nz) > 17: return None
        out = co[0]
        for z in nz:
            if z:
                m = 1
                for i in range(k):
                    if z >> i & 1: m = self.prod(m, var[i][0])
                out = [x ^ self.prod(m, y) for x, y in zip(out, co[z])]
        return out
    def idx(self, off, var):
        d = {}
        for f, w in var:
            if f & 1: off += w; f ^= 1; w = -w
            d[f] = d.get(f, 0) + w
        return off, frozenset(d.items())
    def store(self, p, v, ty):
        if p[0] == 'pd' and len(p) == 5 and p[3] is not None and self.rec is None and v[0] in 'kb':
            n = self.T.size(ty); o = self.check(('p', p[1], None), n, True)
            lo, hi, st = self.reach(p, n, o, True)
            reg = [forms(e) for e in o.b[lo:hi + n - 1]]; val = [forms(e) for e in bytes_of(v, n)]
            if None not in reg and None not in val and not self.ctl and not any(lo <= x < hi + n for x in o.ptr):
                off, var = p[4]
                b = self.opaque(('put', self.idx(off - lo, var), tuple(reg), tuple(val), n), 8 * len(reg))
                o = self.w(p[1])
                o.b[lo:hi + n - 1] = [norm(b[i:i + 8]) for i in range(0, len(b), 8)]
                return
        return super().store(p, v, ty)
    # values of forms at an assignment of the input bits
    def values(self, top):
        """the values of all atoms below top, as a bit mask (atoms are numbered after everything they are made of)"""
        V = bytearray(b'\1') + bytearray(top); X = {}; M = 0; done = 0
        def full(n):
            nonlocal M, done
            if n > done:
                n = max(n, here)
                M = int(V[:n][::-1].translate(TR), 2) if n < 1 << 14 or done == 0 else M | (int(V[done:n][::-1].translate(TR), 2) << done)
                done = n
            return M
        def ev(f): return (f & full(f.bit_length())).bit_count() & 1
        def word(p): return sum(ev(f) << i for i, f in enumerate(p))
        W = {}
        def num(t):
            v = W.get(t)
            if v is None: v = W[t] = word(self.words[t])
            return v
        def var(x):
            if x < 1 << 40: return V[x]
            v = X.get(x)
            if v is None: v = X[x] = ev(self.defs[x][1])
            return v
        K = {}; monof = self.monof; defs = self.defs
        for b in range(1, top):
            here = b
            s = monof.get(b)
            if s is not None:
                for x in s:
                    if not var(x): break
                else: V[b] = 1
                continue
            d = defs.get(b)
            if d is None: V[b] = self.input(b)
            else:
                key, i = d; x = K.get(b - i)
                if x is None: x = K[b - i] = self.evkey(key, ev, word, num)
                V[b] = (x >> i) & 1
        here = top
        full(top)
        return M
    def input(self, b):
        x = self.forced.get(b)
        if x is not None: return x
        if self.seed < 0: return self.seed + 2
        h = hashlib.sha256(b'%d/%d' % (self.seed, b)).digest()
        return h[0] & 1
    def evkey(self, key, ev, word, num):
        k = key[0]
        if k == 'sum': return (key[2] + sum(num(t) * c for t, c in key[3])) & ((1 << key[1]) - 1)
        if k == 'any': return int(any(ev(f) for f in key[1]))
        if k == 'mul': return (word(key[2]) * word(key[3])) & ((1 << key[1]) - 1)
        if k in ('ltu', 'lts'): return int(cmpval(k[2] + 'lt', word(key[2]), word(key[3]), key[1]))
        if k in ('pick', 'put'):
            off, var = key[1]; off += sum(w for f, w in var if ev(f)); reg = key[2]
            if k == 'pick': return sum(word(reg[off + i]) << (8 * i) for i in range(key[3]))
            bs = [word(r) for r in reg]
            for i in range(key[4]): bs[off + i] = word(key[3][i])
            return sum(x << (8 * i) for i, x in enumerate(bs))
        if k in ('shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            r = opval(k, word(key[2]), word(key[3]), key[1])
            return r or 0
        raise Limit('value of ' + k)
    def differ(self, ps, tries=5):
        """a certain difference among pairs of forms (its place in the list), None when there is none in sight"""
        top = max([f.bit_length() for p in ps for f in p], default=1)
        def at(seed, forced):
            self.seed = seed; self.forced = forced; M = self.values(top) | 1
            for i, (a, b) in enumerate(ps):
                if ((a ^ b) & M).bit_count() & 1: return i
        for s in list(range(tries)) + [-1, -2]:
            i = at(s, {})
            if i is not None: return i
        # rare conditions: make single products one
        n = 0
        for a, b in ps[:4]:
            ms = sorted((self.monof[x] for x in iterbits(a ^ b) if x in self.monof), key=len)
            for m in ms[:3] + ms[-3:]:
                f = self.force(m)
                if f is None: continue
                i = at(n, f); n += 1
                if i is not None: return i
        return None
    def force(self, m):
        """input bits that make a product of affine variables one"""
        rows = {}
        for v in m:
            f = self.defs[v][1] if v >= 1 << 40 else 1 << v
            for b in iterbits(f & ~1):
                if b in self.monof or b in self.defs: return None
            f ^= 1                       # f + 1 = 0
            while f > 1:
                e = rows.get(f.bit_length())
                if e is None: rows[f.bit_length()] = f; break
                f ^= e
            if f == 1: return None
        h = {}
        for k in sorted(rows):
            f = rows[k]; v = f & 1
            for b in iterbits(f & ~1):
                if b == k - 1: continue
                if b not in h: h[b] = 0
                v ^= h[b]
            h[k - 1] = v
        return h

TR = bytes([48, 49] + [0] * 254)
MASKS = {}
def basis(fs):
    out = []; red = []
    for f in fs:
        g = f
        for x in red: g = min(g, g ^ x)
        if g: red.append(g); out.append(f)
    return out
def solve(f, vs):
    """which of vs add up to f"""
    red = []
    for i, v in enumerate(vs):
        c = 1 << i
        for x, cx in red:
            if v ^ x < v: v ^= x; c ^= cx
        if v: red.append((v, c))
    c = 0
    for x, cx in red:
        if f ^ x < f: f ^= x; c ^= cx
    # the reduction is only complete from the highest leading bit down
    if f:
        ch = True
        while ch and f:
            ch = False
            for x, cx in red:
                if f ^ x < f: f ^= x; c ^= cx; ch = True
    return None if f else c
def masks(k):
    out = []
    for i in range(k):
        m = MASKS.get((k, i))
        if m is None:
            blk = (1 << (1 << i)) - 1; m = 0
            for z in range(0, 1 << k, 1 << (i + 1)): m |= blk << z
            MASKS[(k, i)] = m
        out.append(m)
    return out
def moebius(t, k):
    for i, m in enumerate(masks(k)): t ^= (t & m) << (1 << i)
    return t & ((1 << (1 << k)) - 1)
def truth(a, k):
    t = moebius(a, k)
    return [(t >> z) & 1 for z in range(1 << k)]
def express(f, vs):
    c = solve(f & ~1, vs); k = f & 1
    return [(bin(c & z).count('1') & 1) ^ k for z in range(1 << len(vs))]
def opval(op, x, y, w):
    M = (1 << w) - 1
    if op == 'shl': return (x << y) & M if y < w else 0
    if op == 'lshr': return x >> y if y < w else 0
    if op == 'ashr': return (flow.sg(x, w) >> y) & M if y < w else 0
    if y == 0: return None
    if op == 'udiv': return x // y
    if op == 'urem': return x % y
    p, q = flow.sg(x, w), flow.sg(y, w); d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
    return (d if op == 'sdiv' else p - d * q) & M
def cmpval(x, p, q, w):
    if x[0] == 's': p, q = flow.sg(p, w), flow.sg(q, w)
    return int(dict(ult=p < q, ule=p <= q, ugt=p > q, uge=p >= q, slt=p < q, sle=p <= q, sgt=p > q, sge=p >= q)[x])
