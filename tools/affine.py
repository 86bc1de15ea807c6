"""Affine relations over GF(2), bit by bit: an abstract domain on top of the dependence analysis (flow.py).

A bit is an exclusive-or of input bits and a constant, or unknown (then only its dependences are kept).  A form is an
integer: bit 0 is the constant, the other bits are the input bits (numbered as in flow.py).  Sums of bits, shifts, masks,
carries that reduce to one of their operands, selections between values that differ by a constant, and loads from constant
tables that are affine in the bits of the index stay exact."""
import flow
from flow import D, m_, pos, UNSET, Limit, mk, bytes_of, mask_of

def norm(fs):
    """byte element of eight forms"""
    m = 0; c = 0; p = 0
    for i, f in enumerate(fs):
        m |= f
        if f & 1: c |= 1 << i
        if f: p |= 1 << i
    if m <= 1: return c
    return (m & ~1, tuple(fs), p)
def forms(e):
    """eight forms of a byte element, or None"""
    if type(e) is int: return tuple((e >> i) & 1 for i in range(8))
    return e[1]
def prod(p, q):
    if p == 0 or q == 0: return 0
    if p == 1: return q
    if q == 1: return p
    if p == q: return p
    if p == q ^ 1: return 0
    return None
def maj(a, b, c):
    if a == b or a == c: return a
    if b == c: return b
    if a == b ^ 1: return c
    if a == c ^ 1: return b
    if b == c ^ 1: return a
    return None

def independent(fs):
    b = []
    for f in fs:
        f &= ~1
        for x in b: f = min(f, f ^ x)
        if not f: return False
        b.append(f)
    return True
class Affine(flow.Flow):
    def __init__(self, *a, **k): super().__init__(*a, **k); self.bent = []
    def fresh(self, name, i):
        self.atom(name, i); b = self.atoms[(name, i)]
        return norm([1 << (b + k) for k in range(8)])
    def part(self, e, c):
        if type(e) is int or c == 0: return 0
        if e[1] is not None:
            m = 0
            for i in range(8):
                if c >> i & 1: m |= e[1][i]
            return m & ~1
        return e[0]
    def xor1(self, p, q):
        if type(p) is int and type(q) is int: return p ^ q
        a, b = forms(p), forms(q)
        if a is None or b is None: return D(m_(p) | m_(q), pos(p) | pos(q))
        return norm([x ^ y for x, y in zip(a, b)])
    def bits2(self, p, q, g, ps):
        a, b = forms(p), forms(q)
        if a is not None and b is not None:
            r = []
            for x, y in zip(a, b):
                z = g(x, y)
                if z is None: break
                r.append(z)
            else: return norm(r)
        return None
    def and1(self, p, q):
        if type(p) is int and type(q) is int: return p & q
        r = self.bits2(p, q, prod, 0)
        if r is not None: return r
        if type(p) is int: p, q = q, p
        if type(q) is int:
            if q == 0: return 0
            return D(self.part(p, q), pos(p) & q)
        return D(m_(p) | m_(q), pos(p) & pos(q))
    def or1(self, p, q):
        if type(p) is int and type(q) is int: return p | q
        def g(x, y):
            z = prod(x, y)
            return None if z is None else x ^ y ^ z
        r = self.bits2(p, q, g, 0)
        if r is not None: return r
        if type(p) is int: p, q = q, p
        if type(q) is int:
            if q == 255: return 255
            return D(self.part(p, 255 & ~q), pos(p) | q)
        return D(m_(p) | m_(q), pos(p) | pos(q))
    def allforms(self, v, n):
        out = []
        for e in bytes_of(v, n):
            f = forms(e)
            if f is None: return None
            out += f
        return out
    def pack(self, fs, ty):
        fs = list(fs); fs += [0] * (-len(fs) % 8)
        return mk(tuple(norm(fs[i:i + 8]) for i in range(0, len(fs), 8)), ty)
    def cast(self, op, bs, wi, wo, n, ty):
        fs = []
        for e in bs:
            f = forms(e)
            if f is None: return None
            fs += f
        fs = fs[:wi]
        if op == 'trunc': fs = fs[:wo]
        elif op == 'zext': fs = fs + [0] * (wo - wi)
        else: fs = fs + [fs[-1]] * (wo - wi)
        return self.pack(fs, ty)
    def join1(self, a, b, m, cond):
        if flow.same(a, b): return a
        c = self.condform(cond)
        if c is not None:
            x, y = forms(a), forms(b)
            if x is not None and y is not None:
                r = []
                for p, q in zip(x, y):
                    z = prod(c, p ^ q)
                    if z is None: break
                    r.append(q ^ z)
                else: return norm(r)
        return flow.join(a, b, m)
    def condform(self, cond):
        if cond is None or cond[0] != 'b': return None
        f = forms(cond[1][0])
        return None if f is None else f[0]
    def icmp(self, x, a, b, ty):
        r = super().icmp(x, a, b, ty)
        if r[0] == 'b' and x in ('eq', 'ne') and a[0] in 'kb' and b[0] in 'kb':
            n = self.T.size(ty); p = self.allforms(a, n); q = self.allforms(b, n)
            if p is not None and q is not None:
                d = {u ^ v for u, v in zip(p, q)} - {0}
                if 1 in d: return ('k', int(x == 'ne'))
                if any(u ^ 1 in d for u in d): return ('k', int(x == 'ne'))
                if not d: return ('k', int(x == 'eq'))
                if len(d) == 1: f = d.pop(); return self.pack([f if x == 'ne' else f ^ 1], ('i', 1))
        if r[0] == 'b' and x in ('slt', 'sge', 'sgt', 'sle') and a[0] in 'kb' and b[0] == 'k':
            w = ty[1]; p = self.allforms(a, self.T.size(ty))
            if p is not None and (x, b[1]) in (('slt', 0), ('sge', 0)) or p is not None and (x, b[1]) in (('sgt', (1 << w) - 1), ('sle', (1 << w) - 1)):
                return self.pack([p[w - 1] ^ (1 if x in ('sge', 'sgt') else 0)], ('i', 1))
        return r
    def binop(self, op, a, b, ty):
        if a[0] == 'b' or b[0] == 'b':
            w = ty[1] if ty[0] == 'i' else 64; n = self.T.size(ty)
            if a[0] in 'kb' and b[0] in 'kb' and len(a[0]) == 1 and len(b[0]) == 1:
                r = self.exact(op, a, b, w, n, ty)
                if r is not None: return r
        return super().binop(op, a, b, ty)
    def exact(self, op, a, b, w, n, ty):
        if op in ('xor', 'and', 'or') and w > 1: return None       # byte by byte
        if op in ('urem', 'udiv') and b[0] == 'k' and b[1] and b[1] & (b[1] - 1) == 0:
            return self.binop('and', a, ('k', b[1] - 1), ty) if op == 'urem' else self.binop('lshr', a, ('k', b[1].bit_length() - 1), ty)
        p = self.allforms(a, n)
        if p is None: return None
        p = p[:w]
        if op in ('shl', 'lshr', 'ashr'):
            if b[0] != 'k' or b[1] >= w: return None
            s = b[1]
            if op == 'shl': r = [0] * s + p[:w - s]
            else: r = p[s:] + [p[-1] if op == 'ashr' else 0] * s
            return self.pack(r, ty)
        q = self.allforms(b, n)
        if q is None: return None
        q = q[:w]
        if w == 1 and op in ('xor', 'and', 'or'):
            z = p[0] ^ q[0] if op == 'xor' else prod(p[0], q[0])
            if z is None: return None
            return self.pack([z if op != 'or' else p[0] ^ q[0] ^ z], ty)
        if op in ('add', 'sub'):
            c = 0
            if op == 'sub': q = [x ^ 1 for x in q]; c = 1
            r = []
            for x, y in zip(p, q):
                if c is None: return None
                r.append(x ^ y ^ c)
                c = maj(x, y, c)
            return self.pack(r, ty)
        if op == 'mul':
            if a[0] == 'k': a, b, p, q = b, a, q, p
            if b[0] != 'k':
                # one operand is a single bit: it selects the other
                for s, t in ((p, q), (q, p)):
                    if not any(s[1:]):
                        r = [prod(s[0], f) for f in t]
                        if None not in r: return self.pack(r, ty)
                    if len(set(s)) == 1:            # 0 or all ones
                        pass
                return None
            acc = ('k', 0); x = b[1]; k = 0
            if bin(x).count('1') > 8:
                # a constant may be multiplied by a bit
                if not any(p[1:]): return self.pack([prod(p[0], (x >> i) & 1) for i in range(w)], ty)
                return None
            while x:
                if x & 1:
                    t = self.binop('shl', a, ('k', k), ty); acc = t if acc == ('k', 0) else self.exact('add', acc, t, w, n, ty)
                    if acc is None: return None
                x >>= 1; k += 1
            return acc
        return None
    # loads from tables at data-dependent places
    def gep(self, fr, I):
        r = super().gep(fr, I)
        if r[0] != 'pd' or r[3] is None: return r
        base = self.val(fr, I.args[0][1], I.args[0][0])
        if base[0] == 'pd' and len(base) == 5: off, var = base[4][0], list(base[4][1])
        elif base[0] == 'p': off, var = base[2], []
        else: return r
        T = self.T; t = I.ty
        for k, (it, v) in enumerate(I.args[1:]):
            x = self.val(fr, v, it)
            if k == 0: sz = T.size(t)
            else:
                t = T.resolve(t)
                if t[0] in ('arr', 'vec'): t = t[2]; sz = T.size(t)
                else:
                    offs, _ = T.layout(t); off += offs[x[1]]; t = t[1][x[1]]; continue
            if x[0] == 'k': off += flow.sg(x[1], it[1]) * sz
            else:
                p = self.allforms(x, self.T.size(it))
                if p is None: return r
                for i, f in enumerate(p[:it[1] - 1]):
                    if f == 1: off += sz << i
                    elif f: var.append((f, sz << i))
        return r + ((off, tuple(var)),)
    def load(self, p, ty):
        if p[0] == 'pd' and len(p) == 5 and len(p[4][1]) <= 10:
            n = self.T.size(ty); o = self.check(('p', p[1], None), n, False); off, var = p[4]
            r = self.table(o, off, var, n) if not o.ptr else None
            if r is not None:
                self.reach(p, n, o, False)
                if self.rec is not None: raise Limit('table')
                return mk(tuple(norm(r[i:i + 8]) for i in range(0, 8 * n, 8)), ty)
        return super().load(p, ty)
    def table(self, o, off, var, n):
        def at(x):
            if x < 0 or x + n > o.size: return None
            v = 0
            for i, e in enumerate(o.b[x:x + n]):
                if type(e) is not int: return None
                v |= e << (8 * i)
            return v
        v0 = at(off)
        if v0 is None: return None
        d = []
        for f, w in var:
            v = at(off + w)
            if v is None: return None
            d.append(v ^ v0)
        for x in range(1 << len(var)):
            y = v0; a = off
            for i, (f, w) in enumerate(var):
                if x >> i & 1: y ^= d[i]; a += w
            v = at(a)
            if v != y:
                # every entry can be selected: the loaded value is certainly not affine
                if v is not None and independent([f for f, w in var]) and all(at(off + sum(w for i, (f, w) in enumerate(var) if z >> i & 1)) is not None for z in range(1 << len(var))):
                    self.bent.append((o.name, (a - off) // max(1, min(w for f, w in var)), self.where()))
                return None
        out = []
        for i in range(8 * n):
            f = (v0 >> i) & 1
            for (g, w), v in zip(var, d):
                if v >> i & 1: f ^= g
            out.append(f)
        return out
