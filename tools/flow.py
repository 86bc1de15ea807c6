"""Byte-precise dependence analysis of LLVM IR.

Control (lengths, counters, addresses) is followed with constants; data carries no value, only where it comes from:
every byte of memory is a constant, an exact copy of one marked input byte, or the set of marked bytes it may depend on.
A branch on data is followed on both sides up to the point where they meet, and the results are joined (with the
dependence of the condition).  The result over-approximates the dependences of every run, whatever the data."""
import sys
sys.setrecursionlimit(200000)
UNSET = 1                      # dependence bit 0: a byte nobody wrote
class Limit(Exception): pass
class Fault(Exception):
    """a definite access outside an object (control is constant here)"""
    def __init__(self, what, where): self.what = what; self.where = where; super().__init__('%s: %s' % (where, what))

# byte elements: int = constant, (mask, lin) otherwise: mask = the input bits it may depend on;
# lin = None, or (set of marked bytes, constant) when the byte is exactly the exclusive-or of those;
# pos = the bits that may be set
UB = (UNSET, None, 255)
def m_(b): return 0 if type(b) is int else b[0]
def same(a, b):
    """surely the same value (abstractly equal bytes need not be)"""
    return a is b or (a == b and (type(a) is int or a[1] is not None))
def join(a, b, extra=0):
    if same(a, b): return a
    return (m_(a) | m_(b) | extra, None, pos(a) | pos(b))
def pos(e): return e if type(e) is int else e[2]
def D(m, p=255): return (m, None, p) if p else 0

class Obj:
    __slots__ = ('kind', 'size', 'b', 'ptr', 'name', 'live', 'ro', 'sub')
    def __init__(self, kind, size, name, fill=UB):
        self.kind = kind; self.size = size; self.name = name; self.live = True; self.ro = False
        self.b = [fill] * size; self.ptr = {}
    def copy(self):
        o = Obj.__new__(Obj); o.kind = self.kind; o.size = self.size; o.name = self.name; o.live = self.live; o.ro = self.ro
        o.b = list(self.b); o.ptr = dict(self.ptr)
        return o

class Rec:
    def __init__(self, pre): self.pre = pre; self.r = {}; self.w = set()
    def read(self, oi, off, bs, o):
        if oi not in self.pre or o.ro: return
        for k, e in enumerate(bs):
            x = (oi, off + k)
            if x not in self.w and x not in self.r: self.r[x] = e
    def write(self, oi, off, n):
        if oi in self.pre:
            for k in range(n): self.w.add((oi, off + k))

class FInfo:
    """blocks, predecessors, immediate post-dominators"""
    def __init__(self, f):
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            succ[b] = list(dict.fromkeys(t.x)) if t.op == 'br' else ([t.x[0]] + [l for _, l in t.x[1]] if t.op == 'switch' else [])
            succ[b] = list(dict.fromkeys(succ[b]))
        EXIT = None
        nodes = list(f.order)
        pd = {b: None for b in nodes}
        full = set(nodes) | {EXIT}
        pdom = {b: set(full) for b in nodes}
        ch = True
        while ch:
            ch = False
            for b in reversed(nodes):
                ss = succ[b]
                n = set(full)
                if not ss: n = {EXIT}
                else:
                    for s in ss: n &= pdom[s]
                n = n | {b}
                if n != pdom[b]: pdom[b] = n; ch = True
        self.ipdom = {}
        for b in nodes:
            c = pdom[b] - {b}
            best = None
            for x in c:
                if x is None: continue
                if all(y is None or y == x or y in pdom[x] for y in c): best = x; break
            self.ipdom[b] = best

class Flow:
    def __init__(self, mod, max_steps=4000000):
        self.mod = mod; self.T = mod.types
        self.mem = {}
        self.nid = 0
        self.gl = {}
        self.atoms = {}            # (name, idx) -> bit
        self.bits = []             # bit -> (name, idx)
        self.bits.append(('UNSET', 0))
        self.hooks = {}
        self.dumps = {}
        self.steps = 0; self.max_steps = max_steps
        self.fi = {}
        self.ctl = 0               # dependences of the conditions that lead here
        self.faults = []
        self.rec = None; self.absfun = None; self.absdo = None
        self.wild = set()          # accesses that may leave their object, depending on data
        self.calls = []
        self.depth = 0
        self.undo = None
        self.cur = None
        self.hooks.update(v_mark=h_mark, v_marki=h_marki, v_dump=h_dump, v_dumpi=h_dumpi, v_const=h_const, v_unset=h_unset, malloc=h_malloc, calloc=h_calloc, realloc=h_realloc, free=h_free,
            memcpy=h_memcpy, memmove=h_memcpy, memset=h_memset, memcmp=h_memcmp, strlen=h_strlen)
    # atoms
    def atom(self, name, i):
        k = (name, i)
        if k not in self.atoms:
            self.atoms[k] = len(self.bits)
            self.bits += [k] * 8
        return 255 << self.atoms[k]
    def fresh(self, name, i):
        return (self.atom(name, i), (frozenset([(name, i)]), 0), 255)
    def names(self, mask):
        """{(name, index): bits} of a dependence mask"""
        out = {}
        if mask & 1: out[('UNSET', 0)] = 1
        for k, b in self.atoms.items():
            x = (mask >> b) & 255
            if x: out[k] = x
        return out
    def linmask(self, st, c=255):
        m = 0
        for k in st: m |= c << self.atoms[k]
        return m
    def part(self, e, c):
        """the dependence of the bits c of a byte"""
        if type(e) is int or c == 0: return 0
        if e[1] is not None: return self.linmask(e[1][0], c)
        return e[0]
    def xor1(self, p, q):
        if type(p) is int:
            if type(q) is int: return p ^ q
            p, q = q, p
        if type(q) is int:
            if q == 0: return p
            if p[1] is None: return D(p[0], p[2] | q)
            return (p[0], (p[1][0], p[1][1] ^ q), p[2] | q)
        if p[1] is not None and q[1] is not None:
            st = p[1][0] ^ q[1][0]; c = p[1][1] ^ q[1][1]
            if not st: return c
            return (self.linmask(st), (st, c), 255)
        return D(p[0] | q[0], p[2] | q[2])
    def and1(self, p, q):
        if type(p) is int:
            if type(q) is int: return p & q
            p, q = q, p
        if type(q) is int:
            if q == 0: return 0
            if q == 255: return p
            return D(self.part(p, q), p[2] & q)
        if p == q and p[1] is not None: return p
        return D(p[0] | q[0], p[2] & q[2])
    def or1(self, p, q):
        if type(p) is int:
            if type(q) is int: return p | q
            p, q = q, p
        if type(q) is int:
            if q == 0: return p
            if q == 255: return 255
            return D(self.part(p, 255 & ~q), p[2] | q)
        if p == q and p[1] is not None: return p
        return D(p[0] | q[0], p[2] | q[2])
    # memory
    def new(self, kind, size, name, fill=UB):
        self.nid += 1
        self.mem[self.nid] = Obj(kind, size, name, fill)
        if self.undo is not None: self.undo.setdefault(self.nid, None)
        return self.nid
    def w(self, oi):
        u = self.undo
        if u is not None and oi not in u: u[oi] = self.mem[oi].copy()
        return self.mem[oi]
    def where(self):
        return '%s:%d' % self.mod.loc(self.cur) if self.cur is not None else '?'
    def glob(self, name):
        if name in self.gl: return self.gl[name]
        g = self.mod.globals.get(name)
        if g is None or g.init is None and not g.external:
            if name in self.mod.funcs or name in self.mod.decls: return None
        size = self.T.size(g.ty) if g is not None else 8
        u, self.undo = self.undo, None
        oi = self.new('global', size, name, 0)
        self.undo = u
        self.gl[name] = oi
        if g is not None and g.init is not None: self.ginit(self.mem[oi], 0, g.ty, g.init)
        if g is not None and g.const: self.mem[oi].ro = True
        return oi
    def ginit(self, o, off, ty, v):
        ty = self.T.resolve(ty)
        k = v[0]
        if k in ('zero', 'null', 'undef'): return
        if k == 'bytes':
            for i, c in enumerate(v[1]): o.b[off + i] = c
        elif k == 'agg':
            if ty[0] in ('arr', 'vec'):
                s = self.T.size(ty[2])
                for i, (t, e) in enumerate(v[1]): self.ginit(o, off + i * s, ty[2], e)
            else:
                offs, _ = self.T.layout(ty)
                for i, (t, e) in enumerate(v[1]): self.ginit(o, off + offs[i], ty[1][i], e)
        elif k == 'i':
            n = self.T.size(ty); x = v[1] & ((1 << (8 * n)) - 1)
            for i in range(n): o.b[off + i] = (x >> (8 * i)) & 255
        elif k == 'g':
            p = self.gptr(v[1], v[2])
            self.setptr(o, off, p)
    def gptr(self, name, off):
        if name in self.mod.funcs or (name in self.mod.decls and name not in self.mod.globals): return ('f', name)
        return ('p', self.glob(name), off)
    def setptr(self, o, off, p):
        for i in range(8): o.b[off + i] = 0
        for i in range(-7, 8): o.ptr.pop(off + i, None)
        if p[0] != 'k': o.ptr[off] = p
    def check(self, p, n, write):
        """definite address"""
        if p[0] == 'k': raise Fault('%s through a null pointer' % ('writes' if write else 'reads'), self.where())
        if p[0] != 'p': raise Limit('address depends on data at ' + self.where())
        o = self.mem[p[1]]
        if not o.live: raise Fault('%s released memory' % ('writes' if write else 'reads'), self.where())
        if p[2] is None: return o
        if p[2] < 0 or p[2] + n > o.size: raise Fault('%s %s outside %s (offset %d, %d bytes of %d)' % ('writes' if write else 'reads', '', o.name, p[2], n, o.size), self.where())
        if write and o.ro: raise Fault('writes constant ' + o.name, self.where())
        return o
    def reach(self, p, n, o, write):
        """the places (start, end, step) an access of n bytes at a data-dependent address may touch"""
        if p[3] is None:
            self.wild.add(('%s anywhere around %s' % ('writes' if write else 'reads', o.name), self.where()))
            return 0, o.size - n + 1, 1
        lo, hi, st = p[3]
        if lo < 0 or hi + n - 1 > o.size:
            self.wild.add(('may %s outside %s: offsets %d to %d of %d, chosen by data' % ('write' if write else 'read', o.name, lo, hi + n - 2, o.size), self.where()))
            while lo < 0: lo += st
            while hi + n - 1 > o.size: hi -= 1
        return lo, hi, st
    def load(self, p, ty):
        n = self.T.size(ty)
        if p[0] == 'b':                     # address itself depends on data
            raise Limit('address depends on data at ' + self.where())
        if p[0] == 'pd':                    # known object, unknown place
            o = self.check(('p', p[1], None), n, False)
            lo, hi, st = self.reach(p, n, o, False)
            if o.ptr and any(lo <= x < hi + n for x in o.ptr): raise Limit('pointer picked by data at ' + self.where())
            out = []
            for j in range(n):
                m = p[2]; ps = 0
                for k in range(lo + j, hi + j, st):
                    e = o.b[k]
                    if type(e) is int: ps |= e
                    else: m |= e[0]; ps |= e[2]
                out.append(D(m, ps))
            return mk(tuple(out), ty)
        o = self.check(p, n, False)
        off = p[2]
        if n == 8 and o.ptr and off in o.ptr: return o.ptr[off]
        bs = tuple(o.b[off:off + n])
        if self.rec is not None: self.rec.read(p[1], off, bs, o)
        return mk(bs, ty)
    def store(self, p, v, ty):
        n = self.T.size(ty)
        if p[0] == 'pd':
            o = self.check(('p', p[1], None), n, True)
            if o.ro: raise Fault('writes constant ' + o.name, self.where())
            lo, hi, st = self.reach(p, n, o, True)
            o = self.w(p[1])
            B = bytes_of(v, n)
            for j in range(n):
                e = B[j]; m = p[2] | self.ctl | m_(e); ps = pos(e)
                for k in range(lo + j, hi + j, st): x = o.b[k]; o.b[k] = (m_(x) | m, None, pos(x) | ps)
            return
        o = self.check(p, n, True)
        o = self.w(p[1])
        off = p[2]
        if v[0] in ('p', 'f', 'pd'):
            if v[0] == 'pd': raise Limit('stores a pointer picked by data at ' + self.where())
            self.setptr(o, off, v); return
        if o.ptr:
            for i in range(off - 7, off + n): o.ptr.pop(i, None)
        if self.rec is not None: self.rec.write(p[1], off, n)
        o.b[off:off + n] = bytes_of(v, n)
    # values
    def val(self, fr, v, ty):
        k = v[0]
        if k == 'r': return fr[v[1]]
        if k == 'i':
            w = ty[1] if ty[0] == 'i' else 64
            return ('k', v[1] & ((1 << w) - 1))
        if k == 'null': return ('k', 0)
        if k == 'zero': return ('k', 0)
        if k == 'undef':
            return ('b', tuple((UNSET, None, 255) for _ in range(max(1, self.T.size(ty)))))
        if k == 'g': return self.gptr(v[1], v[2])
        raise Limit('constant expression at ' + self.where())
    # execution
    def call(self, name, args):
        if name in self.hooks: return self.hooks[name](self, args)
        if name == self.absfun and self.rec is None: return self.abstract(name, args)
        f = self.mod.funcs.get(name)
        if f is None: raise Limit('unknown function %s at %s' % (name, self.where()))
        return self.run(f, args)
    def abstract(self, name, args):
        """runs a function for its footprint only, then forgets what it computed: self.absdo gets the bytes it read first
        and the places it wrote, and says what stands there afterwards"""
        pre = set(self.mem)
        self.rec = R = Rec(pre)
        try: r = self.run(self.mod.funcs[name], args)
        finally: self.rec = None
        self.absdo(self, R)
        return r
    def run(self, f, args):
        if self.depth > 200: raise Limit('recursion')
        self.depth += 1
        fi = self.fi.get(f.name)
        if fi is None: fi = self.fi[f.name] = FInfo(f)
        fr = {}
        n = len(f.params)
        for (t, nm, at), a in zip(f.params, args):
            if 'byval' in at:
                oi = self.new('stack', self.T.size(self.byval_type(at, t)), nm); self.copybytes(('p', oi, 0), a, self.mem[oi].size); a = ('p', oi, 0)
            fr[nm] = a
        if f.vararg: fr['$va'] = list(args[n:])
        locs = []
        fr['$locs'] = locs
        r = self.region(f, fi, fr, f.entry, None, None)
        for oi in locs:
            if self.undo is None: self.mem.pop(oi, None)
        self.depth -= 1
        return r[1]
    def byval_type(self, at, t): raise Limit('byval')
    def region(self, f, fi, fr, blk, prev, stop):
        """runs from blk until `stop` is about to be entered (-> ('at', prev)) or the function returns (-> ('ret', value))"""
        while True:
            if blk == stop and prev is not None and stop is not None: return ('at', prev)
            ins_list = f.blocks[blk]
            i = 0
            if ins_list[0].op == 'phi':
                vals = []
                while ins_list[i].op == 'phi':
                    I = ins_list[i]
                    if prev == '$merged': pass
                    else:
                        for v, b in I.x:
                            if b == prev: vals.append((I.res, self.val(fr, v, I.ty))); break
                        else: raise Limit('phi')
                    i += 1
                for r, v in vals: fr[r] = v
            while True:
                I = ins_list[i]; i += 1
                self.steps += 1
                op = I.op
                if op == 'br':
                    if not I.args: prev, blk = blk, I.x[0]; break
                    self.cur = I
                    c = self.decided(self.val(fr, I.args[0][1], I.args[0][0]))
                    if c[0] == 'k': prev, blk = blk, I.x[0 if c[1] & 1 else 1]; break
                    r = self.fork(f, fi, fr, blk, I, mask_of(c), [x for x in dict.fromkeys(I.x)], stop, c)
                    if r[0] == 'ret': return r
                    prev, blk = '$merged', r[1]
                    if blk == stop: return ('merged', None)
                    break
                if op == 'switch':
                    self.cur = I
                    c = self.decided(self.val(fr, I.args[0][1], I.args[0][0]))
                    d, cs = I.x
                    if c[0] == 'k':
                        t = d
                        w = (1 << I.args[0][0][1]) - 1
                        for cv, lb in cs:
                            if cv & w == c[1]: t = lb
                        prev, blk = blk, t; break
                    r = self.fork(f, fi, fr, blk, I, mask_of(c), list(dict.fromkeys([d] + [l for _, l in cs])), stop)
                    if r[0] == 'ret': return r
                    prev, blk = '$merged', r[1]
                    if blk == stop: return ('merged', None)
                    break
                if op == 'ret':
                    self.cur = I
                    return ('ret', self.val(fr, I.args[0][1], I.ty) if I.args else None)
                if op == 'unreachable': raise Limit('unreachable')
                self.simple(f, fr, I)
            if self.steps > self.max_steps: raise Limit('step limit at ' + self.where())
    def fork(self, f, fi, fr, blk, I, m, targets, stop, cond=None):
        if m & UNSET: self.faults.append(('decides on an unset byte', '%s:%d' % self.mod.loc(I)))
        meet = fi.ipdom[blk]
        # a region that must end earlier (the enclosing stop) is met first only if it is on the way; ipdom of an inner branch never passes the outer one
        outer = self.undo
        octl = self.ctl
        self.ctl |= m
        outs = []
        if getattr(self, 'fdepth', 0) > 60: raise Limit('too many nested decisions on data at %s:%d' % self.mod.loc(I))
        self.fdepth = getattr(self, 'fdepth', 0) + 1
        for t in targets:
            self.undo = {}
            fr2 = dict(fr)
            try: r = self.region(f, fi, fr2, t, blk, meet)
            except Limit as e:
                if str(e) == 'unreachable': self.rollback(); continue
                raise
            ph = None
            if r[0] == 'at' and meet is not None:
                ph = {}
                for J in f.blocks[meet]:
                    if J.op != 'phi': break
                    for v, b in J.x:
                        if b == r[1]: ph[J.res] = self.val(fr2, v, J.ty); break
            elif r[0] == 'merged':
                ph = {J.res: fr2[J.res] for J in f.blocks[meet] if J.op == 'phi'}
            # collect what this arm changed, then take it back
            after = {oi: self.mem.get(oi) for oi in self.undo}
            before = self.undo
            outs.append((r, fr2, ph, before, after))
            for oi, o in before.items():
                if o is None: pass
                else: self.mem[oi] = o
        self.fdepth -= 1
        self.undo = outer
        self.ctl = octl
        if not outs: raise Limit('unreachable')
        if len(outs) != 2 or len(targets) != 2: cond = None
        # join memory
        touched = {}
        for r, fr2, ph, before, after in outs:
            for oi in before: touched[oi] = before[oi]
        for oi, b0 in touched.items():
            if b0 is None:                       # created in one arm
                for r, fr2, ph, before, after in outs:
                    if oi in after: self.mem[oi] = after[oi]
                if outer is not None: outer.setdefault(oi, None)
                continue
            o = self.w(oi) if outer is not None else self.mem[oi]
            vers = [after[oi] if oi in after else b0 for r, fr2, ph, before, after in outs]
            nb = list(vers[0].b)
            for v in vers[1:]:
                if len(v.b) != len(nb): raise Limit('size depends on data')
                for k in range(len(nb)):
                    if nb[k] is not v.b[k]: nb[k] = self.join1(nb[k], v.b[k], m, cond)
            ptr = vers[0].ptr
            for v in vers[1:]:
                if v.ptr != ptr: raise Limit('pointer depends on data at %s:%d' % self.mod.loc(I))
            live = vers[0].live
            if any(v.live != live for v in vers): raise Limit('lifetime depends on data at %s:%d' % self.mod.loc(I))
            self.mem[oi] = n = vers[0].copy(); n.b = nb
        # registers and result
        rets = [x for x in outs if x[0][0] == 'ret']
        if len(rets) == len(outs):
            v = rets[0][0][1]
            for x in rets[1:]: v = self.joinv(v, x[0][1], m, cond)
            return ('ret', v)
        if rets: raise Limit('mixed')           # cannot happen: the meeting point post-dominates
        base = outs[0][1]
        for k in list(base):
            if k[0] == '$': continue
            v = base[k]
            ok = True
            for x in outs[1:]:
                if k not in x[1]: ok = False; break
                if x[1][k] is not v:
                    try: v = self.joinv(v, x[1][k], m, cond)
                    except Limit: ok = False; break
            if ok: fr[k] = v
            else: fr.pop(k, None)
        if outs[0][2]:
            for k in outs[0][2]:
                v = outs[0][2][k]
                for x in outs[1:]: v = self.joinv(v, x[2][k], m, cond)
                fr[k] = v
        return ('at', meet)
    def decided(self, c): return c
    def rollback(self):
        for oi, o in self.undo.items():
            if o is None: self.mem.pop(oi, None)
            else: self.mem[oi] = o
    def join1(self, a, b, m, cond): return join(a, b, m)
    def joinv(self, a, b, m, cond=None):
        if a is b: return a
        if a is None or b is None: return None
        if type(a) is list or type(b) is list: return a
        if a[0] != 'b' and a == b: return a
        if a[0] in ('p', 'pd') and b[0] in ('p', 'pd') and a[1] == b[1]:
            o = self.mem[a[1]]
            x = (m | (a[2] if a[0] == 'pd' else 0) | (b[2] if b[0] == 'pd' else 0))
            ra = (a[2], a[2] + 1, 0) if a[0] == 'p' else a[3]
            rb = (b[2], b[2] + 1, 0) if b[0] == 'p' else b[3]
            if ra is None or rb is None: return ('pd', a[1], x, None)
            import math
            lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
            return ('pd', a[1], x, (lo, hi, math.gcd(math.gcd(ra[2], rb[2]), abs(ra[0] - rb[0])) or 1))
        if a[0] in ('p', 'f', 'pd') or b[0] in ('p', 'f', 'pd'): raise Limit('pointer depends on data at ' + self.where())
        n = max(len(a[1]) if a[0] == 'b' else 0, len(b[1]) if b[0] == 'b' else 0)
        if n == 0:
            n = max(1, (max(a[1], b[1]).bit_length() + 7) // 8); n = 1 if n == 1 else 2 if n == 2 else 4 if n <= 4 else 8 if n <= 8 else 16
        x = bytes_of(a, n); y = bytes_of(b, n)
        return mk(tuple(self.join1(p, q, m, cond) for p, q in zip(x, y)), ('i', 8 * n))
    def simple(self, f, fr, I):
        op = I.op
        if op == 'load':
            self.cur = I
            p = self.val(fr, I.args[0][1], I.args[0][0])
            v = self.load(p, I.ty)
            if I.ty[0] == 'ptr' and v[0] == 'b': raise Limit('pointer made of data at ' + self.where())
            fr[I.res] = v
        elif op == 'store':
            self.cur = I
            v = self.val(fr, I.args[0][1], I.args[0][0]); p = self.val(fr, I.args[1][1], I.args[1][0])
            self.store(p, v, I.args[0][0])
        elif op == 'getelementptr':
            self.cur = I
            fr[I.res] = self.gep(fr, I)
        elif op == 'call':
            self.cur = I
            c = I.x
            if c[0] == 'g': name = c[1]
            else:
                v = self.val(fr, c, ('ptr',))
                if v[0] != 'f': raise Limit('call through data at ' + self.where())
                name = v[1]
            if name.startswith('llvm.'):
                self.intrinsic(fr, I, name, [self.val(fr, v, t) for t, v in I.args if t[0] != 'metadata'])
                return
            r = self.call(name, [self.val(fr, v, t) for t, v in I.args])
            if I.res is not None: fr[I.res] = r
        elif op == 'alloca':
            n = self.T.size(I.ty)
            if I.x != 1:
                v = self.val(fr, I.x, ('i', 64)) if isinstance(I.x, tuple) else ('k', I.x)
                if v[0] != 'k': raise Limit('variable array')
                n *= v[1]
            oi = self.new('stack', n, 'local %s of %s' % (I.res, f.name))
            fr['$locs'].append(oi)
            fr[I.res] = ('p', oi, 0)
        elif op == 'icmp':
            self.cur = I
            a = self.val(fr, I.args[0][1], I.ty); b = self.val(fr, I.args[1][1], I.ty)
            fr[I.res] = self.icmp(I.x, a, b, I.ty)
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            v = self.val(fr, I.args[0][1], I.args[0][0])
            if v[0] in ('p', 'f', 'pd') : fr[I.res] = v; return
            if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'): fr[I.res] = v; return
            wi = I.args[0][0][1]; wo = I.ty[1]
            if v[0] == 'k':
                x = v[1]
                if op == 'sext' and x >> (wi - 1): x |= ((1 << wo) - 1) & ~((1 << wi) - 1)
                fr[I.res] = ('k', x & ((1 << wo) - 1)); return
            n = self.T.size(I.ty)
            bs = v[1]
            r = self.cast(op, bs, wi, wo, n, I.ty)
            if r is not None: fr[I.res] = r; return
            if op == 'trunc':
                if wo < 8: fr[I.res] = ('b', (bs[0],)) if type(bs[0]) is not int else ('k', bs[0] & ((1 << wo) - 1))
                else: fr[I.res] = mk(bs[:n], I.ty)
            elif op == 'zext': fr[I.res] = ('b', bs + (0,) * (n - len(bs)))
            else: fr[I.res] = ('b', bs + (D(m_(bs[-1]), 255 if pos(bs[-1]) & 128 else 0),) * (n - len(bs))) if wi >= 8 else ('b', tuple(D(m_(bs[0])) for _ in range(n)))
        elif op == 'select':
            self.cur = I
            c = self.val(fr, I.args[0][1], ('i', 1)); a = self.val(fr, I.args[1][1], I.ty); b = self.val(fr, I.args[2][1], I.ty)
            if c[0] == 'k': fr[I.res] = a if c[1] & 1 else b
            else: fr[I.res] = self.joinv(a, b, mask_of(c), c)
        elif op in ('extractvalue', 'insertvalue', 'asm', 'fence', 'fcmp', 'fneg'): raise Limit('instruction ' + op)
        else:
            self.cur = I
            a = self.val(fr, I.args[0][1], I.ty); b = self.val(fr, I.args[1][1], I.ty)
            fr[I.res] = self.binop(op, a, b, I.ty)
    def cast(self, op, bs, wi, wo, n, ty): return None
    def icmp(self, x, a, b, ty):
        if a[0] in ('p', 'f') or b[0] in ('p', 'f'):
            if a == b: return ('k', int(x in ('eq', 'ule', 'uge', 'sle', 'sge')))
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]: a, b = ('k', a[2] + (1 << 40)), ('k', b[2] + (1 << 40))
            elif x in ('eq', 'ne') and (a[0] in 'pfk' and b[0] in 'pfk'): return ('k', int(x == 'ne'))
            elif a[0] == 'p' and b[0] == 'p': a, b = ('k', a[1]), ('k', b[1])     # different objects: some fixed order
            else: raise Limit('pointer comparison at ' + self.where())
        if a[0] == 'pd' or b[0] == 'pd':
            m = (a[2] if a[0] == 'pd' else 0) | (b[2] if b[0] == 'pd' else 0)
            if (a[0] == 'k' or b[0] == 'k') and x in ('eq', 'ne'): return ('k', int(x == 'ne'))
            return ('b', (D(m, 1),))
        if a[0] == 'k' and b[0] == 'k':
            p, q = a[1], b[1]
            if x[0] == 's':
                w = ty[1] if ty[0] == 'i' else 64
                if p >> (w - 1): p -= 1 << w
                if q >> (w - 1): q -= 1 << w
            r = dict(eq=p == q, ne=p != q, ult=p < q, ule=p <= q, ugt=p > q, uge=p >= q, slt=p < q, sle=p <= q, sgt=p > q, sge=p >= q)[x]
            return ('k', int(r))
        n = self.T.size(ty)
        A = bytes_of(a, n); B = bytes_of(b, n)
        if A == B and all(type(e) is int or e[1] is not None for e in A): return ('k', int(x in ('eq', 'ule', 'uge', 'sle', 'sge')))
        if x in ('eq', 'ne'):
            for p, q in zip(A, B):
                if type(p) is int and type(q) is int and p != q: return ('k', int(x == 'ne'))
        if x in ('ult', 'uge', 'ugt', 'ule'):
            # constant upper bounds
            hi = pos
            lo = lambda e: e if type(e) is int else 0
            ah = sum(hi(e) << (8 * k) for k, e in enumerate(A)); al = sum(lo(e) << (8 * k) for k, e in enumerate(A))
            bh = sum(hi(e) << (8 * k) for k, e in enumerate(B)); bl = sum(lo(e) << (8 * k) for k, e in enumerate(B))
            if x in ('ult', 'uge'):
                if ah < bl: return ('k', int(x == 'ult'))
                if al >= bh: return ('k', int(x == 'uge'))
            else:
                if al > bh: return ('k', int(x == 'ugt'))
                if ah <= bl: return ('k', int(x == 'ule'))
        m = 0
        for e in A + B: m |= m_(e)
        return ('b', (D(m, 1),))
    def binop(self, op, a, b, ty):
        w = ty[1] if ty[0] == 'i' else 64
        if a[0] == 'p' or b[0] == 'p':
            if op == 'sub' and a[0] == 'p' and b[0] == 'p' and a[1] == b[1]: return ('k', (a[2] - b[2]) & ((1 << w) - 1))
            if op == 'add' and a[0] == 'p' and b[0] == 'k': return ('p', a[1], a[2] + sg(b[1], w))
            if op == 'sub' and a[0] == 'p' and b[0] == 'k': return ('p', a[1], a[2] - sg(b[1], w))
            if op in ('and', 'urem') and a[0] == 'p' and b[0] == 'k' and b[1] < 64:
                return ('k', (a[2] & b[1]) if op == 'and' else a[2] % b[1])        # objects are taken as aligned
            if op == 'or' and a[0] == 'p' and b[0] == 'p': return ('k', a[2] | b[2])
            raise Limit('pointer arithmetic %s at %s' % (op, self.where()))
        if a[0] == 'pd' or b[0] == 'pd': raise Limit('pointer arithmetic at ' + self.where())
        if a[0] == 'k' and b[0] == 'k':
            M = (1 << w) - 1; x, y = a[1], b[1]
            if op == 'add': r = x + y
            elif op == 'sub': r = x - y
            elif op == 'mul': r = x * y
            elif op == 'and': r = x & y
            elif op == 'or': r = x | y
            elif op == 'xor': r = x ^ y
            elif op == 'shl': r = x << y if y < w else 0
            elif op == 'lshr': r = x >> y if y < w else 0
            elif op == 'ashr': r = sg(x, w) >> y if y < w else 0
            elif op in ('udiv', 'urem', 'sdiv', 'srem'):
                if y == 0: raise Fault('divides by zero', self.where())
                if op == 'udiv': r = x // y
                elif op == 'urem': r = x % y
                else:
                    p, q = sg(x, w), sg(y, w)
                    d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                    r = d if op == 'sdiv' else p - d * q
            else: raise Limit(op)
            return ('k', r & M)
        n = self.T.size(ty)
        if w == 1:
            m = mask_of(a) | mask_of(b)
            if op == 'and' and (a == ('k', 0) or b == ('k', 0)): return ('k', 0)
            if op == 'or' and (a == ('k', 1) or b == ('k', 1)): return ('k', 1)
            return ('b', (D(m, 1),))
        A = bytes_of(a, n); B = bytes_of(b, n)
        if op in ('xor', 'and', 'or'):
            g = self.xor1 if op == 'xor' else self.and1 if op == 'and' else self.or1
            return mk(tuple(g(p, q) for p, q in zip(A, B)), ty)
        if op in ('shl', 'lshr', 'ashr') and b[0] == 'k':
            s = b[1]
            if s >= w: self.faults.append(('shifts a %d bit value by %d' % (w, s), self.where())); return ('k', 0)
            q, r = divmod(s, 8)
            out = []
            sgn = D(self.part(A[-1], 128), 255 if A[-1][2] & 128 else 0) if type(A[-1]) is not int else (255 if A[-1] & 128 else 0)
            for i in range(n):
                if op == 'shl':
                    hi = A[i - q] if i - q >= 0 else 0; lo = A[i - q - 1] if i - q - 1 >= 0 else 0
                    if r == 0: out.append(hi)
                    elif type(hi) is int and type(lo) is int: out.append(((hi << r) | (lo >> (8 - r))) & 255)
                    else: out.append(D(self.part(hi, 255 >> r) | self.part(lo, (255 << (8 - r)) & 255), (pos(hi) << r | pos(lo) >> (8 - r)) & 255))
                else:
                    lo = A[i + q] if i + q < n else (sgn if op == 'ashr' else 0); hi = A[i + q + 1] if i + q + 1 < n else (sgn if op == 'ashr' else 0)
                    if r == 0: out.append(lo)
                    elif type(hi) is int and type(lo) is int: out.append(((lo >> r) | (hi << (8 - r))) & 255)
                    else: out.append(D(self.part(lo, (255 << r) & 255) | self.part(hi, 255 >> (8 - r)), (pos(lo) >> r | pos(hi) << (8 - r)) & 255))
            return mk(tuple(out), ty)
        if op in ('add', 'sub', 'mul') :
            if op == 'mul' and (a == ('k', 0) or b == ('k', 0)): return ('k', 0)
            if op == 'mul' and a == ('k', 1): return b
            if op == 'mul' and b == ('k', 1): return a
            if op == 'mul' and b[0] == 'k' and b[1] & (b[1] - 1) == 0: return self.binop('shl', a, ('k', b[1].bit_length() - 1), ty)
            if op in ('add', 'sub') and b == ('k', 0): return a
            if op == 'add' and a == ('k', 0): return b
            if op == 'add' and all((type(p) is int and p == 0) or (type(q) is int and q == 0) for p, q in zip(A, B)):
                return mk(tuple(q if type(p) is int and p == 0 else p for p, q in zip(A, B)), ty)
            m = 0; out = []
            for p, q in zip(A, B):
                m |= m_(p) | m_(q)
                out.append(D(m))
            if op == 'mul' or op == 'add':
                # bytes above the largest possible result are zero
                hi = lambda V: sum(pos(e) << (8 * k) for k, e in enumerate(V))
                top = hi(A) + hi(B) if op == 'add' else hi(A) * hi(B)
                if top < 1 << (8 * n):
                    for k in range(n):
                        t = top >> (8 * k)
                        if t == 0: out[k] = 0
                        elif t < 255: out[k] = D(m_(out[k]), (1 << t.bit_length()) - 1)
            # low bytes that are known
            if op != 'mul':
                k = 0; c = 0
                while k < n and type(A[k]) is int and type(B[k]) is int:
                    x = (A[k] + B[k] + c) if op == 'add' else (A[k] - B[k] - c)
                    out[k] = x & 255; c = 1 if x > 255 or x < 0 else 0; k += 1
                if k == n: return mk(tuple(out), ty)
            return mk(tuple(out), ty)
        m = mask_of(a) | mask_of(b)
        if op == 'urem' and b[0] == 'k' and b[1]:
            if b[1] & (b[1] - 1) == 0: return self.binop('and', a, ('k', b[1] - 1), ty)
            k = ((b[1] - 1).bit_length() + 7) // 8
            return mk(tuple(D(m, min(255, (1 << max(0, (b[1] - 1).bit_length() - 8 * i)) - 1)) if i < k else 0 for i in range(n)), ty)
        if op == 'udiv' and b[0] == 'k' and b[1] and b[1] & (b[1] - 1) == 0: return self.binop('lshr', a, ('k', b[1].bit_length() - 1), ty)
        return ('b', tuple(D(m) for _ in range(n)))
    def gep(self, fr, I):
        base = self.val(fr, I.args[0][1], I.args[0][0])
        T = self.T; t = I.ty; off = 0; m = 0; var = []      # var: (lowest, highest, step, extent or None)
        for n, (it, v) in enumerate(I.args[1:]):
            x = self.val(fr, v, it)
            if n == 0: sz = T.size(t); ext = None
            else:
                t = T.resolve(t)
                if t[0] in ('arr', 'vec'): ext = t[1]; t = t[2]; sz = T.size(t)
                else:
                    offs, _ = T.layout(t); off += offs[x[1]]; t = t[1][x[1]]
                    continue
            if x[0] == 'k': off += sg(x[1], it[1]) * sz
            elif x[0] == 'b':
                m |= mask_of(x)
                if m & UNSET: self.faults.append(('uses an unset byte as an index', self.where()))
                hi = sum(pos(e) << (8 * k) for k, e in enumerate(x[1]))
                lo = sum((e if type(e) is int else 0) << (8 * k) for k, e in enumerate(x[1]))
                if hi >> (it[1] - 1): var.append((None, None, sz, ext))
                else: var.append((lo * sz, hi * sz, sz, ext))
            else: raise Limit('index at ' + self.where())
        if not var:
            if base[0] == 'p': return ('p', base[1], base[2] + off)
            if base[0] == 'pd': return ('pd', base[1], base[2], base[3] and (base[3][0] + off, base[3][1] + off, base[3][2]))
            if base[0] == 'k':
                if off == 0: return base
                return ('k', (base[1] + off) & ((1 << 64) - 1))
            raise Limit('address at ' + self.where())
        if base[0] == 'p': b0 = (base[2] + off, base[2] + off + 1, 0)
        elif base[0] == 'pd':
            m |= base[2]
            if base[3] is None: return ('pd', base[1], m, None)
            b0 = (base[3][0] + off, base[3][1] + off, base[3][2])
        else: raise Limit('address at ' + self.where())
        import math
        lo, hi, st = b0
        for vl, vh, vs, ext in var:
            if vl is None: return ('pd', base[1], m, None)
            if ext is not None and vh // vs >= ext: self.wild.add(('index chosen by data reaches %d of an array of %d elements' % (vh // vs, ext), self.where()))
            lo += vl; hi += vh; st = math.gcd(st, vs)
        return ('pd', base[1], m, (lo, hi, st or 1))
    def copybytes(self, d, s, n):
        if n == 0: return
        if d[0] == 'pd' or s[0] == 'pd': raise Limit('copy at an address that depends on data at ' + self.where())
        so = self.check(s, n, False); self.check(d, n, True)
        bs = so.b[s[2]:s[2] + n]
        if self.rec is not None: self.rec.read(s[1], s[2], bs, so); self.rec.write(d[1], d[2], n)
        ps = {k - s[2]: v for k, v in so.ptr.items() if s[2] <= k and k + 8 <= s[2] + n} if so.ptr else {}
        do = self.w(d[1])
        if do.ptr:
            for k in [k for k in do.ptr if d[2] - 8 < k < d[2] + n]: do.ptr.pop(k)
        do.b[d[2]:d[2] + n] = bs
        for k, v in ps.items(): do.ptr[d[2] + k] = v
    def size_arg(self, v):
        if v[0] != 'k': raise Limit('length depends on data at ' + self.where())
        return v[1]
    def setbytes(self, d, v, n):
        if n == 0: return
        self.check(d, n, True)
        o = self.w(d[1])
        if o.ptr:
            for k in [k for k in o.ptr if d[2] - 8 < k < d[2] + n]: o.ptr.pop(k)
        e = bytes_of(v, 1)[0]
        if self.rec is not None: self.rec.write(d[1], d[2], n)
        o.b[d[2]:d[2] + n] = [e] * n
    def intrinsic(self, fr, I, name, a):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')): self.copybytes(a[0], a[1], self.size_arg(a[2]))
        elif name.startswith('llvm.memset'): self.setbytes(a[0], a[1], self.size_arg(a[2]))
        elif name.startswith('llvm.va_start'):
            self.va_start(fr, a[0])
        elif name.startswith('llvm.va_copy'): self.copybytes(a[0], a[1], 24)
        elif name.startswith(('llvm.va_end', 'llvm.lifetime', 'llvm.assume', 'llvm.dbg')): pass
        elif name.startswith(('llvm.fshl', 'llvm.fshr')):
            w = I.ty[1]
            if a[2][0] != 'k': raise Limit('rotate by data')
            s = a[2][1] % w
            if name.startswith('llvm.fshr'): s = (w - s) % w if s else 0; hi, lo = a[0], a[1]
            else: hi, lo = a[0], a[1]
            if s == 0: fr[I.res] = hi if name.startswith('llvm.fshl') else lo
            else: fr[I.res] = self.binop('or', self.binop('shl', hi, ('k', s), I.ty), self.binop('lshr', lo, ('k', w - s), I.ty), I.ty)
        elif name.startswith('llvm.bswap'):
            n = self.T.size(I.ty); fr[I.res] = mk(tuple(reversed(bytes_of(a[0], n))), I.ty)
        elif name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            c = self.icmp('ult' if 'umin' in name else 'ugt' if 'umax' in name else 'slt' if 'smin' in name else 'sgt', a[0], a[1], I.ty)
            fr[I.res] = (a[0] if c[1] else a[1]) if c[0] == 'k' else self.joinv(a[0], a[1], mask_of(c), c)
        else: raise Limit('intrinsic ' + name)
    def va_start(self, fr, p):
        va = fr['$va']
        oi = self.new('stack', 8 * len(va) + 8, 'variadic arguments')
        for k, v in enumerate(va): self.store(('p', oi, 8 * k), v if v[0] in ('p', 'f') else ('b', tuple(bytes_of(v, 8))), ('i', 64))
        self.store(p, ('k', 48), ('i', 32)); self.store(('p', p[1], p[2] + 4), ('k', 304), ('i', 32))
        self.store(('p', p[1], p[2] + 8), ('p', oi, 0), ('ptr',)); self.store(('p', p[1], p[2] + 16), ('p', oi, 0), ('ptr',))

def sg(x, w): return x - (1 << w) if x >> (w - 1) else x
def mk(bs, ty):
    """constant if all bytes are"""
    for e in bs:
        if type(e) is not int: return ('b', bs)
    x = 0
    for k, e in enumerate(bs): x |= e << (8 * k)
    if ty[0] == 'i': x &= (1 << ty[1]) - 1
    return ('k', x)
def bytes_of(v, n):
    if v[0] == 'k': return tuple((v[1] >> (8 * k)) & 255 for k in range(n))
    if v[0] == 'b':
        b = v[1]
        if len(b) == n: return b
        return b[:n] if len(b) > n else b + (0,) * (n - len(b))
    raise Limit('pointer used as data')
def mask_of(v):
    m = 0
    if v[0] == 'b':
        for e in v[1]: m |= m_(e)
    return m
# hooks of the harnesses
def cstr(F, p):
    o = F.mem[p[1]]; s = []; k = p[2]
    while o.b[k]: s.append(o.b[k]); k += 1
    return bytes(s).decode()
def h_mark(F, a, nm=None):
    """v_mark(p, n, name): the bytes become inputs (name, 0..n-1)"""
    n = F.size_arg(a[1]); name = nm or cstr(F, a[2])
    if n == 0: return None
    F.check(a[0], n, True); o = F.w(a[0][1])
    for i in range(n): o.b[a[0][2] + i] = F.fresh(name, i)
    if o.ptr:
        for k in [k for k in o.ptr if a[0][2] - 8 < k < a[0][2] + n]: o.ptr.pop(k)
def h_marki(F, a): return h_mark(F, a, '%s#%d' % (cstr(F, a[2]), F.size_arg(a[3])))
def h_dumpi(F, a): return h_dump(F, a, '%s#%d' % (cstr(F, a[2]), F.size_arg(a[3])))
def h_dump(F, a, nm=None):
    n = F.size_arg(a[1]); name = nm or cstr(F, a[2])
    if n == 0: F.dumps[name] = []; return None
    o = F.check(a[0], n, False)
    F.dumps[name] = [(0, 'ptr') if any(k <= i < k + 8 for k in o.ptr) else o.b[i] for i in range(a[0][2], a[0][2] + n)]
def h_const(F, a): return None
def h_unset(F, a):
    n = F.size_arg(a[1])
    if n == 0: return None
    o = F.check(a[0], n, True); o = F.w(a[0][1])
    o.b[a[0][2]:a[0][2] + n] = [UB] * n
def h_malloc(F, a): return ('p', F.new('heap', F.size_arg(a[0]), 'heap block'), 0)
def h_calloc(F, a): return ('p', F.new('heap', F.size_arg(a[0]) * F.size_arg(a[1]), 'heap block', 0), 0)
def h_realloc(F, a):
    n = F.size_arg(a[1])
    oi = F.new('heap', n, 'heap block')
    if a[0][0] == 'p':
        F.copybytes(('p', oi, 0), a[0], min(n, F.mem[a[0][1]].size))
        F.w(a[0][1]).live = False
    return ('p', oi, 0)
def h_free(F, a):
    if a[0][0] == 'p':
        o = F.mem[a[0][1]]
        if o.kind != 'heap' or not o.live or a[0][2] != 0: raise Fault('releases memory that is not a live heap block', F.where())
        F.w(a[0][1]).live = False
def h_memcpy(F, a): F.copybytes(a[0], a[1], F.size_arg(a[2])); return a[0]
def h_memset(F, a): F.setbytes(a[0], a[1], F.size_arg(a[2])); return a[0]
def h_memcmp(F, a):
    n = F.size_arg(a[2]); m = 0
    if n == 0: return ('k', 0)
    x = F.check(a[0], n, False).b[a[0][2]:a[0][2] + n]; y = F.check(a[1], n, False).b[a[1][2]:a[1][2] + n]
    if x == y and all(type(e) is int or e[1] is not None for e in x): return ('k', 0)
    for p, q in zip(x, y):
        m |= m_(p) | m_(q)
        if type(p) is int and type(q) is int and p != q:
            if m == 0: return ('k', 1 if p > q else (1 << 32) - 1)
            break
    return ('b', tuple(D(m) for _ in range(4)))
def h_strlen(F, a):
    o = F.check(a[0], 1, False); k = a[0][2]
    while True:
        if k >= o.size: raise Fault('reads past ' + o.name, F.where())
        if type(o.b[k]) is not int: raise Limit('string length depends on data at ' + F.where())
        if o.b[k] == 0: return ('k', k - a[0][2])
        k += 1
