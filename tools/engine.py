"""Path-sensitive abstract interpreter over LLVM IR for status codes, ownership and object typestate.

Abstract values (hashable):
  ('i', n)            known integer (canonical signed for its width)
  ('s', id)           unknown integer; state.cons[id] = (lo, hi, nonzero)
  ('c', pred, a, b)   result of a comparison (i1), a/b abstract values
  ('n', v)            logical negation of an i1
  ('p', obj, off)     pointer into an abstract object; off None = unknown
  ('z',)              null pointer
  ('q', id)           unknown pointer (not into a tracked object); cons[id] says null / non-null / either
  ('f', name)         address of a function
  ('u',)              unset (indeterminate) value
States are merged when equal up to renaming of ids, so loops converge; integers that keep changing in a loop
are widened.  Branches on values the path already fixes follow one edge only.
"""
import itertools, sys
sys.setrecursionlimit(20000)
INF = 1 << 70
_ids = itertools.count(1)
def fresh(): return next(_ids)
U = ('u',)
Z = ('z',)

class Limit(Exception):
    pass

class Obj:
    __slots__ = ('kind', 'size', 'cells', 'default', 'live', 'site', 'tag')
    # kind: stack heap param data global va
    def __init__(self, kind, size=None, default='u', site=None, tag=None):
        self.kind = kind; self.size = size; self.cells = {}; self.default = default
        self.live = True; self.site = site; self.tag = tag
    def copy(self):
        o = Obj(self.kind, self.size, self.default, self.site, self.tag)
        o.cells = dict(self.cells); o.live = self.live
        return o

class State:
    __slots__ = ('frames', 'mem', 'cons', 'failed', 'trace', 'own', 'extra', 'lc')
    def __init__(self):
        self.frames = []      # list of dict reg -> value (innermost last)
        self.mem = {}         # id -> Obj
        self.cons = {}
        self.failed = None
        self.trace = None     # linked list (event, prev)
        self.own = set()      # object ids this state may mutate in place
        self.extra = ()       # hashable client data
        self.lc = {}          # (depth, register) -> (object, value): repeated loads through one unchanged pointer agree
    def fork(self):
        s = State()
        s.frames = self.frames[:-1] + [dict(self.frames[-1])] if self.frames else []
        s.mem = dict(self.mem)
        s.cons = dict(self.cons)
        s.failed = self.failed
        s.trace = self.trace
        self.own = set()
        s.own = set()
        s.extra = self.extra
        s.lc = self.lc
        return s
    def obj(self, i): return self.mem[i]
    def wobj(self, i):
        o = self.mem[i]
        if self.lc: self.lc = {k: v for k, v in self.lc.items() if v[0] != i}
        if i not in self.own:
            o = o.copy()
            self.mem[i] = o
            self.own.add(i)
        return o
    def new(self, obj):
        i = fresh()
        self.mem[i] = obj
        self.own.add(i)
        return i
    def note(self, ev): self.trace = (ev, self.trace)

def trace_list(t):
    out = []
    while t:
        out.append(t[0]); t = t[1]
    return out[::-1]

def canon(n, w):
    n &= (1 << w) - 1
    if w > 1 and n >> (w - 1): n -= 1 << w
    return n

# ---- per-function static info -------------------------------------------
class FInfo:
    def __init__(self, f):
        self.f = f
        self.succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == 'br': self.succ[b] = list(dict.fromkeys(t.x))
            elif t.op == 'switch': self.succ[b] = list(dict.fromkeys([t.x[0]] + [c[1] for c in t.x[1]]))
            else: self.succ[b] = []
        # liveness of registers at block entry (phi operands counted at predecessor exit)
        use = {}; de = {}; phiuse = {}
        for b in f.order:
            u = set(); d = set()
            for i in f.blocks[b]:
                if i.op == 'phi':
                    d.add(i.res)
                    for v, pb in i.x:
                        if v[0] == 'r': phiuse.setdefault(pb, {}).setdefault(b, set()).add(v[1])
                    continue
                for t, v in i.args:
                    if v[0] == 'r' and v[1] not in d: u.add(v[1])
                if i.op in ('call', 'invoke') and i.x and i.x[0] == 'r' and i.x[1] not in d: u.add(i.x[1])
                if i.res: d.add(i.res)
            use[b] = u; de[b] = d
        li = {b: set(use[b]) for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                out = set()
                for s in self.succ[b]:
                    out |= li[s]
                    out |= phiuse.get(b, {}).get(s, set())
                n = use[b] | (out - de[b])
                if n != li[b]:
                    li[b] = n; ch = True
        self.livein = li
        self.phidef = {b: {i.res for i in f.blocks[b] if i.op == 'phi'} for b in f.order}
        # loop headers: targets of back edges by DFS
        self.headers = set()
        self.back = set()
        color = {}
        stack = [(f.entry, iter(self.succ[f.entry]))]
        color[f.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s) == 1: self.headers.add(s); self.back.add((b, s))
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                color[b] = 2
                stack.pop()
        # natural loop bodies
        preds = {b: [] for b in f.order}
        for b in f.order:
            for x in self.succ[b]: preds[x].append(b)
        self.loop = {}
        for b, h in self.back:
            body = self.loop.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x); st += preds[x]
        self.allocas = [i.res for i in f.instrs() if i.op == 'alloca']

class Engine:
    UNROLL = 24
    MAXSTATES = 60000
    def __init__(self, mod, client):
        self.mod = mod
        self.client = client
        self.finfo = {}
        self.steps = 0
        self.depth = 0
        self.globals = {}

    def info(self, f):
        if f.name not in self.finfo: self.finfo[f.name] = FInfo(f)
        return self.finfo[f.name]

    # ---- constraints
    def sym(self, st, lo=-INF, hi=INF, nz=False):
        i = fresh()
        if lo != -INF or hi != INF or nz: st.cons[i] = (lo, hi, nz)
        return ('s', i)
    def rng(self, st, v):
        if v[0] == 'i': return (v[1], v[1], v[1] != 0)
        if v[0] in ('s',): return st.cons.get(v[1], (-INF, INF, False))
        return (-INF, INF, False)
    def ptr_null(self, st, v):
        """True null, False non-null, None unknown"""
        if v[0] == 'z': return True
        if v[0] in ('p', 'f'): return False
        if v[0] == 'i': return v[1] == 0
        if v[0] == 'q':
            lo, hi, nz = st.cons.get(v[1], (0, INF, False))
            if nz: return False
            if hi == 0: return True
        return None

    # ---- values
    def val(self, st, v, ty=None):
        k = v[0]
        if k == 'r': return st.frames[-1].get(v[1], U)
        if k == 'i':
            return ('i', canon(v[1], ty[1]) if ty and ty[0] == 'i' else v[1])
        if k == 'g':
            return self.gaddr(st, v[1], v[2])
        if k == 'null': return Z
        if k == 'undef': return U
        if k == 'zero': return ('i', 0)
        return self.sym(st)

    def gaddr(self, st, name, off):
        if name in self.mod.funcs or (name in self.mod.decls and name not in self.mod.globals):
            return ('f', name)
        key = ('G', name)
        if key not in st.mem:
            g = self.mod.globals.get(name)
            o = Obj('global', self.mod.types.size(g.ty) if g else None, 't', name, 'const' if g and g.const else 'var')
            if g and g.init is not None and g.const:
                self.ginit(st, o, 0, g.ty, g.init)
            st.mem[key] = o
        return ('p', key, off)

    def ginit(self, st, o, off, ty, v, depth=0):
        """load pointer-ish and small constant initialisers into cells"""
        T = self.mod.types
        ty = T.resolve(ty)
        if v[0] == 'agg':
            if len(v[1]) > 64: return
            if ty[0] == 'struct':
                offs, _ = T.layout(ty)
                for k, (t, x) in enumerate(v[1]): self.ginit(st, o, off + offs[k], t, x)
            else:
                s = T.size(ty[2])
                for k, (t, x) in enumerate(v[1]): self.ginit(st, o, off + k * s, t, x)
        elif v[0] == 'i':
            o.cells[off] = (T.size(ty), ('i', canon(v[1], ty[1])))
        elif v[0] == 'null':
            o.cells[off] = (8, Z)
        elif v[0] == 'g':
            o.cells[off] = (8, self.gaddr(st, v[1], v[2]))
        elif v[0] == 'zero':
            self.zfill(o, off, ty)
    def zfill(self, o, off, ty, depth=0):
        T = self.mod.types
        ty = T.resolve(ty)
        if ty[0] == 'struct':
            offs, _ = T.layout(ty)
            for k, t in enumerate(ty[1]): self.zfill(o, off + offs[k], t)
        elif ty[0] == 'arr':
            if ty[1] * T.size(ty[2]) > 256: return
            for k in range(ty[1]): self.zfill(o, off + k * T.size(ty[2]), ty[2])
        elif ty[0] == 'i': o.cells[off] = (T.size(ty), ('i', 0))
        elif ty[0] == 'ptr': o.cells[off] = (8, Z)

    # ---- memory
    def load(self, st, p, ty, ins):
        size = self.mod.types.size(ty)
        if p[0] == 'u':
            self.report(st, ins, 'unset-deref', 'dereferences an unset pointer')
            return self.sym(st)
        if p[0] == 'z' or (p[0] == 'i'):
            self.report(st, ins, 'null-deref', 'dereferences a null pointer')
            return None
        if p[0] != 'p':
            if p[0] == 'q' and not st.cons.get(p[1], (0, INF, False))[2]:
                pass
            return self.unknown(st, ty)
        _, oi, off = p
        o = st.mem.get(oi)
        if o is None:
            self.report(st, ins, 'dead-object', 'reads an object that no longer exists')
            return self.unknown(st, ty)
        if not o.live:
            self.report(st, ins, 'use-after-free', 'reads memory that was already released (%s)' % (o.site,))
            return self.unknown(st, ty)
        if o.kind == 'data' or off is None:
            return self.unknown(st, ty)
        c = o.cells.get(off)
        if c and c[0] == size: return c[1]
        if c and c[0] > size and c[1][0] == 'i':
            return ('i', canon(c[1][1], size * 8))
        # partial overlap with other cells?
        for k, (s, v) in o.cells.items():
            if k < off + size and off < k + s:
                if v == U and o.default == 'u': return U
                return self.unknown(st, ty)
        if o.default == 'u':
            return U
        if o.default == '0':
            return Z if ty[0] == 'ptr' else ('i', 0)
        v = self.client.lazy_cell(self, st, oi, off, ty)
        if v is None: v = self.unknown(st, ty)
        w = st.wobj(oi)
        w.cells[off] = (size, v)
        return v

    def unknown(self, st, ty):
        if ty[0] == 'ptr': return ('q', fresh())
        return self.sym(st)

    def kill(self, o, off, size):
        for k in [k for k, (s, v) in o.cells.items() if k < off + size and off < k + s]:
            s, v = o.cells.pop(k)
            # keep the parts outside as 'unknown initialised' or unset
            if k < off or k + s > off + size:
                if o.default == 'u' and v != U:
                    # remember that the remainder was set
                    if k < off: o.cells[k] = (off - k, ('s', fresh()))
                    if k + s > off + size: o.cells[off + size] = (k + s - off - size, ('s', fresh()))

    def store(self, st, p, v, ty, ins):
        size = self.mod.types.size(ty)
        if p[0] == 'u':
            self.report(st, ins, 'unset-deref', 'writes through an unset pointer'); return
        if p[0] == 'z' or p[0] == 'i':
            self.report(st, ins, 'null-deref', 'writes through a null pointer'); return 'dead'
        if p[0] != 'p':
            return
        _, oi, off = p
        o = st.mem.get(oi)
        if o is None: return
        if not o.live:
            self.report(st, ins, 'use-after-free', 'writes memory that was already released (%s)' % (o.site,)); return
        if o.kind == 'data': return
        w = st.wobj(oi)
        if off is None:
            if w.default == 'u':
                w.default = 't'
                for k in [k for k, (s, x) in w.cells.items() if x == U]: del w.cells[k]
            return
        self.kill(w, off, size)
        w.cells[off] = (size, v)

    def havoc(self, st, p, n=None, init=True):
        """bytes from p become set to unknown data (ownership-free buffer)"""
        if p[0] != 'p': return
        o = st.mem.get(p[1])
        if o is None or not o.live or o.kind == 'data': return
        w = st.wobj(p[1])
        if p[2] is None or n is None:
            # unknown extent: whole object from the offset on
            base = p[2] or 0
            for k in [k for k, (s, v) in w.cells.items() if k >= base and v[0] not in ('p', 'z', 'f')]:
                del w.cells[k]
            if w.default in ('u', '0'): w.default = 't'
            return
        self.kill(w, p[2], n)
        if n > 0 and w.default != 't': w.cells[p[2]] = (n, ('s', fresh()))

    def memcpy(self, st, d, s, n, ins):
        if n[0] != 'i':
            self.havoc(st, d); return
        n = n[1]
        if n == 0: return
        for x, what in ((d, 'writes'), (s, 'reads')):
            if x[0] == 'u': self.report(st, ins, 'unset-deref', what + ' through an unset pointer')
            if x[0] == 'z': self.report(st, ins, 'null-deref', what + ' through a null pointer')
            if x[0] == 'p' and x[1] in st.mem and not st.mem[x[1]].live:
                self.report(st, ins, 'use-after-free', what + ' memory that was already released')
        if d[0] != 'p' or d[1] not in st.mem: return
        if st.mem[d[1]].kind == 'data': return
        w = st.wobj(d[1])
        if d[2] is None:
            if w.default == 'u': w.default = 't'
            return
        cells = None
        sdef = 't'
        if s[0] == 'p' and s[1] in st.mem and s[2] is not None and st.mem[s[1]].kind != 'data':
            so = st.mem[s[1]]
            self.client.materialize(self, st, s[1], s[2], n)
            so = st.mem[s[1]]
            sdef = so.default
            cells = [(k - s[2], sz, v) for k, (sz, v) in so.cells.items() if k >= s[2] and k + sz <= s[2] + n]
        w = st.wobj(d[1])
        self.kill(w, d[2], n)
        if cells is None:
            if w.default != 't': w.cells[d[2]] = (n, ('s', fresh()))
            return
        for k, sz, v in cells: w.cells[d[2] + k] = (sz, v)
        # holes
        if sdef != w.default:
            covered = sorted((k, k + sz) for k, sz, v in cells)
            pos = 0
            for a, b in covered + [(n, n)]:
                if a > pos:
                    if sdef == 'u': w.cells[d[2] + pos] = (a - pos, U)
                    elif sdef == '0': w.cells[d[2] + pos] = (a - pos, ('i', 0))
                    elif w.default == 'u': w.cells[d[2] + pos] = (a - pos, ('s', fresh()))
                pos = max(pos, b)

    def memset(self, st, d, v, n, ins):
        if d[0] == 'u': self.report(st, ins, 'unset-deref', 'writes through an unset pointer')
        if d[0] != 'p' or d[1] not in st.mem: return
        if not st.mem[d[1]].live:
            self.report(st, ins, 'use-after-free', 'writes memory that was already released'); return
        if st.mem[d[1]].kind == 'data': return
        if n[0] != 'i' or d[2] is None:
            self.havoc(st, d); return
        w = st.wobj(d[1])
        n = n[1]
        self.kill(w, d[2], n)
        if v == ('i', 0):
            # zero cells at pointer granularity
            k = 0
            if n <= 4096:
                while k < n:
                    s = 8 if (d[2] + k) % 8 == 0 and n - k >= 8 else (4 if (d[2] + k) % 4 == 0 and n - k >= 4 else 1)
                    w.cells[d[2] + k] = (s, ('i', 0))
                    k += s
            else:
                w.cells[d[2]] = (n, ('i', 0))
        elif n: w.cells[d[2]] = (n, ('s', fresh()))

    # ---- reports
    def report(self, st, ins, rule, msg):
        self.client.report(self, st, ins, rule, msg)

    # ---- branch refinement: returns list of (state, taken bool)
    def branch(self, st, c, ins):
        neg = False
        while True:
            if c[0] == 'n':
                neg = not neg; c = c[1]
            else: break
        if c[0] == 'i': return [(st, (c[1] != 0) ^ neg)]
        if c == U:
            self.report(st, ins, 'unset-branch', 'decides on an unset value')
            return [(st, True), (st.fork(), False)]
        if c[0] == 's':
            c = ('c', 'ne', c, ('i', 0))
        if c[0] in ('p', 'f'): return [(st, not neg)]
        if c[0] == 'c':
            t = self.decide(st, c)
            if t == 'u':
                self.report(st, ins, 'unset-branch', 'decides on an unset value')
                t = None
            if t is not None: return [(st, t ^ neg)]
            a = st; b = st.fork()
            out = []
            if self.assume(a, c, True): out.append((a, True ^ neg))
            if self.assume(b, c, False): out.append((b, False ^ neg))
            return out
        return [(st, True), (st.fork(), False)]

    SW = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}
    NG = {'slt': 'sge', 'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult', 'eq': 'ne', 'ne': 'eq'}
    def is_ptr(self, v): return v[0] in ('p', 'z', 'q', 'f')
    def decide(self, st, c):
        _, pred, a, b = c
        if a == U or b == U: return 'u'
        if self.is_ptr(a) or self.is_ptr(b):
            if a[0] == 'i' and a[1] == 0: a = Z
            if b[0] == 'i' and b[1] == 0: b = Z
            eq = None
            na, nb = self.ptr_null(st, a), self.ptr_null(st, b)
            if a == b: eq = True if (a[0] != 'p' or a[2] is not None) else None
            elif na is True and nb is True: eq = True
            elif (na is True and nb is False) or (na is False and nb is True): eq = False
            elif a[0] == 'p' and b[0] == 'p':
                if a[1] != b[1]: eq = False
                elif a[2] is not None and b[2] is not None: eq = a[2] == b[2]
                if a[1] == b[1] and a[2] is not None and b[2] is not None and pred not in ('eq', 'ne'):
                    x, y = a[2], b[2]
                    return {'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y}[pred]
            elif a[0] == 'f' and b[0] == 'f': eq = a == b
            if eq is None or pred not in ('eq', 'ne'): return None
            return eq if pred == 'eq' else not eq
        if a[0] in ('c', 'n') or b[0] in ('c', 'n'): return None
        la, ha, za = self.rng(st, a)
        lb, hb, zb = self.rng(st, b)
        if pred == 'eq' or pred == 'ne':
            r = None
            if la == ha == lb == hb: r = True
            elif ha < lb or hb < la: r = False
            elif (za and lb == hb == 0) or (zb and la == ha == 0): r = False
            elif a == b: r = True
            if r is None: return None
            return r if pred == 'eq' else not r
        if pred[0] == 'u':
            if a[0] == 'i' and b[0] == 'i':
                M = (1 << 64) - 1
                x, y = a[1] & M, b[1] & M
                return {'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y}[pred]
            if pred == 'ult' and b == ('i', 0): return False
            if pred == 'uge' and b == ('i', 0): return True
            if pred == 'ugt' and b == ('i', 0): return self.decide(st, ('c', 'ne', a, b))
            if pred == 'ule' and b == ('i', 0): return self.decide(st, ('c', 'eq', a, b))
            if a == b: return pred in ('ule', 'uge')
            if la < 0 or lb < 0: return None
            pred = 's' + pred[1:]
        if a == b: return pred in ('sle', 'sge')
        if pred == 'slt': return True if ha < lb else False if la >= hb else None
        if pred == 'sgt': return True if la > hb else False if ha <= lb else None
        if pred == 'sle': return True if ha <= lb else False if la > hb else None
        if pred == 'sge': return True if la >= hb else False if ha < lb else None
        return None
    def assume(self, st, c, truth):
        _, pred, a, b = c
        if not truth: pred = self.NG.get(pred, pred)
        if self.is_ptr(a) or self.is_ptr(b):
            if b[0] == 'q' and a[0] != 'q': a, b = b, a
            if a[0] == 'q':
                nb = self.ptr_null(st, b)
                lo, hi, nz = st.cons.get(a[1], (0, INF, False))
                if pred == 'eq' and nb is True:
                    if nz: return False
                    st.cons[a[1]] = (0, 0, False)
                elif pred == 'ne' and nb is True:
                    if hi == 0: return False
                    st.cons[a[1]] = (lo, hi, True)
            return True
        if a[0] == 'i' and b[0] == 's':
            a, b = b, a
            pred = self.SW[pred]
        if a[0] == 's':
            lo, hi, nz = st.cons.get(a[1], (-INF, INF, False))
            lb, hb, zb = self.rng(st, b)
            if pred == 'eq':
                lo = max(lo, lb); hi = min(hi, hb); nz = nz or zb
            elif pred == 'ne':
                if lb == hb:
                    if lb == 0: nz = True
                    if lo == lb: lo += 1
                    if hi == lb: hi -= 1
            elif pred in ('slt', 'ult') and hb < INF and (pred[0] == 's' or (lb >= 0)):
                if pred == 'ult' and lo < 0: lo = max(lo, 0) if b[0] == 'i' else lo
                if pred == 'slt' or lo >= 0: hi = min(hi, hb - 1)
            elif pred in ('sle', 'ule') and hb < INF and (pred[0] == 's' or lb >= 0):
                if pred == 'ule' and lo < 0: lo = max(lo, 0) if b[0] == 'i' else lo
                if pred == 'sle' or lo >= 0: hi = min(hi, hb)
            elif pred == 'sgt' and lb > -INF: lo = max(lo, lb + 1)
            elif pred == 'sge' and lb > -INF: lo = max(lo, lb)
            elif pred == 'ugt' and lo >= 0 and lb >= 0: lo = max(lo, lb + 1)
            elif pred == 'ugt' and lb == hb == 0: nz = True
            elif pred == 'uge' and lo >= 0 and lb >= 0: lo = max(lo, lb)
            elif pred == 'uge' and lb == hb == 1: nz = True
            if nz:
                if lo == 0: lo = 1
                if hi == 0: hi = -1
            if lo > hi: return False
            st.cons[a[1]] = (lo, hi, nz)
            # also refine b when symbolic and order is signed
            if b[0] == 's' and pred in ('slt', 'sle', 'sgt', 'sge', 'eq'):
                l2, h2, z2 = st.cons.get(b[1], (-INF, INF, False))
                if pred == 'slt' : l2 = max(l2, lo + 1)
                elif pred == 'sle': l2 = max(l2, lo)
                elif pred == 'sgt': h2 = min(h2, hi - 1)
                elif pred == 'sge': h2 = min(h2, hi)
                elif pred == 'eq': l2, h2, z2 = lo, hi, nz
                if z2 and l2 == 0: l2 = 1
                if l2 > h2: return False
                st.cons[b[1]] = (l2, h2, z2)
        return True

    # ---- canonical key for merging
    def key(self, st, fi, blk):
        ren = {}
        objren = {}
        order = []
        def cv(v):
            k = v[0]
            if k == 's' or k == 'q':
                i = v[1]
                c = st.cons.get(i)
                if i not in ren: ren[i] = (len(ren), c)
                return (k, ren[i])
            if k == 'p':
                oi = v[1]
                if oi not in objren:
                    objren[oi] = len(objren); order.append(oi)
                return ('p', objren[oi], v[2])
            if k == 'c': return ('c', v[1], cv(v[2]), cv(v[3]))
            if k == 'n': return ('n', cv(v[1]))
            return v
        parts = [blk, bool(st.failed), st.extra]
        live = fi.livein[blk] | fi.phidef[blk]
        fr = st.frames[-1]
        for r in sorted(fr):
            if r in live or (r[0] == '$' and r[1] != '$'): parts.append((r, cv(fr[r])))
        for fr in st.frames[:-1]:
            parts.append('|')
            for r in sorted(fr):
                if r.startswith('$$'): continue
                v = fr[r]
                if v[0] == 'i': parts.append((r, v))
                else: parts.append((r, cv(v)))
        for k in sorted(st.lc): parts.append((k, cv(st.lc[k][1])))
        # params and owned things are roots too
        for oi in sorted((o for o in st.mem if st.mem[o].kind in ('param',)), key=repr):
            cv(('p', oi, 0))
        for oi in sorted((o for o in st.mem if isinstance(o, tuple) and st.mem[o].tag == 'var'), key=repr):
            cv(('p', oi, 0))
        i = 0
        while i < len(order):
            oi = order[i]; i += 1
            o = st.mem.get(oi)
            if o is None:
                parts.append((objren[oi], None)); continue
            if isinstance(oi, tuple) and o.tag == 'const':
                parts.append((objren[oi], oi)); continue
            cs = []
            for off in sorted(o.cells):
                sz, v = o.cells[off]
                if v[0] == 's' and v[1] not in ren and v[1] not in st.cons and o.default == 't': continue
                cs.append((off, sz, cv(v)))
            parts.append((objren[oi], o.kind, o.default, o.live, tuple(cs)))
        # heap objects not reachable (leaked): count matters
        leaked = sum(1 for x, o in st.mem.items() if o.kind == 'heap' and o.live and x not in objren)
        parts.append(leaked)
        return tuple(parts)

    def gc(self, st, fi, blk):
        fr = st.frames[-1]
        live = fi.livein[blk] | fi.phidef[blk]
        for r in [r for r in fr if r not in live and not r.startswith('$')]: del fr[r]
        if st.lc:
            d = len(st.frames); pd = fi.phidef[blk]
            st.lc = {k: v for k, v in st.lc.items() if k[0] < d or (k[0] == d and k[1] in live and k[1] not in pd)}
        # drop unreachable objects, except live heap ones (leaks must stay visible)
        seen = set()
        work = []
        def vis(v):
            if v[0] == 'p' and v[1] not in seen and v[1] in st.mem:
                seen.add(v[1]); work.append(v[1])
            elif v[0] == 'c': vis(v[2]); vis(v[3])
            elif v[0] == 'n': vis(v[1])
        for f in st.frames:
            for r, v in f.items():
                if not r.startswith('$$'): vis(v)
        for oi, o in st.mem.items():
            if (o.kind in ('param', 'heap') and o.live) or isinstance(oi, tuple):
                if oi not in seen: seen.add(oi); work.append(oi)
        while work:
            o = st.mem[work.pop()]
            for s, v in o.cells.values(): vis(v)
        for oi in [x for x in st.mem if x not in seen]: del st.mem[oi]
        if len(st.cons) > 200:
            used = set()
            def u(v):
                if v[0] in ('s', 'q'): used.add(v[1])
                elif v[0] == 'c': u(v[2]); u(v[3])
                elif v[0] == 'n': u(v[1])
            for f in st.frames:
                for r, v in f.items():
                    if not r.startswith('$$'): u(v)
            for o in st.mem.values():
                for s, v in o.cells.values(): u(v)
            for k in [k for k in st.cons if k not in used]: del st.cons[k]

    # ---- running
    def run(self, f, args, st, varargs=()):
        """explore all paths of f from st; returns list of (state, retval)"""
        fi = self.info(f)
        self.depth += 1
        if self.depth > 60: raise Limit('call depth in ' + f.name)
        fr = {}
        for (t, n, a), v in zip(f.params, args): fr[n] = v
        fr['$va'] = ('i', 0)
        st.frames = st.frames + [fr]
        if f.vararg:
            nfix = len(f.params)
            o = Obj('va', None, 'u', f.name)
            o2 = Obj('va', None, 'u', f.name)
            allv = list(args) + list(varargs)
            for k, v in enumerate(allv):
                if k < 6: o.cells[8 * k] = (8, v)
                else: o2.cells[8 * (k - 6)] = (8, v)
            a = st.new(o); b = st.new(o2)
            fr['$va1'] = ('p', a, 0); fr['$va2'] = ('p', b, 0); fr['$va'] = ('i', 8 * nfix)
        work = [(f.entry, None, st)]
        seen = {}
        visits = {}
        results = []
        rkeys = set()
        nst = 0
        while work:
            blk, prev, s = work.pop()
            # phis
            fr = s.frames[-1]
            newv = {}
            for ins in f.blocks[blk]:
                if ins.op != 'phi': break
                for v, pb in ins.x:
                    if pb == prev:
                        newv[ins.res] = self.val(s, v, ins.ty); break
            fr.update(newv)
            self.gc(s, fi, blk)
            if blk in fi.headers: self.widen(s, f, fi, blk, visits, prev)
            if self.SQUASH is not None:
                visits[('sq', blk)] = visits.get(('sq', blk), 0) + 1
                if visits[('sq', blk)] > self.SQUASH: self.squash(s, fi, blk)
            k = self.key(s, fi, blk)
            if k in seen: continue
            seen[k] = True
            nst += 1
            if nst > self.MAXSTATES: raise Limit('too many states in ' + f.name)
            for nb, s2, ret in self.block(f, fi, blk, s):
                if nb is None:
                    self.leave(s2, fi)
                    results.append((s2, ret))
                else:
                    work.append((nb, blk, s2))
        self.depth -= 1
        # merge equal results
        out = []
        ks = set()
        for s, r in results:
            kk = self.reskey(s, r)
            if kk in ks: continue
            ks.add(kk)
            out.append((s, r))
        return out

    SQUASH = None
    def squash(self, s, fi, blk):
        """forget integer values (pointers and set/unset stay): makes exploration of value-heavy code converge"""
        fr = s.frames[-1]
        for r, v in list(fr.items()):
            if r[0] == '$': continue
            if v[0] in ('i', 's', 'c', 'n'): fr[r] = self.sym(s)
            elif v[0] == 'p' and v[2] is not None and blk in fi.headers: fr[r] = ('p', v[1], None)
        s.lc = {}
        for oi in list(s.mem):
            o = s.mem[oi]
            if isinstance(oi, tuple) and o.tag == 'const': continue
            if any(v[0] in ('i', 's', 'c', 'n') for sz, v in o.cells.values()):
                w = s.wobj(oi)
                for off, (sz, v) in list(w.cells.items()):
                    if v[0] in ('i', 's', 'c', 'n'):
                        if w.default == 't': del w.cells[off]
                        else: w.cells[off] = (sz, self.sym(s))

    def reskey(self, s, r):
        class D: pass
        d = D(); d.livein = {'ret': set()}; d.phidef = {'ret': set()}
        if not s.frames: s.frames = [{}]
        fr = s.frames[-1]
        if r is not None: fr['$ret'] = r
        d.livein = {'ret': set(fr)}
        k = self.key(s, d, 'ret')
        fr.pop('$ret', None)
        return k

    def leave(self, s, fi):
        fr = s.frames[-1]
        for n, v in fr.items():
            if n.startswith('$a:') and v[0] == 'p': s.mem.pop(v[1], None)
        if s.lc:
            d = len(s.frames); s.lc = {k: v for k, v in s.lc.items() if k[0] < d}
        s.frames = s.frames[:-1]
        if s.frames: s.frames[-1] = dict(s.frames[-1])

    def unroll(self, f, fi, blk):
        """loops that set up or release things are followed iteration by iteration, others are widened at once"""
        if not hasattr(fi, 'unr'): fi.unr = {}
        if blk not in fi.unr:
            fi.unr[blk] = self.UNROLL if any(self.owning(i) for b in fi.loop.get(blk, ()) for i in f.blocks[b]) else 1
        return fi.unr[blk]
    def owning(self, ins):
        if ins.op != 'call' or ins.x is None: return False
        if ins.x[0] != 'g': return True
        n = ins.x[1]
        if n.startswith('llvm.'): return False
        if n in ('malloc', 'calloc', 'realloc', 'free'): return True
        return self.client.owning(self, n)
    def widen(self, s, f, fi, blk, visits, prev):
        """count visits along this path; after UNROLL, changing integers become unknown"""
        fr = s.frames[-1]
        kc = '$n:' + blk
        # the counter is kept outside of the key
        d = visits.setdefault(blk, {})
        cnt = fr.get('$$' + blk)
        n = (cnt[1] if cnt and (prev, blk) in fi.back else 0) + 1
        fr.pop('$$' + blk, None)
        ur = self.unroll(f, fi, blk)
        snap = fr.get('$$m' + blk) if (prev, blk) in fi.back else None
        if n > ur or visits.get(('tot', blk), 0) > 4000:
            for r, v in list(fr.items()):
                if r.startswith('$'): continue
                if r not in fi.phidef[blk]: continue
                if v[0] == 'i':
                    fr[r] = self.sym(s, 0 if v[1] >= 0 else -INF, INF)
                elif v[0] == 'p' and v[2] is not None:
                    old = snap and dict(snap[2]).get(r)
                    if old != v: fr[r] = ('p', v[1], None)
                elif v[0] == 's':
                    lo, hi, nz = s.cons.get(v[1], (-INF, INF, False))
                    fr[r] = self.sym(s, 0 if lo >= 0 else -INF, INF)
            if snap is not None:
                old = dict(snap[1])
                for oi in list(s.mem):
                    o = s.mem[oi]
                    ch = [(off, sz, v) for off, (sz, v) in o.cells.items()
                          if v[0] in ('i', 's') and (oi, off) in old and old[(oi, off)][0] != v and sz <= 8]
                    if ch:
                        w = s.wobj(oi)
                        for off, sz, v in ch:
                            lo = self.rng(s, v)[0]
                            lo2 = old[(oi, off)][1]
                            w.cells[off] = (sz, self.sym(s, 0 if lo >= 0 and lo2 >= 0 else -INF, INF))
            for k, (lo, hi, nz) in list(s.cons.items()):
                l2 = 1 if lo >= 1 else 0 if lo >= 0 else -INF
                h2 = -1 if hi <= -1 else 0 if hi <= 0 else INF
                if lo == hi: continue
                if (l2, h2) != (lo, hi): s.cons[k] = (l2, h2, nz)
        if ur == 1 or n + 1 >= ur:
            fr['$$m' + blk] = ('snap', tuple(((oi, off), (v, self.rng(s, v)[0])) for oi, o in s.mem.items() for off, (sz, v) in o.cells.items() if v[0] in ('i', 's')),
                               tuple((r, v) for r, v in fr.items() if v[0] == 'p' and r in fi.phidef[blk]))
        visits[('tot', blk)] = visits.get(('tot', blk), 0) + 1
        s_cnt = n
        fr['$$' + blk] = ('i', min(n, self.UNROLL + 1))

    def block(self, f, fi, blk, st):
        """execute a block; yields (next block or None, state, ret)"""
        states = [st]
        ins_list = f.blocks[blk]
        out = []
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            while True:
                ins = ins_list[i]
                self.steps += 1
                op = ins.op
                if op == 'phi':
                    i += 1; continue
                if op == 'br':
                    if not ins.args: out.append((ins.x[0], s, None)); break
                    c = self.val(s, ins.args[0][1], ins.args[0][0])
                    if ins.x[0] == ins.x[1]: out.append((ins.x[0], s, None)); break
                    for s2, t in self.branch(s, c, ins):
                        out.append((ins.x[0] if t else ins.x[1], s2, None))
                    break
                if op == 'switch':
                    v = self.val(s, ins.args[0][1], ins.args[0][0])
                    d, cs = ins.x
                    if v == U: self.report(s, ins, 'unset-branch', 'decides on an unset value')
                    if v[0] == 'i':
                        t = d
                        for cv, lb in cs:
                            if cv == v[1]: t = lb
                        out.append((t, s, None)); break
                    cur = s
                    for cv, lb in cs:
                        a = cur.fork()
                        if v[0] == 's':
                            if self.assume(a, ('c', 'eq', v, ('i', cv)), True): out.append((lb, a, None))
                            if not self.assume(cur, ('c', 'eq', v, ('i', cv)), False): cur = None; break
                        else: out.append((lb, a, None))
                    if cur is not None: out.append((d, cur, None))
                    break
                if op == 'ret':
                    r = self.val(s, ins.args[0][1], ins.args[0][0]) if ins.args else None
                    self.client.on_return(self, s, f, ins, r)
                    out.append((None, s, r)); break
                if op == 'unreachable': break
                if op in ('call', 'invoke'):
                    res = self.call(s, ins, f)
                    nxt = []
                    for s2, r in res:
                        if ins.res is not None: s2.frames[-1][ins.res] = r if r is not None else self.unknown(s2, ins.ty)
                        nxt.append(s2)
                    if not nxt: break
                    for s2 in nxt[1:]: work.append((s2, i + 1))
                    s = nxt[0]
                    i += 1
                    continue
                r = self.simple(s, ins)
                if r == 'dead': break
                i += 1
        return out

    def simple(self, s, ins):
        op = ins.op
        fr = s.frames[-1]
        if op == 'alloca':
            n = self.mod.types.size(ins.ty)
            if ins.x != 1:
                v = self.val(s, ins.x, ('i', 64))
                n = n * v[1] if v[0] == 'i' else None
            oi = s.new(Obj('stack', n, 'u', ins.fn.name + ':' + str(ins.res)))
            fr[ins.res] = ('p', oi, 0)
            fr['$a:' + ins.res] = ('p', oi, 0)
            self.client.on_alloca(self, s, oi, ins)
            return
        if op == 'load':
            p = self.val(s, ins.args[0][1])
            self.client.on_load(self, s, p, ins)
            a = ins.args[0][1]
            lk = (len(s.frames), a[1], ins.ty) if p[0] == 'p' and p[2] is None and a[0] == 'r' else None
            if lk and lk in s.lc and p[1] in s.mem and s.mem[p[1]].live: v = s.lc[lk][1]
            else: v = self.load(s, p, ins.ty, ins)
            if v is None: return 'dead'
            if lk: s.lc = dict(s.lc); s.lc[lk] = (p[1], v)
            if v[0] == 'i' and ins.ty[0] == 'ptr': v = Z if v[1] == 0 else ('q', fresh())
            if v[0] == 'z' and ins.ty[0] == 'i': v = ('i', 0)
            fr[ins.res] = v
            return
        if op == 'store':
            v = self.val(s, ins.args[0][1], ins.args[0][0])
            p = self.val(s, ins.args[1][1])
            self.client.on_store(self, s, p, v, ins)
            return self.store(s, p, v, ins.args[0][0], ins)
        if op == 'getelementptr':
            base = self.val(s, ins.args[0][1])
            fr[ins.res] = self.gep(s, base, ins)
            return
        if op == 'icmp':
            a = self.val(s, ins.args[0][1], ins.ty); b = self.val(s, ins.args[1][1], ins.ty)
            c = ('c', ins.x, a, b)
            # bool compared with a constant
            if a[0] in ('c', 'n') and b[0] == 'i' and ins.x in ('eq', 'ne'):
                same = (ins.x == 'ne') == (b[1] == 0)
                fr[ins.res] = a if same else ('n', a)
                return
            t = self.decide(s, c)
            if t is True or t is False: fr[ins.res] = ('i', int(t))
            elif t == 'u': fr[ins.res] = U
            else: fr[ins.res] = c
            return
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'freeze'):
            v = self.val(s, ins.args[0][1], ins.args[0][0])
            if v[0] == 'i':
                if op == 'zext':
                    n = v[1] & ((1 << ins.args[0][0][1]) - 1)
                    v = ('i', canon(n, ins.ty[1]))
                elif op == 'trunc': v = ('i', canon(v[1], ins.ty[1]))
            elif v[0] == 's' and op == 'zext':
                lo, hi, nz = self.rng(s, v)
                if lo < 0:
                    nv = self.sym(s, 0, (1 << ins.args[0][0][1]) - 1, nz); v = nv
            elif v[0] == 's' and op == 'trunc':
                lo, hi, nz = self.rng(s, v)
                w = ins.ty[1]
                if not (-(1 << (w - 1)) <= lo and hi < (1 << (w - 1))): v = self.sym(s)
            elif v[0] in ('c', 'n') and op in ('zext',):
                pass
            elif v[0] in ('c', 'n') and op == 'trunc':
                pass
            elif v[0] in ('c', 'n') and op == 'sext':
                v = self.sym(s)
            fr[ins.res] = v
            return
        if op in ('ptrtoint', 'inttoptr'):
            fr[ins.res] = self.val(s, ins.args[0][1], ins.args[0][0])
            return
        if op == 'select':
            c = self.val(s, ins.args[0][1], ('i', 1))
            a = self.val(s, ins.args[1][1], ins.ty); b = self.val(s, ins.args[2][1], ins.ty)
            if c[0] == 'i': fr[ins.res] = a if c[1] else b
            elif a == b: fr[ins.res] = a
            else: fr[ins.res] = self.unknown(s, ins.ty)
            return
        if op in ('asm', 'fence'): self.client.on_barrier(self, s, ins)
        if op in ('extractvalue', 'insertvalue', 'asm', 'fence'):
            if ins.res: fr[ins.res] = self.sym(s)
            return
        # binary
        a = self.val(s, ins.args[0][1], ins.ty); b = self.val(s, ins.args[1][1], ins.ty)
        fr[ins.res] = self.binop(s, op, a, b, ins.ty[1] if ins.ty[0] == 'i' else 64)

    def binop(self, s, op, a, b, w):
        if a == U or b == U:
            if op in ('and', 'mul') and (a == ('i', 0) or b == ('i', 0)): return ('i', 0)
            return U
        if op == 'sub' and a[0] == 'p' and b[0] == 'p' and a[1] == b[1] and a[2] is not None and b[2] is not None:
            return ('i', a[2] - b[2])
        if a[0] == 'p' and b[0] == 'i' and op in ('add', 'sub'):
            return ('p', a[1], None if a[2] is None else a[2] + (b[1] if op == 'add' else -b[1]))
        if a[0] in ('c', 'n') and b[0] == 'i' and op == 'xor' and b[1] & 1:
            return ('n', a)
        if a[0] in ('c', 'n') and b == ('i', 1) and op == 'and': return a
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            M = (1 << w) - 1
            try:
                if op == 'add': r = x + y
                elif op == 'sub': r = x - y
                elif op == 'mul': r = x * y
                elif op == 'and': r = x & y
                elif op == 'or': r = x | y
                elif op == 'xor': r = x ^ y
                elif op == 'shl': r = x << (y & M) if (y & M) < w else 0
                elif op == 'lshr': r = (x & M) >> (y & M) if (y & M) < w else 0
                elif op == 'ashr': r = x >> (y & M) if (y & M) < w else 0
                elif op == 'udiv': r = (x & M) // (y & M)
                elif op == 'urem': r = (x & M) % (y & M)
                elif op == 'sdiv': r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                elif op == 'srem': r = abs(x) % abs(y) * (1 if x >= 0 else -1)
                else: return self.sym(s)
            except ZeroDivisionError:
                return self.sym(s)
            return ('i', canon(r, w))
        la, ha, za = self.rng(s, a); lb, hb, zb = self.rng(s, b)
        if op == 'add':
            if b == ('i', 0): return a
            if a[0] in ('s', 'i') and b[0] in ('s', 'i'): return self.sym(s, max(la + lb, -INF), min(ha + hb, INF))
        if op == 'sub':
            if b == ('i', 0): return a
            if a == b: return ('i', 0)
            if a[0] in ('s', 'i') and b[0] in ('s', 'i'): return self.sym(s, max(la - hb, -INF), min(ha - lb, INF))
        if op == 'and':
            if a == ('i', 0) or b == ('i', 0): return ('i', 0)
            if b[0] == 'i' and b[1] >= 0: return self.sym(s, 0, b[1])
        if op in ('urem', 'srem') and b[0] == 'i' and b[1] > 0 and (la >= 0 or op == 'urem'): return self.sym(s, 0, b[1] - 1)
        if op in ('lshr', 'udiv') and la >= 0 and lb >= 0: return self.sym(s, 0, ha)
        if op == 'mul' and la >= 0 and lb >= 0:
            return self.sym(s, la * lb if la * lb < INF else 0, INF, za and zb)
        if op == 'shl' and la >= 0: return self.sym(s, 0, INF)
        if op == 'or':
            if a == ('i', 0): return b
            if b == ('i', 0): return a
            if la >= 0 and lb >= 0: return self.sym(s, 0, INF, za or zb)
            return self.sym(s, -INF, INF, za or zb)
        return self.sym(s)

    def gep(self, s, base, ins):
        T = self.mod.types
        off = 0
        t = ins.ty
        for n, (it, v) in enumerate(ins.args[1:]):
            x = self.val(s, v, it)
            if n == 0: sz = T.size(t)
            else:
                t = T.resolve(t)
                if t[0] in ('arr', 'vec'):
                    t = t[2]; sz = T.size(t)
                else:
                    offs, _ = T.layout(t)
                    o = offs[x[1]]; t = t[1][x[1]]
                    if off is not None: off += o
                    continue
            if x[0] == 'i':
                if off is not None: off += x[1] * sz
            else: off = None
        if base[0] == 'p':
            return ('p', base[1], None if (off is None or base[2] is None) else base[2] + off)
        if base[0] == 'z':
            return Z if off == 0 else (('q', fresh()) if off is None else ('i', off) if off else Z)
        if base[0] == 'u': return U
        if base[0] == 'q':
            if off == 0: return base
            q = ('q', fresh())
            if base[1] in s.cons: s.cons[q[1]] = s.cons[base[1]]
            return q
        return ('q', fresh())

    # ---- calls
    def call(self, s, ins, f):
        cal = ins.x
        if cal[0] == 'g': name = cal[1]
        else:
            v = self.val(s, cal)
            if v[0] == 'f': name = v[1]
            else:
                if v == U: self.report(s, ins, 'unset-deref', 'calls through an unset function pointer')
                if v[0] in ('z', 'i'):
                    self.report(s, ins, 'null-deref', 'calls through a null function pointer')
                    return []
                name = None
        args = [self.val(s, v, t) for t, v in ins.args]
        if name is None:
            self.client.on_unknown_call(self, s, ins, args)
            for a in args: self.havoc(s, a)
            return [(s, None)]
        if name.startswith('llvm.'):
            return self.intrinsic(s, ins, name, args)
        r = self.client.on_call(self, s, ins, name, args)
        if r is not None: return r
        r = self.libc(s, ins, name, args)
        if r is not None: return r
        g = self.mod.funcs.get(name)
        if g is None:
            for a in args: self.havoc(s, a)
            return [(s, None)]
        n = len(g.params)
        res = self.run(g, args[:n], s, args[n:])
        if len(res) > 2 and self.client.collapse(self, name, args, res):
            out = []; ks = set()
            for s2, r in res:
                k = self.reskey(s2, r)
                if k not in ks: ks.add(k); out.append((s2, r))
            return out
        return res

    def intrinsic(self, s, ins, name, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.client.on_memwrite(self, s, args[0], args[2], ins, args[1])
            self.memcpy(s, args[0], args[1], args[2], ins)
        elif name.startswith('llvm.memset'):
            self.client.on_memwrite(self, s, args[0], args[2], ins, None)
            self.memset(s, args[0], args[1], args[2], ins)
        elif name.startswith('llvm.va_start'):
            fr = s.frames[-1]
            p = args[0]
            w = s.wobj(p[1])
            w.cells[p[2] + 0] = (4, fr['$va']); w.cells[p[2] + 4] = (4, ('i', 48))
            w.cells[p[2] + 8] = (8, fr['$va2']); w.cells[p[2] + 16] = (8, fr['$va1'])
        elif name.startswith('llvm.va_copy'):
            self.memcpy(s, args[0], args[1], ('i', 24), ins)
        return [(s, None)]

    def libc(self, s, ins, name, args):
        site = '%s:%d' % self.mod.loc(ins)
        if name in ('malloc', 'calloc', 'realloc', 'aligned_alloc'):
            out = []
            n = args[-1]
            if name == 'calloc' and args[0][0] == 'i' and n[0] == 'i': n = ('i', n[1] * args[0][1])
            old = args[0] if name == 'realloc' else Z
            if old == U: self.report(s, ins, 'unset-free', 'reallocates an unset pointer'); old = ('q', fresh())
            # failure
            b = s.fork()
            self.client.on_fail(self, b, ins, name)
            out.append((b, Z))
            # success
            size = n[1] if n[0] == 'i' else None
            if old[0] == 'p' and old[1] in s.mem:
                oo = s.mem[old[1]]
                if not oo.live: self.report(s, ins, 'double-free', 'reallocates memory that was already released (%s)' % oo.site)
                elif oo.kind in ('stack', 'global'): self.report(s, ins, 'bad-free', 'reallocates memory that was not allocated')
                w = s.wobj(old[1]); w.live = False
                kind = 'heap' if oo.kind == 'heap' else oo.kind
                no = Obj(oo.kind, size, 't', site, oo.tag)
            else:
                no = Obj('heap', size, '0' if name == 'calloc' else 'u', site)
                no.tag = None
            oi = s.new(no)
            self.client.on_alloc(self, s, oi, ins)
            out.append((s, ('p', oi, 0)))
            return out
        if name == 'free':
            p = args[0]
            self.free(s, p, ins)
            return [(s, None)]
        if name in ('memcpy', 'memmove'):
            self.client.on_memwrite(self, s, args[0], args[2], ins, args[1])
            self.memcpy(s, args[0], args[1], args[2], ins)
            return [(s, args[0])]
        if name == 'memset':
            self.client.on_memwrite(self, s, args[0], args[2], ins, None)
            self.memset(s, args[0], args[1], args[2], ins)
            return [(s, args[0])]
        if name in ('memcmp', 'strcmp', 'strncmp', 'memchr'):
            return [(s, self.sym(s))]
        if name == 'strlen': return [(s, self.sym(s, 0, INF))]
        if name in ('abort', 'exit', '__assert_fail'): return []
        return None

    def free(self, s, p, ins):
        if p == U:
            self.report(s, ins, 'unset-free', 'releases an unset pointer'); return
        if p[0] == 'p':
            o = s.mem.get(p[1])
            if o is None: return
            if not o.live:
                self.report(s, ins, 'double-free', 'releases memory that was already released (%s)' % o.site); return
            if o.kind in ('stack', 'global', 'va'):
                self.report(s, ins, 'bad-free', 'releases memory that was not allocated (%s)' % o.site); return
            if p[2] not in (0, None) :
                self.report(s, ins, 'bad-free', 'releases an interior pointer'); return
            w = s.wobj(p[1])
            w.live = False
            w.cells = {}
            self.client.on_free(self, s, p[1], ins)

class Client:
    def collapse(self, eng, name, args, res): return False
    def owning(self, eng, name): return False
    def report(self, eng, st, ins, rule, msg): pass
    def on_return(self, eng, st, f, ins, r): pass
    def on_load(self, eng, st, p, ins): pass
    def on_store(self, eng, st, p, v, ins): pass
    def on_memwrite(self, eng, st, d, n, ins, src): pass
    def on_barrier(self, eng, st, ins): pass
    def on_alloca(self, eng, st, oi, ins): pass
    def on_call(self, eng, st, ins, name, args): return None
    def on_unknown_call(self, eng, st, ins, args): pass
    def on_fail(self, eng, st, ins, name): pass
    def on_alloc(self, eng, st, oi, ins): pass
    def on_free(self, eng, st, oi, ins): pass
    def lazy_cell(self, eng, st, oi, off, ty): return None
    def materialize(self, eng, st, oi, off, n): pass
