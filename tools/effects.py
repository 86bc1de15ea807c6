"""Effect analysis on the engine: which caller objects a public function may write (C06) and which pointers it keeps (C07)."""
import ir, api, own, modref
from engine import *

class Eff(own.Own):
    """writes[(k, part)] for the function being analysed; part is 'obj' (the argument itself) or 'data' (what it points to)"""
    MAXS = 20000
    memo = {}          # (module id, function) -> dict of writes
    def __init__(self, mod, depth=0):
        own.Own.__init__(self, mod)
        self.watch = {}
        self.writes = {}
        self.kept = {}
        self.sdepth = depth
        self.nwrites = 0
    def report(self, eng, st, ins, rule, msg): pass
    def add(self, *a): pass
    def on_fail(self, eng, st, ins, name):
        file, line = self.mod.loc(ins)
        st.note('%s fails at %s:%d' % (name, file, line)); st.failed = 'x'
    def wr(self, st, p, ins, how):
        self.nwrites += 1
        if p[0] != 'p': return
        w = self.watch.get(p[1])
        if w is None: return
        file, line = self.mod.loc(ins)
        self.writes.setdefault(w, ('%s:%d' % (file, line), ins.fn.name, how, trace_list(st.trace)))
    def on_store(self, eng, st, p, v, ins): self.wr(st, p, ins, 'store')
    def on_memwrite(self, eng, st, d, n, ins, src):
        if n == ('i', 0): return
        self.wr(st, d, ins, 'block write')
    def on_free(self, eng, st, oi, ins): self.wr(st, ('p', oi, 0), ins, 'release')
    def on_alloc(self, eng, st, oi, ins): pass
    def lazy_cell(self, eng, st, oi, off, ty):
        w = self.watch.get(oi)
        if w is not None and ty[0] == 'ptr':
            d = st.new(Obj('data', None, 't', 'memory of argument %d' % (w[0] + 1)))
            self.watch[d] = (w[0], 'data')
            return ('p', d, 0)
        return None
    def on_unknown_call(self, eng, st, ins, args):
        """cipher and hash interface calls, told apart by their shape"""
        kinds = [t[0] for t, v in ins.args]
        if kinds == ['ptr', 'ptr', 'ptr', 'i']: wr = (1,)
        elif kinds == ['ptr', 'ptr']: wr = (1,)
        else: wr = ()
        for k in wr: self.wr(st, args[k], ins, 'output of an interface call')
    _mr = {}
    def mr(self):
        if id(self.mod) not in self._mr: self._mr[id(self.mod)] = modref.ModRef(self.mod)
        return self._mr[id(self.mod)]
    def bytes_only(self, name, stack=()):
        """a helper that only moves plain data between its arguments: its summary is exact enough"""
        if not hasattr(self, '_bo'): self._bo = {}
        if name in self._bo: return self._bo[name]
        f = self.mod.funcs.get(name)
        ok = f is not None and not f.vararg and name not in stack and f.ret[0] != 'ptr' and not self.mr().ptr_params_any(f)
        if ok:
            for i in f.instrs():
                if i.op == 'call':
                    if i.x is None or i.x[0] != 'g': ok = False
                    elif i.x[1].startswith('llvm.') or i.x[1] in ('memcpy', 'memset', 'memmove', 'memcmp', 'strlen'): pass
                    elif not self.bytes_only(i.x[1], stack + (name,)): ok = False
                if not ok: break
            if ok and any(r[0] != 'P' for r in self.mr().sum[name]['w']): ok = False
        self._bo[name] = ok
        return ok
    def on_call(self, eng, s, ins, name, args):
        if name in self.mod.funcs and self.bytes_only(name):
            for r in self.mr().sum[name]['w']:
                if r[1] < len(args):
                    self.wr(s, args[r[1]], ins, 'argument %d of %s, which writes it' % (r[1] + 1, name))
                    eng.havoc(s, args[r[1]])
            f = self.mod.funcs[name]
            return [(s, None if f.ret[0] == 'void' else eng.sym(s))]
        return own.Own.on_call(self, eng, s, ins, name, args)
    def summary(self, name):
        key = (id(self.mod), name)
        if key not in self.memo:
            self.memo[key] = None
            if self.sdepth < 12:
                sub = Eff(self.mod, self.sdepth + 1)
                try:
                    sub.go(name)
                    self.memo[key] = sub.writes
                except Limit: pass
        return self.memo[key]
    def contract(self, eng, s, ins, name, args):
        sig = self.sig(name)
        hit = []
        for k, a in enumerate(args):
            if sig is None or k + 1 >= len(sig) or a[0] != 'p': continue
            t = ir.strip_t(sig[k + 1])
            if t[0] != 'ptr': continue
            if a[1] in self.watch: hit.append((k, 'obj', a))
            for off in self.owners(t[1]):
                d = self.data_of(s, a, off)
                if d is not None and d[1] in self.watch: hit.append((k, 'data', d))
        if hit:
            sm = self.summary(name)
            f = self.mod.funcs[name]
            for k, part, p in hit:
                t = ir.strip_t(sig[k + 1])
                if sm is None:
                    w = not ir.is_const(t[1])
                else: w = (k, part) in sm
                if w: self.wr(s, p, ins, 'argument %d of %s, which writes it' % (k + 1, name))
        return own.Own.contract(self, eng, s, ins, name, args)
    def data_of(self, s, p, off):
        if p[2] is None or p[1] not in s.mem: return None
        c = s.mem[p[1]].cells.get(p[2] + off + self.mpi_layout()['data'])
        return c[1] if c and c[1][0] == 'p' else None
    def put_mpi(self, eng, s, oi, off, kind, tag, static=False):
        own.Own.put_mpi(self, eng, s, oi, off, kind, tag, static)
        if oi in self.watch:
            d = s.mem[oi].cells[off + self.mpi_layout()['data']][1][1]
            self.watch[d] = (self.watch[oi][0], 'data')
    def go(self, name, alias=False):
        f = self.mod.funcs[name]
        sig = self.mod.signature(f)
        self.run_variant(f, sig, dict(name='distinct', alias={}, null=()))
        n = self.npaths
        if alias:
            # the result aliased with one operand must leave the other operands alone
            for v in self.variants(name, sig):
                if len(v['alias']) != 1: continue
                (j, i), = v['alias'].items()
                if ir.is_const(ir.strip_t(sig[i + 1])[1]): continue
                self.run_variant(f, sig, v)
                n += self.npaths
        self.npaths = n
    def run_variant(self, f, sig, v):
        # same set-up as ownership analysis, with every object argument watched
        eng = Engine(self.mod, self)
        eng.MAXSTATES = self.MAXS
        eng.SQUASH = 300
        s = State(); s.frames = [{}]
        args = []
        init = api.is_init(f.name)
        self.pobjs = []
        for k, t in enumerate(sig[1:]):
            u = ir.strip_t(t)
            if k in v['alias']:
                args.append(args[v['alias'][k]]); continue
            if u[0] == 'ptr':
                w = ir.strip_t(u[1])
                if w[0] == 'func':
                    args.append(('q', fresh())); s.cons[args[-1][1]] = (1, INF, True); continue
                o = self.owners(w)
                if o and init and not ir.is_const(u[1]):
                    oi = s.new(Obj('param', self.csize(w), 'u', 'arg%d' % (k + 1)))
                    self.watch[oi] = (k, 'obj')
                else:
                    oi = s.new(Obj('param', self.csize(w) if w[0] == 'struct' else None, 't', 'arg%d' % (k + 1)))
                    self.watch[oi] = (k, 'obj')
                    for off in o: self.put_mpi(eng, s, oi, off, 'data', 'storage of argument %d' % (k + 1))
                args.append(('p', oi, 0))
                self.pobjs.append((k, oi))
            elif u[0] == 'func': args.append(('q', fresh()))
            else: args.append(eng.sym(s, 0 if u[0] == 'base' and u[1].startswith('unsigned') else -INF, INF))
        va = ()
        if f.vararg: va = (Z,)
        self.npaths = 0
        for st, r in eng.run(f, args, s, va):
            self.npaths += 1
            self.retained(eng, f, st)
    def retained(self, eng, f, st):
        """pointers left in argument objects that lead to other arguments' memory or to dead locals"""
        for k, oi in self.pobjs:
            o = st.mem.get(oi)
            if o is None: continue
            for off, (sz, v) in o.cells.items():
                if v[0] != 'p': continue
                w = self.watch.get(v[1])
                if w is not None and w[0] != k: self.kept.setdefault((k, off, 'arg', w[0]), trace_list(st.trace))
                elif v[1] not in st.mem or st.mem[v[1]].kind == 'stack': self.kept.setdefault((k, off, 'stack', 0), trace_list(st.trace))
                elif isinstance(v[1], tuple) and st.mem[v[1]].tag == 'var': self.kept.setdefault((k, off, 'global', v[1][1]), trace_list(st.trace))
