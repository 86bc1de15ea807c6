"""Wipe analysis on the engine: which bytes of a context object hold, at return, a constant that a store the compiler must keep put there.

A shadow object per tracked object records per byte: 1 = constant written by a store that cannot be elided, 2 = constant written by
an ordinary store (becomes 1 at a compiler barrier), 0 = written with data, absent = never written."""
import re
import ir, api
from engine import *

def ctx_types(mod):
    """struct types named cry_*_ctx used by the interface: name -> (size, ref)"""
    out = {}
    for f in mod.funcs.values():
        for t in mod.signature(f) or ():
            t = ir.strip_t(t)
            if t[0] == 'ptr':
                u = ir.strip_t(t[1])
                if u[0] == 'struct' and re.match(r'cry_\w+_ctx$', u[1]): out[u[1]] = (u[2], u[3])
    return out

class Wipe(Client):
    def __init__(self, mod, clears):
        self.mod = mod
        self.clears = clears         # names of clear functions (their own wipe is checked separately)
        self.findings = []
        self.top = None
        self.paths = 0
        self.checked = 0
        self.mode = None
        self.shadow = {}             # object -> shadow object
        self.types = ctx_types(mod)
    def track(self, st, oi, size, name):
        sh = st.new(Obj('param', size, 't', 'shadow'))
        self.shadow[oi] = sh
        st.mem[sh].tag = (size, name)
        return sh
    def mark(self, st, p, n, val):
        if p[0] != 'p' or p[1] not in self.shadow: return
        sh = self.shadow[p[1]]
        if sh not in st.mem: return
        w = st.wobj(sh)
        if p[2] is None or n is None:
            if val == 0:
                for b in range(w.tag[0]): w.cells[b] = (1, ('i', 0))
            return
        for b in range(p[2], p[2] + n):
            if val == 2 and w.cells.get(b) == (1, ('i', 1)): continue
            w.cells[b] = (1, ('i', val))
    def on_store(self, eng, st, p, v, ins):
        n = self.mod.types.size(ins.args[0][0])
        const = v[0] == 'i' or v == Z
        self.mark(st, p, n, (1 if ins.vol else 2) if const else 0)
    def on_memwrite(self, eng, st, d, n, ins, src):
        const = src is None
        if const:
            v = ins.args[1][1]
            c = eng.val(st, v, ('i', 8))
            const = c[0] == 'i'
        vol = len(ins.args) > 3 and ins.args[3][1] == ('i', 1)
        if n == ('i', 0): return
        if n[0] != 'i':
            if not const: self.mark(st, (d[0], d[1], None) if d[0] == 'p' else d, None, 0)
            return
        self.mark(st, d, n[1], (1 if vol else 2) if const else 0)
    def on_barrier(self, eng, st, ins):
        for sh in self.shadow.values():
            if sh in st.mem:
                w = st.wobj(sh)
                for b, c in list(w.cells.items()):
                    if c[1] == ('i', 2): w.cells[b] = (1, ('i', 1))
    def on_alloca(self, eng, st, oi, ins):
        t = self.mod.types.resolve(ins.ty) if ins.ty[0] == 'named' else None
        if ins.ty[0] == 'named':
            nm = ins.ty[1].replace('struct.', '')
            nm = re.sub(r'\.\d+$', '', nm)
            if nm in self.types and self.byte_ctx(nm): self.track(st, oi, self.mod.types.size(ins.ty), nm)
    def byte_ctx(self, nm):
        """contexts of symmetric primitives (those with a wiping clear, or driven by one)"""
        return ('cry_' + nm[4:-4] + '_clear') in self.clears or nm in ('cry_cmac_ctx', 'cry_hmac_ctx')
    def on_return(self, eng, st, f, ins, r):
        fr = st.frames[-1]
        for n, v in fr.items():
            if n.startswith('$a:') and v[0] == 'p' and v[1] in self.shadow and self.shadow[v[1]] in st.mem:
                sh = st.mem[self.shadow[v[1]]]
                self.checked += 1
                bad = [b for b in range(sh.tag[0]) if sh.cells.get(b, (1, ('i', 9)))[1] in (('i', 0), ('i', 2))]
                if bad and any(c[1] == ('i', 0) for c in sh.cells.values()):
                    file, line = self.mod.loc(ins)
                    self.findings.append((f.name, '%s:%d' % (file, line), 'returns with %d byte(s) of its local %s not wiped (first at offset %d)' % (len(bad), sh.tag[1], bad[0]), trace_list(st.trace), 'local-not-wiped'))
                st.mem.pop(self.shadow[v[1]], None)
    def on_call(self, eng, st, ins, name, args):
        if name in ('explicit_bzero', 'memset_s', 'memset_explicit', 'bzero', 'memzero_explicit'):
            n = args[-1] if name != 'memset_s' else args[1]
            if n[0] == 'i': self.mark(st, args[0], n[1], 2 if name == 'bzero' else 1)
            return [(st, eng.sym(st))]
        if self.top is not None and name == self.top: return None
        if name in api.ALL and name in self.mod.funcs:
            f = self.mod.funcs[name]
            sig = self.mod.signature(f)
            for k, a in enumerate(args):
                if a[0] != 'p' or a[1] not in self.shadow: continue
                sh = st.mem.get(self.shadow[a[1]])
                if sh is None: continue
                if name in self.clears and k == 0:
                    # wiped, provided the clear function of this very type is used (its size counts)
                    t = ir.strip_t(ir.strip_t(sig[1])[1])
                    n = t[2] if t[0] == 'struct' else 0
                    self.mark(st, a, n, 1)
                elif not ir.is_const(ir.strip_t(sig[k + 1])[1]) if k + 1 < len(sig) else True:
                    self.mark(st, (a[0], a[1], None), None, 0)
            if name in self.clears and not any(a[0] == 'p' and a[1] in self.shadow for a in args): return self.opaque(eng, st, f, args)
            return self.opaque(eng, st, f, args)
        return None
    def opaque(self, eng, st, f, args):
        for k, a in enumerate(args): eng.havoc(st, a)
        if f.ret[0] == 'void': return [(st, None)]
        if f.ret[0] == 'ptr': return [(st, ('q', fresh()))]
        return [(st, eng.sym(st))]
    def on_unknown_call(self, eng, st, ins, args):
        fp = eng.val(st, ins.x)
        kinds = [t[0] for t, v in ins.args]
        if kinds == ['ptr', 'i', 'i'] and args[2][0] == 'i' and args[1][0] == 'i':
            self.mark(st, args[0], args[2][1], 1); return        # memset through a volatile function pointer
        for a in args:
            if a[0] == 'p' and a[1] in self.shadow: self.mark(st, (a[0], a[1], None), None, 0)
        if fp[0] == 'q': st.extra = tuple(sorted(set(st.extra) | {(fp[1], args[0][1] if args and args[0][0] in 'pq' else None)}, key=repr))
    def lazy_cell(self, eng, st, oi, off, ty):
        return None

def members_flat(mod, ref): return mod.members(ref)

def check_clear(mod, name, clears):
    """every byte of the context wiped on every path of its clear function; wrapped cipher cleared too"""
    f = mod.funcs[name]
    sig = mod.signature(f)
    t = ir.strip_t(ir.strip_t(sig[1])[1])
    c = Wipe(mod, clears); c.top = name
    eng = Engine(mod, c)
    eng.unroll = lambda *a: 1 << 30
    st = State(); st.frames = [{}]
    size = t[2]
    oi = st.new(Obj('param', size, 't', 'context'))
    sh = c.track(st, oi, size, t[1])
    wired = None
    ms = mod.members(t[3])
    # modes: an interface table pointer and a cipher context pointer
    itf = [(n, o, x) for n, o, x in ms if ir.strip_t(x)[0] == 'ptr' and ir.strip_t(ir.strip_t(x)[1])[0] == 'struct' and ir.strip_t(ir.strip_t(x)[1])[1].endswith('_itf')]
    cc = [(n, o) for n, o, x in ms if ir.strip_t(x)[0] == 'ptr' and ir.strip_t(ir.strip_t(x)[1])[0] == 'void']
    if itf and cc:
        ti = ir.strip_t(ir.strip_t(itf[0][2])[1])
        slot = [o for n, o, x in mod.members(ti[3]) if n == 'clear']
        io = st.new(Obj('param', ti[2], 't', 'interface'))
        q = ('q', fresh()); cq = st.new(Obj('param', None, 't', 'cipher context'))
        if slot: st.mem[io].cells[slot[0]] = (8, q)
        st.mem[oi].cells[itf[0][1]] = (8, ('p', io, 0))
        st.mem[oi].cells[cc[0][1]] = (8, ('p', cq, 0))
        wired = (q, cq)
    args = [('p', oi, 0)] + [eng.sym(st) for _ in sig[2:]]
    out = []
    np = 0
    for s, r in eng.run(f, args, st):
        np += 1
        o = s.mem[sh]
        bad = [b for b in range(size) if o.cells.get(b) != (1, ('i', 1))]
        if bad:
            soft = [b for b in bad if o.cells.get(b) == (1, ('i', 2))]
            how = 'only by stores an optimising compiler may drop' if len(soft) == len(bad) else 'not'
            where = next(('%s (offset %d)' % (n, off) for n, off, x in sorted(ms, key=lambda m: -m[1]) if off <= bad[0]), '')
            out.append((name, '%s:%d' % (f.file, f.line), '%d of %d bytes of %s are %s wiped at return, first in member %s' % (len(bad), size, t[1], how, where), trace_list(s.trace), 'not-wiped'))
        if wired:
            q, cq = wired
            null = eng.ptr_null(s, q)
            if null is not True and (q[1], cq) not in s.extra:
                out.append((name, '%s:%d' % (f.file, f.line), 'can return without clearing the cipher context it drives', trace_list(s.trace), 'cipher-not-cleared'))
    return out, np, size, bool(wired)

def check_locals(mod, name, clears):
    f = mod.funcs[name]
    sig = mod.signature(f)
    c = Wipe(mod, clears); c.top = name
    eng = Engine(mod, c); eng.MAXSTATES = 8000; eng.SQUASH = 400
    st = State(); st.frames = [{}]
    args = []
    for k, t in enumerate(sig[1:]):
        u = ir.strip_t(t)
        if u[0] == 'ptr': args.append(('p', st.new(Obj('param', None, 't', 'arg%d' % (k + 1))), 0))
        else: args.append(eng.sym(st, 0 if u[0] == 'base' and u[1].startswith('unsigned') else -INF, INF))
    np = len(eng.run(f, args, st))
    return c.findings, np, c.checked
