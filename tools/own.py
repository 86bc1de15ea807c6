"""Client of the engine: failure propagation (C01) and ownership / typestate (C02) for every function of the interface."""
import itertools
import ir, api
from engine import *

class Finding:
    def __init__(self, prop, rule, func, file, line, msg, trace, cfg, variant):
        self.prop = prop; self.rule = rule; self.func = func; self.file = file; self.line = line; self.msg = msg
        self.trace = trace; self.cfg = cfg; self.variant = variant; self.step = None
    def key(self): return (self.prop, self.rule, self.func, self.file, self.line, self.step, self.msg if self.prop == 'C02' else None)
    def text(self):
        s = '%s:%d: in %s: %s [%s; config %s; arguments %s]' % (self.file, self.line, self.func, self.msg, self.rule, self.cfg, self.variant)
        return s + ''.join('\n      path: ' + t for t in self.trace)

def may_fail(mod):
    """function -> can it ever return something other than 0 (fixpoint over the call graph)"""
    res = {}
    funcs = mod.funcs
    deps = {}
    for f in funcs.values():
        if f.ret[0] != 'i': res[f.name] = False; continue
        defs = {i.res: i for i in f.instrs() if i.res}
        seen = set()
        mf = False
        calls = set()
        def walk(v):
            nonlocal mf
            if v[0] == 'i':
                if v[1] != 0: mf = True
                return
            if v[0] != 'r': mf = True; return
            if v[1] in seen: return
            seen.add(v[1])
            d = defs.get(v[1])
            if d is None: mf = True
            elif d.op == 'phi':
                for x, _ in d.x: walk(x)
            elif d.op == 'select': walk(d.args[1][1]); walk(d.args[2][1])
            elif d.op == 'call' and d.x[0] == 'g': calls.add(d.x[1])
            else: mf = True
        for i in f.instrs():
            if i.op == 'ret' and i.args: walk(i.args[0][1])
        res[f.name] = mf
        deps[f.name] = calls
    ch = True
    while ch:
        ch = False
        for n, cs in deps.items():
            if not res[n] and any(res.get(c, True) for c in cs): res[n] = True; ch = True
    return res

class Own(Client):
    def __init__(self, mod):
        self.mod = mod
        self.findings = {}
        self.may_fail = may_fail(mod)
        self.stats = dict(paths=0, contract_calls=0, fail_points=set(), call_sites=set(), mpi_checked=0, inlined=set())
        self.sigs = {}
        self.owner_cache = {}
        self.amf = {}
        self.record = None
        self.top = None
        self.variant = ''
        d = mod.cfg
        quantum = 1 if 'CRY_MPI_DEBUG_CONF' in d.defs else 8
        digit = 1 if 'CRY_MPI_DEBUG_CONF' in d.defs else d.digit
        self.set_int_safe = quantum * digit >= 8

    # -- types
    def sig(self, name):
        if name not in self.sigs:
            f = self.mod.funcs.get(name)
            self.sigs[name] = self.mod.signature(f) if f is not None else None
        return self.sigs[name]
    def owners(self, t):
        """offsets of number objects inside a C type; None when it is not a struct"""
        t = ir.strip_t(t)
        if t[0] == 'array':
            e = self.owners(t[2])
            if not e: return []
            es = self.csize(t[2])
            return [k * es + o for k in range(max(t[1], 0)) for o in e]
        if t[0] != 'struct': return []
        if t[1] == 'cry_mpi': return [0]
        r = t[3]
        if r not in self.owner_cache:
            self.owner_cache[r] = []
            out = []
            for n, off, mt in self.mod.members(r): out += [off + o for o in self.owners(mt)]
            self.owner_cache[r] = out
        return self.owner_cache[r]
    def csize(self, t):
        t = ir.strip_t(t)
        if t[0] in ('struct', 'base'): return t[2]
        if t[0] == 'ptr': return 8
        if t[0] == 'array': return t[1] * self.csize(t[2])
        return None
    def mpi_layout(self):
        if not hasattr(self, '_ml'):
            T = self.mod.types
            st = T.named.get('struct.cry_mpi')
            offs, size = T.layout(st)
            # found through debug info so that a reordered struct still works
            for f in self.mod.funcs.values():
                for t in (self.mod.signature(f) or []):
                    t = ir.strip_t(t)
                    if t[0] == 'ptr':
                        u = ir.strip_t(t[1])
                        if u[0] == 'struct' and u[1] == 'cry_mpi':
                            ms = self.mod.members(u[3])
                            self._ml = {n: o for n, o, _ in ms}
                            self._msz = {n: self.csize(x) for n, o, x in ms}
                            self._mlsize = u[2]
                            return self._ml
        return self._ml
    def put_mpi(self, eng, s, oi, off, kind, tag, static=False):
        ml = self.mpi_layout()
        w = s.wobj(oi)
        d = s.new(Obj('data' if kind != 'heap' else 'heap', None, 't', tag, tag))
        if static: s.mem[d].kind = 'global'
        w.cells[off + ml['sign']] = (self._msz['sign'], eng.sym(s))
        w.cells[off + ml['used']] = (self._msz['used'], eng.sym(s, 0, INF))
        w.cells[off + ml['alloc']] = (self._msz['alloc'], eng.sym(s, 1, INF) if not static else ('i', 0))
        w.cells[off + ml['data']] = (8, ('p', d, 0))

    # -- reports
    def report(self, eng, st, ins, rule, msg):
        file, line = self.mod.loc(ins)
        self.add('C02', rule, ins.fn.name, file, line, msg, st)
    def add(self, prop, rule, func, file, line, msg, st):
        f = Finding(prop, rule, func, file, line, msg, trace_list(st.trace), self.mod.cfg.name, self.variant)
        f.top = self.top
        f.step = st.failed if prop == 'C01' else None
        self.findings.setdefault(f.key(), f)

    def on_fail(self, eng, st, ins, name):
        file, line = self.mod.loc(ins)
        st.note('%s fails at %s:%d' % (name, file, line))
        if not st.failed: st.failed = '%s at %s:%d' % (name, file, line)
        self.stats['fail_points'].add((ins.fn.name, line, name))

    # -- calls
    def on_call(self, eng, s, ins, name, args):
        if name not in api.ALL or name not in self.mod.funcs: return None
        if api.lifecycle(name):
            self.stats['inlined'].add(name)
            return None
        self.stats['call_sites'].add((ins.fn.name, ins.dbg, name))
        self.stats['contract_calls'] += 1
        return self.contract(eng, s, ins, name, args)

    def collapse(self, eng, name, args, res):
        """after a private helper returned: forget which value its number arguments have (not what they own)"""
        if name in api.ALL: return False
        f = self.mod.funcs[name]
        sig = self.mod.signature(f)
        if sig is None: return False
        for k, a in enumerate(args):
            if k + 1 >= len(sig): break
            t = ir.strip_t(sig[k + 1])
            if t[0] != 'ptr' or ir.is_const(t[1]): continue
            for off in self.owners(t[1]):
                for s, r in res: self.forget(eng, s, a, off)
        return True
    def forget(self, eng, s, p, off):
        if p[0] != 'p' or p[2] is None or p[1] not in s.mem: return
        o = s.mem[p[1]]
        if not o.live or o.kind == 'data': return
        ml = self.mpi_layout()
        w = s.wobj(p[1])
        base = p[2] + off
        for fld, lo in (('sign', -INF), ('used', 0)):
            c = w.cells.get(base + ml[fld])
            if c is None or c[1] == U: continue
            w.cells[base + ml[fld]] = (self._msz[fld], eng.sym(s, lo, INF))

    def contract(self, eng, s, ins, name, args):
        sig = self.sig(name)
        file, line = self.mod.loc(ins)
        for k, a in enumerate(args):
            if sig is None or k + 1 >= len(sig): continue
            t = ir.strip_t(sig[k + 1])
            if t[0] != 'ptr': 
                if a == U: self.report(eng, s, ins, 'unset-arg', 'passes an unset value to %s (argument %d)' % (name, k + 1))
                continue
            const = ir.is_const(t[1])
            own = self.owners(t[1])
            if a == U:
                self.report(eng, s, ins, 'unset-arg', 'passes an unset pointer to %s (argument %d)' % (name, k + 1)); continue
            if a[0] in ('z',) or (a[0] == 'i' and a[1] == 0):
                if own and k not in api.NULLABLE.get(name, ()):
                    self.report(eng, s, ins, 'null-arg', 'passes a null object to %s (argument %d)' % (name, k + 1))
                continue
            if own:
                for off in own: self.check_mpi(eng, s, ins, a, off, name, k)
                if not const:
                    for off in own: self.touch_mpi(eng, s, a, off)
            elif not const and a[0] == 'p' and a[1] in s.mem:
                o = s.mem[a[1]]
                if not o.live: self.report(eng, s, ins, 'use-after-free', 'passes released memory to ' + name)
                inner = ir.strip_t(t[1])
                n = inner[2] if inner[0] in ('struct', 'base') and inner[2] > 1 else None
                eng.havoc(s, a, n if a[2] is not None else None)
            elif a[0] == 'p' and a[1] in s.mem and not s.mem[a[1]].live:
                self.report(eng, s, ins, 'use-after-free', 'passes released memory to ' + name)
        f = self.mod.funcs[name]
        if f.ret[0] == 'void': return [(s, None)]
        if f.ret[0] == 'ptr': return [(s, ('q', fresh()))]
        if name in api.VALUE:
            v = eng.sym(s, 0 if name in ('cry_mpi_count_bits', 'cry_base64_encode', 'cry_base64_decode') else -INF, INF)
            return [(s, v)]
        if name == 'cry_mpi_set_int' and self.set_int_safe: return [(s, ('i', 0))]
        if not self.may_fail.get(name, True): return [(s, ('i', 0))]
        if not self.alias_may_fail(eng, name, args): return [(s, ('i', 0))]
        b = s.fork()
        self.on_fail(eng, b, ins, name)
        out = [(s, ('i', 0)), (b, eng.sym(b, -INF, -1, True))]
        if name in api.TRISTATE:
            c = s.fork()
            out.append((c, ('i', 1)))
        return out

    def alias_may_fail(self, eng, name, args):
        """can the callee fail when its object arguments are aliased like this? (decided by analysing it with that aliasing)"""
        first = {}; alias = {}
        for k, a in enumerate(args):
            if a[0] == 'p' and a[2] is not None:
                if a[1:] in first: alias[k] = first[a[1:]]
                else: first[a[1:]] = k
        if not alias: return True
        key = (name, tuple(sorted(alias.items())))
        if key not in self.amf:
            self.amf[key] = True
            sub = Own(self.mod)
            sub.amf = self.amf
            sub.record = []
            sub.top = name; sub.variant = ''
            f = self.mod.funcs[name]
            if len([i for i in f.instrs() if i.op == 'call']) <= 12 and not f.vararg:
                try:
                    sub.run_variant(f, self.mod.signature(f), dict(name='', alias=alias, null=()))
                    self.amf[key] = any(r != ('i', 0) for r in sub.record)
                except Limit: pass
        return self.amf[key]

    def check_mpi(self, eng, s, ins, p, off, name, k):
        self.stats['mpi_checked'] += 1
        if p[0] != 'p' or p[2] is None: return
        o = s.mem.get(p[1])
        if o is None: return
        if not o.live:
            self.report(eng, s, ins, 'use-after-free', 'passes a released object to %s (argument %d)' % (name, k + 1)); return
        if o.kind == 'data': return
        ml = self.mpi_layout()
        for fld in ('used', 'data', 'alloc', 'sign'):
            v = eng.load(s, ('p', p[1], p[2] + off + ml[fld]), ('ptr',) if fld == 'data' else ('i', self._msz[fld] * 8), ins)
            if v == U:
                self.report(eng, s, ins, 'unset-object', 'passes an object that was never set up to %s (argument %d)' % (name, k + 1))
                return
            if fld == 'data' and v is not None and v[0] == 'p':
                d = s.mem.get(v[1])
                if d is not None and not d.live:
                    self.report(eng, s, ins, 'use-after-free', 'passes an object whose storage was released to %s (argument %d)' % (name, k + 1))
                    return
    def touch_mpi(self, eng, s, p, off):
        if p[0] != 'p' or p[2] is None or p[1] not in s.mem: return
        o = s.mem[p[1]]
        if not o.live or o.kind == 'data': return
        ml = self.mpi_layout()
        w = s.wobj(p[1])
        base = p[2] + off
        for fld, lo in (('sign', -INF), ('used', 0)):
            eng.kill(w, base + ml[fld], self._msz[fld])
            w.cells[base + ml[fld]] = (self._msz[fld], eng.sym(s, lo, INF))
        # the callee may have grown the storage: an empty object may own memory now
        d = w.cells.get(base + ml['data'])
        if d and d[1][0] == 'p' and d[1][1] in s.mem and s.mem[d[1][1]].kind == 'heap' and (s.mem[d[1][1]].default == 'u' or s.mem[d[1][1]].cells):
            h = s.wobj(d[1][1]); h.default = 't'; h.cells = {}
        if d and d[1] in (Z, ('i', 0)):
            h = s.new(Obj('heap', None, 't', 'grown'))
            w = s.wobj(p[1])
            w.cells[base + ml['data']] = (8, ('p', h, 0))
            w.cells[base + ml['alloc']] = (self._msz['alloc'], eng.sym(s, 1, INF, True))

    def owning(self, eng, name):
        if not hasattr(self, '_own'): self._own = {}
        if name in self._own: return self._own[name]
        self._own[name] = False
        r = False
        if name in api.ALL: r = api.lifecycle(name)
        elif name in self.mod.funcs:
            r = any(eng.owning(i) for i in self.mod.funcs[name].instrs())
        self._own[name] = r
        return r

    # -- one function
    def variants(self, name, sig):
        """argument aliasing and NULL variants"""
        ptypes = []
        for k, t in enumerate(sig[1:]):
            u = ir.strip_t(t)
            if u[0] == 'ptr':
                v = ir.strip_t(u[1])
                if v[0] == 'struct' and self.owners(v): ptypes.append((k, v[1]))
        groups = {}
        for k, n in ptypes: groups.setdefault(n, []).append(k)
        vs = [dict(name='distinct', alias={}, null=())]
        mult = [g for g in groups.values() if len(g) > 1]
        if not api.is_init(name) and not api.is_clear(name):
            for g in mult:
                for j in g[1:]:
                    vs.append(dict(name='arg%d==arg%d' % (g[0] + 1, j + 1), alias={j: g[0]}, null=()))
                if len(g) > 2:
                    vs.append(dict(name='all %s arguments equal' % 'same-type', alias={j: g[0] for j in g[1:]}, null=()))
        for k in api.NULLABLE.get(name, ()):
            vs.append(dict(name='arg%d==NULL' % (k + 1), alias={}, null=(k,)))
        if api.is_clear(name): vs.append(dict(name='storage not allocated (alloc 0)', alias={}, null=(), static=True))
        # results must be distinct objects for the two-result division
        if name in ('cry_mpi_div', 'cry_mpi_div_abs'):
            vs = [v for v in vs if not (v['alias'].get(1) == 0)]
        return vs

    def analyse(self, name):
        f = self.mod.funcs[name]
        sig = self.mod.signature(f)
        self.top = name
        for v in self.variants(name, sig):
            self.variant = v['name']
            self.run_variant(f, sig, v)

    def run_variant(self, f, sig, v):
        eng = Engine(self.mod, self)
        s = State()
        s.frames = [{}]
        args = []
        pobjs = []
        init = api.is_init(f.name); clr = api.is_clear(f.name)
        for k, t in enumerate(sig[1:]):
            u = ir.strip_t(t)
            if k in v['null']:
                args.append(Z); continue
            if k in v['alias']:
                args.append(args[v['alias'][k]]); continue
            if u[0] == 'ptr':
                w = ir.strip_t(u[1])
                if w[0] == 'func':
                    args.append(('q', fresh())); s.cons[args[-1][1]] = (1, INF, True); continue
                own = self.owners(w)
                if own and init and not ir.is_const(u[1]):
                    oi = s.new(Obj('param', self.csize(w), 'u', 'arg%d' % (k + 1)))
                else:
                    oi = s.new(Obj('param', self.csize(w) if own else None, 't', 'arg%d' % (k + 1)))
                    for off in own: self.put_mpi(eng, s, oi, off, 'data', 'storage of argument %d' % (k + 1), v.get('static'))
                pobjs.append((k, oi, own, ir.is_const(u[1])))
                args.append(('p', oi, 0))
            elif u[0] == 'func':
                args.append(('q', fresh()))
            else:
                lo = -INF
                if u[0] == 'base' and u[1].startswith('unsigned'): lo = 0
                args.append(eng.sym(s, lo, INF))
        va = ()
        if f.vararg:
            # list functions: three more elements and the terminator
            extra = []
            t = ir.strip_t(ir.strip_t(sig[1])[1])
            own = self.owners(t)
            for j in range(8):
                oi = s.new(Obj('param', self.csize(t), 'u' if init else 't', 'list element %d' % (j + 2)))
                if not init:
                    for off in own: self.put_mpi(eng, s, oi, off, 'data', 'storage of element %d' % (j + 2))
                pobjs.append((None, oi, own, False))
                extra.append(('p', oi, 0))
            va = tuple(extra) + (Z,)
        if f.name in ('cry_list_init', 'cry_list_clear'): return   # analysed inside their callers
        rootd = {o for o in s.mem if s.mem[o].kind == 'data'}
        res = eng.run(f, args, s, va)
        for st, r in res:
            self.stats['paths'] += 1
            if self.record is not None: self.record.append(r); continue
            self.finish(eng, f, sig, st, r, pobjs, init, clr, rootd)

    def finish(self, eng, f, sig, st, r, pobjs, init, clr, rootd):
        file, line = f.file, f.line
        if f.ret[0] == 'void':
            if st.failed and f.name not in api.DIAGNOSTIC:
                self.add('C01', 'silent-failure', f.name, file, line, 'returns nothing although a nested step failed (%s)' % st.failed, st)
        elif f.ret[0] == 'i' and (f.name in api.STATUS or f.name in api.TRISTATE):
            if r == U:
                self.add('C01', 'unset-result', f.name, file, line, 'returns an unset status', st)
            elif st.failed:
                lo, hi, nz = eng.rng(st, r)
                if f.name in api.TRISTATE: bad = not hi < 0
                else: bad = lo <= 0 <= hi and not nz
                if r[0] in ('c', 'n'): bad = True
                if bad: self.add('C01', 'lost-failure', f.name, file, line, 'may report success although a nested step failed: ' + st.failed, st)
        # ownership
        reach = set()
        work = []
        def vis(v):
            if v[0] == 'p' and v[1] in st.mem and v[1] not in reach:
                reach.add(v[1]); work.append(v[1])
        for k, oi, own, const in pobjs: vis(('p', oi, 0))
        for oi in st.mem:
            if isinstance(oi, tuple): vis(('p', oi, 0))
        if r is not None: vis(r)
        while work:
            for sz, v in st.mem[work.pop()].cells.values(): vis(v)
        for oi, o in st.mem.items():
            if o.kind == 'heap' and o.live and oi not in reach:
                self.add('C02', 'leak', f.name, file, line, 'memory obtained at %s is not released on this path' % o.site, st)
            if o.kind == 'data' and o.live and oi not in reach:
                self.add('C02', 'leak', f.name, file, line, 'the %s is lost on this path' % o.site, st)
        ml = self.mpi_layout()
        ok_status = not (f.ret[0] == 'i' and r is not None and r[0] != 'c' and (eng.rng(st, r)[0] > 0 or eng.rng(st, r)[1] < 0 or eng.rng(st, r)[2]))
        owners = {}
        for k, oi, own, const in pobjs:
            o = st.mem.get(oi)
            if o is None or not own: continue
            nm = 'argument %d' % (k + 1) if k is not None else o.site
            for off in own:
                d = o.cells.get(off + ml['data'])
                dv = d[1] if d else U
                al = o.cells.get(off + ml['alloc'])
                av = al[1] if al else U
                owned = dv[0] == 'p' and dv[1] in st.mem and st.mem[dv[1]].live and st.mem[dv[1]].kind in ('heap', 'data') and av != ('i', 0)
                if clr:
                    if dv[0] == 'p' and dv[1] in st.mem and st.mem[dv[1]].live and av == U:
                        self.add('C02', 'not-released', f.name, file, line, 'clear leaves storage behind in ' + nm, st)
                    if dv[0] == 'p' and dv[1] in st.mem and not st.mem[dv[1]].live:
                        self.add('C02', 'dangling', f.name, file, line, 'clear leaves a dangling pointer in ' + nm, st)
                    continue
                if init and not const:
                    if not ok_status:
                        if owned: self.add('C02', 'leak', f.name, file, line, 'failing initialiser leaves memory (%s) in %s' % (st.mem[dv[1]].site, nm), st)
                        elif dv[0] == 'p' and dv[1] in st.mem and not st.mem[dv[1]].live and av not in (('i', 0), U):
                            self.add('C02', 'dangling', f.name, file, line, 'failing initialiser leaves a dangling pointer in ' + nm, st)
                    else:
                        for fld in ('sign', 'used', 'alloc', 'data'):
                            c = o.cells.get(off + ml[fld])
                            if o.default == 'u' and (c is None or c[1] == U):
                                self.add('C02', 'not-set-up', f.name, file, line, 'reports success with %s not set up (%s)' % (nm, fld), st); break
                    continue
                if d is None: continue
                if dv == U or (dv[0] == 'p' and dv[1] in st.mem and not st.mem[dv[1]].live):
                    self.add('C02', 'dangling', f.name, file, line, 'returns with %s unset or pointing to released storage' % nm, st)
                elif dv[0] == 'p' and dv[1] in st.mem and st.mem[dv[1]].kind == 'stack':
                    self.add('C02', 'dangling', f.name, file, line, 'returns with %s pointing to local storage' % nm, st)
                elif dv[0] == 'p' and dv[1] not in st.mem:
                    self.add('C02', 'dangling', f.name, file, line, 'returns with %s pointing to storage that is gone' % nm, st)
                if owned:
                    if dv[1] in owners and owners[dv[1]] != (oi, off):
                        self.add('C02', 'shared', f.name, file, line, 'returns with two objects owning the same storage (%s)' % nm, st)
                    owners[dv[1]] = (oi, off)

def analyse_all(mod, names=None, progress=None):
    c = Own(mod)
    done = []
    errs = []
    for n in sorted(names or api.ALL):
        f = mod.funcs.get(n)
        if f is None: continue
        sig = mod.signature(f)
        try:
            c.analyse(n)
            done.append(n)
        except Limit as e:
            errs.append((n, str(e)))
    return c, done, errs

def relevant(mod):
    """interface functions that can allocate, release, or call something that can fail"""
    mf = may_fail(mod)
    memo = {}
    def reach(n, stack=()):
        if n in memo: return memo[n]
        if n in stack: return False
        f = mod.funcs.get(n)
        if f is None: return n in ('malloc', 'calloc', 'realloc', 'free')
        r = False
        for i in f.instrs():
            refs = [v[1] for t, v in i.args if v[0] == 'g']
            if i.op == 'call' and i.x and i.x[0] == 'g': refs.append(i.x[1])
            for c in refs:
                if c.startswith('llvm.') : continue
                if c in mod.funcs or c in ('malloc', 'calloc', 'realloc', 'free'):
                    if (i.op == 'call' and i.x == ('g', c, 0) and c in api.STATUS and mf.get(c)) or reach(c, stack + (n,)): r = True
        memo[n] = r
        return r
    return sorted(n for n in api.ALL if n in mod.funcs and reach(n))
