"""Flow-insensitive, context-summarised effects on the IR: through which root (argument, what an argument points to,
global, local) each function may write, and which roots' addresses it stores where.  Bottom-up fixpoint over the call graph.

roots: ('P', k) object argument k points to, ('D', k) memory reached through pointers stored in it, ('G', name), ('L', reg), ('H',) heap, ('?',)"""
import ir
# libc functions: written pointer arguments / returned pointer argument
LIBC_W = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'explicit_bzero': (0,), 'memset_s': (0,), 'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,),
          'sprintf': (0,), 'snprintf': (0,), 'free': (0,), 'realloc': (0,), 'fread': (0,), 'fgets': (0,), 'read': (1,), 'getrandom': (0,), 'bzero': (0,)}
LIBC_RET = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'strcpy': 0, 'strchr': 0, 'strrchr': 0, 'strstr': 0, 'memchr': 0, 'strncpy': 0}
PURE = {'strlen', 'memcmp', 'strcmp', 'strncmp', 'printf', 'putchar', 'puts', 'fprintf', 'abort', 'exit', '__assert_fail', 'toupper', 'tolower', 'isdigit', 'isspace',
        'isxdigit', '__ctype_b_loc', '__ctype_toupper_loc', '__ctype_tolower_loc', 'abs', 'labs', 'isalpha', 'isalnum', 'isupper', 'islower', 'malloc', 'calloc', 'free', 'realloc',
        'fflush', 'fwrite', 'fputs', 'fputc', 'ceil', 'floor', 'log', 'log2', 'sqrt', 'pow', 'qsort', 'bsearch'}

class ModRef:
    def __init__(self, mod, itf_shapes=True):
        self.mod = mod
        self.sum = {n: dict(w=set(), esc=set(), ret=set()) for n in mod.funcs}
        self.sites = {}          # (function, root) -> (location, how)
        self.itf = itf_shapes
        self.addr_taken = set()
        ch = True
        n = 0
        while ch and n < 60:
            ch = False; n += 1
            for f in mod.funcs.values():
                if self.function(f): ch = True
        self.rounds = n
    def has_ptr(self, t, depth=0):
        """can memory of this C type hold pointers"""
        t = ir.strip_t(t)
        if t[0] == 'ptr' or t[0] == 'func' or t[0] in ('void', 'unk'): return True
        if t[0] == 'array': return self.has_ptr(t[2], depth + 1)
        if t[0] == 'struct':
            if depth > 8: return True
            ms = self.mod.members(t[3])
            return not ms or any(self.has_ptr(x, depth + 1) for n, o, x in ms)
        return False
    def ptr_params_any(self, f): return any(f.params[k][0][0] == 'ptr' for k in self.ptr_params(f))
    def ptr_params(self, f):
        if not hasattr(f, '_pp'):
            sig = self.mod.signature(f)
            out = set()
            for k in range(len(f.params)):
                t = ir.strip_t(sig[k + 1]) if sig and k + 1 < len(sig) else ('unk',)
                if t[0] != 'ptr' or self.has_ptr(t[1]): out.add(k)
            f._pp = out
        return f._pp
    def function(self, f):
        mod = self.mod
        pp = self.ptr_params(f)
        pts = {}          # reg -> set of roots
        mem = {}          # root -> set of roots stored in it
        for k, (t, nm, a) in enumerate(f.params):
            if t[0] == 'ptr': pts[nm] = {('P', k)}
        S = self.sum[f.name]
        w = set(); esc = set(); ret = set()
        def val(v):
            if v[0] == 'r': return pts.get(v[1], set())
            if v[0] == 'g':
                if v[1] in mod.globals: return {('G', v[1])}
                return set()
            if v[0] == 'expr':
                out = set()
                for x in v[2]: out |= val(x)
                return out
            return set()
        def deref(roots):
            out = set()
            for r in roots:
                if r[0] == 'P':
                    if r[1] in pp: out.add(('D', r[1]))
                if r[0] == 'D': out.add(r)
                if r[0] == 'G':
                    g = mod.globals.get(r[1])
                    if g is not None and not g.const: out.add(('?',))
                    elif g is not None: out |= self.gref(g)
                out |= mem.get(r, set())
            return out
        def put(roots, vals):
            c = False
            for r in roots:
                m = mem.setdefault(r, set())
                if not vals <= m: m |= vals; c = True
            return c
        def write(roots, ins, how):
            for r in roots:
                if r not in w:
                    w.add(r)
                    if r[0] in ('P', 'D', 'G'): self.sites.setdefault((f.name, r), ('%s:%d' % mod.loc(ins), how))
        def noteesc(dst, vals, ins):
            for r in dst:
                for v in vals:
                    if v[0] in ('P', 'G', 'D', 'L') and r != v:
                        esc.add((r, v)); self.sites.setdefault((f.name, 'esc', r, v), '%s:%d' % mod.loc(ins))
        for _ in range(40):
            ch = False
            def setr(r, s):
                nonlocal ch
                if r is None: return
                o = pts.get(r)
                if o is None: pts[r] = set(s); ch = ch or bool(s)
                elif not s <= o: o |= s; ch = True
            for i in f.instrs():
                op = i.op
                if op == 'alloca': setr(i.res, {('L', i.res)})
                elif op in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'add', 'sub', 'and', 'or', 'zext', 'trunc', 'sext'):
                    s = set()
                    for t, v in i.args: s |= val(v)
                    if s: setr(i.res, s)
                elif op == 'phi':
                    s = set()
                    for v, b in i.x: s |= val(v)
                    if s: setr(i.res, s)
                elif op == 'select': 
                    s = val(i.args[1][1]) | val(i.args[2][1])
                    if s: setr(i.res, s)
                elif op == 'load':
                    if i.ty[0] == 'ptr' or (i.ty[0] == 'i' and i.ty[1] == 64): 
                        s = val(i.args[0][1])
                        d = deref(s) if i.ty[0] == 'ptr' else set().union(*[mem.get(r, set()) for r in s]) if s else set()
                        if d: setr(i.res, d)
                elif op == 'store':
                    dst = val(i.args[1][1]); v = val(i.args[0][1])
                    write(dst, i, 'store')
                    if v:
                        if put(dst, v): ch = True
                        noteesc(dst, v, i)
                elif op == 'ret':
                    if i.args: ret |= val(i.args[0][1])
                elif op in ('call', 'invoke'):
                    if self.call(f, i, val, deref, put, write, noteesc, setr, mem): ch = True
            if not ch: break
        new = dict(w={r for r in w if r[0] in ('P', 'D', 'G')},
                   esc={(a, b) for a, b in esc if a[0] in ('P', 'D', 'G') and b[0] in ('P', 'G', 'D')},
                   ret={r for r in ret if r[0] in ('P', 'D', 'G')})
        f.locals_pts = pts
        if any(not new[k] <= S[k] for k in new):
            for k in new: S[k] |= new[k]
            return True
        return False
    def gref(self, g):
        out = set()
        def walk(v):
            if v[0] == 'g' and v[1] in self.mod.globals: out.add(('G', v[1]))
            elif v[0] == 'agg':
                for t, x in v[1]: walk(x)
        if g.init is not None: walk(g.init)
        return out
    def call(self, f, i, val, deref, put, write, noteesc, setr, mem):
        mod = self.mod
        ch = False
        names = []
        if i.x[0] == 'g': names = [i.x[1]]
        else: names = [None]
        for name in names:
            A = [val(v) for t, v in i.args]
            if name is None:
                kinds = [t[0] for t, v in i.args]
                wr = ()
                if kinds == ['ptr', 'ptr', 'ptr', 'i']: wr = (0, 1)
                elif kinds == ['ptr', 'ptr']: wr = (0, 1)
                elif kinds and kinds[0] == 'ptr': wr = (0,)
                for k in wr: write(A[k], i, 'output of a call through an interface table')
                continue
            if name.startswith('llvm.'):
                if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                    write(A[0], i, 'block write')
                    d = set()
                    for r in A[1]: d |= deref({r})
                    if d:
                        if put(A[0], d): ch = True
                        noteesc(A[0], d, i)
                elif name.startswith('llvm.memset'): write(A[0], i, 'block write')
                elif name.startswith('llvm.va_start'):
                    # variable arguments: unknown caller objects
                    pass
                continue
            g = mod.funcs.get(name)
            if g is None:
                for k in LIBC_W.get(name, ()):
                    if k < len(A): write(A[k], i, name)
                if name in LIBC_RET and i.res: setr(i.res, A[LIBC_RET[name]])
                if name in ('malloc', 'calloc', 'realloc') and i.res: setr(i.res, {('H',)})
                if name in ('memcpy', 'memmove') and len(A) > 1:
                    d = deref(A[1])
                    if d and put(A[0], d): ch = True
                continue
            S = self.sum[name]
            def tr(r):
                if r[0] == 'P': return A[r[1]] if r[1] < len(A) else set()
                if r[0] == 'D': return deref(A[r[1]]) if r[1] < len(A) else set()
                return {r}
            for r in S['w']: write(tr(r), i, 'call of ' + name)
            for a, b in S['esc']:
                da, db = tr(a), tr(b)
                if da and db:
                    if put(da, db): ch = True
                    noteesc(da, db, i)
            if i.res:
                s = set()
                for r in S['ret']: s |= tr(r)
                if s: setr(i.res, s)
        return ch
