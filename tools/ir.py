"""Textual LLVM IR (clang-18) reader: types, globals with their initialisers, functions, debug info."""
import re

TOK = re.compile(r'''
   c"(?P<cs>[^"]*)"
 | (?P<mdstr>!"[^"]*")
 | (?P<qn>[%@]"[^"]*")
 | (?P<str>"[^"]*")
 | (?P<name>[%@][-a-zA-Z$._0-9]+)
 | (?P<md>!DIExpression\([^)]*\)|![a-zA-Z0-9_.]+|!\{)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<id>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\](){}<>,=*:|])
''', re.X)

class Tok(list):
    pass

def lex(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n':
            pos += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise ValueError('lex: %r' % s[pos:pos+40])
        k = m.lastgroup
        out.append((k, m.group(0)))
        pos = m.end()
    return out

# ---- types -------------------------------------------------------------
class Types:
    def __init__(self):
        self.named = {}
    def size(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            p = 1
            while p < b: p *= 2
            return p
        if k == 'ptr': return 8
        if k == 'float': return 4
        if k == 'double': return 8
        if k in ('arr', 'vec'): return t[1] * self.size(t[2])
        if k == 'named':
            return self.size(self.named[t[1]])
        if k == 'struct':
            return self.layout(t)[1]
        if k == 'opaque': return 0
        if k == 'void': return 0
        if k == 'x86_fp80': return 16
        raise ValueError(t)
    def align(self, t):
        k = t[0]
        if k == 'i': return min(self.size(t), 16)
        if k in ('arr', 'vec'): return self.align(t[2])
        if k == 'named': return self.align(self.named[t[1]])
        if k == 'struct':
            if t[2]: return 1
            return max([self.align(x) for x in t[1]] or [1])
        if k == 'opaque' or k == 'void': return 1
        return self.size(t)
    def layout(self, t):
        off = 0
        offs = []
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        a = self.align(t)
        return offs, (off + a - 1) // a * a
    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod
    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None
    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v
    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False
    def expect(self, s):
        v = self.next()
        if v != s:
            raise ValueError('expected %r got %r in %r' % (s, v, ' '.join(x[1] for x in self.t)[:200]))
    def type(self):
        v = self.next()
        if v == 'ptr':
            if self.peek() == 'addrspace':
                self.i += 4
            t = ('ptr',)
        elif v == 'void': t = ('void',)
        elif re.fullmatch(r'i\d+', v): t = ('i', int(v[1:]))
        elif v in ('float', 'double', 'x86_fp80', 'half'): t = (v,)
        elif v in ('label', 'metadata', 'token'): t = (v,)
        elif v == 'opaque': t = ('opaque',)
        elif v == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                t = ('struct', self._tlist('}'), True)
                self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        elif v == '{':
            t = ('struct', self._tlist('}'), False)
        elif v[0] == '%':
            t = ('named', v[1:].strip('"'))
        else:
            raise ValueError('type? %r in %s' % (v, ' '.join(x[1] for x in self.t)[:200]))
        while self.peek() == '(':      # function type
            self.next()
            ps = []
            while not self.accept(')'):
                if self.accept('...'):
                    ps.append('...')
                else:
                    ps.append(self.type())
                self.accept(',')
            t = ('fn', t, ps)
        return t
    def _tlist(self, end):
        out = []
        while not self.accept(end):
            out.append(self.type())
            self.accept(',')
        return out
    # values -> ('r',n) ('i',v) ('g',name,off) ('null',) ('undef',) ('zero',) ('agg',[(ty,v)..]) ('bytes',b) ('expr',..)
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k in ('name', 'qn'):
            n = v[1:].strip('"')
            if v[0] == '%': return ('r', n)
            return ('g', n, 0)
        if k == 'num':
            if ty[0] == 'i':
                return ('i', int(v) if not v.startswith('0x') else int(v, 16))
            return ('fp', v)
        if k == 'cs':
            return ('bytes', unescape(v[2:-1]))
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'true': return ('i', 1)
        if v == 'false': return ('i', 0)
        if v == '[':
            return ('agg', self._elts(']'))
        if v == '{':
            return ('agg', self._elts('}'))
        if v == '<':
            if self.accept('{'):
                e = self._elts('}'); self.expect('>')
                return ('agg', e)
            return ('agg', self._elts('>'))
        if v in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'add', 'sub'):
            while self.peek() in ('inbounds', 'nuw', 'nsw'): self.next()
            self.expect('(')
            if v == 'getelementptr':
                bty = self.type(); self.expect(',')
                pt = self.type(); base = self.value(pt)
                idx = []
                while self.accept(','):
                    it = self.type(); idx.append((it, self.value(it)))
                self.expect(')')
                off = self.mod.gep_const(bty, idx)
                if off is None or base[0] != 'g':
                    return ('expr', v, [base])
                return ('g', base[1], base[2] + off)
            args = []
            at = self.type(); a = self.value(at)
            if self.accept('to'):
                self.type()
            else:
                while self.accept(','):
                    at = self.type(); args.append(self.value(at))
            self.expect(')')
            if v == 'bitcast': return a
            return ('expr', v, [a] + args)
        raise ValueError('value? %r in %s' % (v, ' '.join(x[1] for x in self.t)[:300]))
    def _elts(self, end):
        out = []
        while not self.accept(end):
            t = self.type()
            out.append((t, self.value(t)))
            self.accept(',')
        return out

def unescape(s):
    b = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                b.append(92); i += 2
            else:
                b.append(int(s[i+1:i+3], 16)); i += 3
        else:
            b += s[i].encode('latin1'); i += 1
    return bytes(b)

PATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'immarg',
          'inreg', 'returned', 'readnone', 'nest', 'allocptr', 'allocalign', 'noreturn'}

class Ins:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'dbg', 'vol', 'fn', 'blk', 'idx')
    def __init__(self, op, res):
        self.op = op; self.res = res; self.ty = None; self.args = []; self.x = None; self.dbg = None; self.vol = False
    def __repr__(self):
        return '<%s %s %s %s>' % (self.res, self.op, self.args, self.x)

class Func:
    def __init__(self, name):
        self.name = name
        self.params = []     # (type, regname, attrs)
        self.ret = None
        self.vararg = False
        self.internal = False
        self.blocks = {}     # label -> [Ins]
        self.order = []
        self.entry = None
        self.dbg = None
        self.file = None
        self.line = 0
    def instrs(self):
        for b in self.order:
            for i in self.blocks[b]:
                yield i

class Global:
    def __init__(self, name):
        self.name = name
        self.const = False; self.ty = None; self.init = None; self.dbg = None
        self.internal = False; self.external = False

class Module:
    def __init__(self, text):
        self.types = Types()
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self._md_cache = {}
        self.parse(text)

    # -- gep
    def gep_const(self, bty, idx):
        off = 0
        t = bty
        for n, (it, v) in enumerate(idx):
            if v[0] != 'i': return None
            if n == 0:
                off += v[1] * self.types.size(t)
                continue
            t = self.types.resolve(t)
            if t[0] in ('arr', 'vec'):
                t = t[2]; off += v[1] * self.types.size(t)
            else:
                offs, _ = self.types.layout(t)
                off += offs[v[1]]; t = t[1][v[1]]
        return off

    def parse(self, text):
        lines = text.split('\n')
        # pass 1: types
        gl = []
        i = 0
        n = len(lines)
        fn = []
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                self.types.named[nm[1:].strip('"')] = P(lex(rest), self).type()
            elif l.startswith('@'):
                gl.append(l)
            elif l.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                fn.append(lines[i:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@([-a-zA-Z$._0-9]+)\(', l)
                if m: self.decls[m.group(1)] = l
            elif l.startswith('!'):
                k, v = l.split(' = ', 1)
                self.md[k] = v
            i += 1
        for l in gl: self.parse_global(l)
        for f in fn: self.parse_func(f)

    def parse_global(self, l):
        p = P(lex(l), self)
        g = Global(p.next()[1:].strip('"'))
        p.expect('=')
        while p.peek() not in ('global', 'constant', 'alias'):
            w = p.next()
            if w in ('internal', 'private'): g.internal = True
            if w in ('external', 'extern_weak'): g.external = True
            if w == '(':
                while p.next() != ')': pass
        g.const = p.next() == 'constant'
        g.ty = p.type()
        if not g.external:
            g.init = p.value(g.ty)
        m = re.search(r'!dbg (!\d+)', l)
        g.dbg = m.group(1) if m else None
        self.globals[g.name] = g

    def parse_func(self, ls):
        h = ls[0]
        m = re.match(r'define (.*?)@([-a-zA-Z$._0-9]+|"[^"]*")\(', h)
        f = Func(m.group(2).strip('"'))
        pre = m.group(1).split()
        f.internal = 'internal' in pre or 'private' in pre
        # return type: last type in prefix
        rt = re.search(r'(void|ptr|i\d+|%[\w.]+|\{[^}]*\}|\[[^\]]*\]|double|float)\s*$', m.group(1).strip())
        f.ret = P(lex(rt.group(1)), self).type()
        p = P(lex(h[m.end()-1:]), self)
        p.expect('(')
        cnt = 0
        while not p.accept(')'):
            if p.accept('...'):
                f.vararg = True
                continue
            t = p.type()
            attrs = []
            while p.kind() not in ('name', 'qn') and p.peek() not in (',', ')'):
                w = p.next()
                attrs.append(w)
                if p.peek() == '(':
                    d = 0
                    while True:
                        q = p.next()
                        attrs.append(q)
                        if q == '(': d += 1
                        if q == ')':
                            d -= 1
                            if d == 0: break
            nm = str(cnt)
            if p.kind() in ('name', 'qn'):
                nm = p.next()[1:].strip('"')
            f.params.append((t, nm, attrs))
            cnt += 1
            p.accept(',')
        m2 = re.search(r'!dbg (!\d+)', h)
        f.dbg = m2.group(1) if m2 else None
        cur = str(cnt)
        first = True
        i = 1
        body = ls
        while i < len(body):
            l = body[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(';') : continue
            mm = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', l)
            if mm:
                cur = mm.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                if first: f.entry = cur
                first = False
                continue
            if first:
                f.blocks[cur] = []
                f.order.append(cur)
                f.entry = cur
                first = False
            s = l
            if s.strip().startswith('switch') or ' switch ' in s:
                while ']' not in s:
                    s += ' ' + body[i]; i += 1
            if '@llvm.dbg.' in s:
                self._dbg_intr(f, s)
                continue
            ins = self.parse_ins(s)
            ins.fn = f; ins.blk = cur; ins.idx = len(f.blocks[cur])
            f.blocks[cur].append(ins)
        sp = self.di(f.dbg) if f.dbg else None
        if sp:
            f.line = int(sp.get('line', 0))
            f.file = self.di_file(sp.get('file'))
        self.funcs[f.name] = f

    def _dbg_intr(self, f, s):
        m = re.search(r'metadata ptr (%[-\w.$]+|@[-\w.$]+), metadata (!\d+)', s)
        if m and 'dbg.declare' in s:
            if not hasattr(f, 'declares'): f.declares = {}
            f.declares[m.group(1)[1:]] = m.group(2)

    def parse_ins(self, s):
        m = re.search(r', !dbg (!\d+)', s)
        dbg = m.group(1) if m else None
        s = re.sub(r'(, )?![a-zA-Z_.]+ !\d+', '', s)
        p = P(lex(s), self)
        res = None
        if p.kind() in ('name', 'qn') and p.peek(1) == '=':
            res = p.next()[1:].strip('"'); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        I = Ins(op, res)
        I.dbg = dbg
        if op == 'alloca':
            I.ty = p.type()
            I.x = 1
            if p.accept(','):
                if p.peek() != 'align':
                    t = p.type(); I.x = p.value(t)
        elif op == 'load':
            if p.accept('volatile'): I.vol = True
            p.accept('atomic')
            I.ty = p.type(); p.expect(','); t = p.type(); I.args = [(t, p.value(t))]
        elif op == 'store':
            if p.accept('volatile'): I.vol = True
            p.accept('atomic')
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); I.args = [(t, v), (t2, p.value(t2))]
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            I.ty = p.type(); p.expect(',')
            t = p.type(); I.args = [(t, p.value(t))]
            while p.accept(','):
                t = p.type(); I.args.append((t, p.value(t)))
        elif op in ('call', 'invoke'):
            while p.peek() in PATTRS or p.peek() in ('fastcc', 'ccc', 'coldcc') or p.peek() in ('range', 'dereferenceable', 'align'):
                w = p.next()
                if p.peek() == '(' and w in ('range', 'dereferenceable', 'align'):
                    while p.next() != ')': pass
                elif w == 'align': p.next()
            t = p.type()
            if t[0] == 'fn':
                I.ty = t[1]
            else:
                I.ty = t
            if p.peek() == 'asm':
                I.op = 'asm'
                I.x = None
                return I
            cal = p.value(('ptr',))
            p.expect('(')
            while not p.accept(')'):
                t = p.type()
                at = []
                while (p.peek() in PATTRS or p.peek() in ('dereferenceable', 'dereferenceable_or_null', 'align', 'byval', 'sret', 'captures', 'range')):
                    w = p.next()
                    at.append(w)
                    if p.peek() == '(':
                        d = 0
                        while True:
                            q = p.next()
                            if q == '(': d += 1
                            if q == ')':
                                d -= 1
                                if d == 0: break
                    elif w == 'align':
                        p.next()
                if t[0] == 'metadata':
                    while p.peek() not in (',', ')'): p.next()
                    I.args.append((t, ('undef',)))
                else:
                    I.args.append((t, p.value(t)))
                p.accept(',')
            I.x = cal
        elif op == 'br':
            if p.accept('label'):
                I.x = [p.next()[1:].strip('"')]
            else:
                t = p.type(); I.args = [(t, p.value(t))]
                p.expect(','); p.expect('label'); a = p.next()[1:].strip('"')
                p.expect(','); p.expect('label'); b = p.next()[1:].strip('"')
                I.x = [a, b]
        elif op == 'switch':
            t = p.type(); I.args = [(t, p.value(t))]
            p.expect(','); p.expect('label'); d = p.next()[1:].strip('"')
            p.expect('[')
            cs = []
            while not p.accept(']'):
                t = p.type(); v = p.value(t); p.expect(','); p.expect('label')
                cs.append((v[1], p.next()[1:].strip('"')))
            I.x = (d, cs)
        elif op == 'ret':
            t = p.type()
            I.ty = t
            if t[0] != 'void': I.args = [(t, p.value(t))]
        elif op == 'phi':
            I.ty = p.type()
            inc = []
            while True:
                p.expect('['); v = p.value(I.ty); p.expect(','); b = p.next()[1:].strip('"'); p.expect(']')
                inc.append((v, b))
                if not p.accept(','): break
            I.x = inc
        elif op in ('icmp', 'fcmp'):
            I.x = p.next()
            while I.x in ('samesign', 'fast'): I.x = p.next()
            I.ty = p.type(); a = p.value(I.ty); p.expect(','); b = p.value(I.ty)
            I.args = [(I.ty, a), (I.ty, b)]
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
            t = p.type(); v = p.value(t); p.expect('to'); I.ty = p.type(); I.args = [(t, v)]
        elif op == 'select':
            t = p.type(); c = p.value(t); p.expect(','); t1 = p.type(); a = p.value(t1); p.expect(','); t2 = p.type(); b = p.value(t2)
            I.ty = t1; I.args = [(t, c), (t1, a), (t2, b)]
        elif op in ('extractvalue', 'insertvalue', 'freeze', 'fneg'):
            t = p.type(); I.ty = t; I.args = [(t, p.value(t))]
            if op == 'insertvalue':
                p.expect(','); t2 = p.type(); I.args.append((t2, p.value(t2)))
            I.x = []
            while p.accept(','): I.x.append(int(p.next()))
        elif op == 'unreachable':
            pass
        elif op == 'fence':
            pass
        else:
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast'): p.next()
            I.ty = p.type(); a = p.value(I.ty); p.expect(','); b = p.value(I.ty)
            I.args = [(I.ty, a), (I.ty, b)]
        return I

    # -- debug info
    FIELD = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|![0-9]+|[^,()]+(?:\([^)]*\))?)')
    def di(self, ref):
        if ref is None or ref == 'null': return None
        if ref in self._md_cache: return self._md_cache[ref]
        raw = self.md.get(ref)
        if raw is None: return None
        d = {}
        m = re.match(r'(?:distinct )?!(\w+)\((.*)\)$', raw)
        if m:
            d['_kind'] = m.group(1)
            for k, v in self.FIELD.findall(m.group(2)):
                d[k] = v.strip().strip('"')
        else:
            m = re.match(r'(?:distinct )?!\{(.*)\}$', raw)
            if m:
                d['_kind'] = 'tuple'
                d['_el'] = [x.strip() for x in m.group(1).split(',')] if m.group(1).strip() else []
        self._md_cache[ref] = d
        return d
    def di_file(self, ref):
        d = self.di(ref)
        if not d: return None
        fn = d.get('filename', '')
        if fn.startswith('/'): return fn
        return d.get('directory', '') + '/' + fn
    def loc(self, ins):
        """(file, line) of an instruction, following inlinedAt-free scopes"""
        if not ins.dbg: return (ins.fn.file, ins.fn.line)
        d = self.di(ins.dbg)
        if not d: return (ins.fn.file, ins.fn.line)
        s = d.get('scope'); f = None
        x = self.di(s)
        while x and not f:
            f = self.di_file(x.get('file'))
            x = self.di(x.get('scope'))
        return (f or ins.fn.file, int(d.get('line', 0)))
    # C type of a DI ref -> nested tuples
    def ctype(self, ref, depth=0):
        """('void',) ('base',name,size) ('ptr',T) ('const',T) ('struct',name,size,ref) ('array',n,T) ('func',) ('typedef',name,T)"""
        if ref is None or ref == 'null': return ('void',)
        d = self.di(ref)
        k = d.get('_kind')
        tag = d.get('tag', '')
        if k == 'DIBasicType': return ('base', d.get('name'), int(d.get('size', 0)) // 8)
        if k == 'DIDerivedType':
            if tag == 'DW_TAG_typedef':
                return ('typedef', d.get('name'), self.ctype(d.get('baseType'), depth))
            if tag == 'DW_TAG_const_type': return ('const', self.ctype(d.get('baseType'), depth))
            if tag in ('DW_TAG_volatile_type', 'DW_TAG_restrict_type'): return self.ctype(d.get('baseType'), depth)
            if tag == 'DW_TAG_pointer_type':
                return ('ptr', self.ctype(d.get('baseType'), depth + 1))
            if tag == 'DW_TAG_member': return self.ctype(d.get('baseType'), depth)
        if k == 'DICompositeType':
            if tag == 'DW_TAG_array_type':
                n = 1
                for e in self.di(d.get('elements'))['_el']:
                    c = self.di(e).get('count', '0')
                    try: n *= int(c)
                    except ValueError: n = -1
                return ('array', n, self.ctype(d.get('baseType'), depth))
            return ('struct', d.get('name') or '', int(d.get('size', '0')) // 8, ref)
        if k == 'DISubroutineType': return ('func', ref)
        return ('unk',)
    def members(self, ref):
        d = self.di(ref)
        out = []
        for e in (self.di(d.get('elements')) or {}).get('_el', []):
            m = self.di(e)
            if m and m.get('tag') == 'DW_TAG_member':
                out.append((m.get('name'), int(m.get('offset', '0')) // 8, self.ctype(m.get('baseType'))))
        return out
    def signature(self, f):
        sp = self.di(f.dbg)
        if not sp: return None
        st = self.di(sp.get('type'))
        el = self.di(st.get('types'))['_el']
        return [self.ctype(x) for x in el][:len(f.params) + 1]
    def param_names(self, f):
        out = {}
        return out

def strip_t(t):
    """remove typedef/const at top"""
    while t[0] in ('typedef', 'const'):
        t = t[2] if t[0] == 'typedef' else t[1]
    return t
def is_const(t):
    while t[0] in ('typedef', 'const'):
        if t[0] == 'const': return True
        t = t[2]
    return False
