"""C09: constant tables.  Every constant array of the compiled library (all digit widths) is compared, entry by entry, with the
table it is closest to among those computed from the definitions; an array that is nearly but not exactly such a table is
reported with the entry that deviates.  Constants that stand in the code (MD5, SHA-1) are compared as sets of immediates of the
digest's own functions, initial values and curve parameters by constant propagation through the routines that install them."""
import build, common, flow, symm, tables, curves
LEVEL = 'other'
HARN = r'''
#include <stddef.h>
#include <cry/ecp.h>
#include <cry/md5.h>
#include <cry/sha1.h>
#include <cry/sha256.h>
#include <cry/sha512.h>
void v_num(const cry_mpi *, const char *); void v_ret(long); void v_dump(const void *, size_t, const char *);
void h_grp(size_t id)
{
    cry_ecp_grp g; int r; cry_ecp_grp_init(&g); r = cry_ecp_grp_load(&g, (int)id); v_ret(r);
    if (r) return;
    v_num(&g.p, "p"); v_num(&g.a, "a"); v_num(&g.b, "b"); v_num(&g.n, "n"); v_num(&g.g.x, "gx"); v_num(&g.g.y, "gy"); v_num(&g.g.z, "gz");
}
const int h_ids[] = { CRY_ECP_GRP_SECP192R1, CRY_ECP_GRP_SECP224R1, CRY_ECP_GRP_SECP256R1, CRY_ECP_GRP_SECP384R1, CRY_ECP_GRP_SECP521R1,
    CRY_ECP_GRP_SECP192K1, CRY_ECP_GRP_SECP224K1, CRY_ECP_GRP_SECP256K1, CRY_ECP_GRP_BP256R1, CRY_ECP_GRP_BP384R1, CRY_ECP_GRP_BP512R1 };
void h_iv(size_t c)
{
    static cry_md5_ctx m; static cry_sha1_ctx s; static cry_sha256_ctx t; static cry_sha512_ctx u;
    if (c == 0) { cry_md5_init(&m); v_dump(&m, sizeof m, "ctx"); }
    if (c == 1) { cry_sha1_init(&s); v_dump(&s, sizeof s, "ctx"); }
    if (c == 2) { cry_sha256_init(&t); v_dump(&t, sizeof t, "ctx"); }
    if (c == 3) { cry_sha512_init(&u, 0); v_dump(&u, sizeof u, "ctx"); }
    if (c == 4) { cry_sha512_init(&u, 1); v_dump(&u, sizeof u, "ctx"); }
}
'''
def arrays(mod):
    """(name, element bytes, values) of every constant integer array; nested arrays row by row"""
    T = mod.types
    def walk(ty, v):
        ty = T.resolve(ty)
        if ty[0] == 'arr' and ty[2][0] == 'i':
            w = ty[2][1] // 8
            if v[0] == 'zero': yield w, [0] * ty[1]
            elif v[0] == 'bytes': yield w, [int.from_bytes(v[1][i:i + w], 'little') for i in range(0, len(v[1]), w)]
            elif v[0] == 'agg' and all(e[0] in ('i', 'zero') for _, e in v[1]):
                yield w, [(e[1] if e[0] == 'i' else 0) & ((1 << (8 * w)) - 1) for _, e in v[1]]
        elif ty[0] == 'arr' and v[0] == 'agg':
            for _, e in v[1]: yield from walk(ty[2], e)
        elif v[0] == 'agg':
            for (t, e), f in zip(v[1], ty[1] if ty[0] != 'arr' else []): yield from walk(t, e)
    for n, g in mod.globals.items():
        if g.init is None or n.startswith('h_ids'): continue
        rows = list(walk(g.ty, g.init))
        for k, (w, r) in enumerate(rows): yield n if len(rows) == 1 else '%s[%d]' % (n, k), w, r
def place(mod, name):
    b = name.split('[')[0]
    g = mod.globals.get(b)
    e = mod.di(g.dbg) if g is not None and g.dbg else None
    v = mod.di(e.get('var')) if e else None
    if v and v.get('file'): return common.rel('%s:%s' % (mod.di_file(v['file']), v.get('line', 0)))
    return 'src (%s)' % name
def compare(vals, tab):
    """(matching, total, offset of vals in tab or of tab in vals, first deviating index in vals)"""
    n, m = len(vals), len(tab)
    best = (0, 1, 0, None)
    if n <= m: offs = [(0, o) for o in range(0, m - n + 1)]
    else: offs = [(o, 0) for o in range(0, n - m + 1)]
    for a, b in offs:
        L = min(n, m); hit = 0; bad = None; left = L // 4 + 1
        for i in range(L):
            if vals[a + i] == tab[b + i]: hit += 1
            else:
                left -= 1
                if bad is None: bad = a + i
                if left < 0: break
        else:
            if hit * best[1] > best[0] * L: best = (hit, L, a, bad)
    return best
def run(tier):
    res = common.Result(); T = tables.tables(); n_arr = n_ent = 0; found = {}; groups = 0; unknown = []
    mods = [('default', build.module())]
    for d in (1, 2, 4): mods.append(('digit%d' % d, build.module('c09d%d' % d, build.Config('c09d%d' % d, build.BASE, d))))
    seen = set()
    def report(rule, func, where, msg, ident):
        if ident in seen: return
        seen.add(ident); res.findings.append(common.Finding(rule, func, where, msg, [], ident))
    for cn, mod in mods:
        for name, w, vals in arrays(mod):
            if len(vals) < 4 or name.startswith('.str') and len(vals) != 65: continue
            if vals and vals[-1] == 0 and len(vals) == 65: vals = vals[:-1]
            n_arr += 1
            best = None
            for t, tab in T.items():
                if min(len(vals), len(tab)) < 4 or max(tab) >> (8 * w): continue
                if len(vals) < len(tab) and t != 'odd primes' and len(vals) * 2 < len(tab): continue
                c = compare(vals, tab)
                r = c[0] / c[1]
                if best is None or (r, c[1]) > (best[0], best[1][1]): best = (r, c, t)
            if best is not None and best[0] < 1:
                r, (hit, L, a, bad), t = best
                win = next((T[t][o:o + L] for o in range(max(1, len(T[t]) - len(vals) + 1)) if sum(x == y for x, y in zip(vals[a:a + L], T[t][o:o + L])) == hit), [])
                same = {x for x, y in zip(vals[a:a + L], win) if x == y}
                if len(same) * 5 < len(set(win)) * 3: best = None           # they share only a filler value
            if best is None or best[0] < 0.75 or best[1][1] < 4: unknown.append((cn, name, w, vals)); continue
            r, (hit, L, a, bad), t = best
            if r == 1.0: found[t] = found.get(t, 0) + 1; n_ent += L; continue
            if L < 10 and hit < L - 1: unknown.append((cn, name, w, vals)); continue
            found.setdefault(t, 0)
            tab = T[t]; b = next(o for o in range(max(1, len(tab) - len(vals) + 1)) if sum(x == y for x, y in zip(vals[a:a + L], tab[o:o + L])) == hit)
            report('table', name, place(mod, name), 'entry %d of the %s is %#x, but the definition gives %#x (%d of %d entries agree)' % (bad, t, vals[bad], tab[b + bad - a], hit, L), 'table:%s:%s' % (name.split('.')[0], t))
    for t in tables.EXPECTED:
        if t not in found: res.undecided.append('%s: not found as a constant array (it may be computed)' % t)
    # constants that stand in the code
    mod = mods[0][1]
    for t, root in (('MD5 sines', 'cry_md5_update'), ('SHA-1 round constants', 'cry_sha1_update')):
        tab = T[t]
        if found.get(t): continue
        funcs = reach(mod, root); imm = {}
        for f in funcs:
            for bl in mod.funcs[f].blocks.values():
                for I in bl:
                    for a in I.args:
                        if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple) and a[1][0] == 'i':
                            v = a[1][1] & 0xffffffff
                            imm[v] = (f, I)
        have = [x for x in tab if x in imm]; miss = [x for x in tab if x not in imm]; odd = [x for x in imm if x not in tab and 1 << 20 < x < 0xffff0000 and bin(x).count('1') not in (1, 8, 16, 24)]
        if not miss: found[t] = 1; n_ent += len(tab); continue
        if len(have) * 4 >= len(tab) * 3 and odd:
            f, I = imm[odd[0]]
            report('constant', f, common.rel('%s:%d' % mod.loc(I)), 'the constant %#x is not one of the %s, and %#x is missing (%d of %d are there)' % (odd[0], t, miss[0], len(have), len(tab)), 'constant:%s' % t)
        else: res.undecided.append('%s: not found in the code of %s' % (t, root))
    # initial values
    for c, (h, _, _, _, word, _, _, _) in enumerate(symm.HASHES):
        hm = build.module_with(HARN) if c == 0 else hm
        F = flow.Flow(hm)
        try: F.call('h_iv', [('k', c)])
        except (flow.Limit, flow.Fault) as e: res.undecided.append('%s: initial value: %s' % (h, e)); continue
        d = F.dumps['ctx']; iv = symm.hash_iv(h); exp = [b for x in iv for b in x.to_bytes(word, 'little')]; ok = None
        for o in range(0, len(d) - len(exp) + 1):
            hit = sum(1 for k in range(0, len(exp), word) if d[o + k:o + k + word] == exp[k:k + word])
            if hit == len(iv): ok = True; break
            if hit * 4 >= len(iv) * 3:
                k = next(k for k in range(0, len(exp), word) if d[o + k:o + k + word] != exp[k:k + word])
                ok = (k // word, d[o + k:o + k + word], iv[k // word])
        if ok is True: n_ent += len(iv)
        elif ok:
            got = ok[1]; g = '%#x' % sum(e << (8 * i) for i, e in enumerate(got)) if all(type(e) is int for e in got) else 'not a constant'
            f = 'cry_%s_init' % ('sha512' if h == 'sha384' else h)
            report('initial-value', f, common.rel('%s:%s' % (mod.funcs[f].file, mod.funcs[f].line)), 'word %d of the %s initial value is %s, the standard gives %#x' % (ok[0], h, g, ok[2]), 'initial-value:' + h)
        else: res.undecided.append('%s: initial value not found in the context' % h)
    # curves
    def grp(mod, dig, cid):
        F = flow.Flow(mod); F.ret = None; num = {}
        def v_ret(F, a): F.ret = a[0]
        def v_num(F, a):
            nm = flow.cstr(F, a[1]); o = F.mem[a[0][1]]
            t, f = NUM(mod)
            def fld(k): off, sz = f[k]; v = F.load(('p', a[0][1], a[0][2] + off), ('i', 8 * sz)); return v
            used = fld('used'); sign = fld('sign'); dp = F.load(('p', a[0][1], a[0][2] + f['data'][0]), ('ptr',))
            if used[0] != 'k' or sign[0] != 'k': raise flow.Limit('%s is not constant' % nm)
            x = 0
            if used[1]:
                bs = F.check(dp, used[1] * dig, False).b[dp[2]:dp[2] + used[1] * dig]
                if any(type(b) is not int for b in bs): raise flow.Limit('%s is not constant' % nm)
                x = int.from_bytes(bytes(bs), 'little')
            num[nm] = -x if sign[1] else x
        F.hooks.update(v_ret=v_ret, v_num=v_num)
        F.call('h_grp', [('k', cid & ((1 << 64) - 1))])
        return F.ret, num
    n_cur = 0
    for cn, m0 in mods:
        dig = m0.cfg.digit; hm = build.module_with(HARN, 'default' if cn == 'default' else 'c09d%d' % dig)
        ids = next(vals for n, w, vals in arrays_all(hm))
        if len(set(ids)) != len(ids): report('curve', 'cry_ecp_grp_load', 'include/cry/ecp.h', 'two curve identifiers are equal', 'curve:ids')
        fn = hm.funcs.get('cry_ecp_grp_load'); wh = common.rel('%s:%s' % (fn.file, fn.line)) if fn else 'src/ecp'
        for (name, exp), cid in zip(curves.CURVES, ids):
            try: r, num = grp(hm, dig, cid)
            except flow.Limit as e: res.undecided.append('%s (%d byte digits): %s' % (name, dig, e)); continue
            except flow.Fault as e: report('curve', 'cry_ecp_grp_load', common.rel(e.where), 'loading %s with %d byte digits: %s' % (name, dig, e.what), 'curve:%s:load' % name); continue
            if r != ('k', 0): report('curve', 'cry_ecp_grp_load', wh, 'the identifier of %s is refused' % name, 'curve:%s:id' % name); continue
            n_cur += 1
            got = dict(num); got['a'] %= exp['p']
            other = [n for n, e in curves.CURVES if all(got[k] == e[k] for k in ('p', 'b', 'n', 'gx', 'gy'))]
            if other and other[0] != name: report('curve', 'cry_ecp_grp_load', wh, 'the identifier of %s selects %s' % (name, other[0]), 'curve:%s:id' % name); continue
            for k, lbl in (('p', 'field order'), ('a', 'coefficient a'), ('b', 'coefficient b'), ('n', 'group order'), ('gx', 'generator x'), ('gy', 'generator y')):
                if got[k] != exp[k]:
                    x = got[k] ^ exp[k]; low = (x & -x).bit_length() - 1
                    why = curves.verify(got) if got['p'] == exp['p'] else 'the field order is not the stated prime'
                    report('curve', 'cry_ecp_grp_load', wh, '%s of %s (%d byte digits) is %#x, must be %#x: first wrong byte %d from the low end%s' % (lbl, name, dig, got[k], exp[k], low // 8, '; ' + why if why else ''), 'curve:%s:%s' % (name, k))
                else: n_ent += 1
            if num.get('gz', 1) != 1: report('curve', 'cry_ecp_grp_load', wh, 'the third coordinate of the generator of %s is %d' % (name, num['gz']), 'curve:%s:gz' % name)
        for cid in (max(ids) + 1, -1, 1000):
            try: r, num = grp(hm, dig, cid)
            except flow.Limit: continue
            except flow.Fault as e: report('curve', 'cry_ecp_grp_load', common.rel(e.where), 'loading an unknown identifier: %s' % e.what, 'curve:unknown:load'); continue
            if r == ('k', 0): report('curve', 'cry_ecp_grp_load', wh, 'the unknown identifier %d is accepted' % cid, 'curve:unknown')
    res.coverage = dict(evaluations=n_arr + n_cur, distinct_nontrivial=len([1 for v in found.values() if v]) + n_cur, entries_compared=n_ent, arrays=n_arr, tables_found=sorted(t for t in found if found[t]), curves_loaded=n_cur,
        arrays_not_identified=sorted({'%s (%d entries)' % (n, len(v)) for c, n, w, v in unknown if c == 'default' and not any(n.startswith(x) for x in ('secp', 'brainpool'))})[:40],
        rule='one evaluation = one constant array of one digit width compared with all tables computed from the definitions, or one curve identifier followed through the loading routine; distinct_nontrivial = tables identified plus curves loaded',
        samples=sorted(found)[:10])
    res.assumptions = ['tables are computed from the defining formulas; DES S-boxes, permuted choices and curve parameters are transcribed from the standards (curves also checked: prime field and order, generator on the curve, order times generator is infinity)',
                       'the IR front end (clang 18) lays out constants as the compiler in use does']
    if not found: raise build.CheckError('no constant table was recognised')
    return res
def arrays_all(mod):
    T = mod.types
    for n, g in mod.globals.items():
        if n == 'h_ids': yield n, 4, [e[1] for _, e in g.init[1]] if g.init[0] == 'agg' else []
_num = {}
def NUM(mod):
    """field offsets of the number type: sign, used, data by the debug info of struct cry_mpi"""
    k = id(mod)
    if k not in _num: _num[k] = mpi_fields(mod)
    return None, _num[k]
def mpi_fields(mod):
    import subprocess, os, re
    src = '#include <stddef.h>\n#include <cry/mpi.h>\nconst unsigned long o_[] = { offsetof(cry_mpi, sign), sizeof(((cry_mpi *)0)->sign), offsetof(cry_mpi, used), sizeof(((cry_mpi *)0)->used), offsetof(cry_mpi, data), 8 };\n'
    c = os.path.join(build.scratch(), 'off-%s.c' % mod.cfg.name)
    open(c, 'w').write(src)
    r = subprocess.run([build.CLANG, '-S', '-emit-llvm', '-O0', '-w', '-I' + build.include_dir(mod.cfg)] + mod.cfg.cppflags() + [c, '-o', c + '.ll'], env=build.ENV, capture_output=True, text=True)
    if r.returncode: raise build.CheckError('number type: ' + r.stderr[:500])
    v = [int(x) for x in re.findall(r'i64 (\d+)', [l for l in open(c + '.ll') if l.startswith('@o_')][0])]
    return dict(sign=(v[0], v[1]), used=(v[2], v[3]), data=(v[4], v[5]))
def reach(mod, f):
    seen = set(); st = [f]
    while st:
        x = st.pop()
        if x in seen or x not in mod.funcs: continue
        seen.add(x)
        st += [I.x[1] for b in mod.funcs[x].blocks.values() for I in b if I.op == 'call' and I.x[0] == 'g']
    return seen
