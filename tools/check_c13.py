"""C13: every documented configuration compiles, defines the declared interface exactly once and references nothing undefined."""
import os, re, json, subprocess, itertools, hashlib, concurrent.futures as cf
import build, common
LEVEL = 'other'
USER = {'cry_assert_fail'}     # documented in cry/assert.h as supplied by the application
TWEAKS = ['CRY_MPI_INV_EUCLID', 'CRY_MPI_DIV_SMALL', 'CRY_MPI_MUL_COMBA', 'CRY_MPI_MUL_KARATSUBA', 'CRY_MPI_MUL_TOOM3', 'CRY_ECP_MUL_WIN', 'CRY_ECP_MUL_SLIDING_WIN']
OTHER = ['CRY_MPI_DEBUG_CONF', 'CRY_ASSERT_CHECK', 'CRY_DEBUG']
DIGITS = [8, 4, 2, 1]
MAXV = {1: '255UL', 2: '65535UL', 4: '4294967295UL'}
WERR = ['-Werror=implicit-function-declaration', '-Werror=implicit-int', '-Werror=incompatible-pointer-types', '-Werror=int-conversion', '-Werror=return-type',
        '-Werror=incompatible-function-pointer-types', '-Werror=strict-prototypes']

def strip_comments(s):
    return re.sub(r'/\*.*?\*/|//[^\n]*', ' ', s, flags=re.S)

def repo_includes(path, seen=None):
    """the file and the repository headers it includes"""
    seen = seen if seen is not None else {}
    if path in seen or not os.path.exists(path): return seen
    t = strip_comments(open(path, errors='replace').read())
    seen[path] = t
    for m in re.finditer(r'#\s*include\s*[<"]([^>"]+)[>"]', t):
        for base in (os.path.dirname(path), os.path.join(build.REPO, 'include'), os.path.join(build.REPO, 'src')):
            p = os.path.normpath(os.path.join(base, m.group(1)))
            if os.path.exists(p) and not p.endswith('cry/config.h'): repo_includes(p, seen); break
    return seen

def full_configs(tier):
    """complete configurations: (set of macros, digit bytes, extra flags)"""
    out = []
    C = build.CURVE_DEFS
    for r in range(1 << len(TWEAKS)):
        tw = [t for k, t in enumerate(TWEAKS) if r >> k & 1]
        for d in DIGITS: out.append((frozenset(tw + C), d, ()))
        out.append((frozenset(tw + C + ['CRY_MPI_DEBUG_CONF', 'CRY_ASSERT_CHECK']), 8, ()))
    base = ['CRY_MPI_INV_EUCLID', 'CRY_MPI_MUL_COMBA', 'CRY_MPI_MUL_KARATSUBA', 'CRY_MPI_MUL_TOOM3', 'CRY_ECP_MUL_WIN', 'CRY_ECP_MUL_SLIDING_WIN']
    for d in DIGITS:
        out.append((frozenset(base), d, ()))
        for c in C:
            out.append((frozenset(base + [c]), d, ()))
            out.append((frozenset(base + [x for x in C if x != c]), d, ()))
    out.append((frozenset(base + C), 8, ('-DNDEBUG', '-O2')))
    out.append((frozenset(base + C + ['CRY_ARCH_X86_64']), 8, ()))
    return out

def run(tier):
    res = common.Result()
    srcs = build.sources()
    if len(srcs) < 60: raise build.CheckError('only %d sources' % len(srcs))
    ALLM = set(TWEAKS + OTHER + build.CURVE_DEFS + ['CRY_ARCH_X86_64', 'CRY_ARCH_X86', 'CRY_ARCH_ARM'])
    ment = {}
    for s in srcs:
        inc = repo_includes(s)
        words = set()
        for t in inc.values(): words |= set(re.findall(r'\bCRY_\w+', t))
        ment[s] = (words & ALLM, any('CRY_MPI_DIGIT' in w for w in words))
    cfgs = full_configs(tier)
    sc = os.path.join(build.scratch(), 'c13')
    os.makedirs(sc, exist_ok=True)
    inc = os.path.join(sc, 'inc')
    import shutil
    shutil.copytree(os.path.join(build.REPO, 'include'), inc)
    def key(s, cfg):
        macros, d, extra = cfg
        mm, dig = ment[s]
        k = tuple(sorted(macros & mm))
        if 'CRY_MPI_DEBUG_CONF' in k: d = 8
        return (s, k, d if dig else 8, extra)
    def cfgdir(k):
        n = hashlib.sha1(repr(k).encode()).hexdigest()[:12]
        d = os.path.join(sc, 'cfg-' + n)
        if not os.path.isdir(d):
            os.makedirs(d + '.t/cry', exist_ok=True)
            with open(d + '.t/cry/config.h', 'w') as f:
                for x in k: f.write('#define %s\n' % x)
            try: os.rename(d + '.t', d)
            except OSError: pass
        return d
    # config.h must come from the generated directory, everything else from a copy of the headers without it
    os.unlink(os.path.join(inc, 'cry', 'config.h')) if os.path.exists(os.path.join(inc, 'cry', 'config.h')) else None
    jobs = sorted({key(s, c) for c in cfgs for s in srcs})
    for k in {j[1] for j in jobs}: cfgdir(k)
    def comp(j):
        s, k, d, extra = j
        o = os.path.join(sc, hashlib.sha1(repr(j).encode()).hexdigest()[:16] + '.o')
        cmd = [build.CLANG, '-c', '-O0', '-w', '-std=gnu11'] + WERR + list(extra) + ['-I' + cfgdir(k), '-I' + inc, '-I' + os.path.join(build.REPO, 'src')]
        if d != 8: cmd.append('-DCRY_MPI_DIGIT_MAX=' + MAXV[d])
        r = subprocess.run(cmd + [s, '-o', o], env=build.ENV, capture_output=True, text=True)
        if r.returncode: return j, None, None, r.stderr
        n = subprocess.run(['/usr/bin/nm', o], capture_output=True, text=True, env=build.ENV).stdout
        os.unlink(o)
        D = {}; U = set()
        for l in n.split('\n'):
            p = l.split()
            if len(p) == 3 and p[1] in 'TDBRVWC': D[p[2]] = p[1]
            elif len(p) == 2 and p[0] == 'U': U.add(p[1])
        return j, D, U, None
    with cf.ThreadPoolExecutor(8) as ex: done = list(ex.map(comp, jobs))
    ok = {}
    nfail = 0
    for j, D, U, err in done:
        if err is not None:
            nfail += 1
            m = re.search(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', err, re.M)
            where = '%s:%s' % (m.group(1), m.group(2)) if m else j[0]
            msg = m.group(3) if m else err.strip().split('\n')[-1]
            if not any(f.where == common.rel(where) and f.rule == 'does-not-compile' for f in res.findings):
                res.findings.append(common.Finding('does-not-compile', os.path.basename(j[0]), common.rel(where), '%s [macros %s, %d byte digits %s]' % (msg, ' '.join(j[1]) or '-', j[2], ' '.join(j[3]))))
        else: ok[j] = (D, U)
    if nfail > 0.9 * len(jobs): raise build.CheckError('nothing compiles: ' + done[0][3][:300])
    # libraries the user links anyway
    libc = set()
    for lib in ('/lib/x86_64-linux-gnu/libc.so.6', '/lib/x86_64-linux-gnu/libm.so.6', '/lib/x86_64-linux-gnu/libgcc_s.so.1'):
        if os.path.exists(lib):
            for l in subprocess.run(['/usr/bin/nm', '-D', '--defined-only', lib], capture_output=True, text=True).stdout.split('\n'):
                p = l.split()
                if p: libc.add(p[-1].split('@')[0])
    libc |= {'_GLOBAL_OFFSET_TABLE_', '__stack_chk_fail'}
    # declared interface
    def declared(cfg):
        macros, d, extra = cfg
        t = os.path.join(sc, 'all.c')
        hs = sorted(h for h in os.listdir(os.path.join(inc, 'cry')) if h.endswith('.h'))
        with open(t, 'w') as f:
            for h in hs: f.write('#include <cry/%s>\n' % h)
        k = tuple(sorted(macros))
        cmd = [build.CLANG, '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-I' + cfgdir(k), '-I' + inc]
        if d != 8: cmd.append('-DCRY_MPI_DIGIT_MAX=' + MAXV[d])
        r = subprocess.run(cmd + [t], env=build.ENV, capture_output=True, text=True)
        if r.returncode:
            res.findings.append(common.Finding('does-not-compile', 'public headers', 'include/cry', r.stderr.strip().split('\n')[0][:300])); return {}
        out = {}
        cur = [None]
        def loc(n):
            for l in (n.get('loc', {}), n.get('loc', {}).get('expansionLoc', {}), n.get('range', {}).get('begin', {})):
                if 'file' in l: cur[0] = l['file']
        for n in json.loads(r.stdout)['inner']:
            loc(n)
            if n['kind'] == 'FunctionDecl' and cur[0] and '/cry/' in cur[0] and n.get('storageClass') != 'static' and n['name'].startswith('cry_'):
                out[n['name']] = 'include/cry/' + os.path.basename(cur[0])
        return out
    decl = {}
    for c in cfgs[:1] + cfgs[3:4] + cfgs[-1:]: decl.update(declared(c))
    if len(decl) < 120: raise build.CheckError('only %d declarations found in the headers' % len(decl))
    seen = set()
    pairs = 0
    for c in cfgs:
        defs = {}
        und = {}
        bad = False
        for s in srcs:
            x = ok.get(key(s, c))
            if x is None: bad = True; continue
            for n in x[0]: defs.setdefault(n, []).append(s)
            for n in x[1]: und.setdefault(n, s)
        if bad: continue
        lab = '%s, %d byte digits' % (' '.join(sorted(m for m in c[0] if m not in build.CURVE_DEFS)) or 'no tweak', c[1])
        if len(c[0] & set(build.CURVE_DEFS)) != len(build.CURVE_DEFS): lab += ', %d curves' % len(c[0] & set(build.CURVE_DEFS))
        for n, h in decl.items():
            pairs += 1
            if n not in defs and n not in USER and ('m', n) not in seen:
                seen.add(('m', n)); res.findings.append(common.Finding('declared-not-defined', n, h, '%s is declared but no source defines it [%s]' % (n, lab), (), 'declared-not-defined:' + n))
        for n, ss in defs.items():
            if len(ss) > 1 and ('d', n) not in seen:
                seen.add(('d', n)); res.findings.append(common.Finding('defined-twice', n, common.rel(ss[0]), '%s is also defined in %s [%s]' % (n, common.rel(ss[1]), lab), (), 'defined-twice:' + n))
        for n, s in und.items():
            if n not in defs and n not in libc and n not in USER and ('u', n) not in seen:
                seen.add(('u', n)); res.findings.append(common.Finding('undefined-symbol', n, common.rel(s), 'references %s, which nothing defines [%s]' % (n, lab), (), 'undefined-symbol:' + n))
    shutil.rmtree(sc, True)
    res.coverage = dict(evaluations=pairs, distinct_nontrivial=len(jobs),
        rule='evaluations = (configuration, declared function) pairs resolved to exactly one definition; distinct_nontrivial = distinct (source, relevant macros, digit width) compilations type-checked with implicit declarations as errors',
        samples=['%s [%s] %d' % (common.rel(j[0]), ' '.join(j[1])[:80], j[2]) for j in jobs[:8]], configurations=len(cfgs), sources=len(srcs), declared_functions=len(decl))
    res.assumptions = ['clang-18 front end on x86-64', 'libc, libm and libgcc symbols are available to users']
    return res
