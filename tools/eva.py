"""Runs Frama-C's Eva plug-in (abstract interpretation, nothing is executed) on harnesses that drive /repo's current sources.

A harness is a C text with a main(); every `//@ check NAME: cond;` in it is an obligation.  Input bytes are unknown,
lengths are enumerated, loops are unrolled by trace partitioning, so the result is a sound over-approximation of every
run with that length.  An alarm, or an obligation Eva cannot establish, is reported."""
import os, re, subprocess, csv, hashlib
import build, common
FRAMAC = '/usr/bin/frama-c'
for _p in os.environ.get('PATH', '').split(':') + ['/usr/local/bin', '/opt/veriftools/bin', '/usr/bin']:
    if os.path.exists(os.path.join(_p, 'frama-c')): FRAMAC = os.path.join(_p, 'frama-c'); break
CFG = build.Config('eva', build.BASE, digit=4)

# copies of zero bytes touch nothing, whatever the pointers; comparison is followed byte by byte
PRE = r'''
#ifndef VPRE_H
#define VPRE_H
#include <stddef.h>
#include <string.h>
static inline int v_memcmp(const void *a, const void *b, size_t n) {
    const unsigned char *x = a, *y = b; size_t i;
    for (i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
#define memcpy(d, s, n) ({ void *v_d = (void *)(d); const void *v_s = (const void *)(s); size_t v_n = (n); if (v_n) memcpy(v_d, v_s, v_n); v_d; })
#define memmove(d, s, n) ({ void *v_d = (void *)(d); const void *v_s = (const void *)(s); size_t v_n = (n); if (v_n) memmove(v_d, v_s, v_n); v_d; })
#define memset(d, c, n) ({ void *v_d = (void *)(d); int v_c = (c); size_t v_n = (n); if (v_n) memset(v_d, v_c, v_n); v_d; })
#define memcmp(a, b, n) v_memcmp(a, b, n)
#endif
'''
PRELUDE = r'''
#include "__fc_builtin.h"
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned char u8;
static int nd(void) { return Frama_C_interval(0, 1); }
static void fill(void *p, size_t n) { size_t i; u8 *q = p; for (i = 0; i < n; i++) q[i] = Frama_C_unsigned_char_interval(0, 255); }
'''

class Row:
    def __init__(self, file, line, func, kind, status, text):
        self.file = file; self.line = line; self.func = func; self.kind = kind; self.status = status; self.text = text
    def alarm(self):
        return self.kind not in ('user check', 'user assertion') and 'clause' not in self.kind and self.kind not in ('postcondition', 'behavior', 'termination clause', 'complete behavior', 'disjoint behavior', 'reachability', 'axiom', 'extended')

class Out:
    def __init__(self): self.rows = []; self.err = None; self.log = ''; self.unknown = []; self.nlines = 0; self.covered = ()

def callgraph():
    m = build.module('default')
    defs = {}
    calls = {}
    for f in m.funcs.values():
        defs[f.name] = f.file
        cs = calls.setdefault(f.name, set())
        for i in f.instrs():
            for t, v in i.args:
                if v[0] == 'g': cs.add(v[1])
            if i.op == 'call' and i.x and i.x[0] == 'g': cs.add(i.x[1])
    return m, defs, calls

_cg = None
def closure(roots, stubs):
    """source files needed for the roots, not descending into stubbed functions"""
    global _cg
    if _cg is None: _cg = callgraph()
    m, defs, calls = _cg
    files = []
    seen = set(stubs)
    work = [r for r in roots]
    gl = {}
    for g in m.globals.values(): pass
    while work:
        n = work.pop()
        if n in seen: continue
        seen.add(n)
        f = defs.get(n)
        if f is None: continue
        if f not in files: files.append(f)
        work += sorted(calls.get(n, ()))
    # a file is compiled as a whole: everything its functions call has to be there too (or Eva never reaches it)
    conflict = {}
    for f in files:
        c = [s for s in stubs if defs.get(s) == f]
        if c: conflict[f] = c
    return files, conflict

def run(name, text, roots, stubs=(), slevel=20000, opts=(), defines=(), timeout=400, precision=3, cfg=None):
    """analyse harness `text`; returns Out"""
    out = Out()
    cfg = cfg or CFG
    d = os.path.join(build.scratch(), 'eva'); os.makedirs(d, exist_ok=True)
    inc = build.include_dir(cfg)
    files, conflict = closure(roots, stubs)
    files = [f if os.path.isabs(f) else os.path.join(build.REPO, f) for f in files]
    conflict = {(f if os.path.isabs(f) else os.path.join(build.REPO, f)): c for f, c in conflict.items()}
    h = os.path.join(d, name + '.c')
    open(h, 'w').write(PRELUDE + text)
    csvf = os.path.join(d, name + '.csv')
    pre = os.path.join(d, name + '.pre.h'); open(pre, 'w').write(PRE)
    cpp = '-include %s -I%s -I%s %s' % (pre, inc, os.path.join(build.REPO, 'src'), ' '.join(list(cfg.cppflags()) + list(defines)))
    cmd = [FRAMAC, '-eva', '-machdep', 'gcc_x86_64', '-cpp-extra-args=' + cpp, '-eva-precision', str(precision), '-eva-slevel', str(slevel), '-eva-ilevel', '256',
           '-eva-no-show-progress', '-eva-verbose', os.environ.get('EVAV','0'), '-kernel-warn-key', 'typing:implicit-conv-void-ptr=inactive',
           '-eva-no-print', '-eva-alloc-builtin', 'fresh', '-eva-split-return', 'full'] + list(opts)
    for f, c in conflict.items():
        # only the definition is renamed; calls from the same file go to the stub like all others
        defs = _cg[0].funcs; src = open(f, encoding='latin1').read().split('\n'); whole = []
        for x in c:
            k = defs[x].line - 1
            if re.search(r'\b%s\b' % x, src[k]): src[k] = re.sub(r'\b%s\b' % x, x + '__real', src[k])
            else: whole.append(x)
        g = os.path.join(d, '%s-%s' % (name, os.path.basename(f)))
        open(g, 'w', encoding='latin1').write('#line 1 "%s"\n' % f + '\n'.join(src))
        cmd.append('-cpp-extra-args-per-file=%s:-I%s %s' % (g, os.path.dirname(f), ' '.join('-D%s=%s__real' % (x, x) for x in whole)))
        files = [g if y == f else y for y in files]
    cmd = [c for c in cmd if c]
    cmd += [h] + files + ['-then', '-report-csv', csvf]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=d, env=dict(build.ENV, PATH=build.ENV['PATH'] + ':' + os.path.dirname(FRAMAC), HOME=d))
    except subprocess.TimeoutExpired:
        out.err = 'time limit'; return out
    out.log = r.stdout + r.stderr
    if r.returncode or not os.path.exists(csvf):
        m = re.search(r'(?:error|user error|Cannot)[^\n]*', out.log)
        out.err = 'Frama-C: ' + (m.group(0) if m else out.log[-300:]).strip()
        return out
    for m in re.finditer(r'Neither code nor specification for function (\w+)|Recursive call|recursive call|using a default specification', out.log):
        out.unknown.append(m.group(1) or m.group(0))
    for row in csv.DictReader(open(csvf, errors='replace'), delimiter='\t', quoting=csv.QUOTE_NONE):
        if row['directory'].startswith('FRAMAC_SHARE'): continue
        out.rows.append(Row(os.path.join(row['directory'], row['file']), int(row['line']), row['function'], row['property kind'], row['status'], row['property']))
    os.unlink(csvf)
    return out


def names(text):
    """line of the harness file -> obligation name"""
    out = {}
    for k, l in enumerate((PRELUDE + text).split('\n'), 1):
        m = re.search(r'//@\s*(?:check|assert)\s+(\w+)\s*:', l)
        if m: out[k] = m.group(1)
    return out

class Verdict:
    def __init__(self): self.failed = []; self.alarms = []; self.obligations = 0; self.unreached = []; self.reached = set()

def judge(out, text, hname):
    """obligations of the harness: failed / held; markers named REACH* must be reached (else the run says nothing)"""
    v = Verdict()
    nm = names(text)
    for r in out.rows:
        mine = os.path.basename(r.file) == hname + '.c'
        dead = r.status in ('Dead', 'Unreachable', 'Valid but dead', 'Invalid but dead', 'Unknown but dead')
        if r.kind in ('user check', 'user assertion') and mine:
            n = nm.get(r.line, '?')
            if n.startswith('REACH'):
                (v.unreached.append(n) if dead else v.reached.add(n)); continue
            v.obligations += 1
            if not dead and not r.status.startswith('Valid') and r.status != 'Considered valid': v.failed.append((n, r))
        elif r.alarm() and not dead:
            v.obligations += 1
            if not r.status.startswith('Valid') and r.status != 'Considered valid': v.alarms.append(r)
    return v

def run_all(jobs, procs=8):
    """jobs: dicts with name, text, roots, stubs and options of run(); -> [(job, Out, Verdict or None)]"""
    closure([], ())
    for j in jobs: build.include_dir(j.get('cfg') or CFG)
    def one(j):
        kw = {k: v for k, v in j.items() if k in ('slevel', 'opts', 'defines', 'timeout', 'precision', 'cfg')}
        o = run(j['name'], j['text'], j['roots'], j.get('stubs', ()), **kw)
        return o, (None if o.err else judge(o, j['text'], j['name']))
    return [(j,) + r for j, r in zip(jobs, common.pmap(one, jobs, procs))]
