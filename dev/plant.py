#!/usr/bin/env python3
"""Development helper (not used by any check): plants a bug in /repo, confirms it, stores it under seeded/, undoes it.
usage: plant.py spec.py [id ...]      spec.py calls bug(...)
       plant.py --run [id ...]        re-runs the stored bugs against the checks of their property"""
import sys, os, subprocess, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
BASE = None
def sh(cmd, cwd='/repo', timeout=900):
    try: return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 124, '', 'timeout')
def clean():
    r = sh('git status --porcelain')
    if r.stdout.strip(): sys.exit('repo not clean: ' + r.stdout)
def tests_ok():
    r = sh('bash /opt/vp/test.sh /tmp/plant.json')
    if r.returncode: return False, (r.stdout + r.stderr)[-800:]
    b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/plant.json'))
    ids = None
    for k in ('passed', 'tests', 'stable', 'pass'):
        if k in b: ids = set(b[k]); break
    miss = ids - set(t['passed'])
    return not miss, str(sorted(miss)[:5])
PLAIN = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
gcc -w -g -O1 %s -Iinclude -Isrc "$d/demo.c" libcry.a -o "$w/demo" || exit 2
timeout 120 "$w/demo"
'''
ASAN = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
gcc -w -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all %s -Iinclude -Isrc "$d/demo.c" $(find src -name '*.c') -o "$w/demo" || exit 2
export ASAN_OPTIONS=detect_leaks=%d:allocator_may_return_null=1
timeout 120 "$w/demo"
'''
WRAP = '-Wl,--wrap=malloc,--wrap=realloc,--wrap=calloc'
FAULT = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static long g_cnt, g_fail = -1;
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t);
static int hit(void) { return g_fail >= 0 && g_cnt++ == g_fail; }
void *__wrap_malloc(size_t n) { return hit() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t n) { return hit() ? NULL : __real_calloc(a, n); }
void *__wrap_realloc(void *p, size_t n) { return hit() ? NULL : __real_realloc(p, n); }
#define ARM(k) (g_cnt = 0, g_fail = (k))
#define DISARM() (g_fail = -1)
'''
ONLY = set()
def bug(id, prop, needs, breaks, edits, demo, asan=False, leak=0, wrap=False, flags='', raw=None, extra=None):
    if ONLY and id not in ONLY: return
    clean()
    d = os.path.join(SEED, id)
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p).read()
            if s.count(old) != 1: print(id, 'EDIT does not match', f, s.count(old)); return
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff').stdout
        ok, why = tests_ok()
        if not ok: print(id, 'REJECTED by the tests', why); return
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        if raw: open(d + '/demo.sh', 'w').write(raw)
        else:
            fl = flags + (' ' + WRAP if wrap else '')
            open(d + '/demo.sh', 'w').write(ASAN % (fl, leak) if asan else PLAIN % fl)
            open(d + '/demo.c', 'w').write((FAULT if wrap else '') + demo)
        for n, t in (extra or {}).items(): open(d + '/' + n, 'w').write(t)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        r1 = sh('bash %s/demo.sh' % d)
    finally:
        sh('git checkout -- .')
    sh('bash /opt/vp/build.sh')
    r0 = sh('bash %s/demo.sh' % d)
    sh('git checkout -- .')
    good = r0.returncode == 0 and r1.returncode != 0 and r1.returncode != 2
    print(id, 'demo clean=%d bug=%d' % (r0.returncode, r1.returncode), 'OK' if good else 'BAD ' + (r0.stdout + r0.stderr)[-600:] + (r1.stdout + r1.stderr)[-600:], flush=True)
    if not good: shutil.rmtree(d); return
    run_checks([id])
def run_checks(ids):
    for id in ids:
        d = os.path.join(SEED, id)
        meta = json.load(open(d + '/meta.json'))
        clean()
        try:
            r = sh('git apply %s/patch.diff' % d)
            if r.returncode: print(id, 'patch does not apply', r.stderr[:300]); continue
            r = sh('python3 check.py %s' % meta['property'], cwd=ROOT)
            v = [l for l in r.stdout.split('\n') if l and not l.startswith('KNOWN')]
            print('   ', id, meta['property'], 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' in r.stdout else 'MISSED rc=%d' % r.returncode, '|', (v[0] if v else r.stderr[-300:])[:230], flush=True)
        finally:
            sh('git checkout -- .')
if __name__ == '__main__':
    if sys.argv[1] == '--run':
        run_checks(sys.argv[2:] or sorted(os.listdir(SEED)))
    else:
        ONLY = set(sys.argv[2:])
        exec(open(sys.argv[1]).read())
