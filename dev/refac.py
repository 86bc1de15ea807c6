#!/usr/bin/env python3
"""Development helper (not used by any check): applies behaviour-preserving edits to /repo, runs checks, expects silence.
usage: refac.py [--checks C01,C04] [--group g] [id ...]   specs in dev/refactorings*.py: refac(id, checks, edits, group=None)
An edit is (file, old, new) or (file, 'fn:NAME', text): replaces the definition of function NAME.
With --group all edits of that group are applied together and every check runs once on the result."""
import sys, os, re, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
from concurrent.futures import ThreadPoolExecutor
R = []
def refac(id, checks, edits, group=None): R.append((id, checks, edits, group))
here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(glob.glob(os.path.join(here, 'refactorings*.py'))): exec(open(f).read())
ALL = ['C%02d' % i for i in range(1, 27) if i not in (20, 24)]
def apply(edits):
    for f, old, new in edits:
        p = '/repo/' + f; s = open(p).read()
        if old.startswith('fn:'):
            m = [x for x in re.finditer(r'(?ms)^[A-Za-z_][^;{}#()]*?\b%s\([^;{}]*?\)\s*?\n\{.*?^\}\n' % re.escape(old[3:]), s)]
            if len(m) != 1: return '%s %s matches %d times' % (f, old, len(m))
            s = s[:m[0].start()] + new.lstrip('\n') + ('' if new.endswith('\n') else '\n') + s[m[0].end():]
        else:
            if s.count(old) != 1: return '%s matches %d times: %r' % (f, s.count(old), old[:50])
            s = s.replace(old, new)
        open(p, 'w').write(s)
def report(id, c):
    r = plant.sh('python3 check.py ' + c, cwd=plant.ROOT)
    out = [l for l in r.stdout.split('\n') if l and not l.startswith('KNOWN')]
    print('%-28s %s %s' % (id, c, 'quiet' if r.returncode == 0 else 'ALARM rc=%d | %s' % (r.returncode, ' // '.join((out or [r.stderr[-300:]])[:4])[:900])), ('| ' + ' // '.join(l for l in out if 'note:' in l or 'undecided' in l)[:600]) if r.returncode == 0 else '', flush=True)
if __name__ == '__main__':
    args = sys.argv[1:]
    only = group = None
    while args and args[0] in ('--checks', '--group'):
        if args[0] == '--checks': only = args[1].split(',')
        else: group = args[1]
        args = args[2:]
    jobs = []
    if group:
        sel = [x for x in R if x[3] and (group == 'all' or x[3] == group)]
        jobs.append((group, only or ALL, [e for x in sel for e in x[2]]))
    else:
        for id, checks, edits, g in R:
            if args and id not in args: continue
            cs = [c for c in (ALL if checks == '*' else checks.split()) if not only or c in only]
            if cs: jobs.append((id, cs, edits))
    for id, cs, edits in jobs:
        plant.clean()
        try:
            bad = apply(edits)
            if bad: print(id, 'EDIT', bad, flush=True); continue
            ok, why = plant.tests_ok()
            if not ok: print(id, 'FAILS TESTS', why, flush=True); continue
            for c in cs: report(id, c)
        finally: plant.sh('git checkout -- .')
    plant.sh('bash /opt/vp/build.sh'); plant.sh('git checkout -- .')
