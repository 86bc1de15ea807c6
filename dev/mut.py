#!/usr/bin/env python3
"""Development helper (not used by any check): quick mutants.  usage: mut.py CHECK[,CHECK] specfile [ids]; spec: M('id', file, old, new [, file, old, new]) ; Q(...) expects quiet"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
L = []
def M(id, *e): L.append((id, e, 1))
def Q(id, *e): L.append((id, e, 0))
exec(open(sys.argv[2]).read())
only = sys.argv[3:]
for id, e, want in L:
    if only and id not in only: continue
    plant.clean()
    try:
        bad = None
        for k in range(0, len(e), 3):
            p = '/repo/' + e[k]; s = open(p).read()
            if s.count(e[k+1]) < 1: bad = 'no match'; break
            open(p, 'w').write(s.replace(e[k+1], e[k+2], 1))
        if bad: print(id, 'EDIT', bad, e[k+1]); continue
        for c in sys.argv[1].split(','):
            r = plant.sh(('C11_ONLY=%s ' % id.split('@')[1] if '@' in id else '') + 'python3 check.py ' + c, cwd=plant.ROOT)
            out = [l for l in r.stdout.split('\n') if l and not l.startswith('KNOWN') and not l.startswith('OK ')]
            v = {0: 'quiet', 1: 'caught'}.get(r.returncode, 'rc=%d' % r.returncode)
            ok = (r.returncode == want)
            print('%-24s %s %-7s %s | %s' % (id, c, v, '' if ok else '<<<<<<', (out or [r.stderr[-200:]])[0][:170]), flush=True)
    finally: plant.sh('git checkout -- .')
