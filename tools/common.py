"""Shared by the checks: findings, known findings, parallel map."""
import os, re, multiprocessing as mp
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known-findings.txt')

class Finding:
    """a specific construct that breaks a rule"""
    def __init__(self, rule, func, where, msg, trace=(), ident=None):
        self.rule = rule; self.func = func; self.where = where; self.msg = msg; self.trace = list(trace)
        self.ident = ident or '%s:%s' % (rule, func)
    def text(self):
        s = '%s: in %s: %s [rule %s]' % (self.where, self.func, self.msg, self.rule)
        return s + ''.join('\n      path: ' + t for t in self.trace)

class Result:
    def __init__(self):
        self.findings = []; self.coverage = {}; self.assumptions = []; self.undecided = []

def known_list(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) ident=(\S+) (.*)$', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def triage(prop, findings):
    kn = known_list(prop)
    known = []; viol = []
    left = list(kn)
    for f in findings:
        for k in left:
            if k[0] == f.ident:
                left.remove(k); known.append(('%s (%s)' % (k[1], f.where), f)); break
        else: viol.append(f)
    return known, viol

_job = None
def _call(x):
    return _job(x)
def pmap(fn, items, procs=8):
    """fork based map; fn may close over big parsed modules"""
    global _job
    _job = fn
    items = list(items)
    if len(items) <= 1 or procs == 1: return [fn(x) for x in items]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(items))) as p:
        return p.map(_call, items, 1)

def rel(path):
    return path.replace(os.environ.get('VERIF_REPO', '/repo').rstrip('/') + '/', '')
