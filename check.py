#!/usr/bin/env python3
"""check.py <property> : decides one property from /repo's current source. Exit 0 held, 1 violation, 2 no answer."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'tools'))
import common, build

def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    mod = importlib.import_module('check_' + prop.lower())
    try:
        res = mod.run(tier)
    except build.CheckError as e:
        print('ERROR property=%s the analysis cannot answer: %s' % (prop, e))
        return 2
    known, viol = common.triage(prop, res.findings)
    os.makedirs(common.EVID, exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=mod.LEVEL,
              coverage=res.coverage, assumptions=res.assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    if known: ev['coverage']['known_findings'] = [k for k, _ in known]
    if res.undecided: ev['coverage']['not_decided'] = res.undecided
    with open(os.path.join(common.EVID, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for k, f in known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    rp = os.path.join(common.EVID, prop + '.violation.txt')
    if os.path.exists(rp): os.unlink(rp)
    for u in res.undecided[:10]: print('note: not decided: %s' % u)
    if viol:
        with open(rp, 'w') as f:
            for v in viol: f.write(v.text() + '\n\n')
        for v in viol[:20]: print(v.text())
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('OK property=%s %s' % (prop, json.dumps({k: v for k, v in res.coverage.items() if isinstance(v, (int, bool))})))
    return 0

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
