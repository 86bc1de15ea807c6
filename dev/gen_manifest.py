#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = []
def c(id, technique, level, note):
    C.append(dict(property=id, quick_cmd='python3 check.py %s' % id, thorough_cmd='python3 check.py %s --thorough' % id,
                  evidence_file='evidence/%s.json' % id, technique=technique, level=level, level_note=note))
exec(open(os.path.join(ROOT, 'dev', 'manifest_data.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
claimed = {x['property'] for x in C}
for p in props:
    if p not in claimed and p not in NA: NA[p] = 'check under construction'
m = dict(version=1, setup_cmd='true', checks=C,
         not_applicable=[dict(property=p, reason=NA[p]) for p in props if p not in claimed],
         notes='Static analysis only: LLVM IR (clang-18) based analyses in tools/, Frama-C Eva (abstract interpretation) for memory safety. No code of the library is run by any check.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(C), 'claimed')
