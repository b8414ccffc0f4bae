"""Writes MANIFEST.json from the checks that exist (python3 tools/manifest.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'C01': 'exhaustive for arrays of the listed small sizes, sampled beyond; '
           'supports and sweep rows of recorded real fits checked by TLC',
}
DEFAULT = ('TLC checks every recorded execution against the specification; '
           'the inputs are exhaustive at small scope and sampled beyond; '
           'trusts TLC, the IEEE override of Real.tla and the recorders')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', 'p_%s.py' % i.lower())):
        checks.append(dict(
            property=i, quick_cmd='./check %s quick' % i,
            thorough_cmd='./check %s thorough' % i,
            technique='TLA+ specification, TLC exploration and trace '
                      'validation of the implementation',
            level='model_checking', level_note=NOTES.get(i, DEFAULT)))
    else:
        na.append(dict(property=i, reason='the check is not built yet'))
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: see DESIGN.md. known_findings.txt lists '
               'the defects repaired (fix: commits).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
