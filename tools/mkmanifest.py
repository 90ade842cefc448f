"""Writes MANIFEST.json from the checks that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
TECH = ('TLA+ specification (%s) checked with TLC; traces of the real code replayed against the specification by TLC')
SPECS = dict(C01='Clifford', C02='Clifford', C03='Clifford', C04='Clifford', C05='Clifford, Geometry', C06='Clifford, Geometry',
             C07='Geometry', C08='Geometry, LinAlg', C09='Clifford', C10='Geometry', C11='Geometry', C12='LinAlg, Geometry')
exec(open(ROOT + '/tools/levels.py').read())
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(ROOT + '/checks/%s.py' % pid.lower()) and pid not in NOT_CLAIMED:
        checks.append(dict(property=pid, quick_cmd='./check %s' % pid, thorough_cmd='./check %s thorough' % pid,
                           technique=TECH % SPECS_ALL.get(pid, 'Clifford'), level='model_checking', level_note=NOTES.get(pid, NOTE)))
    else:
        na.append(dict(property=pid, reason=NOT_CLAIMED.get(pid, 'check not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks)
if na:
    m['not_applicable'] = na
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
