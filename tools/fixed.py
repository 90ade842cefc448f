import json, sys
import os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json')
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d['findings'].append(dict(property=prop, key='', status='fixed', what='fixed: property=%s %s %s' % (prop, commit, what)))
json.dump(d, open(p, 'w'), indent=1)
