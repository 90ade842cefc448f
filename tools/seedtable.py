"""rewrites the table of planted bugs in DESIGN.md (between the two markers)"""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property (caught by its check) | needs | breaks |', '|---|---|---|---|']
for p in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(p)), m['property'], m['needs'], m['what_it_breaks']))
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
