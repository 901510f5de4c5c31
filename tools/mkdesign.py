"""fills the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json"""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property (its check catches it) | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs']))
f = R + '/DESIGN.md'
s = open(f).read()
b = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->\n'
s = s.replace('@SEEDS@\n', b) if '@SEEDS@' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->\n', lambda m: b, s, flags=re.S)
open(f, 'w').write(s)
