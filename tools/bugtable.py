"""Rewrites the table of planted bugs in DESIGN.md (section 4)."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | needs |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs']))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, b = s.index('<!-- bugs -->'), s.index('<!-- end -->')
open(p, 'w').write(s[:a] + '<!-- bugs -->\n' + '\n'.join(rows) + '\n' + s[b:])
