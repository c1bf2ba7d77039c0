"""rewrites the table of planted bugs in DESIGN.md"""
import json, os, re
rows = ['| planted bug | what it needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/'), m.get('caught_by', m['property'])))
s = open('/verif/DESIGN.md').read()
a, b = s.index('<!-- seeds -->'), s.index('<!-- /seeds -->')
s = s[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n' + s[b:]
open('/verif/DESIGN.md', 'w').write(s)
