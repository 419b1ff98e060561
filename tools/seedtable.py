"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, re
rows = ['| planted bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/')):
    m = json.load(open(d + 'meta.json')); rows.append('| %s | %s | %s | %s | %s quick |' % (d.split('/')[-2], m['property'], m['needs'], m['what_it_breaks'], m.get('caught_by', m['property'])))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'<!-- seedtable -->.*?<!-- /seedtable -->', lambda _: '<!-- seedtable -->\n' + '\n'.join(rows) + '\n<!-- /seedtable -->', s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
