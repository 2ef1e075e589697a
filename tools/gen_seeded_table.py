#!/usr/bin/env python3
# Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json and a JSON file
# {id: "id Cxx rc=.. n | first message"} of detection results (argument 1).
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(sys.argv[1]))
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    r = res.get(i, '')
    k = re.search(r'\|\s+(.*)', r)
    what = k.group(1) if k else ''
    kind = what.split(':')[0] if what else ''
    rows.append('| %s | %s | %s | %s |' % (i, m['needs'].replace('|', '/'), m['property'], ('caught (%s)' % kind) if ' rc=1 ' in r else 'not caught' if r else 'not run'))
d = open(V + '/DESIGN.md').read()
t = '<!-- seeded -->\n| change | needs | check | result |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
d = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
print(len(rows), 'rows', sum('not caught' in r for r in rows), 'missed')
