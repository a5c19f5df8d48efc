#!/usr/bin/env python3
"""Development aid: writes the table of planted changes into DESIGN.md from seeded/*/meta.json and proofseeds' output (a file)."""
import json, os, re, sys
V = '/verif'
st = {}
for l in open(sys.argv[1]):
    p = l.split(None, 3)
    if len(p) >= 3: st[p[0]] = (p[2], p[3] if len(p) > 3 else '')
rows = ['| change | property | needs | proof alone |', '|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    a, b = st.get(s, ('?', ''))
    t = re.match(r'(?:regex )?(?:fn|spec) (\S.*?) -- (\S+ \S+ \S+)', b)
    txt = 'undecided' if a == 'UNDECIDED' else a
    if a == 'FAILED' and t: txt = 'FAILED `%s`' % t.group(1)
    rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '\\|')[:110], txt))
d = open(V + '/DESIGN.md').read()
d = re.sub(r'<!-- table -->.*<!-- /table -->', lambda m: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- /table -->', d, flags=re.S)
open(V + '/DESIGN.md', 'w').write(d)
