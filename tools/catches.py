#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (section 8), from seeded/ and tools/missed_first.txt."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = dict(l.rstrip('\n').split(': ', 1) for l in open(os.path.join(V, 'tools/missed_first.txt')) if ': ' in l)
rows = []
for p in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(p))
    i = os.path.basename(os.path.dirname(p))
    rows.append((m['property'], '| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), first.get(i, 'yes'))))
rows.sort()
t = '\n'.join(['| bug | caught by | needs | caught at first? |', '|---|---|---|---|'] + [r[1] for r in rows])
d = os.path.join(V, 'DESIGN.md')
s = open(d).read()
if '@TABLE@' in s:
    s = s.replace('@TABLE@', t + '\n')
else:
    s = s[:s.index('| bug | caught by')] + t + '\n'
s = re.sub(r'has (@N@|\d+) planted bugs', 'has %d planted bugs' % len(rows), s)
open(d, 'w').write(s)
