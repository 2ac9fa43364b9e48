#!/usr/bin/env python3
"""Add to spec/chars.json the code (order) of every character that the generators write down."""
import glob, json, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'spec', 'chars.json')
d = json.load(open(p))
have = set(d['hidden']) | set(d['rare'].values())
for f in glob.glob(os.path.join(V, 'lib', '*.py')):
    s = open(f, encoding='utf8').read()
    have |= set(s)
    have |= {chr(int(h, 16)) for h in re.findall(r'\\[uU]0*([0-9a-fA-F]{2,6})', s) if int(h, 16) < 0x110000}
    have |= {c.lower() for c in have} | {c.upper() for c in have}
have = {c for c in have if len(c) == 1}
code = {}
for c in have:
    if ord(c) > 398:
        if ord(c) > 0xffff or 0xd800 <= ord(c) < 0xe000:      # as two halves, above all others
            u = ord(c) - 0x10000
            for h in ([0xd800 + (u >> 10), 0xdc00 + (u & 0x3ff)] if u >= 0 else [ord(c)]):
                code[chr(h)] = 0x10000 + h
        else:
            code[c] = ord(c) + 1
d['code'] = dict(sorted(code.items(), key=lambda x: x[1]))
json.dump(d, open(p, 'w'))
