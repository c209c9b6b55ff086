#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from a log of seedtest.py: mktable.py LOG..."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(ok|BAD)\s+(\S+) ({.*})', l)
        if m:
            r = json.loads(m[3])
            res.setdefault(m[2], set())
            for k, v in r.items():
                if k.startswith('check '):
                    (res[m[2]].add if v.startswith('CAUGHT') else res[m[2]].discard)(k[6:])
M = '<!-- planted -->'
p = V + '/DESIGN.md'
s = open(p).read().split(M)[0].rstrip() + '\n\n' + M + '\n## Planted changes\n\n'
s += 'Every change is in `seeded/`; "caught by" names the checks that reported it in the quick tier with seed 1 (only the check of its own property was run unless more are named).\n\n| change | what it needs | what it breaks | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    c = res.get(i)
    s += '| %s | %s | %s | %s |\n' % (i, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), 'not run' if c is None else ', '.join(sorted(c)) or '**missed**')
open(p, 'w').write(s)
