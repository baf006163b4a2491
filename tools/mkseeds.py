#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md, from /verif/seeded."""
import json, os, re
ROOT = '/verif'
rows = []
for d in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, d)))
    files = re.findall(r'^\+\+\+ b/(.*)$', open('%s/seeded/%s/patch.diff' % (ROOT, d)).read(), re.M)
    rows.append((m['property'], d, ', '.join(files), m['needs']))
rows.sort()
table = '| caught by | planted bug | file | needs |\n|---|---|---|---|\n' + ''.join('| %s | %s | `%s` | %s |\n' % r for r in rows)
p = ROOT + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- end of seeds -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + table + s[j:])
