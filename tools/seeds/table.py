#!/usr/bin/env python3
"""Fills the table in DESIGN.md from the output of `seeds.py catch` (files given as arguments)."""
import json, re, sys
s = open('/verif/DESIGN.md').read()
rows = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'CATCH (\S+) want (\S+) got (.*)', l)
        if m:
            i, w, g = m.groups()
            try:
                meta = json.load(open('/verif/seeded/%s/meta.json' % i))
            except OSError:
                continue
            rows[i] = (w, i, g.replace('(1)', '').strip(), meta['needs'].replace('|', '\\|'))
t = "| planted bug | breaks | caught by (own check run) | needs |\n|---|---|---|---|\n" + "".join("| `%s` | %s | %s | %s |\n" % (i, w, g, n) for w, i, g, n in sorted(rows.values()))
a, b = '<!-- CATCH TABLE -->', '<!-- END -->'
i, j = s.index(a) + len(a), s.index(b)
open('/verif/DESIGN.md', 'w').write(s[:i] + "\n" + t + s[j:])
print(len(rows))
