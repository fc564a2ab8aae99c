#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md. Names of bugs that are not caught follow as arguments."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
d = open(os.path.join(V, 'DESIGN.md')).read()
head = '| bug | check | needs | caught |\n|---|---|---|---|\n'
d = d[:d.index(head)] + head
for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    d += '| %s | %s | %s | %s |\n' % (b, m['property'], m['needs'], 'no' if b in sys.argv[1:] else 'yes')
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
