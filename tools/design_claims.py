#!/usr/bin/env python3
"""Rewrite the 'Claims:' and 'Rules:' lines of DESIGN.md from what is registered (development only)."""
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import check                      # noqa: E402
from sa.rules import RULES        # noqa: E402

claims = {}
for c in check.all_claims():
    for p in c.props:
        claims.setdefault(p, []).append(c.name)
out, cur = [], None
for line in open(os.path.join(HERE, 'DESIGN.md')).read().split('\n'):
    if line.startswith(('  Claims: ', '  Rules: ')):
        continue
    m = re.match(r'\*\*(C\d\d) ', line)
    if cur and not line.strip():
        if claims.get(cur):
            out.append('  Claims: ' + ', '.join(claims[cur]) + '.')
        if RULES.get(cur):
            out.append('  Rules: ' + ', '.join(f.__name__ for f in RULES[cur]) + '.')
        cur = None
    if m:
        cur = m.group(1)
    out.append(line)
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
