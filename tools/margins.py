#!/usr/bin/env python3
"""margins.py LANES_OUTPUT...: how late in its quick tier each planted bug is found."""
import re, glob, sys
q = {}
for f in glob.glob('/verif/sim/src/props/*.rs'):
    for m in re.finditer(r'id: "(C\d+)".*?quick: ([\d_]+)', open(f).read(), re.S): q[m[1]] = int(m[2].replace('_', ''))
rows = []
for f in sys.argv[1:]:
    for l in open(f):
        m = re.search(r'^ok\s+(\S+) \[(C\d+)\].*? violation in run (\d+)', l)
        if m: rows.append((int(m[3]) / q[m[2]], m[1], m[2], int(m[3]), q[m[2]]))
for r in sorted(rows, reverse=True)[:25]: print("%.3f %s %s run %d of %d" % r)
print(len(rows))
