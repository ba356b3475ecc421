#!/usr/bin/env python3
"""bug_table.py LANES_OUTPUT: rewrites the table of planted bugs in DESIGN.md from
the output of `lanes.py bugs` and the meta.json files."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(ok|BAD) +(\S+) \[(C\d+)\] (reported by: ((?:C\d+ )+)|quiet)", l)
        if m: seen[m.group(2)] = (m.group(1), (m.group(5) or "").strip())
rows = []
for b in sorted(os.listdir(root + "/seeded")):
    j = json.load(open(f"{root}/seeded/{b}/meta.json"))
    ok, by = seen.get(b, ("?", "?"))
    by = " ".join(dict.fromkeys(by.split()))
    rows.append((j["property"], f"| {b} | {j['property']} | {j['needs']} | {by or 'not reported'} |"))
rows.sort()
p = root + "/DESIGN.md"; s = open(p).read()
mark = "<!-- table by tools/bug_table.py -->\n"
s = s[:s.index(mark) + len(mark)] + "\n| id | property | needs | reported by |\n|---|---|---|---|\n" + "\n".join(r for _, r in rows) + "\n"
open(p, "w").write(s)
print(len(rows), "bugs,", sum(1 for v in seen.values() if v[0] != "ok"), "not ok,", sum(1 for r in rows if "| ? |" in r[1]), "unknown")
