#!/usr/bin/env python3
"""seedtable.py SEEDTEST.log...: writes the table of planted bugs into DESIGN.md (kept rows are updated)."""
import sys, os, re, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = open(R + "/DESIGN.md").read()
head, old = D.split("\n## 6. Planted bugs\n", 1)
rows = dict(re.findall(r"^\| ([a-z0-9-]+) \| (.*)$", old, re.M))
for f in sys.argv[1:]:
    for l in open(f):
        p = [x.strip() for x in l.split(" | ")]
        if len(p) < 6 or not os.path.isdir(R + "/seeded/" + p[0]): continue
        m = json.load(open(R + "/seeded/" + p[0] + "/meta.json"))
        c = re.match(r"(C\d+) rc=(\S+) ?(?:clauses (\S+), case (\S+))?", p[5])
        v = "%s: %s (%s)" % (c[1], c[3], c[4]) if c[2] == "1" else "%s: MISSED" % c[1]
        rows[p[0]] = "%s | %s | %s |" % (m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), v)
rows = {k: v for k, v in rows.items() if os.path.isdir(R + "/seeded/" + k)}
note = """
Every row was confirmed with `tools/seedtest.py` (applies, builds, stable tests pass, demo 0 -> nonzero, check run against it);
`tools/seedblame.py` confirms that each changes lines of the original repository.  The last column is the check that reports it, the violated
clause, and the first case.

| seed | breaks | needs | caught by |
|---|---|---|---|
"""
open(R + "/DESIGN.md", "w").write(head + "\n## 6. Planted bugs\n" + note + "".join("| %s | %s\n" % (k, rows[k]) for k in sorted(rows)))
