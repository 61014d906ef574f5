#!/usr/bin/env python3
"""seeded_table.py LOG...: rewrites the table of planted bugs in DESIGN.md from the logs of planting runs."""
import ast, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for log in sys.argv[1:]:
    for line in open(log):
        try: t = ast.literal_eval(line.strip())
        except Exception: continue
        if len(t) >= 3 and t[2]: res.setdefault(t[0], []).append(t[2][0])
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded"), key=lambda d: (json.load(open(V + "/seeded/%s/meta.json" % d))["property"], d)):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    r = res.get(d, [])
    caught = "; ".join({"CAUGHT": "%s", "missed": "missed at first", "error": "machinery error at first"}.get(x.split(":")[1].split()[0], "%s").replace("%s", x.split(":")[0]) for x in dict.fromkeys(r))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], caught))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
