#!/usr/bin/env python3
# writes DESIGN.md from tools/DESIGN.in.md, known_findings.json and seeded/*/meta.json
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(here + "/tools/DESIGN.in.md").read()
kf = json.load(open(here + "/known_findings.json"))
fx = {}
for k in kf:
    if k["status"] == "fixed":
        fx.setdefault(k["property"], []).append(k["record"].split(" ", 2)[2])
t = t.replace("@FIXES@", "\n".join("* **%s**\n%s" % (p, "\n".join("  * `%s` %s" % tuple(r.split(" ", 1)) for r in fx[p])) for p in sorted(fx)))
rows = ["| seed | property | needs | caught by its check |", "|---|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json") + glob.glob(here + "/planted_more/*/meta.json"), key=lambda p: p.split("/")[-2]):
    m = json.load(open(d))
    one = lambda s: " ".join(str(s).split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], one(m["what_it_breaks"]) + " — " + one(m["needs"]), m.get("caught", "yes")))
t = t.replace("@SEEDS@", "\n".join(rows)).replace("@MORE@\n", "").replace("@OPEN@\n", "")
open(here + "/DESIGN.md", "w").write(t)
