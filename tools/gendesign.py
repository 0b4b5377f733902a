#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(V, f)).read()
js = lambda f: json.loads(rd(f))
out = [rd("tools/design_head.md"), "## 5. Properties\n"]
how, na = js("tools/design_props.json"), js("tools/na.json")
cost = js("tools/cost.json") if os.path.exists(V + "/tools/cost.json") else {}
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l)
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in na:
        out.append("Not applicable: %s\n" % na[i])
        continue
    c = js("go/%s/check.json" % i.lower())
    out.append(how[i] + "\n")
    out.append("Entries: " + "; ".join("`%s` %s" % (e["name"], e.get("what", "")) + (" (thorough only)" if e.get("tier") == "thorough" else "") for e in c["entries"]) + ".\n")
    for k, t in (("bounds", "Within the bounds"), ("outside", "Outside"), ("assumptions", "Assumed")):
        if c.get(k):
            out.append(t + ":\n" + "".join("- %s\n" % x for x in c[k]))
    if i in cost:
        out.append("Cost: quick about %s s, thorough about %s s on 8 cores.\n" % tuple(cost[i]))
out.append(rd("tools/design_tail.md"))
out.append("| planted bug | property | breaks | caught by |\n|---|---|---|---|")
catch = js("tools/catches.json") if os.path.exists(V + "/tools/catches.json") else {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    out.append("| %s | %s | %s | %s |" % (b, j["property"], j["what_it_breaks"].replace("|", "/").split("\n")[0], ", ".join(catch.get(b, [j["property"] + " (quick)"]))))
open(V + "/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
