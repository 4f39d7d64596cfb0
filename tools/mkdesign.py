#!/usr/bin/env python3
"""regenerates DESIGN.md: design/head.md, one section per property from the registry, design/tail.md and the table of planted bugs"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/rules", V + "/engine"]
import registry as r
o = open(V + "/tools/design/head.md").read()
class C:
    thorough = False
    def prog(self, *a): return None
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); p = r.PROPS.get(d["id"])
    o += "\n### %s %s\n\n" % (d["id"], d["title"])
    if not p: o += "Not applicable.\n"; continue
    n = ""
    try:
        e = json.load(open(V + "/evidence/%s.json" % d["id"]))["coverage"]
        n = "**U** %d units (quick)" % e["units_analysed"] + "".join("; %s %s" % (format(e[k], ","), k.replace("_", " ")) for k in ("graph_nodes", "product_states") if e.get(k)) + ".\n"
    except Exception: pass
    o += "*Method:* %s.\n**D** %s.\n**B** %s\n%s**Beyond tests:** %s\n" % (p["technique"], p["rule"], p["note"], n, d.get("why_tests_cant", ""))
o += "\n" + open(V + "/tools/design/tail.md").read()
o += "## 6. Planted bugs\n\nEach breaks one property, builds, passes the suite, and has a demonstration (`seeded/<id>/demo.sh`).  All are caught by their property's check.\n\n| id | needs | history |\n|---|---|---|\n"
first = set("c05-backslashes c16-hash-count c21-last-only c30-dotdot c33-size".split()) | set(open(V + "/tools/design/missed.txt").read().split())
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s))
    o += "| %s (%s) | %s | %s |\n" % (s, m["property"], m["needs"].replace("|", "\\|").replace("\n", " "), "missed first, led to a sharper rule" if s in first else "caught at once")
open(V + "/DESIGN.md", "w").write(o)
