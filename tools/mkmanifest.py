"""Rewrites MANIFEST.json from rules/registry.py and tools/na.json."""
import sys, json
sys.path[:0] = ["/verif/engine", "/verif/rules"]
import registry
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na = json.load(open("/verif/tools/na.json"))
checks = []; rest = []
for i in ids:
    P = registry.PROPS.get(i)
    if P: checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i, "evidence_file": "evidence/%s.json" % i,
                         "technique": P["technique"], "level": P["level"], "level_note": P["note"]})
    else: rest.append({"property": i, "reason": na.get(i, "no rule has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": rest,
     "notes": "Static analysis of the compiler's MIR of /repo's working tree; nothing of dir-signature is executed by a check. See DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(rest), "not:", [r["property"] for r in rest])
