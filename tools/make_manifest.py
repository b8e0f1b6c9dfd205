"""Writes MANIFEST.json from the check modules that exist."""
import json, os, ast
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    path = os.path.join(here, "checks", p["id"].lower() + ".py")
    if os.path.exists(path):
        doc = {}
        for node in ast.parse(open(path).read()).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("TECHNIQUE", "NOTE"):
                doc[node.targets[0].id] = ast.literal_eval(node.value)
        checks.append({
            "property": p["id"],
            "quick_cmd": "./run.sh %s quick" % p["id"],
            "thorough_cmd": "./run.sh %s thorough" % p["id"],
            "technique": "property-based testing (Hypothesis): " + doc.get("TECHNIQUE", "generated inputs against a reference model"),
            "level": "exploration",
            "level_note": doc.get("NOTE", "Holds on every generated case; absence of violations outside the explored cases is not shown."),
        })
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
