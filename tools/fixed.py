"""fixed.py ID "what failed" [commit]: records a repair in known_findings.json"""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
c = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"], text=True).strip()
d.setdefault("fixed", []).append("fixed: property=%s %s %s" % (sys.argv[1], c, sys.argv[2]))
json.dump(d, open(p, "w"), indent=1)
print(d["fixed"][-1])
