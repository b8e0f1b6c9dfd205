"""Writes DESIGN.md: the text of tools/design.py filled with the properties, checks, planted bugs and defects on record."""
import ast, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import design as D
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]


def consts(path):
    out, tests = {}, []
    for node in ast.walk(ast.parse(open(path).read())):
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("TECHNIQUE", "RULE", "NOTE"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "Test" and node.args and isinstance(node.args[0], ast.Constant):
            n = node.args[3].value if len(node.args) > 3 and isinstance(node.args[3], ast.Constant) else None
            tests.append((node.args[0].value, n))
    return out, tests


kf = json.load(open(os.path.join(here, "known_findings.json")))
fixed = {}
for f in kf["fixed"]:
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", f, re.S)
    fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
planted = {}
sd = os.path.join(here, "seeded")
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    planted.setdefault(m["property"], []).append((i, m))

o = [D.HEAD, "\n## The properties one by one\n"]
for p in props:
    c = p["id"]
    k, tests = consts(os.path.join(here, "checks", c.lower() + ".py"))
    o.append("### %s %s\n" % (c, p["title"]))
    o.append("* **Deciding search**: %s." % k["TECHNIQUE"].rstrip("."))
    o.append("* **Generated / non-trivial**: %s." % k["RULE"].rstrip("."))
    o.append("* **Tests** (cases planned in the quick tier): " + ", ".join("`%s`%s" % (a, " (%d)" % b if b else "") for a, b in tests) + ".")
    if D.ORACLE.get(c):
        o.append("* **Oracle and bounds**: " + D.ORACLE[c])
    if k.get("NOTE"):
        o.append("* **What a pass says**: " + k["NOTE"])
    if D.LEFT.get(c):
        o.append("* **Left out, false alarms corrected**: " + D.LEFT[c])
    if c in fixed:
        o.append("* **Defects it found (repaired)**: " + "; ".join("%s (%s)" % (b, a) for a, b in fixed[c]) + ".")
    for f in kf["findings"]:
        if f["property"] == c:
            o.append("* **Known finding**: " + f["what"] + ".")
    if c in planted:
        o.append("* **Planted bugs**: " + "; ".join("`%s` (needs %s)%s" % (i, m["needs"].strip(), D.PLANTED.get(i, "")) for i, m in planted[c]) + ".")
    o.append("")
o.append(D.TAIL)
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(o))
print(len(props), "properties", sum(map(len, fixed.values())), "repairs", sum(map(len, planted.values())), "planted")
