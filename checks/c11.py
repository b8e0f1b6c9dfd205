"""C11: control curves select and interpolate by current storage."""

import numpy as np
from hypothesis import strategies as st

from harness import nets, pm
from harness.core import Test, Violation, require, req_close

TECHNIQUE = "random storages, curves and values over runs, differential against the band (or interpolation) of the volume observed at the start of the step"
RULE = ("one storage, aggregated storage or virtual storage driven by random flows, one to four control-curve parameters with up to four curves "
        "that vary in time and between scenarios, volumes often exactly on a curve; non-trivial: a parameter takes more than one value")
NOTE = "Every control-curve parameter has the documented value for the volume at the start of each generated time-step, and drives flow with it."

exact = st.one_of(st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0]), st.integers(0, 16).map(lambda x: x / 16.0))
near = st.tuples(exact, st.sampled_from([-1, 1])).map(lambda x: min(1.0, max(0.0, x[0] + x[1] / 512.0)))
levels = st.one_of(exact, exact, near)
nums = st.integers(-40, 40).map(lambda x: x / 4.0)


@st.composite
def table(draw, base, n, ns):
    """a value or a table [t][s], with the form of the parameter document"""
    form = draw(st.sampled_from(["number", "constant", "t", "s", "ts"]))
    if form in ("number", "constant"):
        v = draw(base)
        return {"f": form, "v": [[v] * ns for _ in range(n)]}
    if form == "t":
        return {"f": form, "v": [[x] * ns for x in [draw(base) for _ in range(n)]]}
    if form == "s":
        row = [draw(base) for _ in range(ns)]
        return {"f": form, "v": [list(row) for _ in range(n)]}
    return {"f": form, "v": [[draw(base) for _ in range(ns)] for _ in range(n)]}


def table_doc(t, number=True):
    v = t["v"]
    if t["f"] == "number" and number:
        return v[0][0]
    if t["f"] in ("number", "constant"):
        return {"type": "constant", "value": v[0][0]}
    if t["f"] == "t":
        return {"type": "arrayindexed", "values": [r[0] for r in v]}
    return {"type": "veriftable", "table": v}


@st.composite
def specs(draw):
    n = draw(st.integers(1, 8))
    ns = draw(st.integers(1, 3))
    mx = draw(st.sampled_from([16.0, 16.0, 20.0, 7.0]))
    sp = {"n": n, "ns": ns, "maxv": mx, "init": draw(levels) * mx, "minv": draw(st.sampled_from([0.0, 0.0, 0.25])) * mx,
          "kind": draw(st.sampled_from(["Storage", "Storage", "AggregatedStorage", "VirtualStorage"])),
          "inflow": [[float(draw(st.integers(0, 6))) for _ in range(ns)] for _ in range(n)],
          "demand": [[float(draw(st.integers(0, 6))) for _ in range(ns)] for _ in range(n)], "ps": []}
    sp["init"] = max(sp["init"], sp["minv"])
    if sp["kind"] == "Storage" and draw(st.integers(0, 9)) == 0:
        sp["maxv"] = sp["init"] = sp["minv"] = 0.0
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["interp", "piecewise", "index", "value", "value", "default"]))
        m = draw(st.integers(1, 4))
        cs = [draw(table(levels, n, ns)) for _ in range(m)]
        # curves are given from the highest to the lowest
        forms = {c["f"] for c in cs}
        if len(forms) > 1 and m > 1:
            for c in cs:
                c["f"] = "ts"
        stack = np.sort(np.array([c["v"] for c in cs]), axis=0)[::-1]
        for c, v in zip(cs, stack):
            c["v"] = v.tolist()
        p = {"kind": kind, "curves": cs, "params": draw(st.booleans()), "single": draw(st.booleans())}
        if kind == "piecewise":
            p["values"] = [[draw(nums), draw(nums)] for _ in range(m + 1)]
            if draw(st.booleans()):
                p["min"] = min(draw(st.sampled_from([0.0, 0.125])), float(stack.min()))
                p["max"] = max(draw(st.sampled_from([1.0, 0.875])), float(stack.max()))
        elif kind in ("interp", "value"):
            k = m + (2 if kind == "interp" else 1)
            p["values"] = [draw(table(nums, n, ns)) if p["params"] else draw(nums) for _ in range(k)]
        sp["ps"].append(p)
    return sp


def document(sp):
    clock = {"step": {"kind": "D", "n": 1, "form": "int", "anchor": None}, "start": "2015-01-01", "n": sp["n"]}
    doc = pm.document(clock, [sp["ns"]] if sp["ns"] > 1 else [])
    big = 100.0
    doc["nodes"] = [{"name": "inflow", "type": "Input", "max_flow": {"type": "veriftable", "table": sp["inflow"]}, "cost": -50.0},
                    {"name": "spill", "type": "Output", "cost": 10.0}, {"name": "demand", "type": "Output", "cost": -100.0,
                                                                       "max_flow": {"type": "veriftable", "table": sp["demand"]}}]
    if sp["kind"] == "VirtualStorage":
        doc["nodes"] += [{"name": "X", "type": "VirtualStorage", "nodes": ["demand", "inflow"], "factors": [1.0, -0.5], "max_volume": sp["maxv"],
                          "min_volume": sp["minv"], "initial_volume": sp["init"]}, {"name": "free", "type": "Input"}]
        doc["edges"] = [["inflow", "spill"], ["free", "demand"]]
    else:
        name = "X" if sp["kind"] == "Storage" else "A"
        doc["nodes"].append({"name": name, "type": "Storage", "max_volume": sp["maxv"], "min_volume": sp["minv"], "initial_volume": sp["init"]})
        doc["edges"] = [["inflow", name], ["inflow", "spill"], [name, "demand"]]
        if sp["kind"] == "AggregatedStorage":
            doc["nodes"] += [{"name": "B", "type": "Storage", "max_volume": 4.0, "initial_volume": 1.0}, {"name": "bi", "type": "Input", "max_flow": 1.0,
                             "cost": -1.0}, {"name": "bo", "type": "Output", "max_flow": 0.5}, {"name": "X", "type": "AggregatedStorage", "storage_nodes": ["A", "B"]}]
            doc["edges"] += [["bi", "B"], ["B", "bo"]]
    for i, p in enumerate(sp["ps"]):
        cs = [table_doc(c) for c in p["curves"]]
        d = {"storage_node": "X"}
        d["type"] = {"interp": "controlcurveinterpolated", "piecewise": "controlcurvepiecewiseinterpolated", "index": "controlcurveindex"}.get(p["kind"], "controlcurve")
        if len(cs) == 1 and p["single"] and p["kind"] != "index":
            d["control_curve"] = cs[0]
        else:
            d["control_curves"] = cs
        if p["kind"] == "piecewise":
            d["values"] = p["values"]
            if "min" in p:
                d["minimum"], d["maximum"] = p["min"], p["max"]
        elif "values" in p:
            d["parameters" if p["params"] else "values"] = [table_doc(v, False) for v in p["values"]] if p["params"] else p["values"]
        doc["parameters"]["p%d" % i] = d
    doc["parameters"]["drive"] = {"type": "max", "parameter": "p0", "threshold": 0.0}
    doc["nodes"] += [{"name": "ci", "type": "Input"}, {"name": "co", "type": "Output", "max_flow": "drive", "cost": -1.0}]
    doc["edges"].append(["ci", "co"])
    if sp["kind"] == "VirtualStorage":
        doc["nodes"].sort(key=lambda x: x["type"] == "VirtualStorage")
    return doc


def expected(p, pc, t, s):
    """the set of admissible values (more than one only where two curves coincide with the volume)"""
    c = [x["v"][t][s] for x in p["curves"]]

    def v(j):
        x = p["values"][j]
        return x["v"][t][s] if isinstance(x, dict) else x
    band = next((j for j, x in enumerate(c) if pc >= x), len(c))
    if p["kind"] in ("index", "default"):
        return [float(band)]
    if p["kind"] == "value":
        return [v(band)]
    if p["kind"] == "piecewise":
        top = ([p.get("max", 1.0)] + c)[band]
        low = (c + [p.get("min", 0.0)])[band]
        a, b = p["values"][band]
        if top == low:
            return [a, b]
        return [b + (a - b) * min(max((pc - low) / (top - low), 0.0), 1.0)]
    x = [1.0] + c + [0.0]
    same = [v(j) for j in range(len(x)) if x[j] == pc]
    if len(same) > 1:
        return same
    return [float(np.interp(pc, x[::-1], [v(j) for j in range(len(x))][::-1]))]


def t_curves(sp, ev):
    nets.register()
    model = nets.load(document(sp))
    model.setup()
    node = model.nodes["X"]
    ev.tag(sp["kind"])
    seen = {}
    for t in range(sp["n"]):
        combos = model.scenarios.combinations
        pcs = [node.get_current_pc(si) for si in combos]
        for s in range(sp["ns"]):
            mx = sp["maxv"] + (4.0 if sp["kind"] == "AggregatedStorage" else 0.0)
            req_close("step %d: proportional volume" % t, pcs[s], min(max(float(node.volume[s]) / mx, 0.0), 1.0) if mx else 1.0, 1e-9, 1e-9)
        model.step()
        for i, p in enumerate(sp["ps"]):
            par = model.parameters["p%d" % i]
            for s in range(sp["ns"]):
                want = expected(p, pcs[s], t, s)
                got = float(par.get_all_values()[s])
                what = "step %d scenario %d, %r full: %s with curves %r" % (t, s, pcs[s], p["kind"], [x["v"][t][s] for x in p["curves"]])
                if not any(abs(got - w) <= 1e-9 * (1 + abs(w)) for w in want):
                    raise Violation("%s: got %r, expected %r" % (what, got, want))
                if p["kind"] == "index":
                    require(par.get_all_indices()[s] == want[0], what + ": index %r, expected %r" % (par.get_all_indices()[s], want))
                if i == 0:
                    req_close(what + ": flow limited by it", model.nodes["co"].flow[s], max(got, 0.0), 1e-6, 1e-6)
                seen.setdefault(i, set()).add(got)
                if any(pcs[s] == x["v"][t][s] for x in p["curves"]):
                    ev.tag("on a curve")
            ev.tag(p["kind"])
    ev.nt(any(len(x) > 1 for x in seen.values()))


TESTS = [Test("curves", specs(), t_curves, 1600, 1)]
