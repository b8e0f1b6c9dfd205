"""C13: function parameters equal their mathematical definition."""

import math

import numpy as np
from hypothesis import strategies as st

from checks.c11 import table, table_doc
from harness import nets, pm
from harness.core import Test, require, raises, req_close

TECHNIQUE = "random breakpoints, coefficients and inputs over driven runs, differential against independent implementations of the documented functions"
RULE = ("up to five function parameters whose input is a parameter, a storage or a node's previous flow, evaluated at breakpoints, between them and outside "
        "the data; non-trivial: a parameter takes more than one value (or, out of range, the error is the point of the case)")
NOTE = "Interpolation, quadrature, polynomial, integral and activation parameters have the value of the documented function at the observed input in each generated step."

quart = st.integers(-40, 60).map(lambda x: x / 4.0)
pos = st.integers(0, 60).map(lambda x: x / 4.0)
coef = st.integers(-8, 8).map(lambda x: x / 4.0)
LO, HI = -10.0, 15.0


@st.composite
def points(draw, lo, hi, exact=False):
    """sorted breakpoints that cover [lo, hi], and values"""
    k = draw(st.integers(0, 4))
    inner = draw(st.lists(st.integers(int(lo * 2) + 1, int(hi * 2) - 1).map(lambda x: x / 2.0), min_size=k, max_size=k, unique=True))
    x = [lo] + sorted(inner) + [hi]
    return x, [draw(quart) for _ in x]


@st.composite
def specs(draw):
    n, ns = draw(st.integers(2, 6)), draw(st.integers(1, 3))
    sp = {"n": n, "ns": ns, "maxv": draw(st.sampled_from([16.0, 20.0, 10.0, 16.0, 20.0, 10.0, 0.0])), "ps": [], "order": draw(st.booleans()),
          "node": draw(st.sampled_from(["Link", "Output", "AggregatedNode", "LossLink", "BreakLink"]))}
    sp["init"] = float(draw(st.integers(0, int(sp["maxv"]))))
    whole = st.integers(0, 10).map(lambda x: x / 2.0)
    sp["inflow"] = [[draw(whole) for _ in range(ns)] for _ in range(n)]
    sp["release"] = [[draw(whole) for _ in range(ns)] for _ in range(n)]
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["interp", "interp", "ivolume", "iflow", "quad", "poly", "poly", "poly2", "poly2", "integral", "storage", "binary", "rect", "logistic"]))
        p = {"kind": k}
        if k in ("interp", "ivolume", "iflow"):
            lo, hi = {"interp": (LO, HI), "ivolume": (0.0, sp["maxv"] or 10.0), "iflow": (0.0, 10.0)}[k]
            out = draw(st.sampled_from(["", "", "fill", "extrapolate", "nan"]))
            if out:
                lo, hi = lo + 4.0, hi - 4.0
            p["x"], p["y"] = draw(points(lo, hi))
            p["out"] = out
            p["how"] = draw(st.sampled_from(["linear", "linear", "previous", "next"])) if out in ("", "nan") else "linear"
            if out == "fill":
                p["fill"] = [draw(quart), draw(quart)] if draw(st.booleans()) else draw(quart)
            p["perm"] = draw(st.permutations(range(len(p["x"]))))
            if k == "interp":
                p["in"] = draw(table(quart, n, ns))
        elif k == "quad":
            p["x"], p["y"] = draw(points(LO, HI))
            p["in"] = draw(table(quart, n, ns))
            if draw(st.booleans()):
                p["from"] = draw(table(quart, n, ns))
        elif k == "poly":
            p["c"] = draw(st.lists(coef, min_size=1, max_size=5))
            p["of"] = draw(st.sampled_from(["parameter", "storage", "pc", "flow"]))
            if p["of"] == "parameter":
                p["in"] = draw(table(quart, n, ns))
            p["scale"], p["offset"] = draw(st.sampled_from([None, 0.5, -1.0])), draw(st.sampled_from([None, 1.0, -0.25]))
        elif k == "poly2":
            a, b = draw(st.integers(1, 4)), draw(st.integers(1, 4))
            p["c"] = [[draw(coef) for _ in range(b)] for _ in range(a)]
            p["of"] = draw(st.sampled_from(["storage", "pc"]))
            p["in"] = draw(table(quart, n, ns))
            for q in ("storage_scale", "storage_offset", "parameter_scale", "parameter_offset"):
                p[q] = draw(st.sampled_from([None, None, 0.5, -1.0, 2.0]))
        elif k == "integral":
            m = draw(st.integers(1, 4))
            p["x"] = sorted(draw(st.lists(st.integers(1, 24).map(lambda x: x / 2.0), min_size=m, max_size=m, unique=True)))
            p["y"] = [draw(quart) for _ in p["x"]]
            p["in"] = draw(table(quart, n, ns))
        elif k == "storage":
            p["of"] = draw(st.sampled_from(["storage", "pc"])) if sp["maxv"] else "storage"     # its proportional volume is NaN
        else:
            p["v"] = draw(st.sampled_from([0.0, 1.0, -1.0, 0.5, -0.25, 0.001, 3.0]))
            p["ub"] = draw(st.sampled_from([None, 2.0, 4.0]))
            p["o"] = draw(quart)
            p["lo"] = draw(st.sampled_from([None, 0.0, 1.0]))
            p["g"] = draw(st.sampled_from([None, 0.5, 3.0]))
        sp["ps"].append(p)
    return sp


def function_doc(p):
    k = p["kind"]
    d = {}
    if k in ("interp", "ivolume", "iflow"):
        x, y = [p["x"][j] for j in p["perm"]], [p["y"][j] for j in p["perm"]]
        d = {"type": {"interp": "interpolated", "ivolume": "interpolatedvolume", "iflow": "interpolatedflow"}[k]}
        a, b = {"interp": ("x", "y"), "ivolume": ("volumes", "values"), "iflow": ("flows", "values")}[k]
        d[a], d[b] = x, y
        kw = {}
        if p["how"] != "linear":
            kw["kind"] = p["how"]
        if p["out"]:
            kw["bounds_error"] = False
        if p["out"] == "fill":
            kw["fill_value"] = p["fill"]
        if p["out"] == "extrapolate":
            kw["fill_value"] = "extrapolate"
        if kw:
            d["interp_kwargs"] = kw
        if k == "interp":
            d["parameter"] = table_doc(p["in"], False)
        else:
            d["node"] = "S" if k == "ivolume" else "X"
    elif k == "quad":
        d = {"type": "interpolatedquadrature", "x": p["x"], "y": p["y"], "upper_parameter": table_doc(p["in"], False)}
        if "from" in p:
            d["lower_parameter"] = table_doc(p["from"], False)
    elif k == "poly":
        d = {"type": "polynomial1d", "coefficients": p["c"]}
        if p["of"] == "parameter":
            d["parameter"] = table_doc(p["in"], False)
        elif p["of"] == "flow":
            d["node"] = "X"
        else:
            d["storage_node"] = "S"
            if p["of"] == "pc":
                d["use_proportional_volume"] = True
        for q in ("scale", "offset"):
            if p[q] is not None:
                d[q] = p[q]
    elif k == "poly2":
        d = {"type": "polynomial2dstorage", "coefficients": p["c"], "storage_node": "S", "parameter": table_doc(p["in"], False)}
        if p["of"] == "pc":
            d["use_proportional_volume"] = True
        for q in ("storage_scale", "storage_offset", "parameter_scale", "parameter_offset"):
            if p[q] is not None:
                d[q] = p[q]
    elif k == "integral":
        d = {"type": "piecewiseintegral", "parameter": table_doc(p["in"], False), "x": p["x"], "y": p["y"]}
    elif k == "storage":
        d = {"type": "storage", "storage_node": "S"}
        if p["of"] == "pc":
            d["use_proportional_volume"] = True
    else:
        d = {"type": {"binary": "binarystep", "rect": "rectifier", "logistic": "logistic"}[k], "value": p["v"]}
        if p["ub"] is not None:
            d["upper_bounds"] = p["ub"]
        if k == "binary":
            d["output"] = p["o"]
        else:
            d["max_output"] = p["o"]
        if k == "rect" and p["lo"] is not None:
            d["min_output"] = p["lo"]
        if k == "logistic" and p["g"] is not None:
            d["growth_rate"] = p["g"]
    return d


def document(sp):
    clock = {"step": {"kind": "D", "n": 1, "form": "int", "anchor": None}, "start": "2015-01-01", "n": sp["n"]}
    doc = pm.document(clock, [sp["ns"]] if sp["ns"] > 1 else [])
    k = sp["node"]
    x = {"name": "X", "type": k}
    b = {"name": "b", "type": "Output"}
    doc["edges"] = [["a", "X"], ["X", "b"]]
    if k == "Output":
        b["name"], x = "X", None
        doc["edges"] = [["a", "X"]]
    elif k == "AggregatedNode":
        x["nodes"] = ["a", "b"]
        doc["edges"] = [["a", "b"]]
    elif k == "LossLink":
        x["loss_factor"] = 1.0
    doc["nodes"] = [{"name": "a", "type": "Input", "max_flow": {"type": "veriftable", "table": sp["inflow"]}, "cost": -5.0}, b] + ([x] if x else []) + [
        {"name": "S", "type": "Storage", "max_volume": sp["maxv"], "initial_volume": sp["init"]},
        {"name": "si", "type": "Input", "max_flow": {"type": "veriftable", "table": sp["inflow"]}, "cost": -50.0}, {"name": "sp", "type": "Output", "cost": 1.0},
        {"name": "so", "type": "Output", "max_flow": {"type": "veriftable", "table": sp["release"]}, "cost": -100.0}]
    doc["edges"] += [["si", "S"], ["S", "so"], ["si", "sp"]]
    ps = {"p%d" % i: function_doc(p) for i, p in enumerate(sp["ps"])}
    # the functions are used through a parameter that is evaluated after them
    ps.update({"q%d" % i: {"type": "negative", "parameter": "p%d" % i} for i in range(len(sp["ps"]))})
    doc["parameters"] = {x: ps[x] for x in sorted(ps, reverse=sp["order"])}
    return doc


def poly(c, x):
    y = 0.0
    for a in reversed(c):
        y = y * x + a
    return y


def interpolate(p, v):
    x, y = p["x"], p["y"]
    if v < x[0] or v > x[-1]:
        if p["out"] == "fill":
            f = p["fill"] if isinstance(p["fill"], list) else [p["fill"]] * 2
            return f[0] if v < x[0] else f[1]
        if p["out"] == "extrapolate":
            i = 0 if v < x[0] else len(x) - 2
            return y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i])
        return math.nan
    if p["how"] == "previous":
        return y[max(i for i in range(len(x)) if x[i] <= v)]
    if p["how"] == "next":
        return y[min(i for i in range(len(x)) if x[i] >= v)]
    i = max(i for i in range(len(x) - 1) if x[i] <= v)
    return y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i])


def area(x, y, a, b):
    """integral of the polyline from a to b"""
    if b < a:
        return -area(x, y, b, a)
    tot = 0.0
    for i in range(len(x) - 1):
        l, h = max(x[i], a), min(x[i + 1], b)
        if h > l:
            f = [y[i] + (y[i + 1] - y[i]) * (u - x[i]) / (x[i + 1] - x[i]) for u in (l, h)]
            tot += (h - l) * (f[0] + f[1]) / 2.0
    return tot


def expected(p, vol, pc, flow, t, s):
    k = p["kind"]
    v = p["in"]["v"][t][s] if "in" in p else None
    if k in ("interp", "ivolume", "iflow"):
        return interpolate(p, {"interp": v, "ivolume": vol, "iflow": flow}[k])
    if k == "quad":
        return area(p["x"], p["y"], p["from"]["v"][t][s] if "from" in p else 0.0, v)
    if k == "poly":
        x = {"parameter": v, "storage": vol, "pc": pc, "flow": flow}[p["of"]]
        return poly(p["c"], x * (1.0 if p["scale"] is None else p["scale"]) + (p["offset"] or 0.0))
    if k == "poly2":
        x = {"storage": vol, "pc": pc}[p["of"]]
        x = x * (1.0 if p["storage_scale"] is None else p["storage_scale"]) + (p["storage_offset"] or 0.0)
        y = v * (1.0 if p["parameter_scale"] is None else p["parameter_scale"]) + (p["parameter_offset"] or 0.0)
        return poly([poly(r, y) for r in p["c"]], x)
    if k == "integral":
        tot, prev = 0.0, 0.0
        for a, y in zip(p["x"], p["y"]):
            tot += y * max(min(v, a) - prev, 0.0)
            prev = a
        return tot
    if k == "storage":
        return {"storage": vol, "pc": pc}[p["of"]]
    w = p["v"]
    if k == "binary":
        return p["o"] if w > 0 else 0.0
    if k == "rect":
        lo = p["lo"] or 0.0
        return lo + (p["o"] - lo) * w / (p["ub"] or 1.0) if w > 0 else 0.0
    return p["o"] / (1.0 + math.exp(-(1.0 if p["g"] is None else p["g"]) * w))


def t_functions(sp, ev):
    nets.register()
    model = nets.load(document(sp))
    model.setup()
    X, S = model.nodes["X"], model.nodes["S"]
    n, ns = sp["n"], sp["ns"]
    seen = {}
    flow = [0.0] * ns
    for t in range(n):
        # a store without capacity counts as full
        vol, pc = [float(x) for x in S.volume], [float(x) / sp["maxv"] if sp["maxv"] else 1.0 for x in S.volume]
        model.step()
        for i, p in enumerate(sp["ps"]):
            for s in range(ns):
                want = expected(p, vol[s], pc[s], flow[s], t, s)
                got = float(model.parameters["p%d" % i].get_all_values()[s])
                what = "step %d scenario %d: %s (volume %r, previous flow %r, parameter %r)" % (
                    t, s, p["kind"], vol[s], flow[s], p["in"]["v"][t][s] if "in" in p else None)
                tol = 1e-5 if p["kind"] == "quad" else 1e-7
                req_close(what, got, want, tol, tol * 10)
                req_close(what + ": its user", -float(model.parameters["q%d" % i].get_all_values()[s]), got)
                seen.setdefault(i, set()).add(got)
            ev.tag(p["kind"], *([p["of"]] if "of" in p else []))
        flow = [float(x) for x in X.flow]
    ev.nt(any(len(x) > 1 for x in seen.values()) or any(p["kind"] in ("binary", "rect", "logistic") for p in sp["ps"]))


@st.composite
def ranges(draw):
    x, y = draw(points(0.0, 5.0))
    k = draw(st.sampled_from(["interp", "ivolume", "iflow"]))
    v = draw(st.integers(-8, 40).map(lambda z: z / 4.0))
    if k != "interp":
        v = abs(v)
    return {"x": x, "y": y, "kind": k, "v": v, "lead": draw(st.integers(0, 2)), "out": "", "how": "linear", "perm": list(range(len(x)))}


def t_range(sp, ev):
    """outside the data range a value is refused, inside it is not"""
    nets.register()
    n = sp["lead"] + 2
    v = [1.0] * sp["lead"] + [sp["v"]] * 2
    p = dict(sp, **{"in": {"f": "t", "v": [[x] for x in v]}})
    model = dict(n=n, ns=1, maxv=20.0, init=sp["v"] if sp["kind"] == "ivolume" else 1.0, node="Link", inflow=[[abs(x)] if sp["kind"] == "iflow" else [0.0] for x in v],
                 release=[[0.0]] * n, ps=[p], order=False)
    m = nets.load(document(model))
    ok = 0.0 <= sp["v"] <= 5.0
    ev.tag(sp["kind"], "inside" if ok else "outside")
    ev.nt()
    if ok:
        m.run()
    else:
        raises(ValueError, m.run, "%s of %r with data from 0 to 5" % (sp["kind"], sp["v"]))


TESTS = [Test("functions", specs(), t_functions, 900, 4), Test("range", ranges(), t_range, 100, 1)]
