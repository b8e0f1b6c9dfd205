"""C29: the bisection search returns the largest feasible value."""

import copy
import io
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from harness import cal, nets, pm, rich
from harness.core import Test, Violation, req_close, req_equal

TECHNIQUE = "property-based testing: random search problems on random whole models, judged by running plain models at the value found, one tolerance above it and at the bounds"
RULE = ("a reservoir in a random whole model whose failures grow with one of four kinds of parameter, limits below, inside and above the bounds, tolerances over three decades; "
        "non-trivial: the limit is inside the bounds by more than the tolerance, or the set-up is invalid and refused")
NOTE = "The value found is feasible and no value one tolerance above it is; every result afterwards is that of a plain run at this value; errors are raised exactly when they should be."


@st.composite
def problems(draw):
    sp = draw(rich.models(blocks=1, params=2, recs=2))
    c = rich.Ctx(draw, sp["clock"], sp["scen"])
    days = (pm.steps(sp["clock"])[0][1] - pm.steps(sp["clock"])[0][0]).days
    kind = draw(st.sampled_from(["constant", "constant", "constant", "rectifier", "controlcurve", "logistic"]))
    lo = float(draw(st.integers(-4, 10)))
    hi = lo + draw(st.sampled_from([0.5, 2.0, 7.0, 20.0]))
    if kind == "rectifier":
        hi = max(hi, 1.0)
    down = draw(st.integers(0, 2)) == 0
    x = {"type": kind, "value": lo + 0.3 * (hi - lo), "lower_bounds": lo, "upper_bounds": hi, "is_variable": draw(st.booleans())}
    if kind == "constant":
        if draw(st.booleans()):
            x.update(scale=draw(st.sampled_from([0.5, 2.0])), offset=draw(st.sampled_from([0.0, 1.25])))
    elif kind in ("rectifier", "logistic"):
        x["max_output"] = c.num(5, 12)
        if kind == "logistic":
            x["growth_rate"] = draw(st.sampled_from([0.25, 0.5]))
    else:
        x = {"type": "controlcurve", "storage_node": "bstore", "control_curves": [-0.5], "values": [x["value"], 3.0], "lower_bounds": [lo], "upper_bounds": [hi],
             "variable_indices": [0], "is_variable": x["is_variable"]}
    doc = sp["doc"]
    doc["parameters"]["x"] = x
    base = ["x"]
    if draw(st.booleans()):
        base.append({"type": "monthlyprofile", "values": [round(0.7 + 0.1 * ((5 * m + 2) % 7), 6) for m in range(12)]})
    want = {"type": "aggregated", "agg_func": "product", "parameters": base}
    if down:
        want = {"type": "aggregated", "agg_func": "sum", "parameters": [{"type": "constant", "value": c.num(8, 30)}, {"type": "negative", "parameter": want}]}
    doc["parameters"]["bdemand"] = {"type": "max", "parameter": want, "threshold": 0.0}
    top = c.num(5, 60) * days
    inflow = "p0" if "p0" in doc["parameters"] and rich_static(doc, "p0") and draw(st.booleans()) else {"type": "monthlyprofile", "values": c.vals(12, 0, 9)}
    doc["parameters"]["binflow"] = {"type": "max", "parameter": inflow, "threshold": 0.0}
    doc["nodes"] += [{"name": "bcat", "type": "Catchment", "flow": "binflow"},
                     {"name": "bstore", "type": "Storage", "max_volume": top, "initial_volume": round(top * draw(st.sampled_from([1.0, 0.31, 0.0])), 6), "cost": -0.5},
                     {"name": "bdem", "type": "Output", "max_flow": "bdemand", "cost": -100.0},
                     {"name": "bspill", "type": "Output", "cost": 70.0}]
    doc["edges"] += [["bcat", "bstore"], ["bstore", "bdem"], ["bstore", "bspill"]]
    agg = lambda: {"agg_func": draw(st.sampled_from(["sum", "mean", "max", "min"]))}
    recs = {}
    for k in range(draw(st.integers(1, 2))):
        if down:
            t = draw(st.sampled_from(["totalflownode", "meanflownode"]))
            recs["b%d" % k] = (dict({"type": t, "node": "bdem"}, **agg()), "lower")
        else:
            t = draw(st.sampled_from(["totaldeficitnode", "totaldeficitnode", "minimumvolumestorage", "deficitfrequencynode"]))
            recs["b%d" % k] = (dict({"type": t, "node": "bstore" if "storage" in t else "bdem"}, **agg()), "lower" if "storage" in t else "upper")
    # "growing": feasible below a limit. The mirror image (feasible when x is large) is the same problem in -x.
    sp["limits"] = {}
    for k, (d, side) in recs.items():
        doc["recorders"][k] = d
        sp["limits"][k] = side if not down else "upper"
    sp["down"] = down
    sp["at"] = draw(st.sampled_from([-0.2173, 0.0391, 0.1173, 0.3379, 0.6131, 0.8857, 0.9711, 1.2931]))
    sp["both"] = draw(st.integers(0, 3)) == 0
    sp["eps"] = (hi - lo) * draw(st.sampled_from([0.3, 0.1, 0.01, 0.003, 2.0]))
    sp["bounds"] = [lo, hi]
    sp["error"] = draw(st.sampled_from([True, True, False, None]))
    sp["form"] = draw(st.sampled_from(["dict", "dict", "text", "file", "include", "attributes", "object", "api"]))
    sp["again"] = draw(st.booleans())
    return sp


def rich_static(doc, name):
    return doc["parameters"][name]["type"] in rich.STATIC


def with_value(doc, v):
    doc = copy.deepcopy(doc)
    x = doc["parameters"]["x"]
    if x["type"] == "controlcurve":
        x["values"][0] = v
    else:
        x["value"] = v
    return doc


def plain(doc, v):
    model = rich.load(with_value(doc, v))
    watch = rich.watcher(model)
    model.run()
    return rich.results(model, watch)


def judge(doc, res, limits):
    """True, False or None when it is too close to say"""
    out = True
    for k in limits:
        d = doc["recorders"][k]
        v = float(res["aggregated value of recorder %s" % k])
        tol = 1e-6 * max(1.0, abs(v))
        for bound, s in ((d.get("constraint_upper_bounds"), 1.0), (d.get("constraint_lower_bounds"), -1.0)):
            if bound is None:
                continue
            gap = s * (v - bound)
            if gap > tol:
                return False
            if gap > -tol:
                out = None
    return out


def build(doc, sp, folder):
    from pywr.utils.bisect import BisectionSearchModel
    nets.register()
    doc = copy.deepcopy(doc)
    b = {"parameter": "x", "epsilon": sp["eps"]}
    if sp["error"] is not None:
        b["error_on_infeasible"] = sp["error"]
    form = sp["form"]
    if form == "api":
        # a model made first and filled from the document, which knows nothing of the search
        kw = {} if sp["error"] is None else {"error_on_infeasible": sp["error"]}
        t, s = doc["timestepper"], dict(doc.get("solver") or {})
        m = BisectionSearchModel(bisect_parameter="x", bisect_epsilon=sp["eps"], start=t["start"], end=t["end"], timestep=t["timestep"],
                                 solver=s.pop("name", None), solver_args=s, **kw)
        return BisectionSearchModel.load(doc, model=m)
    if form in ("attributes", "object"):
        m = BisectionSearchModel.load(doc)
        m.bisect_parameter, m.bisect_epsilon = "x", sp["eps"]
        if form == "object":
            m.bisect_parameter = m.parameters["x"]
        if sp["error"] is not None:
            m.error_on_infeasible = sp["error"]
        return m
    if form == "include":
        with open(os.path.join(folder, "b.json"), "w") as f:
            json.dump({"bisection": b}, f)
        doc["includes"] = ["b.json"]
    else:
        doc["bisection"] = b
    if form == "dict":
        return BisectionSearchModel.load(doc)
    if form == "text":
        return BisectionSearchModel.load(io.StringIO(json.dumps(doc)))
    p = os.path.join(folder, "m.json")
    with open(p, "w") as f:
        json.dump(doc, f)
    return BisectionSearchModel.load(p)


def t_search(sp, ev):
    doc = rich.document(sp)
    lo, hi = sp["bounds"]
    # limits: the values that a plain run at some place has
    mark = plain(doc, lo + sp["at"] * (hi - lo))
    for k, side in sp["limits"].items():
        v = float(mark["aggregated value of recorder %s" % k])
        sign = flip(sp, doc, k)
        d = doc["recorders"][k]
        d["constraint_%s_bounds" % sign] = v
        if sp["both"]:
            d["constraint_%s_bounds" % ("lower" if sign == "upper" else "upper")] = v + (-1e6 if sign == "upper" else 1e6)
    eps = sp["eps"]
    runs = {}

    def at(v):
        if v not in runs:
            runs[v] = plain(doc, v)
        return judge(doc, runs[v], sp["limits"])
    with tempfile.TemporaryDirectory() as folder:
        model = build(doc, sp, folder)
        watch = rich.watcher(model)
        for turn in range(2 if sp["again"] else 1):
            failed = None
            try:
                model.run()
            except ValueError as e:
                failed = e
            if failed is not None:
                if sp["error"] is False:
                    raise Violation("an error is raised although errors are switched off: %r" % failed)
                if eps < hi - lo and at(lo + eps) is True:
                    raise Violation("nothing found (%s) but %r is feasible, the bounds are %r and the tolerance %r" % (failed, lo + eps, [lo, hi], eps))
                ev.tag("refused: infeasible")
                if eps < hi - lo and at(lo) is True:
                    ev.tag("limit within the tolerance of the lower bound")
                continue
            best = float(model.parameters["x"].get_double_variables()[0])
            if not lo - 1e-12 <= best <= hi + 1e-12:
                raise Violation("the value found %r is not within the bounds %r" % (best, [lo, hi]))
            ok = at(best)
            if ok is False:
                if sp["error"] is not False:
                    raise Violation("the value found %r is not feasible (bounds %r, tolerance %r)" % (best, [lo, hi], eps))
                req_close("value used when nothing is feasible", best, lo, 1e-12, 1e-12)
                if eps < hi - lo and at(lo + eps) is True:
                    raise Violation("nothing found, but %r is feasible" % (lo + eps))
                ev.tag("lower bound used")
            elif best + eps <= hi and not (sp["error"] is False and eps >= hi - lo):
                if at(best + eps) is True:
                    raise Violation("found %r, but %r is feasible as well (bounds %r, tolerance %r)" % (best, best + eps, [lo, hi], eps))
            rich.compare("after the search, against a plain run at %r" % best, rich.results(model, watch), runs[best])
            req_equal("feasible afterwards", bool(model.is_feasible()), ok is True) if ok is not None else None
            ev.nt(ok is True and eps < hi - lo and at(hi) is False)
            ev.tag("found near the top" if best + eps > hi else "found inside")
    ev.tag(doc["parameters"]["x"]["type"], "form " + sp["form"], "tolerance %g" % (eps / (hi - lo)), "solver " + doc["solver"]["name"], *[doc["recorders"][k]["type"] for k in sp["limits"]])


def flip(sp, doc, k):
    """the side on which the recorder's value fails when x grows"""
    t = doc["recorders"][k]["type"]
    return "lower" if t in ("totalflownode", "meanflownode", "minimumvolumestorage") else "upper"


# ---------------------------------------------------------------------------------------------------------------

@st.composite
def invalid(draw):
    return {"what": draw(st.sampled_from(["epsilon none", "epsilon zero", "epsilon negative", "parameter none", "parameter unknown", "bounds equal", "bounds reversed", "two variables",
                                          "no variables", "integer variable"])),
            "limit": draw(st.integers(1, 9)), "extra": draw(st.integers(1, 7)), "run first": draw(st.booleans())}


def t_invalid(sp, ev):
    from pywr.utils.bisect import BisectionSearchModel
    w = sp["what"]
    x = {"type": "constant", "value": 3.0, "lower_bounds": 0.0, "upper_bounds": 10.0}
    b = {"parameter": "x", "epsilon": 0.5}
    doc = {"metadata": {"title": "b", "minimum_version": "0.1"}, "timestepper": {"start": "2015-01-01", "end": "2015-01-05", "timestep": 1},
           "nodes": [{"name": "in", "type": "Input", "max_flow": sp["limit"] + 0.37}, {"name": "out", "type": "Output", "max_flow": "x", "cost": -1.0}], "edges": [["in", "out"]],
           "recorders": {"d": {"type": "totaldeficitnode", "node": "out", "constraint_upper_bounds": 0.0}}, "parameters": {"x": x}, "bisection": b}
    error = ValueError
    if w == "epsilon none":
        b.pop("epsilon")
    elif w == "epsilon zero":
        b["epsilon"] = 0.0
    elif w == "epsilon negative":
        b["epsilon"] = -0.1 * sp["extra"]
    elif w == "parameter none":
        b.pop("parameter")
    elif w == "parameter unknown":
        b["parameter"] = "y"
        error = KeyError
    elif w == "bounds equal":
        x["lower_bounds"] = x["upper_bounds"] = float(sp["extra"])
    elif w == "bounds reversed":
        x["lower_bounds"] = 10.0 + sp["extra"]
    elif w == "two variables":
        doc["parameters"]["x"] = {"type": "annualharmonicseries", "mean": 5.0, "amplitudes": [1.0], "phases": [0.0], "is_variable": True}
    elif w == "no variables":
        doc["parameters"]["x"] = {"type": "arrayindexed", "values": [5.0] * 5}
    elif w == "integer variable":
        doc["parameters"]["x"] = {"type": "rbfprofile", "days_of_year": [1, 100, 200, 300], "values": [1.0, 2.0, 3.0, 4.0], "variable_days_of_year_range": 5}
    m = BisectionSearchModel.load(doc)
    try:
        m.run()
    except error:
        ev.tag(w)
        ev.nt(True)
        return
    raise Violation("a search with %s was carried out" % w)


TESTS = [Test("search", problems(), t_search, 900, weight=4), Test("invalid", invalid(), t_invalid, 60, weight=0.5)]
