"""C27: optimisers see a faithful view of the model."""

import copy
import math

import numpy as np
from hypothesis import strategies as st

from harness import nets, rich
from harness.core import Test, Violation, isclose, req_arrays, req_close, req_equal, require

TECHNIQUE = "random testing of both optimiser interfaces on random whole models with variable parameters: each evaluation of a sequence is compared with a fresh model whose document contains the values"
RULE = ("random whole models with one to four variable parameters (nine kinds, real and integer), one to three objectives, up to three constraints of four kinds and "
        "sequences of two to five evaluations through platypus and pygmo; non-trivial: some objective or constraint differs between two evaluations")
NOTE = "Objectives, constraints, variables and all results after each evaluation equal those of a fresh model built with the same values; bounds and counts equal the document's."
ASSUMPTIONS = ["Values are within the bounds and integers are given as reals that round unambiguously."]

MAX = ("max", "maximise", "maximize")
MIN = ("min", "minimise", "minimize")
INF = float("inf")


class V(rich.Ctx):
    """draws variable parameters for a model that exists already"""

    def __init__(self, draw, sp):
        super().__init__(draw, sp["clock"], sp["scen"])
        d = sp["doc"]
        self.params, self.recs, self.nodes = d["parameters"], d["recorders"], d["nodes"]
        self.k = 7
        self.vols = [n["name"] for n in self.nodes if n["type"] in ("Storage", "Reservoir") or n["type"].endswith("VirtualStorage")]

    def bounds(self, m, names=("lower_bounds", "upper_bounds"), lo=0, hi=12, scalar=False):
        """(document, lower, upper)"""
        whole = self.flip(4)
        a = [float(self.i(lo, (lo + hi) // 2)) if whole else self.num(lo, (lo + hi) // 2) for _ in range(m)]
        b = [x + (float(self.i(1, (hi - lo) // 2)) if whole else self.num(1, (hi - lo) // 2)) for x in a]
        if scalar or self.flip():
            a, b = [a[0]] * m, [b[0]] * m
            da, db = a[0], b[0]
        else:
            da, db = a, b
        if whole:       # whole numbers without a decimal point
            da, db = ([int(x) for x in y] if isinstance(y, list) else int(y) for y in (da, db))
        return dict(zip(names, (da, db))), a, b


def lists(doc, m):
    """bounds have to be given as lists"""
    return {k: v if isinstance(v, list) else [v] * m for k, v in doc.items()}


def v_constant(c):
    d, a, b = c.bounds(1, scalar=True)
    if c.flip(3):
        d.update(scale=c.num(0, 2), offset=c.num(-2, 2))
    return dict(d, type="constant", value=c.num(0, 5)), a, b, [], []


def v_monthly(c):
    d, a, b = c.bounds(12)
    if c.flip():
        d["interp_day"] = c.pick(["first", "last"])
    return dict(d, type="monthlyprofile", values=c.pick([c.vals(12, 0, 9), [c.i(0, 9) for _ in range(12)]])), a, b, [], []


def v_rbf(c):
    m = c.i(3, 5)
    days = [1] + [(j * 365) // m + c.i(-9, 9) for j in range(1, m)]
    d, a, b = c.bounds(m)
    d.update(type="rbfprofile", days_of_year=days, values=c.vals(m, 0, 9))
    if c.flip():
        d["rbf_kwargs"] = {"function": c.pick(["linear", "multiquadric", "gaussian"]), "epsilon": 60.3}
    if c.flip(3):
        d.update(min_value=0.5, max_value=9.5)
    mode = c.pick(["no", "range", "range", "bounds", "bounds"])
    ia = ib = []
    if mode == "range":
        r = d["variable_days_of_year_range"] = c.i(1, 10)
        ia, ib = [x - r for x in days[1:]], [x + r for x in days[1:]]
    elif mode == "bounds":
        ia, ib = [x - c.i(0, 12) for x in days[1:]], [min(365, x + c.i(0, 12)) for x in days[1:]]
        d.update(variable_days_lower_bounds=ia, variable_days_upper_bounds=ib)
    return d, a, b, ia, ib


def v_harmonic(c):
    n = c.i(1, 3)
    d, a, b = c.bounds(1, ("mean_lower_bounds", "mean_upper_bounds"), 3, 12, True)
    e, a1, b1 = c.bounds(n, ("amplitude_lower_bounds", "amplitude_upper_bounds"), 0, 2, True)
    a2, b2 = [0.0] * n, [2 * math.pi] * n
    if c.flip():
        f, a2, b2 = c.bounds(n, ("phase_lower_bounds", "phase_upper_bounds"), 0, 6, True)
        e.update(f)
    return dict(d, **dict(e, type="annualharmonicseries", mean=c.num(3, 6), amplitudes=c.vals(n, 0, 2), phases=c.vals(n, 0, 3))), a + a1 + a2, b + b1 + b2, [], []


def v_offset(c):
    d, a, b = c.bounds(1, lo=-4, hi=8, scalar=True)
    names = sorted(x for x in c.params if x[0] != "v")
    return dict(d, type="offset", parameter=c.pick(names) if names and c.flip() else c.inline(), offset=c.num(0, 3)), a, b, [], []


def v_step(c):
    kind = c.pick(["binarystep", "rectifier", "logistic"])
    d, a, b = c.bounds(1, lo=-4, hi=8, scalar=True)
    if c.flip(3):
        d, a, b = {}, [-6.0 if kind == "logistic" else -1.0], [6.0 if kind == "logistic" else 1.0]
    d.update({"binarystep": {"output": c.num(1, 9)}, "rectifier": {"min_output": c.num(0, 2), "max_output": c.num(3, 9)},
              "logistic": {"max_output": c.num(1, 9), "growth_rate": c.num(0, 2)}}[kind])
    if kind == "rectifier" and b[0] <= 0.5:
        d["upper_bounds"] = b[0] = 1.5
        if a[0] > 1.0:
            d["lower_bounds"] = a[0] = -1.5
    return dict(d, type=kind, value=c.num(-1, 1)), a, b, [], []


def v_curve(c):
    m = c.i(1, 3)
    ix = c.draw(st.lists(st.integers(0, m), min_size=1, max_size=m + 1, unique=True))
    d, a, b = c.bounds(len(ix))
    return dict(lists(d, len(ix)), type="controlcurve", storage_node=c.pick(c.vols), control_curves=c.up(m)[::-1], values=c.vals(m + 1, 0, 9), variable_indices=ix), a, b, [], []


KINDS = (v_constant, v_constant, v_monthly, v_rbf, v_rbf, v_harmonic, v_offset, v_step, v_curve)


def put(kind_doc, dbl, ints):
    """the document of the parameter with these values"""
    d = copy.deepcopy(kind_doc)
    t = d["type"]
    if t in ("constant", "binarystep", "rectifier", "logistic"):
        d["value"] = dbl[0]
    elif t in ("monthlyprofile", "rbfprofile"):
        d["values"] = list(dbl)
        if ints:
            d["days_of_year"] = [1] + list(ints)
            d.pop("variable_days_of_year_range", None)      # moved days may be too close for the checks made of the first days
            d.pop("variable_days_lower_bounds", None)
            d.pop("variable_days_upper_bounds", None)
    elif t == "annualharmonicseries":
        n = len(d["amplitudes"])
        d.update(mean=dbl[0], amplitudes=list(dbl[1:n + 1]), phases=list(dbl[n + 1:]))
    elif t == "offset":
        d["offset"] = dbl[0]
    elif t == "controlcurve":
        for i, v in zip(d["variable_indices"], dbl):
            d["values"][i] = v
    return d


def single(recs, x):
    """the recorder has one value per scenario"""
    d = recs[x]
    return d["type"] not in ("rollingmeanflownode", "rollingwindowparameter", "event") and all(single(recs, y) for y in d.get("recorders", ()))


@st.composite
def problems(draw):
    sp = draw(rich.models(maxn=5, max_combos=3, blocks=2, params=4, recs=4))
    c = V(draw, sp)
    doc = sp["doc"]
    sp["vars"], used = {}, set()
    ins = [n["name"] for n in c.nodes if n["type"] == "Input"]
    if len(ins) > 1 and c.flip():
        c.nodes.append({"name": "ratio", "type": "AggregatedNode", "nodes": ins[:2], "factors": [1.0, c.num(1, 3)]})
    for k in range(draw(st.integers(1, 4))):
        d, a, b, ia, ib = c.pick(KINDS if c.vols else KINDS[:-1])(c)
        name = "v%d" % k
        d["is_variable"] = True
        doc["parameters"][name] = d
        sp["vars"][name] = [a, b, ia, ib]
        spots = [(n, "max_flow") for n in c.nodes if n["type"] in ("Input", "Output", "Link") and isinstance(n.get("max_flow"), float)]
        spots += [(n, "cost") for n in c.nodes if n["type"] in ("Input", "Output", "Link") and isinstance(n.get("cost"), float)]
        spots += 4 * [(n, "factors") for n in c.nodes if n["type"] == "AggregatedNode" and n.get("factors") and d["type"] == "constant" and "ratio" not in used and min(a) * d.get("scale", 1) + d.get("offset", 0) > 0.2]
        if spots and not c.flip(6):
            n, key = c.pick(spots)
            if key == "factors":
                used.add("ratio")
                n["factors"][c.i(0, len(n["factors"]) - 1)] = name
            elif key == "cost" and n["type"] == "Output":
                doc["parameters"]["n" + name] = {"type": "negative", "parameter": name}
                n[key] = "n" + name
            elif key == "cost":
                n[key] = name
            else:
                safe = d["type"] in ("constant", "monthlyprofile", "binarystep", "rectifier", "logistic") and min(a) >= 0 and d.get("offset", 0) >= 0
                n[key] = name if safe and d.get("scale", 1) > 0 and c.flip() else c.clamp(name)
        doc["recorders"]["m" + name] = {"type": "meanparameter", "parameter": name}
    for n in c.nodes[:2]:
        if n["type"] in ("Input", "Output"):
            doc["recorders"]["t" + n["name"]] = {"type": "totalflownode", "node": n["name"]}
    names = sorted(x for x in doc["recorders"] if single(doc["recorders"], x))
    for x in doc["recorders"]:
        doc["recorders"][x].pop("is_objective", None)
    for x in draw(st.lists(st.sampled_from(names[::-1]), min_size=1, max_size=3, unique=True)):
        doc["recorders"][x]["is_objective"] = c.pick(MAX + MIN)
    sp["cons"] = {}
    for x in draw(st.lists(st.sampled_from(names), max_size=3, unique=True)):
        sp["cons"][x] = [c.pick(["lower", "upper", "double", "equal"]), c.i(-2, 2), c.i(1, 3)]
    size = sum(len(v[0]) + len(v[2]) for v in sp["vars"].values())
    fr = st.sampled_from([0.0, 1.0, 0.25, 0.5, 0.8125, 0.1, 0.37])
    sp["points"] = draw(st.lists(st.lists(fr, min_size=min(size, 7), max_size=min(size, 7)), min_size=2, max_size=3, unique_by=tuple))
    m = len(sp["points"])
    sp["seq"], i = [], 0
    for _ in range(draw(st.integers(2, 5))):
        i = (i + draw(st.sampled_from([1, 1, m - 1, 0]))) % m
        sp["seq"].append([draw(st.sampled_from(["platypus", "platypus", "solution", "pygmo", "problem"])), i])
    sp["shared"] = draw(st.booleans())
    sp["first"] = draw(st.sampled_from(["none", "run", "step"]))
    return sp


def point(sp, fr):
    """{name: (reals, integers)}"""
    out, k = {}, 0
    for name in sorted(sp["vars"]):
        a, b, ia, ib = sp["vars"][name]
        dbl, ints = [], []
        for lo, hi in zip(a, b):
            dbl.append(lo + fr[k % len(fr)] * (hi - lo))
            k += 1
        for lo, hi in zip(ia, ib):
            ints.append(lo + int(fr[k % len(fr)] * (hi - lo)))
            k += 1
        out[name] = (dbl, ints)
    return out


def fresh(sp, doc, values):
    d = copy.deepcopy(doc)
    for name, (dbl, ints) in values.items():
        d["parameters"][name] = put(d["parameters"][name], dbl, ints)
    model = rich.load(rich.document(dict(sp, doc=d)))
    w = rich.watcher(model)
    model.run()
    return model, rich.results(model, w)


def t_evaluations(sp, ev):
    import pandas as pd
    import platypus
    import pygmo
    from pywr.optimisation import clear_global_model_cache
    from pywr.optimisation.platypus import PlatypusWrapper
    from pywr.optimisation.pygmo import PygmoWrapper
    doc = copy.deepcopy(sp["doc"])
    first, _ = fresh(sp, doc, point(sp, sp["points"][0]))
    cons = {}
    for name, (kind, d, width) in sp["cons"].items():
        v = first.recorders[name].aggregated_value()
        if not np.isfinite(v):
            continue
        lo = v + 0.11 * d * max(1.0, abs(v)) if kind != "equal" else v
        hi = lo + 0.13 * width * max(1.0, abs(v)) if kind == "double" else lo
        cons[name] = (kind, lo, hi)
        if kind in ("lower", "double", "equal"):
            doc["recorders"][name]["constraint_lower_bounds"] = lo
        if kind in ("upper", "double", "equal"):
            doc["recorders"][name]["constraint_upper_bounds"] = hi
        ev.tag("constraint " + kind)
    objs = {x: d["is_objective"] for x, d in doc["recorders"].items() if d.get("is_objective")}
    want = {}
    for i, fr in enumerate(sp["points"]):
        want[i] = fresh(sp, doc, point(sp, fr))

    watch = {}

    def mixin(base):
        class W(base):
            def customise_model(self, model):
                watch[id(model)] = rich.watcher(model)
                self.customised = True
        return W
    nets.register()
    full = rich.document(dict(sp, doc=doc))
    clear_global_model_cache()
    try:
        plat = mixin(PlatypusWrapper)(copy.deepcopy(full), uid="verif" if sp["shared"] else None)
        pyg = mixin(PygmoWrapper)(copy.deepcopy(full), uid="verif" if sp["shared"] else None)
        for w in (plat, pyg):
            check_outline(sp, w, objs, cons)
        check_platypus(sp, plat, cons)
        check_pygmo(sp, pyg, cons, objs)
        if sp["first"] != "none":
            for w in (plat,) if sp["shared"] else (plat, pyg):
                w.model.run() if sp["first"] == "run" else w.model.step()
        problem = None
        seen = []
        for how, i in sp["seq"]:
            w = plat if how in ("platypus", "solution") else pyg
            x = vector(sp, w, point(sp, sp["points"][i]))
            if how == "platypus":
                got = w.problem.function(list(x))
                o, k = got if cons else (got, [])
            elif how == "solution":
                s = platypus.Solution(w.problem)
                s.variables[:] = list(x)
                s.evaluate()
                o, k = list(s.objectives), list(s.constraints)
                check_violation(sp, w, want[i], cons, s.feasible)
            else:
                if how == "problem":
                    if problem is None and all(math.isfinite(t) for v in sp["vars"].values() for t in v[1]):
                        problem = pygmo.problem(w)
                    got = list((problem or w).fitness(np.array(x)))
                else:
                    got = list(w.fitness(np.array(x)))
                o, k = got[:len(objs)], got[len(objs):]
            compare(sp, "%s evaluation of point %d after %r" % (how, i, seen), w, how, o, k, objs, cons, want[i][0])
            seen.append((how, i))
            ev.tag(how)
            vars_match(sp, w, point(sp, sp["points"][i]))
            if id(w.model) in watch:
                rich.compare("%s evaluation of point %d" % (how, i), rich.results(w.model, watch[id(w.model)]), want[i][1])
    finally:
        clear_global_model_cache()
    if any(isinstance(x, str) for n in doc["nodes"] for x in n.get("factors", ())):
        ev.tag("variable factor of " + doc["solver"]["name"])
    for n in sp["vars"]:
        ev.tag("variable " + doc["parameters"][n]["type"], *(["integers"] if sp["vars"][n][2] else []))
    vals = [[want[i][0].recorders[x].aggregated_value() for x in sorted(set(objs) | set(cons))] for _, i in sp["seq"]]
    ev.nt(len(vals) > 1 and any(abs(a - b) > 1e-6 for v in vals[1:] for a, b in zip(v, vals[0])))


def vector(sp, w, values):
    x = []
    for v in w.model_variables:
        dbl, ints = values[v.name]
        x += list(dbl) + [j + (0.31 if j % 2 and j < hi else -0.27 if j > lo else 0.0) for j, lo, hi in zip(ints, sp["vars"][v.name][2], sp["vars"][v.name][3])]
    return x


def check_outline(sp, w, objs, cons):
    req_equal("names of the variables", sorted(v.name for v in w.model_variables), sorted(sp["vars"]))
    req_equal("names of the objectives", sorted(r.name for r in w.model_objectives), sorted(objs))
    req_equal("names of the constraints", sorted(r.name for r in w.model_constraints), sorted(cons))
    for v in w.model_variables:
        a, b, ia, ib = sp["vars"][v.name]
        req_equal("number of reals and integers of %s" % v.name, (v.double_size, v.integer_size), (len(a), len(ia)))
        req_arrays("lower bounds of %s" % v.name, v.get_double_lower_bounds(), a)
        req_arrays("upper bounds of %s" % v.name, v.get_double_upper_bounds(), b)
        if ia:
            req_arrays("lower bounds of integers of %s" % v.name, v.get_integer_lower_bounds(), ia)
            req_arrays("upper bounds of integers of %s" % v.name, v.get_integer_upper_bounds(), ib)
        # what is read is not connected to the model
        old = np.array(v.get_double_variables())
        x = np.asarray(v.get_double_variables())
        x += 1.0
        req_arrays("variables of %s after a change of the array read before" % v.name, v.get_double_variables(), old)
        req_arrays("first values of %s" % v.name, old, initial(sp["doc"]["parameters"][v.name]))


def initial(d):
    t = d["type"]
    if t in ("constant", "binarystep", "rectifier", "logistic"):
        return [d["value"]]
    if t in ("monthlyprofile", "rbfprofile"):
        return d["values"]
    if t == "annualharmonicseries":
        return [d["mean"]] + d["amplitudes"] + d["phases"]
    if t == "offset":
        return [d["offset"]]
    return [d["values"][i] for i in d["variable_indices"]]


def flat(sp, w, lower):
    out = []
    for v in w.model_variables:
        out += sp["vars"][v.name][0 if lower else 1] + sp["vars"][v.name][2 if lower else 3]
    return out


def check_platypus(sp, w, cons):
    p = w.problem
    req_equal("number of variables for platypus", p.nvars, len(flat(sp, w, True)))
    req_arrays("lower limits for platypus", [t.min_value for t in p.types], flat(sp, w, True))
    req_arrays("upper limits for platypus", [t.max_value for t in p.types], flat(sp, w, False))
    req_equal("directions of platypus", {d.name if hasattr(d, "name") else d for d in p.directions}, {"MINIMIZE"})
    want = []
    for c in w.model_constraints:
        kind, lo, hi = cons[c.name]
        want += {"lower": [(">=", lo)], "upper": [("<=", hi)], "double": [(">=", lo), ("<=", hi)], "equal": [("==", lo)]}[kind]
    req_equal("number of constraints for platypus", p.nconstrs, len(want))
    for f, (op, v) in zip(p.constraints, want):
        for x in (v - 0.5, v, v + 0.5):
            ok = {">=": x >= v, "<=": x <= v, "==": x == v}[op]
            require((f(x) == 0) == ok, "constraint %s %r of platypus at %r: violation %r", op, v, x, f(x))


def check_pygmo(sp, w, cons, objs):
    lo, hi = w.get_bounds()
    req_arrays("lower bounds for pygmo", lo, flat(sp, w, True))
    req_arrays("upper bounds for pygmo", hi, flat(sp, w, False))
    kinds = [k for k, _, _ in cons.values()]
    req_equal("objectives for pygmo", w.get_nobj(), len(objs))
    req_equal("equalities for pygmo", w.get_nec(), kinds.count("equal"))
    req_equal("inequalities for pygmo", w.get_nic(), kinds.count("lower") + kinds.count("upper") + 2 * kinds.count("double"))


def compare(sp, what, w, how, o, k, objs, cons, model):
    tol = dict(rtol=1e-6, atol=1e-5)
    req_equal(what + ": number of objectives", len(o), len(objs))
    for r, x in zip(w.model_objectives, o):
        v = model.recorders[r.name].aggregated_value()
        req_close("%s: objective %s (%s)" % (what, r.name, objs[r.name]), x, -v if objs[r.name] in MAX else v, **tol)
    want = []
    if how in ("platypus", "solution"):
        for c in w.model_constraints:
            v = model.recorders[c.name].aggregated_value()
            want += [v, v] if cons[c.name][0] == "double" else [v]
    else:
        for c in w.model_constraints:
            kind, lo, hi = cons[c.name]
            if kind == "equal":
                want.append(model.recorders[c.name].aggregated_value() - lo)
        for c in w.model_constraints:
            kind, lo, hi = cons[c.name]
            v = model.recorders[c.name].aggregated_value()
            want += {"equal": [], "lower": [lo - v], "upper": [v - hi], "double": [lo - v, v - hi]}[kind]
    req_equal(what + ": number of constraints", len(k), len(want))
    for x, v in zip(k, want):
        req_close(what + ": constraint", x, v, **tol)


def check_violation(sp, w, want, cons, feasible):
    sure = True
    ok = True
    for name, (kind, lo, hi) in cons.items():
        v = want[0].recorders[name].aggregated_value()
        if kind != "upper":
            sure = sure and abs(v - lo) > 1e-3
            ok = ok and v >= lo
        if kind not in ("lower",):
            sure = sure and abs(v - hi) > 1e-3
            ok = ok and v <= hi
    if sure:
        req_equal("feasibility seen by platypus", bool(feasible), ok)
        req_equal("Model.is_feasible", w.model.is_feasible(), ok)


def vars_match(sp, w, values):
    for v in w.model_variables:
        dbl, ints = values[v.name]
        req_arrays("variables of %s read back" % v.name, v.get_double_variables(), dbl, 1e-12, 1e-12)
        if ints:
            req_arrays("integers of %s read back" % v.name, v.get_integer_variables(), ints)


@st.composite
def twins(draw):
    clock = {"step": {"kind": "D", "n": 1, "form": "int", "anchor": None}, "start": "2015-01-01", "n": 1}
    c = rich.Ctx(draw, clock, {"scen": []})
    kind = c.pick(["monthlyprofile", "rbfprofile", "annualharmonicseries", "controlcurve"])
    m = {"monthlyprofile": 12, "rbfprofile": c.i(3, 5), "annualharmonicseries": c.i(1, 3), "controlcurve": c.i(2, 4)}[kind]
    return {"kind": kind, "values": c.vals(m, 1, 9), "more": c.vals(m, 0, 3), "whole": c.flip(3), "set": c.vals(16, 1, 5), "days": [1] + [(j * 365) // m + c.i(-9, 9) for j in range(1, m)]}


def t_apart(sp, ev):
    """parameters made of the same arrays do not change each other, nor the arrays"""
    from pywr.core import Model, Storage
    from pywr.parameters import AnnualHarmonicSeriesParameter, ConstantParameter, MonthlyProfileParameter, RbfProfileParameter
    from pywr.parameters.control_curves import ControlCurveParameter
    model = Model()
    arrays = [np.array(sp["values"]), np.array(sp["more"]), np.array(sp["days"], dtype=np.int32)]
    kind, m = sp["kind"], len(sp["values"])
    if kind == "controlcurve":
        s = Storage(model, "s", max_volume=10, initial_volume=5)
        curves = [ConstantParameter(model, 1.0 - (j + 1.0) / m) for j in range(m - 1)]
        index = np.arange(m)
        arrays.append(index)
        make = lambda: ControlCurveParameter(model, s, curves, values=arrays[0], variable_indices=index)
    elif kind == "annualharmonicseries":
        make = lambda: AnnualHarmonicSeriesParameter(model, 2.0, arrays[0], arrays[1])
    elif kind == "monthlyprofile":
        make = lambda: MonthlyProfileParameter(model, arrays[0])
    else:
        make = lambda: RbfProfileParameter(model, arrays[2], arrays[0], variable_days_of_year_range=10)
    a, b = make(), make()
    before = [x.copy() for x in arrays]
    old, olds = np.array(b.get_double_variables()), np.array(b.get_integer_variables()) if b.integer_size else None
    new = np.array(sp["set"][:a.double_size])
    a.set_double_variables(new)
    if a.integer_size:
        ints = np.array(arrays[2][1:] + 3, dtype=np.int32)
        a.set_integer_variables(ints)
        want = ints.copy()
        ints += 1
        req_arrays("integers read back", a.get_integer_variables(), want)
        req_arrays("integers of the other parameter", b.get_integer_variables(), olds)
    want = new.copy()
    new += 1.0
    req_arrays("variables read back", a.get_double_variables(), want)
    req_arrays("variables of the other parameter", b.get_double_variables(), old)
    for x, y in zip(arrays, before):
        req_arrays("array given to the parameter", x, y)
    ev.tag(kind)
    ev.nt()


TESTS = [Test("evaluations", problems(), t_evaluations, 1200), Test("apart", twins(), t_apart, 400, weight=0.1)]
