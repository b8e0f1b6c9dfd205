"""C36: changed values take effect: a model whose values were changed between runs equals a model built with these values."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import nets, compound, extras
from harness.core import Test, Violation
from checks.c04 import trace, margin

TECHNIQUE = "differential / stateful property-based testing: random models are run, edited through the public setters and run again, against a fresh model of the edited document"
RULE = ("random networks (elementary or compound nodes, aggregated nodes, virtual storages; any solver and options) with unique optima, one to three "
        "rounds of one to five changed values (numbers or parameters), each followed by a run; non-trivial: a changed value changes the flows")
NOTE = ("Flows and volumes of every step of the edited model equal those of a fresh model of the edited document. Steps whose feasibility hangs "
        "on less than 1e-2 are left out.")


def several(base, k):
    return [base] * k


@st.composite
def edits(draw, spec):
    """applies a random change to the spec; returns what to set: (name, attribute, value) with value as in the spec"""
    n, ns, lp = spec["n"], spec["ns"], spec["solver"] == "lpsolve"

    def v(base, lp_too=True):
        return draw(nets.varying(base, n, ns, ("c", "c", "p", "t", "s", "ts") if lp_too or not lp else ("c",)))

    def cost(like):
        # costs remain rationally independent
        old = nets.all_vals(like)[0]
        return nets.shift(v(nets.costs), round(old - round(old), 9))
    often = [d for d in spec["nodes"] if d["type"] not in ("Input", "Output", "Link", "Storage")]
    pool = spec["nodes"] + (often + [d for d in often if d["type"] == "LossLink"]) * 2 + spec.get("agg", []) * 3 + spec.get("vs", []) * 3
    d = draw(st.sampled_from(pool))
    t, x = d["type"], d["name"]
    can = []
    if t in ("Input", "Output", "Link", "River", "BreakLink", "LossLink"):
        can += ["max", "max", "cost"]
    elif t == "Catchment":
        can += ["flow", "cost"]
    elif t in ("PiecewiseLink", "MultiSplitLink", "RiverSplit"):
        can += ["costs", "maxes"]
    elif t in ("RiverGauge", "RiverSplitWithGauge"):
        can += ["mrf", "mrf_cost", "cost"]
    elif t in ("Storage", "Reservoir"):
        if not isinstance(d["maxv"], dict) and not isinstance(d["minv"], dict):
            can += ["volumes", "init"]
        if "above" not in d:
            can += ["cost"]
    elif t == "AggregatedNode":
        can += ["agg max", "agg min", "weights", "members"]
        if "factors" in d:
            can += ["agg factors"] * 2
    elif t == "VirtualStorage":
        can += ["volumes", "init", "vs factors", "vs nodes"]
    if t == "LossLink":
        can += ["loss"] * 3 + ["loss type"]
    if not can:
        return []
    what = draw(st.sampled_from(can))
    if what == "max":
        top = max(nets.all_vals(d.get("min", 0.0)))
        new = v(nets.flows.map(lambda a: a + top))
        if draw(st.integers(0, 4)) == 0 and t in ("Link", "River"):
            d.pop("max", None)
            return [(x, "max_flow", None)]
        d["max"] = new
        return [(x, "max_flow", new)]
    if what == "flow":
        d["max"] = v(st.integers(0, 10).map(float))
        return [(x, "flow", d["max"])]
    if what in ("cost", "mrf_cost"):
        d[what] = cost(d[what])
        return [(x, what, d[what])]
    if what == "mrf":
        d["mrf"] = v(nets.flows)
        return [(x, "mrf", d["mrf"])]
    if what == "costs":
        d["costs"] = [cost(c) for c in d["costs"]]
        return [(x, "costs", list(d["costs"]))]
    if what == "maxes":
        d["maxes"] = [None if m is None else v(nets.flows) for m in d["maxes"]]
        return [(x, "max_flows", list(d["maxes"]))]
    if what == "loss":
        old = d["lf"]
        d["lf"] = draw(st.sampled_from([0.0, 0.1, 0.25, 0.5] + ([1.0] if "min" not in d else []) + ([1.5] if d["lt"] == "net" else [])))
        if d["lt"] == "net" and not lp and draw(st.integers(0, 2)) == 0:
            d["lf"] = v(st.sampled_from([0.125, 0.25, 0.5, 1.0]))
        return [(x, "loss_factor", d["lf"])] if d["lf"] != old else []
    if what == "loss type":
        d["lt"] = "net" if d["lt"] == "gross" else "gross"
        if d["lt"] == "gross" and (isinstance(d["lf"], dict) or d["lf"] > (0.9 if "min" in d else 1.0)):
            d["lf"] = 0.5
            return [(x, "loss_factor", 0.5), (x, "loss_factor_type", d["lt"])]
        return [(x, "loss_factor_type", d["lt"])]
    if what == "volumes":
        d["maxv"] = float(draw(st.integers(1, 80)))
        d["minv"] = draw(st.sampled_from([0.0, 0.0, 0.25])) * d["maxv"]
        d["init"] = d["minv"] + draw(st.sampled_from([0.0, 0.25, 0.5, 1.0])) * (d["maxv"] - d["minv"])
        return [(x, "min_volume", d["minv"]), (x, "max_volume", d["maxv"]), (x, "initial_volume", d["init"])]
    if what == "init":
        d["init"] = d["minv"] + draw(st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0])) * (d["maxv"] - d["minv"])
        return [(x, "initial_volume", d["init"])]
    if what == "agg max":
        low = max(nets.all_vals(d.get("min", 0.0)))
        if draw(st.integers(0, 4)) == 0 and "max" in d:
            del d["max"]
            return [(x, "max_flow", None)]
        d["max"] = v(nets.flows.map(lambda a: a + low), False)
        return [(x, "max_flow", d["max"])]
    if what == "agg min":
        top = min(nets.all_vals(d.get("max", 4.0)))
        d["min"] = draw(st.sampled_from([0.0, 0.0, 0.25, 0.5])) * top
        return [(x, "min_flow", d["min"])]
    if what == "weights":
        if "weights" in d and draw(st.booleans()):
            del d["weights"]
            return [(x, "flow_weights", None)]
        d["weights"] = [draw(extras.weights) for _ in d["nodes"]]
        return [(x, "flow_weights", list(d["weights"]))]
    if what == "agg factors":
        d["factors"] = [v(extras.weights, False) for _ in d["nodes"]]
        return [(x, "factors", list(d["factors"]))]
    if what == "vs factors":
        d["factors"] = [draw(extras.weights) for _ in d["nodes"]]
        return [(x, "factors", list(d["factors"]))]
    # members: another node of the same kind for one of the old ones
    kinds = {e["name"]: e["type"] for e in spec["nodes"]}
    i = draw(st.integers(0, len(d["nodes"]) - 1))
    others = [y for y in kinds if y not in d["nodes"] and kinds[y] == kinds[d["nodes"][i]]]
    if not others:
        return []
    d["nodes"] = list(d["nodes"])
    d["nodes"][i] = draw(st.sampled_from(others))
    return [(x, "nodes", list(d["nodes"]))]


@st.composite
def histories(draw):
    kw = dict(options=True)
    if draw(st.integers(0, 2)):
        spec = draw(extras.with_extras(nets.networks(**kw)))
    else:
        spec = draw(compound.compounds(**kw))
        if draw(st.booleans()):
            plain = [d["name"] for d in spec["nodes"] if d["type"] in ("Input", "Output", "Link")]
            spec["vs"] = [{"name": "vs0", "type": "VirtualStorage", "nodes": draw(st.lists(st.sampled_from(plain), min_size=1, max_size=2, unique=True)),
                           "maxv": 30.0, "minv": 0.0, "init": 12.5}]
    nets.perturb(compound.gates(spec))
    rounds = []
    now = copy.deepcopy(spec)
    for _ in range(draw(st.integers(1, 3))):
        sets = []
        for _ in range(draw(st.integers(1, 5))):
            sets += draw(edits(now))
        rounds.append([sets, copy.deepcopy({k: now[k] for k in ("nodes", "agg", "vs") if k in now})])
    spec["rounds"] = rounds
    spec["first"] = draw(st.sampled_from(["run", "run", "run", "steps", "nothing"]))
    return spec


def document(spec):
    doc = compound.document(spec)
    doc["nodes"] += extras.docs(spec)
    return doc


def assign(model, name, attr, value):
    from pywr.parameters import load_parameter

    def one(a):
        return load_parameter(model, nets.param_doc(a)) if isinstance(a, dict) else a
    if attr == "nodes":
        value = [model.nodes[x] for x in value]
    elif isinstance(value, list):
        value = [one(a) for a in value]
    else:
        value = one(value)
    setattr(model.nodes[name], attr, value)


def start(model):
    """what Model.run does before its first step"""
    if model.dirty or model.timestepper.dirty:
        model.setup()
    else:
        model.reset()


def t_values(spec, ev):
    names = [d["name"] for d in spec["nodes"] + spec.get("agg", []) + spec.get("vs", [])]
    model = nets.load(document(spec))
    ev.tag(spec["solver"])
    old = None
    if spec["first"] == "run":
        start(model)
        old = trace(model, spec, names)
    elif spec["first"] == "steps":
        start(model)
        old = trace(model, dict(spec, n=1), names)
    for r, (sets, changed) in enumerate(spec["rounds"]):
        now = dict(spec, **changed)
        for x, attr, value in sets:
            assign(model, x, attr, value)
            ev.tag(attr)
        fresh = nets.load(document(now))
        start(model)
        start(fresh)
        got, want = trace(model, now, names), trace(fresh, now, names)
        for t, (a, b) in enumerate(zip(want, got)):
            what = "round %d, after setting %s, step %d: " % (r, sets, t)
            if a[0] == "error" or b[0] == "error":
                if a[0] == b[0]:
                    ev.tag("infeasible")
                    break
                if "singular" in (a[1] if a[0] == "error" else b[1]):
                    ev.tag("singular basis without retry_solve")
                    return
                gap = margin(now, t, want[t][2])
                if gap is None or 0 < gap < 1e-2:
                    ev.tag("undecided")
                    return
                raise Violation(what + "the %s model raises %s, the other does not (reference: infeasible by %r)" % (
                    "fresh" if a[0] == "error" else "edited", a[1] if a[0] == "error" else b[1], gap))
            for x in names:
                if not np.allclose(a[0][x], b[0][x], rtol=1e-5, atol=1e-5):
                    raise Violation(what + "flow of %s is %r, %r in a fresh model" % (x, b[0][x].tolist(), a[0][x].tolist()))
            for x in a[1]:
                if not np.allclose(a[1][x], b[1][x], rtol=1e-5, atol=1e-4):
                    raise Violation(what + "volume of %s is %r, %r in a fresh model" % (x, b[1][x].tolist(), a[1][x].tolist()))
            if old is not None and t < len(old) and old[t][0] != "error":
                ev.nt(any(not np.allclose(old[t][0][x], a[0][x], rtol=1e-5, atol=1e-5) for x in names))
        old = want


# ---------------------------------------------------------------------------------------------------------------
# parameters: changed through their setters

POOL = ["a", "b", "c", "d", "e", "f"]
tenths = st.integers(0, 12).map(lambda x: x / 10.0)
anything = some = st.integers(-12, 12).map(lambda x: x / 4.0)


def cutoffs(draw, k):
    """descending numbers, or parameters (whose values are anything)"""
    if draw(st.booleans()):
        return sorted((draw(tenths) for _ in range(k)), reverse=True)
    return [draw(st.one_of(st.sampled_from(POOL), tenths)) for _ in range(k)]


def settings(draw, kind):
    """{attribute: value} in the order in which the attributes are set"""
    curve = lambda k: {"storage_node": draw(st.sampled_from(["s1", "s2"])), "control_curves": cutoffs(draw, k)}
    if kind == "controlcurve":
        k = draw(st.integers(1, 3))
        return dict(curve(k), values=[draw(some) for _ in range(k + 1)])
    if kind == "controlcurveinterpolated":
        k = draw(st.integers(1, 2))
        return dict(curve(k), values=[draw(st.one_of(some, st.integers(-3, 3))) for _ in range(k + 2)])
    if kind == "controlcurvepiecewiseinterpolated":
        k = draw(st.integers(1, 2))
        return dict(curve(k), values=[[draw(some), draw(some)] for _ in range(k + 1)], minimum=draw(st.sampled_from([0.0, -0.5])),
                    maximum=draw(st.sampled_from([1.0, 1.5])))
    if kind == "controlcurveindex":
        return curve(draw(st.integers(1, 3)))
    if kind == "parameterthreshold":
        return {"threshold": draw(st.one_of(some, st.sampled_from(POOL[1:])))}
    if kind == "storagethreshold":
        return {"threshold": draw(st.one_of(st.integers(0, 40).map(float), st.sampled_from(POOL)))}
    if kind == "aggregated":
        return {"agg_func": draw(st.sampled_from(["sum", "product", "mean", "median", "max", "min"])),
                "parameters": draw(st.lists(st.sampled_from(POOL), min_size=1, max_size=4))}
    if kind == "division":
        return {"numerator": draw(st.sampled_from(POOL)), "denominator": draw(st.sampled_from(POOL))}
    if kind in ("max", "min", "negativemax", "negativemin"):
        return {"threshold": draw(some)}
    if kind == "offset":
        return {"offset": draw(some)}
    if kind == "constant":
        return {"scale": draw(some), "offset": draw(some)}
    if kind == "discountfactor":
        return {"rate": draw(tenths), "base_year": draw(st.integers(1990, 2020))}
    return {k: draw(st.sampled_from(POOL)) for k in ("target", "max_flow", "min_flow", "water_elevation_parameter")}


KINDS = ["controlcurve", "controlcurveinterpolated", "controlcurvepiecewiseinterpolated", "controlcurveindex", "parameterthreshold",
         "storagethreshold", "aggregated", "aggregated", "division", "max", "min", "negativemax", "negativemin", "offset", "constant", "discountfactor",
         "hydropowertarget", "hydropowertarget"]


@st.composite
def parameter_histories(draw):
    kind = draw(st.sampled_from(KINDS))
    some = anything
    sp = {"kind": kind, "n": draw(st.integers(2, 5)), "ns": draw(st.integers(1, 2)), "at": draw(st.integers(0, 6))}
    if kind in ("division", "hydropowertarget"):
        some = st.integers(1, 16).map(lambda x: x / 4.0)
    sp["tables"] = [[[draw(some) for _ in range(sp["ns"])] for _ in range(sp["n"])] for _ in POOL]
    sp["flows"] = [[float(draw(st.integers(0, 12))) for _ in range(sp["n"])] for _ in range(2)]
    sp["states"] = [settings(draw, kind) for _ in range(draw(st.integers(2, 4)))]
    sp["order"] = draw(st.permutations(POOL))
    return sp


def parameter_document(sp, now):
    kind = sp["kind"]
    p = {"type": kind}
    own = dict(now)
    for k in ("storage_node", "threshold", "water_elevation_parameter", "target", "max_flow", "min_flow"):
        if k in own:
            p[k] = own.pop(k)
    if kind == "storagethreshold":
        p["storage_node"] = "s1"
    if kind in ("parameterthreshold", "max", "min", "negativemax", "negativemin", "offset"):
        p["parameter"] = "a"
    if kind in ("parameterthreshold", "storagethreshold"):
        p.update(predicate="GT", values=[-1.0, 2.5])
    if kind == "constant":
        p["value"] = 1.5
    p.update(own)
    params = [[k, {"type": "veriftable", "table": t}] for k, t in sorted(zip(POOL, sp["tables"]), key=lambda x: sp["order"].index(x[0]))]
    params.insert(sp["at"], ["p", p])
    doc = {"metadata": {"title": "p", "minimum_version": "0.1"}, "solver": {"name": "glpk"},
           "timestepper": {"start": "2015-01-01", "end": "2015-01-%02d" % sp["n"], "timestep": 1},
           "nodes": [], "edges": [], "parameters": dict(params)}
    if sp["ns"] > 1:
        doc["scenarios"] = [{"name": "S", "size": sp["ns"]}]
    for j in (1, 2):
        doc["nodes"] += [{"name": "i%d" % j, "type": "Catchment", "flow": {"type": "arrayindexed", "values": sp["flows"][j - 1]}},
                         {"name": "s%d" % j, "type": "Storage", "max_volume": 40.0 / j, "initial_volume": 5.0 * j, "cost": -1.0},
                         {"name": "o%d" % j, "type": "Output"}]
        doc["edges"] += [["i%d" % j, "s%d" % j], ["s%d" % j, "o%d" % j]]
    return doc


def put(model, old, new):
    p = model.parameters["p"]
    for k, v in new.items():
        if k == "parameters":
            # one by one: only what differs
            have = list(old["parameters"])
            for x in have[:]:
                if x not in v or have.count(x) > v.count(x):
                    p.remove(model.parameters[x])
                    have.remove(x)
            for x in v:
                if v.count(x) > have.count(x):
                    p.add(model.parameters[x])
                    have.append(x)
            continue
        if k == "storage_node":
            v = model.nodes[v]
        elif isinstance(v, str) and k != "agg_func":
            v = model.parameters[v]
        elif k == "control_curves":
            v = [model.parameters[x] if isinstance(x, str) else x for x in v]
        setattr(p, k, v)


def read(model, n):
    start(model)
    p = model.parameters["p"]
    out = []
    for _ in range(n):
        model.step()
        out.append(np.array(p.get_all_values() if not hasattr(p, "get_all_indices") else p.get_all_indices(), dtype=float))
    return np.array(out)


def t_parameters(sp, ev):
    model = nets.load(parameter_document(sp, sp["states"][0]), plain=True)
    ev.tag(sp["kind"])
    old = before = None
    for k, now in enumerate(sp["states"]):
        if k:
            put(model, sp["states"][k - 1], now)
        fresh = nets.load(parameter_document(sp, now), plain=True)
        with np.errstate(all="ignore"):
            want, got = read(fresh, sp["n"]), read(model, sp["n"])
        if not np.array_equal(want, got, equal_nan=True) and not np.allclose(want, got, rtol=1e-9, atol=1e-9, equal_nan=True):
            raise Violation("%s set to %s (after %s): values %s, in a fresh model %s" % (sp["kind"], now, before, got.tolist(), want.tolist()))
        ev.nt(old is not None and not np.array_equal(old, want, equal_nan=True))
        old, before = want, now


# ---------------------------------------------------------------------------------------------------------------
# numbers set between two steps of a run

@st.composite
def step_histories(draw):
    spec = draw(nets.networks(options=True, max_n=6))
    for k in ("set_fixed_flows_once", "set_fixed_costs_once"):
        spec.get("args", {}).pop(k, None)
    nets.perturb(spec)
    n, ns = spec["n"], spec["ns"]
    spec["sets"] = []
    for _ in range(draw(st.integers(1, 6))):
        d = draw(st.sampled_from([d for d in spec["nodes"] if d["type"] != "Storage"]))
        can = [k for k in ("max", "cost", "cost") if k in d and not isinstance(d[k], dict)]
        if not can:
            continue
        k, t = draw(st.sampled_from(can)), draw(st.integers(0, n - 1))
        if k == "cost":
            new = nets.shift(draw(nets.costs), round(d[k] - round(d[k]), 9))
        else:
            new = draw(nets.flows) + max(nets.all_vals(d.get("min", 0.0)))
        spec["sets"].append([t, d["name"], "max_flow" if k == "max" else "cost", new])
    return spec


def t_steps(spec, ev):
    names = [d["name"] for d in spec["nodes"]]
    n = spec["n"]
    same = copy.deepcopy(spec)
    keys = {"max_flow": "max", "cost": "cost"}
    sets = sorted(spec["sets"], key=lambda x: x[0])
    for t, x, attr, new in sets:
        d = next(d for d in same["nodes"] if d["name"] == x)
        old = d[keys[attr]]
        if not isinstance(old, dict):
            old = d[keys[attr]] = {"k": "t", "v": [old] * n}
        old["v"] = old["v"][:t] + [new] * (n - t)
    fresh = nets.load(document(same))
    start(fresh)
    want = trace(fresh, same, names)
    model = nets.load(document(spec))
    start(model)
    for t in range(n):
        for u, x, attr, new in sets:
            if u == t:
                setattr(model.nodes[x], attr, new)
                ev.tag(attr)
        a, b = want[t], trace(model, dict(spec, n=1), names)[0]
        what = "after setting %s, step %d: " % ([y for y in sets if y[0] <= t], t)
        if a[0] == "error" or b[0] == "error":
            if a[0] == b[0]:
                ev.tag("infeasible")
                return
            if "singular" in (a[1] if a[0] == "error" else b[1]):
                return
            gap = margin(same, t, a[2])
            if gap is None or 0 < gap < 1e-2:
                ev.tag("undecided")
                return
            raise Violation(what + "the %s model raises %s, the other does not (reference: infeasible by %r)" % (
                "model with series" if a[0] == "error" else "changed model", a[1] if a[0] == "error" else b[1], gap))
        for x in names:
            if not np.allclose(a[0][x], b[0][x], rtol=1e-5, atol=1e-5):
                raise Violation(what + "flow of %s is %r, %r in a model with these values as series" % (x, b[0][x].tolist(), a[0][x].tolist()))
        ev.nt(any(y[0] == t for y in sets) and bool(t))


TESTS = [Test("values", histories(), t_values, 1500, 4), Test("parameters", parameter_histories(), t_parameters, 1500, 2),
         Test("steps", step_histories(), t_steps, 500, 1)]
