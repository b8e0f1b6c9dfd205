"""C32: hydropower energy and target flow."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import nets, pm, rich
from harness.core import Test, Violation, require, req_close, req_equal

TECHNIQUE = "property-based testing: random turbines, heads and unit conversions, against the documented equation; round trip between the two functions and between target flow and recorded power in whole runs"
RULE = ("random elevations, efficiencies, densities, conversions, targets, bounds, minimum heads, clocks and scenarios, with heads of both signs and from reservoir levels; "
        "non-trivial: some power is generated, or the head or a bound decides")
NOTE = "Power, energy and target flow equal the equation in every generated step; running at an unbounded target generates it."


def power_of(q, head, o):
    return o["density"] * 9.81 * max(head, 0.0) * o["efficiency"] * q * o["flow_unit_conversion"] * o["energy_unit_conversion"]


DEFAULT = {"turbine_elevation": 0.0, "efficiency": 1.0, "density": 1000.0, "flow_unit_conversion": 1.0, "energy_unit_conversion": 1e-6}


@st.composite
def options(draw):
    o = {}
    if draw(st.booleans()):
        o["efficiency"] = draw(st.sampled_from([0.5, 0.85, 0.9, 1.0, 0.123]))
    if draw(st.booleans()):
        o["density"] = draw(st.sampled_from([1000, 1025.5, 998.2, 1.0]))
    if draw(st.booleans()):
        o["flow_unit_conversion"] = draw(st.sampled_from([1.0, 1e3, 86400.0, 0.5]))
    if draw(st.booleans()):
        o["energy_unit_conversion"] = draw(st.sampled_from([1.0, 1e-6, 2.7778e-10, 1e-3]))
    return o


# -- the functions ---------------------------------------------------------------------------------------------

@st.composite
def direct(draw):
    f = st.floats(0.0, 1e4, allow_nan=False).map(lambda x: round(x, 4))
    e = st.floats(-500.0, 500.0, allow_nan=False).map(lambda x: round(x, 3))
    return {"flow": draw(f), "power": draw(f), "water": draw(e), "turbine": draw(e), "o": draw(options()), "eff": draw(st.sampled_from([1.0, 0.9, 0.333])), "by_name": draw(st.booleans())}


def t_direct(spec, ev):
    from pywr.parameters._hydropower import inverse_hydropower_calculation as inverse
    from pywr.recorders._hydropower import hydropower_calculation as forward
    o = dict(DEFAULT, efficiency=spec["eff"], **{k: v for k, v in spec["o"].items() if k != "efficiency"})
    kw = {k: v for k, v in spec["o"].items() if k != "efficiency"}
    head = spec["water"] - spec["turbine"]
    want = power_of(spec["flow"], head, o)
    got = forward(spec["flow"], spec["water"], spec["turbine"], spec["eff"], **kw)
    req_close("power of %r" % spec["flow"], got, want, 1e-9, 1e-12)
    if head > 0.01:
        q = inverse(spec["power"], spec["water"], spec["turbine"], spec["eff"], **kw)
        req_close("flow for power %r" % spec["power"], q, spec["power"] / power_of(1.0, head, o), 1e-9, 1e-12)
        req_close("power of that flow", forward(q, spec["water"], spec["turbine"], spec["eff"], **kw), spec["power"], 1e-9, 1e-9)
        req_close("flow for that power", inverse(got, spec["water"], spec["turbine"], spec["eff"], **kw), spec["flow"], 1e-9, 1e-9)
        ev.tag("positive head")
        ev.nt(spec["flow"] > 0)
    elif head <= 0.0 and spec["power"] > 0:
        require(inverse(spec["power"], spec["water"], spec["turbine"], spec["eff"], **kw) == math.inf, "a flow is said to produce power without head")
        ev.tag("no head")
        ev.nt()


# -- whole runs ------------------------------------------------------------------------------------------------

@st.composite
def systems(draw):
    clock = draw(pm.clocks(8, "DDDDDDWMQ", 1990, 2030))
    n = len(pm.steps(clock))
    ns = draw(st.sampled_from([1, 1, 2, 3]))
    days = max((b - a).days for a, b, _ in pm.steps(clock))
    quarter = lambda lo, hi: st.integers(4 * lo, 4 * hi).map(lambda i: i / 4.0)
    tab = lambda s: [[draw(s) for _ in range(ns)] for _ in range(n)]
    top = draw(quarter(20, 200)) * days
    out = {"clock": clock, "ns": ns, "solver": draw(st.sampled_from(["glpk", "glpk", "glpk-edge", "lpsolve"])), "inflow": tab(quarter(0, 40)), "top": top,
           "start": draw(st.sampled_from([1.0, 0.5, 0.1])),
           "levels": [draw(quarter(-20, 60))], "head": draw(st.sampled_from(["table", "level", "none"])), "o": draw(options()), "spill": draw(quarter(0, 10)),
           "demand": draw(quarter(0, 60)), "elevation": tab(quarter(-20, 120)), "agg": draw(st.sampled_from(["mean", "sum", "max", "min"])),
           "scen_agg": draw(st.sampled_from(["mean", "sum", "max"]))}
    out["levels"].append(out["levels"][0] + draw(quarter(1, 30)))
    out["levels"].append(out["levels"][1] + draw(quarter(1, 80)))
    if draw(st.integers(0, 3)):
        out["turbine"] = draw(quarter(-20, 60))
    if draw(st.integers(0, 3)):
        t = {"type": draw(st.sampled_from(["table", "constant"])), "fraction": tab(quarter(0, 30))}
        if draw(st.booleans()):
            t["max"] = draw(quarter(2, 40))
        if draw(st.booleans()):
            t["min"] = draw(quarter(0, 2))
        if draw(st.booleans()):
            t["min_head"] = draw(quarter(0, 60))
        out["target"] = t
    return out


def t_run(spec, ev):
    steps = pm.steps(spec["clock"])
    ns = spec["ns"]
    o = dict(DEFAULT, **spec["o"])
    extra = dict(spec["o"])
    if "turbine" in spec:
        extra["turbine_elevation"] = spec["turbine"]
        o["turbine_elevation"] = spec["turbine"]
    if spec["head"] != "none":
        extra["water_elevation_parameter"] = "elevation"
    unit = power_of(1.0, 10.0, o)       # power of one unit of flow at ten units of head
    vols = [0.0, 0.4 * spec["top"], spec["top"]]
    doc = {"metadata": {"title": "h", "minimum_version": "0.1"}, "timestepper": pm.timestepper(spec["clock"]), "solver": {"name": spec["solver"]},
           "scenarios": [{"name": "S", "size": ns}],
           "nodes": [{"name": "in", "type": "Input", "max_flow": {"type": "veriftable", "table": spec["inflow"]}, "cost": -0.1},
                     {"name": "res", "type": "Storage", "max_volume": spec["top"], "initial_volume": round(spec["top"] * spec["start"], 6), "cost": -1.0},
                     {"name": "turbine", "type": "Link", "max_flow": "limit", "cost": -10.0},
                     {"name": "sea", "type": "Output"}],
           "edges": [["in", "res"], ["res", "turbine"], ["turbine", "sea"]],
           "parameters": {"limit": {"type": "constant", "value": spec["demand"]}},
           "recorders": {"power": dict(extra, type="hydropower", node="turbine", temporal_agg_func=spec["agg"], agg_func=spec["scen_agg"]),
                         "energy": dict(extra, type="totalhydroenergy", node="turbine", agg_func=spec["scen_agg"])}}
    if spec["head"] == "table":
        doc["parameters"]["elevation"] = {"type": "veriftable", "table": spec["elevation"]}
    elif spec["head"] == "level":
        doc["parameters"]["elevation"] = {"type": "interpolatedvolume", "node": "res", "volumes": vols, "values": spec["levels"], "interp_kwargs": {"bounds_error": False, "fill_value": "extrapolate"}}
    t = spec.get("target")
    if t:
        table = [[f * unit for f in row] for row in t["fraction"]]
        if t["type"] == "constant":
            table = [[table[0][0]] * ns for _ in steps]
            doc["parameters"]["target"] = {"type": "constant", "value": table[0][0]}
        else:
            doc["parameters"]["target"] = {"type": "veriftable", "table": table}
        d = dict(extra, type="hydropowertarget", target="target")
        for key in ("max", "min"):
            if key in t:
                doc["parameters"][key] = {"type": "constant", "value": t[key]}
                d[key + "_flow"] = key
        if "min_head" in t:
            d["min_head"] = t["min_head"]
        doc["parameters"]["limit"] = d
    model = rich.load(doc)
    watch = rich.watcher(model)
    model.run()
    ev.tag(spec["solver"], "head " + spec["head"], "target" if t else "no target")
    energy = [0.0] * ns
    data = np.asarray(model.recorders["power"].data)
    req_equal("shape of the recorded power", list(data.shape), [len(steps), ns])
    frame = model.recorders["power"].to_dataframe()
    req_equal("shape of the table", list(frame.shape), [len(steps), ns])
    before = [round(spec["top"] * spec["start"], 6)] * ns
    for i, (a, b, _) in enumerate(steps):
        for s in range(ns):
            what = "step %d scenario %d: " % (i, s)
            flow = float(watch.log["flow of turbine"][i][s])
            if spec["head"] == "none":
                head = o["turbine_elevation"]
            else:
                e = float(watch.log["parameter elevation"][i][s])
                want = spec["elevation"][i][s] if spec["head"] == "table" else float(np.interp(before[s], vols, spec["levels"]))
                req_close(what + "elevation", e, want, 1e-7, 1e-6)
                head = e - o["turbine_elevation"]
            p = power_of(flow, head, o)
            req_close(what + "recorded power (flow %r, head %r)" % (flow, head), data[i, s], p, 1e-9, 1e-12)
            req_close(what + "power in the table", frame.iloc[i, s], p, 1e-9, 1e-12)
            energy[s] += p * (b - a).days
            ev.nt(p > 0 or (flow > 0 and head <= 0))
            if head < 0:
                ev.tag("head below the turbine")
            if t:
                limit = float(watch.log["parameter limit"][i][s])
                h = max(head, 0.0)
                if h < t.get("min_head", 0.0):
                    want = 0.0
                    ev.tag("below the minimum head")
                elif h == 0.0:
                    want = None
                    if table[i][s] > 0:
                        want = max(t.get("max", math.inf), t.get("min", 0.0))
                else:
                    q = table[i][s] / power_of(1.0, h, o)
                    want = max(min(q, t.get("max", math.inf)), t.get("min", 0.0))
                    ev.tag("bounded" if want != q else "unbounded")
                    if want == q and abs(flow - limit) < 1e-9 * (1 + abs(limit)):
                        req_close(what + "power generated when running at the target flow", data[i, s], table[i][s], 1e-6, 1e-6 * unit)
                        ev.tag("target generated")
                if want is not None:
                    req_close(what + "target flow (target %r, head %r)" % (table[i][s], head), limit, want, 1e-9, 1e-12)
                if limit < 1e8:
                    require(flow <= limit + 1e-6 * (1 + limit), what + "flow %r above the target flow %r" % (flow, limit))
            before[s] = float(watch.log["volume of res"][i][s])
    got = model.recorders["energy"].values()
    agg = {"mean": np.mean, "sum": np.sum, "max": np.max, "min": np.min}
    for s in range(ns):
        req_close("total energy of scenario %d" % s, got[s], energy[s], 1e-9, 1e-12)
        req_close("power over time of scenario %d" % s, model.recorders["power"].values()[s], agg[spec["agg"]](data[:, s]), 1e-9, 1e-12)
    req_close("aggregated energy", model.recorders["energy"].aggregated_value(), agg[spec["scen_agg"]](energy), 1e-9, 1e-12)
    req_close("aggregated power", model.recorders["power"].aggregated_value(), agg[spec["scen_agg"]]([agg[spec["agg"]](data[:, s]) for s in range(ns)]), 1e-9, 1e-12)


TESTS = [
    Test("direct", direct(), t_direct, 1500, 0.5),
    Test("run", systems(), t_run, 1500, 2.0),
]
