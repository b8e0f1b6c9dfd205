"""C03: storage volumes follow from flows, time-step length and bounds."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import nets
from harness.core import Test, Violation, require, req_close, raises
from checks.c01 import step_days

TECHNIQUE = "random networks of storages; the mass balance, bound and proportion invariants over the whole history of a run"
RULE = ("random networks with one to four storages (constant or varying limits, absolute or relative initial volume), all step lengths; "
        "non-trivial: a storage's volume changed during the run")
NOTE = ("Volume, proportion, initial volume and net flow are checked for every storage, step and scenario of every generated run; a maximum "
        "(minimum) that moves past the current volume is not required to be met at once.")


@st.composite
def storages(draw):
    spec = draw(nets.networks(max_storages=3, max_links=3, max_inputs=2, max_outputs=2, max_n=6, max_scen=3))
    while not any(d["type"] == "Storage" for d in spec["nodes"]):
        mx = float(draw(st.integers(1, 60)))
        spec["nodes"].append({"name": "sx", "type": "Storage", "nin": 1, "nout": 1, "minv": 0.0, "maxv": mx, "init": mx / 2,
                              "cost": draw(nets.costs)})
        i = next(d["name"] for d in spec["nodes"] if d["type"] == "Input")
        o = next(d["name"] for d in spec["nodes"] if d["type"] == "Output")
        spec["edges"] += [[i, "sx", None, 0], ["sx", o, 0, None]]
    for d in spec["nodes"]:
        if d["type"] == "Storage":
            if not isinstance(d["maxv"], dict):
                d["how"] = draw(st.sampled_from(["abs", "abs", "pc", "both", "constparam", "constpc"]))
                if d["how"] in ("pc", "both", "constpc"):
                    f = draw(st.sampled_from([0.0, 0.25, 0.5, 0.875, 1.0]))
                    if f * d["maxv"] < d["minv"]:
                        f = 1.0
                    d["pc"] = f
            else:
                d["how"] = "param"
                d["pc"] = draw(st.sampled_from([0.0, 0.3, 0.5, 1.0]))
            if spec["solver"] != "lpsolve" and d["minv"] > 0 and draw(st.integers(0, 2)) == 0:
                d["minv"] = draw(nets.varying(st.integers(0, int(d["minv"])).map(float), spec["n"], spec["ns"], ("t", "s", "ts")))
    return spec


def document(spec):
    doc = nets.document(spec)
    doc["parameters"] = {}
    for d, o in zip(spec["nodes"], doc["nodes"]):
        if d["type"] != "Storage":
            continue
        o.pop("initial_volume_pc", None)
        if d["how"] in ("pc", "constpc"):
            o.pop("initial_volume")
        if "pc" in d:
            o["initial_volume_pc"] = d["pc"]
        if d["how"].startswith("const"):
            doc["parameters"]["max of " + d["name"]] = {"type": "constant", "value": d["maxv"]}
            o["max_volume"] = "max of " + d["name"]
    return doc


def initial(d):
    if d["how"] == "param":
        return d["init"], d["pc"]
    if "pc" in d:
        return d["pc"] * d["maxv"], d["pc"]
    return d["init"], d["init"] / d["maxv"] if d["maxv"] else math.nan


def t_balance(spec, ev):
    model = nets.load(document(spec))
    model.setup()
    stores = [d for d in spec["nodes"] if d["type"] == "Storage"]
    ns = spec["ns"]
    prev = {}
    for d in stores:
        v, pc = initial(d)
        node = model.nodes[d["name"]]
        for s in range(ns):
            req_close("initial volume of %s" % d["name"], node.volume[s], v, 1e-12, 1e-9)
            req_close("initial proportion of %s" % d["name"], node.current_pc[s], pc, 1e-12, 1e-9)
        prev[d["name"]] = np.array(node.volume, dtype=float)
        ev.tag(d["how"])
    for t in range(spec["n"]):
        days = step_days(spec, t)
        try:
            model.step()
        except RuntimeError:
            ev.tag("infeasible")
            return
        for d in stores:
            x = d["name"]
            node = model.nodes[x]
            for s in range(ns):
                what = "step %d scenario %d %s: " % (t, s, x)
                net = sum(float(o.flow[s]) for o in node.outputs) - sum(float(i.flow[s]) for i in node.inputs)
                gross = sum(float(o.flow[s]) for o in list(node.outputs) + list(node.inputs))
                req_close(what + "net flow", node.flow[s], net, 1e-9, 1e-7 * (1 + gross))
                want = prev[x][s] + net * days
                mn, mx = nets.val(d["minv"], t, s), nets.val(d["maxv"], t, s)
                e = 2e-6 * (1 + abs(prev[x][s]) + gross * days)
                v = float(node.volume[s])
                req_close(what + "volume", v, want, 0, e)
                top, bottom = max(mx, prev[x][s]), min(mn, prev[x][s])
                require(bottom - e <= v <= top + e, what + "volume %r outside [%r, %r]" % (v, bottom, top))
                if prev[x][s] > mx + e:
                    require(v <= prev[x][s] + e, what + "volume %r rises above the maximum %r" % (v, mx))
                if mx > 0:
                    req_close(what + "proportion", node.current_pc[s], v / mx, 1e-9, 1e-12)
                else:
                    require(math.isnan(node.current_pc[s]), what + "proportion of nothing is %r" % float(node.current_pc[s]))
                for k, (f, c) in enumerate([(float(i.flow[s]), "input") for i in node.inputs] + [(float(o.flow[s]), "output") for o in node.outputs]):
                    require(f >= -1e-6 * (1 + gross), what + "negative flow %r through %s" % (f, c))
                ev.nt(abs(v - prev[x][s]) > 1e-6)
        for d in stores:
            prev[d["name"]] = np.array(model.nodes[d["name"]].volume, dtype=float)
    # a new run starts where the first did
    model.reset()
    for d in stores:
        v, pc = initial(d)
        for s in range(ns):
            req_close("initial volume of %s after reset" % d["name"], model.nodes[d["name"]].volume[s], v, 1e-12, 1e-9)
            req_close("initial proportion of %s after reset" % d["name"], model.nodes[d["name"]].current_pc[s], pc, 1e-12, 1e-9)


# a single storage, driven far over its limits, in many scenarios and long runs, through the Python interface
@st.composite
def tanks(draw):
    n = draw(st.integers(1, 30))
    mx = draw(st.floats(0.5, 1000).map(lambda x: round(x, 3)))
    mn = round(mx * draw(st.sampled_from([0.0, 0.0, 0.1, 0.5])), 3)
    init = round(mn + (mx - mn) * draw(st.sampled_from([0.0, 0.5, 1.0, 0.3])), 3)
    pc = draw(st.sampled_from([None, 0.5, 0.75, 1.0]))
    lift = draw(st.sampled_from([0.0, 0.0, 0.0, 1e5, 1e7]))      # reservoirs that are large against their flows
    solver = draw(st.sampled_from(["glpk", "glpk-edge", "lpsolve"]))
    if lift and solver != "lpsolve":        # lpsolve warm starts badly when a bound jumps from tens to millions
        pc, mx = None, round(mx + lift, 3)
        if draw(st.booleans()):
            init = round(mx - 10 ** draw(st.floats(-2, 2)), 3)
        if draw(st.booleans()) and mn:
            mn = round(init - 10 ** draw(st.floats(-2, 2)), 3) if init > 100 else mn
    top = draw(st.sampled_from([40.0, 40.0, 0.5])) if lift else 40.0
    return {"n": n, "max": mx, "min": mn, "pc": pc, "init": init, "lift": lift,
            "in": [draw(st.floats(0, top).map(lambda x: round(x, 2))) for _ in range(n)],
            "out": [draw(st.floats(0, top).map(lambda x: round(x, 2))) for _ in range(n)],
            "step": draw(st.sampled_from([1, 2, 5, 7, 30])), "spill": draw(st.booleans()), "want": draw(st.sampled_from([-10.0, 10.0])),
            "solver": solver, "setinit": draw(st.booleans())}


def t_tank(spec, ev):
    import datetime as dt
    from pywr.model import Model
    from pywr.nodes import Catchment, Input, Output, Storage
    from pywr.parameters import ArrayIndexedParameter
    start = dt.date(2015, 1, 1)
    m = Model(solver=spec["solver"], start=start, end=start + dt.timedelta(days=spec["step"] * (spec["n"] - 1)), timestep=spec["step"])
    i = Input(m, "i", max_flow=ArrayIndexedParameter(m, spec["in"]), cost=1.0)
    o = Output(m, "o", max_flow=ArrayIndexedParameter(m, spec["out"]), cost=-20.0)
    kw = {"initial_volume": spec["init"]}
    if spec["pc"] is not None:
        kw = {"initial_volume_pc": spec["pc"]}
    s = Storage(m, "s", min_volume=spec["min"], max_volume=spec["max"], cost=spec["want"], **kw)
    i.connect(s)
    s.connect(o)
    v = spec["init"]
    ev.tag(spec["solver"], "lift %g" % spec["lift"])
    if spec["pc"] is not None:
        v = spec["pc"] * spec["max"]
    if spec["setinit"]:
        m.run()
        v = spec["min"] + (spec["max"] - spec["min"]) * 0.625
        if spec["lift"]:
            v = (v + spec["max"] * 3 + spec["init"] * 4) / 8 if spec["init"] < spec["max"] - 1000 else (spec["max"] + spec["init"]) / 2
        s.initial_volume_pc = None
        s.initial_volume = v
        m.reset()
    else:
        m.setup()
    days = spec["step"]
    for t in range(spec["n"]):
        req_close("step %d: volume before" % t, s.volume[0], v, 1e-11, 1e-5)
        m.step()
        # supply the demand as far as possible; fill up if that pays
        out = min(spec["out"][t], max(v - spec["min"], 0) / days + spec["in"][t])
        room = (spec["max"] - v) / days
        inn = min(spec["in"][t], room + out) if spec["want"] < 0 else min(max(out - max(v - spec["min"], 0) / days, 0), spec["in"][t])
        inn = min(inn, room + out)
        want = v + (inn - out) * days
        req_close("step %d: volume after in %r out %r" % (t, inn, out), s.volume[0], want, 1e-11, 1e-5 * days)
        req_close("step %d: net flow" % t, s.flow[0], inn - out, 1e-6, 1e-5)
        req_close("step %d: proportion" % t, s.current_pc[0], s.volume[0] / spec["max"], 1e-9, 1e-9)
        ev.nt(abs(want - v) > 1e-4)
        v = float(s.volume[0])


TESTS = [Test("balance", storages(), t_balance, 1200, 3), Test("tank", tanks(), t_tank, 480, 1)]
