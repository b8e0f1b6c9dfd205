"""C34: groundwater storages."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import nets, pm, rich
from harness.core import Test, Violation, isclose, raises, require, req_close, req_equal

TECHNIQUE = "property-based testing: random layered aquifers over random recharge histories, against a step-by-step model of the documented laws"
RULE = ("1 to 4 layers, 1 to 3 streams with 1 to 3 levels each, varying recharge and abstraction; non-trivial: a stream flows in at least one step, or an invalid aquifer is refused")
NOTE = "Level, stream flow, abstraction and volume equal the model's in every generated step."


@st.composite
def aquifers(draw):
    q = lambda lo, hi: draw(st.integers(4 * lo, 4 * hi)) / 4.0
    layers = draw(st.integers(1, 4))
    levels = [q(-10, 30)]
    for _ in range(layers):
        levels.append(levels[-1] + q(1, 40))
    out = {"levels": levels}
    if draw(st.booleans()):
        vols = [q(0, 100)]
        for _ in range(layers):
            vols.append(vols[-1] + q(1, 900))
        out["volumes"] = vols
    else:
        out["area"] = draw(st.sampled_from([1e5, 2.5e6, 1e8]))
        out["storativity"] = [draw(st.sampled_from([0.001, 0.01, 0.05, 0.3])) for _ in range(layers)]
    nl = draw(st.integers(1, 3))
    # stream levels anywhere in, below or above the layers
    span = levels[-1] - levels[0]
    out["streams"] = [[round(levels[0] + span * draw(st.integers(-2, 11)) / 10.0, 6) for _ in range(nl)] for _ in range(draw(st.integers(1, 3)))]
    out["T"] = [draw(st.integers(1, 40)) / 40.0 for _ in range(nl)]
    out["C"] = draw(st.sampled_from([1.0, 0.5, 0.05, 0.01]))
    out["extra"] = draw(st.integers(1, 2))
    out["start"] = draw(st.integers(0, 20)) / 20.0
    return out


def volumes(a):
    if "volumes" in a:
        return list(a["volumes"])
    v = [0.0]
    for s, lo, hi in zip(a["storativity"], a["levels"], a["levels"][1:]):
        v.append(v[-1] + a["area"] * s * (hi - lo) * 0.001)
    return v


def stream(a, levels, level):
    return sum(2 * t * a["C"] * max(0.0, level - x) for t, x in zip(a["T"], levels))


def build(model, a, name="aquifer", **kw):
    from pywr.domains.groundwater import KeatingAquifer
    d = {k: a[k] for k in ("volumes", "area", "storativity") if k in a}
    d.update(kw)
    return KeatingAquifer(model, name, len(a["streams"]), a["extra"], a["streams"], a["T"], a["C"], a["levels"], **d)


@st.composite
def histories(draw):
    a = draw(aquifers())
    clock = draw(pm.clocks(10, "DDDDDDWM", 1990, 2030))
    n = len(pm.steps(clock))
    ns = draw(st.sampled_from([1, 1, 2]))
    days = max((b - x).days for x, b, _ in pm.steps(clock))
    v = volumes(a)
    span = (v[-1] - v[0]) / days
    fr = lambda: [[round(span * draw(st.sampled_from([0.0, 0.0, 0.02, 0.1, 0.3, 1.0])), 6) for _ in range(ns)] for _ in range(n)]
    return {"a": a, "clock": clock, "ns": ns, "recharge": fr(), "demand": fr(), "solver": draw(st.sampled_from(["glpk", "glpk", "glpk-edge"]))}


def t_history(spec, ev):
    from pywr.core import Input, Model, Output, Scenario
    from pywr.recorders import NumpyArrayLevelRecorder, NumpyArrayNodeRecorder, NumpyArrayStorageRecorder
    table = nets.register()
    a, ns = spec["a"], spec["ns"]
    steps = pm.steps(spec["clock"])
    v = volumes(a)
    ts = pm.timestepper(spec["clock"])
    m = Model(solver=spec["solver"], start=ts["start"], end=ts["end"], timestep=ts["timestep"])
    if ns > 1:
        Scenario(m, "S", size=ns)
    aq = build(m, a)
    start = a["levels"][0] + a["start"] * (a["levels"][-1] - a["levels"][0])
    aq.initial_level = start
    req_close("initial volume for the level %r" % start, aq.initial_volume, np.interp(start, a["levels"], v), 1e-9, 1e-9)
    req_close("initial level read back", aq.initial_level, start, 1e-9, 1e-9)
    req_close("maximum volume", aq.get_max_volume(m.scenarios.combinations[0]) if m.scenarios.combinations else aq.max_volume, v[-1], 1e-9, 1e-9)
    rain = Input(m, "rain", max_flow=table(m, spec["recharge"]), cost=-1.0)
    well = Output(m, "well", max_flow=table(m, spec["demand"]), cost=-100.0)
    rain.connect(aq)
    outs = []
    for i in range(len(a["streams"])):
        o = Output(m, "stream%d" % i)
        aq.connect(o, from_slot=i)
        outs.append(NumpyArrayNodeRecorder(m, o))
    for k in range(a["extra"]):
        aq.connect(well, from_slot=len(a["streams"]) + k)
    rw, rr = NumpyArrayNodeRecorder(m, well), NumpyArrayNodeRecorder(m, rain)
    rv, rl = NumpyArrayStorageRecorder(m, aq), NumpyArrayLevelRecorder(m, aq)
    vol = [float(np.interp(start, a["levels"], v))] * ns
    expected, stuck = [], None
    for i, (x, b, _) in enumerate(steps):
        days = (b - x).days
        row = []
        for s in range(ns):
            level = float(np.interp(vol[s], v, a["levels"]))
            q = [stream(a, l, level) for l in a["streams"]]
            lo, hi = (vol[s] - v[0]) / days, (v[-1] - vol[s]) / days
            R, D = spec["recharge"][i][s], spec["demand"][i][s]
            room = R + lo - sum(q)
            if stuck is None and room < 1e-6 * (1 + sum(q)):
                stuck = (i, s, room)
            w = min(D, room)
            r = min(R, hi + w + sum(q))
            row.append((level, q, w, r))
            vol[s] = vol[s] + days * (r - w - sum(q))
        expected.append((row, list(vol)))
        if stuck is not None:
            break
    try:
        m.run()
    except Exception as e:
        require(stuck is not None, "the run failed: %s: %s", type(e).__name__, str(e)[:200])
        ev.tag("dry: refused")
        return
    if stuck is not None:
        # the streams take more than there is (or just about all of it)
        require(stuck[2] > -1e-6 * (1 + sum(expected[-1][0][stuck[1]][1])), "streams that take more than the aquifer holds were accepted (step %d)", stuck[0])
        expected = expected[:-1]
    scale = 1e-6 * (1 + v[-1])
    for i, (row, vols) in enumerate(expected):
        for s, (level, q, w, r) in enumerate(row):
            what = "step %d scenario %d: " % (i, s)
            e = 1e-6 * (1 + sum(q) + w + r)
            req_close(what + "level at the beginning", rl.data[i, s], level, 1e-6, 1e-6)
            for k, rec in enumerate(outs):
                req_close(what + "flow of stream %d at level %r" % (k, level), rec.data[i, s], q[k], 1e-6, e)
            req_close(what + "abstraction", rw.data[i, s], w, 1e-6, e)
            req_close(what + "recharge", rr.data[i, s], r, 1e-6, e)
            req_close(what + "volume", rv.data[i, s], vols[s], 1e-6, scale)
            ev.nt(sum(q) > 0)
            ev.tag("stream flows" if sum(q) > 0 else "no stream flow", "full" if r < spec["recharge"][i][s] - e else "takes all recharge")
    if expected and stuck is None:
        for s, si in enumerate(m.scenarios.combinations):
            req_close("level at the end", aq.get_level(si), expected[-1][0][s][0], 1e-6, 1e-6)   # of the step's beginning
    ev.tag(spec["solver"], "%d layers" % (len(a["levels"]) - 1))


@st.composite
def mistakes(draw):
    return {"a": draw(aquifers()), "what": draw(st.sampled_from(["no streams", "stream count", "stream levels", "coefficient", "area", "storativity", "volumes", "level below", "level above", "none"]))}


def t_mistakes(spec, ev):
    from pywr.core import Model
    a = dict(spec["a"])
    m = Model()
    what = spec["what"]
    ev.tag(what)
    ev.nt()
    if what == "none":
        aq = build(m, a)
        req_equal("outlets", len(aq.inputs), len(a["streams"]) + a["extra"])
        for x in np.linspace(a["levels"][0], a["levels"][-1], 7):
            aq.initial_level = x
            req_close("volume at level %r" % x, aq.initial_volume, np.interp(x, a["levels"], volumes(a)), 1e-9, 1e-9)
            req_close("level again", aq.initial_level, x, 1e-9, 1e-9)
        return
    if what.startswith("level"):
        aq = build(m, a)
        raises(ValueError, lambda: setattr(aq, "initial_level", a["levels"][0] - 1.0 if what == "level below" else a["levels"][-1] + 1.0), "an initial level outside the layers")
        return
    if what == "no streams":
        a["streams"] = []
    elif what == "stream levels":
        a["streams"] = [s + [1.0] for s in a["streams"]]
    elif what == "coefficient":
        a["C"] = [a["C"]]
    elif what == "area":
        if "area" not in a:
            return
        a["area"] = [a["area"]]
    elif what == "storativity":
        if "storativity" not in a:
            return
        a["storativity"] = a["storativity"] + [0.1]
    elif what == "volumes":
        if "volumes" not in a:
            return
        a["volumes"] = a["volumes"] + [a["volumes"][-1] + 1.0]
    if what == "stream count":
        from pywr.domains.groundwater import KeatingAquifer
        d = {k: a[k] for k in ("volumes", "area", "storativity") if k in a}
        raises(ValueError, lambda: KeatingAquifer(m, "aquifer", len(a["streams"]) + 1, a["extra"], a["streams"], a["T"], a["C"], a["levels"], **d), "more streams than levels are given for")
    else:
        raises(ValueError, lambda: build(m, a), "an aquifer with wrong " + what)


TESTS = [
    Test("history", histories(), t_history, 1600, 2.0),
    Test("mistakes", mistakes(), t_mistakes, 300, 0.5),
]
