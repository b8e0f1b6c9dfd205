"""C22: series recorders store exactly what happened."""

import numpy as np
from hypothesis import strategies as st

from checks.c11 import table, table_doc
from harness import compound, driven, extras, nets, scen
from harness.core import Test, req_arrays, req_equal

TECHNIQUE = "random models whose history is known (or observed step by step), every kind of series recorder on them, compared entry by entry with that history"
RULE = ("driven models over random clocks and scenario sets with one recorder of each kind, and random networks with compound, aggregated and virtual nodes; "
        "non-trivial: more than one time-step and some series that changes")
NOTE = "Every entry of every series recorder, and the dates and scenario labels of its table, are those of the independently known history, also after a re-run."

curve = st.integers(0, 16).map(lambda x: x / 16.0)
FLOWS = ("sup", "dem", "cat", "out", "spill")
factors = st.sampled_from([1.0, 1.0, 2.0, -0.5, 0.25, 100.0])


@st.composite
def specs(draw):
    sp = draw(driven.specs())
    n, c = driven.nsteps(sp), driven.ncomb(sp)
    sp["cc"] = draw(table(curve.filter(lambda x: x < 1.0), n, c))
    sp["level"] = draw(table(driven.num, n, c))
    sp["area"] = draw(table(driven.num, n, c))
    sp["factor"] = [draw(factors) for _ in FLOWS]
    sp["interp"] = draw(st.booleans())
    sp["day"] = draw(st.booleans())
    sp["ncost"] = draw(table(driven.num.filter(lambda x: x > -20.0), n, c))
    return sp


def document(sp):
    doc = driven.document(sp)
    st_ = next(d for d in doc["nodes"] if d["name"] == "store")
    doc["parameters"]["level"] = {"type": "interpolatedvolume", "node": "store", "volumes": [0.0, 60.0], "values": [10.0, 40.0]} if sp["interp"] else \
        table_doc(sp["level"], number=False)
    st_["level"] = "level"
    st_["area"] = table_doc(sp["area"])
    next(d for d in doc["nodes"] if d["name"] == "sup")["cost"] = table_doc(sp["ncost"])
    R = doc["recorders"]
    for f, x in zip(sp["factor"], FLOWS):
        R["flow " + x] = {"type": "NumpyArrayNode", "node": x, "factor": f}
        if f == 1.0:
            del R["flow " + x]["factor"]
        if x in ("spill", "cat"):
            continue
        for k in ("Deficit", "SuppliedRatio", "CurtailmentRatio", "Cost"):
            R[k + " " + x] = {"type": "NumpyArrayNode%sRecorder" % k, "node": x}
    R["volume"] = {"type": "numpyarraystorage", "node": "store"}
    R["pc"] = {"type": "numpyarraystoragerecorder", "node": "store", "proportional": True}
    R["r level"] = {"type": "numpyarraylevel", "node": "store"}
    R["area"] = {"type": "numpyarrayarea", "node": "store"}
    R["norm"] = {"type": "numpyarraynormalisedstorage", "node": "store", "parameter": table_doc(sp["cc"], number=False)}
    for j in range(len(sp["p"])):
        R["r p%d" % j] = {"type": "numpyarrayparameter", "parameter": "p%d" % j}
    if sp["day"]:
        R["day"] = {"type": "numpyarraydailyprofileparameter", "parameter": "p0"}
    for j in range(len(sp["i"])):
        R["r i%d" % j] = {"type": "numpyarrayindexparameter", "parameter": "i%d" % j}
    return doc


def expected(sp):
    h = driven.history(sp)
    out = {}
    for f, x in zip(sp["factor"], FLOWS):
        out["flow " + x] = h["flow"][x] * f
        if x in ("spill", "cat"):
            continue
        m, g = h["max"][x], h["flow"][x]
        out["Deficit " + x] = m - g
        ratio = np.divide(g, m, out=np.ones_like(m), where=m != 0)
        out["SuppliedRatio " + x] = ratio
        out["CurtailmentRatio " + x] = np.where(m != 0, 1.0 - ratio, 0.0)
        out["Cost " + x] = np.array(sp["ncost"]["v"]) if x == "sup" else np.full_like(m, {"dem": -100.0, "out": -20.0}[x])
    out["volume"], out["pc"] = h["vol"], h["pc"]
    if sp["interp"]:
        before = np.vstack([np.full((1, h["vol"].shape[1]), sp["init"]), h["vol"][:-1]])
        out["r level"] = 10.0 + before / 2.0          # a parameter has the value of the start of the time-step
    else:
        out["r level"] = np.array(sp["level"]["v"])
    out["area"] = np.array(sp["area"]["v"])
    cc = np.array(sp["cc"]["v"])
    with np.errstate(divide="ignore", invalid="ignore"):
        out["norm"] = np.where(h["pc"] < cc, h["pc"] / cc - 1.0, (h["pc"] - cc) / (1.0 - cc))
    # around the curve the sign of a rounding error decides, but the value is continuous there (0 from both sides) unless the curve is 0
    for j, x in enumerate(h["p"]):
        out["r p%d" % j] = x
    for j, x in enumerate(h["i"]):
        out["r i%d" % j] = x
    return h, out


def t_driven(sp, ev):
    from harness import cal, pm
    model = driven.load(document(sp))
    h, want = expected(sp)
    day = np.zeros((366, driven.ncomb(sp)))
    step, _ = cal.make_step(sp["clock"]["step"])
    for t, (a, b, lab) in enumerate(pm.steps(sp["clock"])):
        day[cal.profile_day(lab)] = h["p"][0][t]
    labelled = bool(sp["scen"]["scen"])
    for run in range(2):
        model.run()
        for name, w in want.items():
            r = model.recorders[name]
            what = "recorder %r (run %d)" % (name, run + 1)
            req_arrays(what, r.data, w, atol=1e-6)
            driven.check_frame(what, r.to_dataframe(), sp, w, atol=1e-6) if labelled else req_arrays(what + " table", r.to_dataframe().values, w, atol=1e-6)
        if not sp["day"]:
            continue
        req_arrays("daily profile (run %d)" % (run + 1), model.recorders["day"].data, day)
        df = model.recorders["day"].to_dataframe()
        req_arrays("daily profile table", df.values, day)
        req_equal("daily profile table index", [int(x) for x in df.index], list(range(1, 367)))
    # all tables together
    if not sp["day"]:
        df = model.to_dataframe()
        for name, w in want.items():
            req_arrays("%s in the model's table" % name, df[name].values, w, atol=1e-6)
    ev.nt(driven.nsteps(sp) > 1 and len(np.unique(want["volume"])) > 1)
    ev.tag("step " + sp["clock"]["step"]["kind"], "combinations %d" % driven.ncomb(sp))


@st.composite
def nspecs(draw):
    spec = draw(extras.with_extras(compound.compounds(max_n=5, max_inputs=2, max_outputs=2, max_links=3), max_agg=2, max_vs=1))
    spec["vol"] = draw(st.booleans())
    return spec


def ndocument(spec):
    doc = compound.document(spec)
    doc["nodes"] += extras.docs(spec)
    doc["recorders"] = {}
    for d in doc["nodes"]:
        x = d["name"]
        if d["type"] in ("Storage", "Reservoir", "VirtualStorage"):
            doc["recorders"]["v " + x] = {"type": "numpyarraystorage", "node": x}
            doc["recorders"]["pc " + x] = {"type": "numpyarraystorage", "node": x, "proportional": True}
        if d["type"] != "VirtualStorage":
            doc["recorders"]["f " + x] = {"type": "numpyarraynode", "node": x}
    return doc


def observer(model, watch):
    """a recorder of our own that copies what is observed at the end of each time-step"""
    from pywr.recorders import Recorder

    class Observer(Recorder):
        def reset(self):
            self.seen = {k: [] for k in watch}

        def after(self):
            for k in watch:
                self.seen[k].append(watch[k]())
    return Observer(model, name="the observer")


def t_networks(spec, ev):
    doc = ndocument(spec)
    model = nets.load(doc)
    watch = {}
    for k in doc["recorders"]:
        kind, x = k.split(" ", 1)
        watch[k] = lambda node=model.nodes[x], attr={"f": "flow", "v": "volume", "pc": "current_pc"}[kind]: np.array(getattr(node, attr), dtype=float)
    ob = observer(model, watch)
    for run in range(2):
        try:
            model.run()
        except RuntimeError:
            ev.tag("infeasible")        # solvability is judged elsewhere (C03)
            return
        for k in watch:
            req_arrays("recorder %r (run %d)" % (k, run + 1), model.recorders[k].data, np.array(ob.seen[k]))
    first = {k: model.recorders[k].data for k in watch}
    for d in spec["nodes"]:
        ev.tag(d["type"])
    req_equal("number of steps", {len(v) for v in ob.seen.values()}, {spec["n"]})
    ev.nt(spec["n"] > 1 and any(len(np.unique(a)) > 1 for a in first.values()))


TESTS = [Test("driven", specs(), t_driven, 320, 2.0), Test("networks", nspecs(), t_networks, 160, 1.0)]
