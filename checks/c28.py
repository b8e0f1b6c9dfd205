"""C28: coupled models run in lock-step and exchange current values."""

import contextlib
import copy
import json
import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from harness import cal, nets, pm, rich, scen
from harness.core import Test, Violation, raises, req_arrays, req_equal

TECHNIQUE = "property-based testing on random sets of random whole models with random links: the values exchanged against the observed history of the source, and each sub-model differential against a stand-alone run fed with these values"
RULE = ("1 to 4 whole models from 75 kinds of parameters and 35 of recorders, linked by flows, volumes, values and indices in any order, loaded as data or files; non-trivial: two or more models "
        "of which some flow or volume changes over time, and (links) some exchanged value is not zero")
NOTE = "Every exchanged value, and every flow, volume, parameter value, index, recorder value, series and table of every sub-model, in first runs and re-runs."


@st.composite
def sets(draw, top=4):
    clock = draw(pm.clocks(8, "DDDDDDWMQ", 1990, 2030))
    sc = draw(scen.sets(max_scen=2, max_size=3, max_combos=4, user=True, slices=True))
    m = draw(st.sampled_from([1, 2, 2, 3, 3, top]))
    subs = [draw(rich.models(blocks=1, params=4, recs=4, clock=clock, sc=sc)) for _ in range(m)]
    sp = {"clock": clock, "scen": sc, "subs": [s["doc"] for s in subs], "links": []}
    sp["names"] = draw(st.permutations(["a", "b", "model one", "z"][:m]))
    for _ in range(draw(st.integers(0, 5)) if m > 1 else 0):
        i = draw(st.integers(0, m - 1))
        j = draw(st.integers(0, m - 2))
        j += j >= i
        kind = draw(st.sampled_from(["flow", "volume", "volume", "value", "value", "index", "chain", "shadow flow", "shadow volume", "shadow pc"]))
        doc = sp["subs"][j]
        nodes = doc["nodes"]
        if kind in ("flow", "shadow flow"):
            xs = [d["name"] for d in nodes if d["type"] in ("Input", "Output", "Link", "River", "Catchment", "AggregatedNode", "LossLink", "PiecewiseLink")]
        elif kind in ("volume", "shadow volume", "shadow pc"):
            xs = [d["name"] for d in nodes if d["type"] in ("Storage", "Reservoir", "AggregatedStorage") + rich.VS]
        elif kind == "index":
            xs = sorted(k for k, d in doc["parameters"].items() if d["type"] in rich.INDEXED)
        elif kind == "value":
            xs = sorted(doc["parameters"])
        else:                   # read what another model has read
            xs = ["link%d" % n for n, l in enumerate(sp["links"]) if l["to"] == j and l["kind"] != "index" and not l["kind"].startswith("shadow")]
        if xs:
            sp["links"].append({"to": i, "from": j, "kind": kind, "what": draw(st.sampled_from(xs)), "use": draw(st.sampled_from(["limit", "limit", "aggregated", "recorder", "nothing"])),
                                "node": draw(st.integers(0, 20)), "lim": float(draw(st.integers(1, 12)))})
    sp["form"] = [draw(st.sampled_from(["data", "data", "file", "sub file", "path"])) for _ in range(m)]
    sp["clocks"] = [draw(st.sampled_from(["same", "same", "other", "step", "start", "end"])) for _ in range(m)]
    sp["solvers"] = [draw(st.sampled_from(["own", "own", "sub", "default"])) for _ in range(m)]
    sp["top"] = draw(st.sampled_from(["dict", "dict", "str", "path", "bytes", "stream"]))
    sp["before"] = draw(st.lists(st.sampled_from(["run", "setup", "reset", "steps", "alone"]), max_size=2))
    return sp


SHADOW = " shadow"
TYPES = {"flow": ("othermodelnodeflow", "node"), "volume": ("othermodelnodestorage", "node"), "value": ("othermodelparametervalue", "parameter"),
         "chain": ("othermodelparametervalue", "parameter"), "index": ("othermodelindexparametervalueindex", "parameter")}


def linked(sp, i, tables=None):
    """the document of a sub-model; tables: the values to use in place of the links"""
    doc = copy.deepcopy(sp["subs"][i])
    if sp["scen"]["scen"]:
        scen.put(doc, sp["scen"])
    for n, l in enumerate(sp["links"]):
        if l["to"] != i:
            continue
        name = "link%d" % n
        if tables is not None:
            doc["parameters"][name] = {"type": "verifindex" if l["kind"] == "index" else "veriftable", "table": tables[name]}
        elif l["kind"].startswith("shadow"):
            shadow = name + SHADOW
            doc["nodes"].append({"name": shadow, "type": "ShadowNode" if l["kind"] == "shadow flow" else "ShadowStorage", "other_model": sp["names"][l["from"]], "node": l["what"]})
            doc["parameters"][name] = {"type": "constant", "value": l["lim"]} if l["kind"] == "shadow flow" else \
                {"type": "storage", "storage_node": shadow, "use_proportional_volume": l["kind"] == "shadow pc"}
        else:
            type_, key = TYPES[l["kind"]]
            doc["parameters"][name] = {"type": type_, "other_model": sp["names"][l["from"]], key: l["what"]}
        value = name
        if l["kind"] == "index":
            value = name + " value"
            doc["parameters"][value] = {"type": "indexedarray", "index_parameter": name, "params": [{"type": "constant", "value": l["lim"] * x} for x in (0.5117, 0.9031, 0.2171, 0.7013, 0.3)]}
        if l["use"] == "limit":
            doc["parameters"][name + " limit"] = {"type": "aggregated", "agg_func": "max", "parameters": [{"type": "constant", "value": 0.0}, {
                "type": "aggregated", "agg_func": "min", "parameters": [value, {"type": "constant", "value": l["lim"] + 0.0173 * (n + 1)}]}]}
            xs = [d for d in doc["nodes"] if d["type"] in ("Input", "Output") and d["name"].startswith(("in", "out", "dem")) and "max_flow" in d]
            xs[l["node"] % len(xs)]["max_flow"] = name + " limit"
        elif l["use"] == "aggregated":
            doc["parameters"][name + " sum"] = {"type": "aggregated", "agg_func": "sum", "parameters": [value, {"type": "constant", "value": 1.5}]}
        elif l["use"] == "recorder":
            doc["recorders"][name + " recorder"] = {"type": "meanparameter", "parameter": value}
    return doc


def other_clock(kind, doc):
    t = doc["timestepper"]
    if kind == "other" or kind == "step" and not isinstance(t["timestep"], int):
        doc["timestepper"] = {"start": "2001-02-03", "end": "2001-03-09", "timestep": 3}
    elif kind == "step":
        t["timestep"] = 5 if t["timestep"] != 5 else 2
    elif kind in ("start", "end"):
        t[kind] = "1984-02-03" if kind == "start" else "2044-05-06"


def build(sp, folder):
    """the combined model from its document, with an observer in every sub-model"""
    from pywr.model import MultiModel
    nets.register()
    m = len(sp["subs"])
    doc = {"metadata": {"title": "several", "minimum_version": "1.18.0"}, "timestepper": copy.deepcopy(sp["subs"][0]["timestepper"]), "models": []}
    default, waiting = None, set()
    for i in range(m):
        d = linked(sp, i)
        other_clock(sp["clocks"][i], d)
        e = {"name": sp["names"][i]}
        how = sp["solvers"][i]
        if how == "sub" and set(d["solver"]) == {"name"}:
            e["solver"] = d.pop("solver")["name"]
        elif how == "default" and set(d["solver"]) == {"name"} and default in (None, d["solver"]["name"]):
            default = d.pop("solver")["name"]
            waiting.add(i)
        form = sp["form"][i]
        if form == "data" or sp["top"] in ("dict", "stream") and form == "path":
            e["data"] = d
        else:
            sub = "sub%d.json" % i
            if form == "sub file":
                os.makedirs(os.path.join(folder, "deep"), exist_ok=True)
                sub = os.path.join("deep", sub)
            with open(os.path.join(folder, sub), "w") as f:
                json.dump(d, f)
            e["filename"] = sub
        doc["models"].append(e)
    if default is not None:             # the one given applies to all models that do not have their own
        for i, e in enumerate(doc["models"]):
            if i not in waiting and "solver" not in e:
                e["solver"] = None      # the one of the sub-model's own document, with its options
    top = sp["top"]
    if top == "dict":
        model = MultiModel.load(doc, path=folder, solver=default)
    elif top == "stream":
        import io
        model = MultiModel.load(io.StringIO(json.dumps(doc)), path=folder, solver=default)
    else:
        p = os.path.join(folder, "all.json")
        with open(p, "w") as f:
            json.dump(doc, f)
        model = MultiModel.load(p if top == "str" else Path(p) if top == "path" else os.fsencode(p), solver=default)
    req_equal("names of the models", list(model.models), list(sp["names"]))
    watch = [rich.watcher(x) for x in model.models.values()]
    return model, watch


def alone(sp, i, tables):
    model = rich.load(linked(sp, i, tables))
    watch = rich.watcher(model)
    model.setup()
    first = {n.name: np.array(n.volume, dtype=float) for n in model.nodes if hasattr(n, "volume")}
    pcs = {n.name: np.array(n.current_pc, dtype=float) for n in model.nodes if hasattr(n, "current_pc")}
    model.run()
    return rich.results(model, watch), first, pcs


def all_results(model, watch):
    return [rich.results(x, w) for x, w in zip(model.models.values(), watch)]


def operations(sp, model):
    made = []
    for op in sp["before"]:
        if op == "run":
            model.run()
        elif op == "setup":
            model.setup()
        elif op == "reset":
            if not model.dirty:
                model.reset()
        elif op == "alone":
            next(iter(model.models.values())).run() if not any(l["to"] == 0 for l in sp["links"]) else None
        elif op == "steps":
            if model.dirty:
                model.setup()
            else:
                model.reset()
            for x in model.models.values():
                x.step()
        made.append(op)
    return made


def t_coupled(sp, ev):
    with tempfile.TemporaryDirectory() as folder:
        model, watch = build(sp, folder)
        for i, (name, x) in enumerate(model.models.items()):
            req_equal("solver of %s" % name, x.solver.name, sp["subs"][i]["solver"]["name"])
        made = operations(sp, model)
        model.run()
        got = all_results(model, watch)
        model.run()
        again = all_results(model, watch)
    n, m = sp["clock"]["n"], len(got)
    tables = {}
    for k, l in enumerate(sp["links"]):
        name = "link%d" % k
        what = "index of %s" % name if l["kind"] == "index" else "parameter %s" % name
        if what not in got[l["to"]]:
            raise Violation("%s was not observed" % what)
        t = got[l["to"]][what]
        tables[name] = (t.astype(int) if l["kind"] == "index" else t).tolist()
    want, volumes, starts = [], [], []
    for i in range(m):
        r, v, p = alone(sp, i, tables)
        want.append(r)
        volumes.append(v)
        starts.append(p)
    kept = [{k: r.pop(k) for k in list(r) if k.endswith(SHADOW)} for r in got]
    for r, k in zip(again, kept):
        for x in k:
            req_arrays("%s, second run" % x, r.pop(x), k[x])
    for i in range(m):
        rich.compare("model %d of %d together, against alone" % (i + 1, m), got[i], want[i])
        rich.compare("model %d of %d, second run" % (i + 1, m), again[i], want[i])
    # the values exchanged
    used = False
    for k, l in enumerate(sp["links"]):
        a, b = got[l["to"]], got[l["from"]]
        if l["kind"].startswith("shadow"):
            # the part that stands for a part of the other model has its volumes and flows
            shadow = {x[:-len("link%d" % k + SHADOW)]: v for x, v in kept[l["to"]].items() if x.endswith(" link%d" % k + SHADOW)}
            need = {"flow of ", "previous flow of "} | ({"volume of ", "proportional volume of "} if l["kind"] != "shadow flow" else set())
            if set(shadow) != need:
                raise Violation("what is known of the shadow of %r is %r" % (l["what"], sorted(shadow)))
            for what, v in shadow.items():
                src = b[what + l["what"]]
                if l["from"] < l["to"]:
                    exp = src
                else:
                    first = np.zeros(src.shape[1])
                    if "volume" in what:
                        first = volumes[l["from"]][l["what"]] if what == "volume of " else starts[l["from"]][l["what"]]
                    exp = np.concatenate([first[None, :], src[:-1]])
                if what == "previous flow of ":      # own one, at the end of the step
                    exp = shadow["flow of "]
                req_arrays("%s the shadow of %r in model %d, seen by model %d" % (what, l["what"], l["from"], l["to"]), v, exp, 1e-9, 1e-9)
            val = a["parameter link%d" % k]
            if l["kind"] == "shadow flow":
                used = used or shadow["flow of "].max() > 0       # no parameter takes the flow of such a node
                exp = np.full(val.shape, l["lim"])
            else:
                exp = shadow[("proportional " if l["kind"] == "shadow pc" else "") + "volume of "]
            req_arrays("value of the parameter that reads the shadow of %r" % l["what"], val, exp, 1e-9, 1e-9)
            used = used or (l["kind"] != "shadow flow" and np.abs(exp).max() > 0)
            ev.tag("link " + l["kind"], "forwards" if l["from"] < l["to"] else "backwards")
            continue
        key = {"flow": "flow of ", "volume": "volume of ", "value": "parameter ", "chain": "parameter ", "index": "index of "}[l["kind"]] + l["what"]
        src = b[key]
        val = a[("index of " if l["kind"] == "index" else "parameter ") + "link%d" % k]
        if l["from"] < l["to"]:
            exp = src
        else:
            first = volumes[l["from"]][l["what"]] if l["kind"] == "volume" else np.zeros(src.shape[1])
            exp = np.concatenate([first[None, :], src[:-1]])
        req_arrays("values read by link %d (%s of %r in model %d, by model %d)" % (k, l["kind"], l["what"], l["from"], l["to"]), val, exp, 1e-9, 1e-9)
        used = used or np.abs(exp).max() > 0
        ev.tag("link " + l["kind"], "forwards" if l["from"] < l["to"] else "backwards")
    ev.tag("models %d" % m, "links" if sp["links"] else "no links", "top " + sp["top"], "step " + sp["clock"]["step"]["kind"], *(["form " + f for f in sp["form"]] + ["clock " + c for c in sp["clocks"]] + made))
    ev.nt(m > 1 and any(rich.lively(r) for r in want) and (used or not sp["links"]))


# ---------------------------------------------------------------------------------------------------------------
# models put together by hand

@st.composite
def byhand(draw):
    sp = {"subs": [], "change": draw(st.sampled_from(["none", "start", "length", "length", "step", "size", "combinations", "names"])), "at": 0}
    clock = draw(pm.clocks(8, "DDDWM", 1990, 2030))
    if sp["change"] == "length":
        clock["n"] = max(clock["n"], 2)
    sc = draw(scen.sets(max_scen=2, max_size=3, max_combos=4, user=True, slices=False))
    m = draw(st.integers(2, 3))
    sp["at"] = draw(st.integers(0, m - 1))
    sp["less"] = draw(st.integers(1, clock["n"] - 1)) if clock["n"] > 1 else 0
    # the periods the models are run for afterwards: this many steps less, in all or only one of the models
    sp["later"] = [[draw(st.sampled_from(["all", "all", "one"])), draw(st.integers(0, clock["n"] - 1))] for _ in range(draw(st.integers(0, 2)))]
    sp["subs"] = [draw(rich.models(blocks=1, params=2, recs=3, clock=clock, sc=sc)) for _ in range(m)]
    return sp


def t_byhand(sp, ev):
    from pywr.model import MultiModel
    docs = [rich.document(s) for s in sp["subs"]]
    change, d = sp["change"], docs[sp["at"]]
    clock, sc = sp["subs"][0]["clock"], sp["subs"][0]["scen"]
    ends = [x.strftime("%Y-%m-%d") for x, _, _ in pm.steps(clock)]
    error = None
    if change == "start":
        d["timestepper"]["start"] = "1980-01-01"
        error = RuntimeError
    elif change == "length":
        d["timestepper"]["end"] = ends[clock["n"] - 1 - sp["less"]]
        error = RuntimeError
    elif change == "step":
        if not isinstance(d["timestepper"]["timestep"], int) or clock["n"] < 2:
            ev.tag("left out")
            return
        d["timestepper"]["timestep"] += 1
        d["timestepper"]["end"] = cal.parse(clock["start"]).strftime("%Y-%m-%d")
        error = RuntimeError
    models = []
    if change in ("size", "combinations") and sc["scen"]:
        # the same parameters must still fit: one more of everything that is not used
        if change == "size":
            for x in docs:
                x["scenarios"].append({"name": "verif extra", "size": 2})
                if "scenario_combinations" in x:
                    x["scenario_combinations"] = [c + [0] for c in x["scenario_combinations"]]
            d["scenarios"][-1]["size"] = 3
        else:
            all_ = [list(c) for c in scen.combos(sc)]
            d["scenario_combinations"] = all_ + [all_[0]]
        error = ValueError
    for x in docs:
        models.append(rich.load(x))
    multi = MultiModel()
    watch = []
    for k, x in enumerate(models):
        multi.add_model("model %d" % k, x)
        watch.append(rich.watcher(x))
    if error is not None:
        try:
            multi.run()
        except error:
            ev.tag("refused: " + change)
            ev.nt(True)
            return
        raise Violation("models whose %s differ were run together" % {"size": "scenario sizes", "combinations": "scenario combinations"}.get(change, "periods"))
    multi.run()
    lively = False
    for k, x in enumerate(docs):
        one = rich.load(x)
        w = rich.watcher(one)
        one.run()
        want = rich.results(one, w)
        rich.compare("model %d together, against alone" % k, rich.results(models[k], watch[k]), want)
        lively = lively or rich.lively(want)
    now = [clock["n"]] * len(models)
    for who, less in sp["later"]:
        for k in range(len(models)) if who == "all" else [sp["at"]]:
            now[k] = clock["n"] - less
            models[k].timestepper.end = ends[now[k] - 1]
        try:
            multi.run()
        except RuntimeError:
            if len(set(now)) == 1:
                raise
            ev.tag("later: refused")
            continue
        if len(set(now)) > 1:
            raise Violation("models of which one was given another end of its run were run together again: %r steps" % (now,))
        for k, x in enumerate(docs):
            one = rich.load(dict(x, timestepper=dict(x["timestepper"], end=ends[now[k] - 1])))
            w = rich.watcher(one)
            one.run()
            rich.compare("model %d together, run again for %d of %d steps, against alone" % (k, now[k], clock["n"]), rich.results(models[k], watch[k]), rich.results(one, w))
        ev.tag("later: run")
    ev.tag("run: " + change)
    ev.nt(lively)


TESTS = [Test("coupled", sets(), t_coupled, 800, weight=3), Test("byhand", byhand(), t_byhand, 400)]
