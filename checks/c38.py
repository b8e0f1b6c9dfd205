"""C38: documents that say what the format does not know are refused."""

import copy
import json
import logging
import os
import tempfile

from hypothesis import strategies as st

from harness import nets, rich
from harness.core import Test, Violation

TECHNIQUE = "random whole model documents, each with one random fault put into it (structured mutation); loading and set-up must raise, and the sound document must load afterwards and run as ever"
RULE = ("documents with up to 75 kinds of parameters and 35 of recorders; one fault out of 30 kinds (unknown keys, references, types, slots and solvers, left out or mismatched values, "
        "cycles, impossible periods and scenarios) at a random place; non-trivial: every case, as every document has one fault")
NOTE = "Every generated faulty document is refused when it is loaded or set up, before any time-step, and leaves nothing behind for the next document."

# keys whose value has to be there, and ones whose number of values has to fit those of another key or the calendar
NEEDED = {
    "nodes": {"aggregatednode": "nodes", "virtualstorage": "nodes", "monthlyvirtualstorage": "nodes", "seasonalvirtualstorage": "nodes", "annualvirtualstorage": "nodes",
              "rollingvirtualstorage": "nodes", "riversplit": "slot_names", "riversplitwithgauge": "slot_names", "multisplitlink": "slot_names", "delaynode": "timesteps days"},
    "parameters": {"aggregated": "agg_func parameters", "aggregatedindex": "agg_func parameters", "annualexponentiallicense": "amount max_value node", "annualhyperbolalicense": "amount value node",
                   "annuallicense": "amount node", "annualharmonicseries": "mean amplitudes phases", "arrayindexed": "values", "arrayindexedscenario": "scenario values",
                   "arrayindexedscenariomonthlyfactors": "scenario values factors", "constantscenario": "scenario values", "constantscenarioindex": "scenario values",
                   "controlcurveinterpolated": "storage_node values", "currentordinaldaythreshold": "threshold", "currentyearthreshold": "threshold", "deficit": "node", "flow": "node", "flowdelay": "node",
                   "indexedarray": "index_parameter", "interpolatedflow": "node flows values", "monthlyprofile": "values", "multiplethresholdindex": "node thresholds", "negativemax": "parameter",
                   "negativemin": "parameter", "nodethreshold": "node threshold", "offset": "parameter", "parameterthreshold": "parameter threshold", "rbfprofile": "days_of_year values",
                   "rollingmeanflownode": "node", "scenariodailyprofile": "scenario values", "scenariomonthlyprofile": "scenario values", "scenarioweeklyprofile": "scenario values",
                   "scenariowrapper": "scenario parameters", "storagethreshold": "storage_node threshold"},
    "recorders": {"aggregated": "recorders", "annualcountindexparameter": "parameter threshold", "annualcountindexthreshold": "parameters threshold", "annualtotalflow": "nodes",
                  "deficitfrequencynode": "node", "event": "threshold", "flowdurationcurve": "node percentiles", "flowdurationcurvedeviation": "node percentiles", "meanflownode": "node",
                  "meanparameter": "parameter", "minimumthresholdvolumestorage": "node threshold", "minimumvolumestorage": "node", "numpyarrayindexparameter": "parameter",
                  "numpyarraynodecost": "node", "numpyarraynodedeficit": "node", "numpyarraynormalisedstorage": "node parameter", "numpyarrayparameter": "parameter",
                  "rollingwindowparameter": "parameter window", "seasonalflowdurationcurve": "node percentiles months", "storagedurationcurve": "node percentiles", "timestepcountindexparameter": "parameter threshold",
                  "totaldeficitnode": "node", "totalhydroenergy": "node", "totalparameter": "parameter"}}
LENGTHS = {
    "nodes": {"aggregatednode": "factors flow_weights", "virtualstorage": "factors", "annualvirtualstorage": "factors", "monthlyvirtualstorage": "factors", "seasonalvirtualstorage": "factors",
              "rollingvirtualstorage": "factors", "multisplitlink": "factors slot_names", "riversplit": "factors slot_names", "riversplitwithgauge": "factors slot_names", "piecewiselink": "costs max_flows"},
    "parameters": {"annualharmonicseries": "amplitudes phases", "arrayindexedscenariomonthlyfactors": "factors", "constantscenario": "values", "constantscenarioindex": "values",
                   "controlcurve": "values parameters", "controlcurveinterpolated": "values", "controlcurvepiecewiseinterpolated": "values", "interpolated": "x y", "interpolatedflow": "flows values",
                   "monthlyprofile": "values", "piecewiseintegral": "x y", "rbfprofile": "days_of_year values", "scenariodailyprofile": "values", "scenariomonthlyprofile": "values",
                   "scenarioweeklyprofile": "values", "scenariowrapper": "parameters"},
    "recorders": {"flowdurationcurvedeviation": "lower_target_fdc upper_target_fdc"}}
NOT_NAMES = ("name", "type", "comment", "agg_func", "temporal_agg_func", "recorder_agg_func", "event_agg_func", "slot_names", "ensemble_names", "mrf", "url", "column")


def parts(doc):
    """(where, section, dictionary) of everything that has a type: nodes, parameters, recorders and the parameters within these"""
    out = []

    def walk(path, sec, x):
        if isinstance(x, dict):
            if "type" in x:
                out.append((path, sec, x))
            for k, v in x.items():
                walk(path + [k], "parameters", v)
        elif isinstance(x, list):
            for k, v in enumerate(x):
                walk(path + [k], sec, v)
    for sec in ("nodes", "parameters", "recorders"):
        xs = doc.get(sec, {})
        for k in (range(len(xs)) if sec == "nodes" else sorted(xs)):
            walk([sec, k], sec, xs[k])
    return out


def names(doc):
    return {d["name"] for d in doc["nodes"]} | set(doc["parameters"]) | set(doc["recorders"]) | {s["name"] for s in doc.get("scenarios", [])}


def references(doc):
    """(path, name) of the places where something is named"""
    known, out = names(doc), []

    def walk(path, x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k not in NOT_NAMES:
                    walk(path + [k], v)
        elif isinstance(x, list):
            for k, v in enumerate(x):
                walk(path + [k], v)
        elif isinstance(x, str) and x in known:
            out.append((path, x))
    for sec in ("nodes", "parameters", "recorders"):
        xs = doc.get(sec, {})
        for k in (range(len(xs)) if sec == "nodes" else sorted(xs)):
            for key, v in xs[k].items():
                if key not in NOT_NAMES:
                    walk([sec, k, key], v)
    return out


def faults(doc):
    """{kind: list of faults}, a fault being a list of [path, value] to set (or None: to leave out)"""
    F = {}

    def add(kind, *sets):
        F.setdefault(kind, []).append([list(s) for s in sets])
    for path, sec, d in parts(doc):
        t = d["type"].lower().replace("parameter", "") if sec == "parameters" else d["type"].lower().replace("recorder", "") if sec == "recorders" else d["type"].lower()
        top = len(path) == 2
        add("unknown key of %s" % (sec if top else "a part"), (path + ["verif unknown"], 1.0))
        add("unknown type of %s" % (sec if top else "a part"), (path + ["type"], "verifunknown"))
        if top:
            for key in NEEDED[sec].get(t, "").split():
                if key in d:
                    add("needed value left out of %s" % sec, (path + [key], None))
            for key in LENGTHS[sec].get(t, "").split():
                v = d.get(key)
                if isinstance(v, list) and len(v) > 1:
                    add("too few values in %s" % sec, (path + [key], v[:-1]))
                    add("too many values in %s" % sec, (path + [key], v + [v[-1]]))
    for path, name in references(doc):
        add("unknown name in %s" % path[0], (path, name + " that is not there"))
    for k, d in enumerate(doc["nodes"]):
        add("no name", (["nodes", k, "name"], None))
        add("no type", (["nodes", k, "type"], None))
        if d["type"] in ("Input", "Output", "Link"):
            for key in ("max_flow", "min_flow", "cost"):
                add("no number", (["nodes", k, key], [1.0, 2.0]))
                add("unknown name in nodes", (["nodes", k, key], "5"))
    kinds = {d["name"]: d["type"] for d in doc["nodes"]}
    for k, e in enumerate(doc["edges"]):
        for j in (0, 1):
            add("unknown node of an edge", (["edges", k, j], "verif unknown"))
            if kinds[e[j]] in ("Input", "Output", "Link"):       # nodes of several parts may give any name a meaning
                add("unknown slot", (["edges", k], list(e[:2]) + ([None, "verif"] if j else ["verif", None])))
        add("half an edge", (["edges", k], [e[0]]))
    add("unknown solver", (["solver", "name"], "verif"))
    add("unknown key of the solver", (["solver", "verif"], 1))
    for key in ("start", "end", "timestep"):
        add("period", (["timestepper", key], None))
        add("period", (["timestepper", key], "2015-13-45"))
    add("period", (["timestepper", "end"], (doc["timestepper"]["start"] if isinstance(doc["timestepper"]["start"], str) else "1900")[:4].replace("1", "0") + "-01-01"))
    for x in (0, -1, 1.5, "verif"):
        add("time-step", (["timestepper", "timestep"], x))
    S = doc.get("scenarios", [])
    for k, s in enumerate(S):
        for size in (0, -1):
            add("size of a scenario", (["scenarios", k, "size"], size))
        add("scenario without a name", (["scenarios", k, "name"], None))
        add("names of an ensemble", (["scenarios", k, "ensemble_names"], ["a%d" % i for i in range(s.get("size", 1) + 1)]))
    if S:
        for j, c in enumerate(([s.get("size", 1) for s in S], [-1] * len(S), [0] * (len(S) + 1), [0] * (len(S) - 1))):
            add("combinations", (["scenario_combinations"], [c] if j else [[0] * len(S), c]))
        add("combinations", (["scenario_combinations"], []))
    for how in (("negative", "parameter"), ("aggregated", "parameters")):
        one = lambda x: {"type": how[0], how[1]: x if how[1] == "parameter" else [x], **({"agg_func": "sum"} if how[1] == "parameters" else {})}
        add("cycle", (["parameters", "verif a"], one("verif b")), (["parameters", "verif b"], one("verif a")))
        add("cycle", (["parameters", "verif a"], one("verif a")))
        ps = [p for p, _ in references(doc) if p[0] == "parameters" and _ in doc["parameters"]]
        for p in ps:        # a parameter depends on one that depends on it
            add("cycle", (p, "verif a"), (["parameters", "verif a"], one(p[1])))
    add("cycle", (["recorders", "verif a"], {"type": "aggregated", "recorders": ["verif b"]}), (["recorders", "verif b"], {"type": "aggregated", "recorders": ["verif a"]}))
    add("no file", (["includes"], ["verif missing.json"]))
    add("no file", (["parameters", "verif a"], {"type": "dataframe", "url": "verif missing.csv", "column": "x"}))
    add("no table", (["parameters", "verif a"], {"type": "constant", "table": "verif missing", "column": "x", "index": 1}))
    add("no metadata", (["metadata"], None))
    return F


def broken(doc, fault):
    doc = copy.deepcopy(doc)
    for path, value in fault:
        x = doc
        for k in path[:-1]:
            x = x[k]
        if value is None:
            x.pop(path[-1], None)
        else:
            x[path[-1]] = value
    return doc


@st.composite
def specs(draw):
    sp = draw(rich.models(blocks=2, params=5, recs=5))
    F = faults(rich.document(sp))
    sp["faults"] = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(sorted(F)))
        sp["faults"].append([kind, draw(st.sampled_from(F[kind]))])
    sp["form"] = draw(st.sampled_from(["dict", "dict", "file"]))
    return sp


def t_refused(sp, ev):
    from pywr.model import Model
    nets.register()
    doc = rich.document(sp)
    for kind, fault in sp["faults"]:
        bad = broken(doc, fault)
        logging.disable(logging.CRITICAL)
        try:
            with tempfile.TemporaryDirectory() as folder:
                if sp["form"] == "file":
                    name = os.path.join(folder, "model.json")
                    with open(name, "w") as f:
                        json.dump(bad, f)
                    model = Model.load(name)
                else:
                    model = Model.load(bad, path=folder)
                model.setup()
        except Exception:
            pass
        else:
            raise Violation("%s: %r is loaded and set up without a complaint" % (kind, fault))
        finally:
            logging.disable(logging.NOTSET)
        ev.tag(kind)
        ev.nt()
    # nothing of that is left behind
    model = rich.load(copy.deepcopy(doc))
    watch = rich.watcher(model)
    model.run()
    got = rich.results(model, watch)
    for d in doc["nodes"]:
        if "flow of " + d["name"] not in got and "volume of " + d["name"] not in got:
            raise Violation("after documents that were refused, node %r is not in the model" % d["name"])


TESTS = [Test("refused", specs(), t_refused, 1500, 1)]
