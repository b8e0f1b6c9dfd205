"""C12: thresholds apply their predicate, ratchets latch."""

import datetime as dt
import operator

import numpy as np
from hypothesis import strategies as st

from checks.c11 import table, table_doc
from harness import nets, pm
from harness.core import Test, Violation, req_close

TECHNIQUE = "random driven models with threshold parameters of every kind, compared in every step and scenario with the predicate applied to the observed history"
RULE = ("one to five threshold parameters (all kinds, predicates, ratchets, constant or varying thresholds, multi-threshold indices) on values that are "
        "often equal to the threshold, one to three scenarios, re-run; non-trivial: a parameter takes more than one value")
NOTE = "Every threshold parameter follows its predicate over the observed volumes, previous flows, parameters, recorders and dates of each generated run."

OPS = {"LT": operator.lt, "GT": operator.gt, "EQ": operator.eq, "LE": operator.le, "GE": operator.ge,
       "<": operator.lt, ">": operator.gt, "=": operator.eq, "<=": operator.le, ">=": operator.ge}
whole = st.integers(0, 6).map(float)
NODES = ["Link", "Input", "Output", "AggregatedNode", "LossLink", "BreakLink", "PiecewiseLink", "DelayNode", "RiverGauge"]


@st.composite
def specs(draw):
    n, ns = draw(st.integers(2, 8)), draw(st.integers(1, 3))
    sp = {"n": n, "ns": ns, "start": draw(st.sampled_from(["2015-01-01", "2016-12-29", "2016-02-27"])), "days": draw(st.sampled_from([1, 1, 1, 2, 7])),
          "kind": draw(st.sampled_from(NODES)), "inflow": [[draw(whole) for _ in range(ns)] for _ in range(n)],
          "release": [[draw(whole) for _ in range(ns)] for _ in range(n)], "init": draw(whole), "ps": [], "order": draw(st.booleans())}
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["storage", "node", "node", "parameter", "recorder", "recorder", "year", "day", "multinode", "multiparameter"]))
        p = {"kind": k}
        if k.startswith("multi"):
            p["ths"] = [draw(table(whole, n, ns)) for _ in range(draw(st.integers(1, 3)))]
        else:
            base = whole
            a = dt.date.fromisoformat(sp["start"])
            if k == "year":
                base = st.integers(a.year - 1, a.year + 2).map(float)
            elif k == "day":
                base = st.integers(-1, n * sp["days"]).map(lambda x: float(a.toordinal() + x))
            elif k == "storage":
                base = st.integers(0, 20).map(float)
            p["th"] = draw(table(base, n, ns))
            p["pred"] = draw(st.sampled_from([None] + sorted(OPS) + ["lt", "ge"]))
            p["ratchet"] = draw(st.booleans())
            if draw(st.booleans()):
                p["values"] = [float(draw(st.integers(-8, 8))), float(draw(st.integers(-8, 8)))]
        if k in ("parameter", "multiparameter"):
            p["of"] = draw(table(whole, n, ns))
        if k == "recorder":
            p["rec"] = draw(st.sampled_from(["flow", "volume", "parameter"]))
            p["first"] = draw(st.sampled_from([None, 0, 1]))
            if p["rec"] == "parameter":
                p["of"] = draw(table(whole, n, ns))
        p["use"] = draw(st.booleans())
        sp["ps"].append(p)
    return sp


def document(sp):
    clock = {"step": {"kind": "D", "n": sp["days"], "form": "int", "anchor": None}, "start": sp["start"], "n": sp["n"]}
    doc = pm.document(clock, [sp["ns"]] if sp["ns"] > 1 else [])
    flow = {"type": "veriftable", "table": sp["inflow"]}
    k = sp["kind"]
    x = {"name": "X", "type": k}
    a, b = {"name": "a", "type": "Input", "max_flow": flow, "cost": -5.0}, {"name": "b", "type": "Output"}
    doc["edges"] = [["a", "X"], ["X", "b"]]
    if k == "Input":
        a["name"], x = "X", None
        doc["edges"] = [["X", "b"]]
    elif k == "Output":
        b["name"], x = "X", None
        doc["edges"] = [["a", "X"]]
    elif k == "AggregatedNode":
        x["nodes"], x["flow_weights"] = ["a", "b"], [0.75, 0.25]
        doc["edges"] = [["a", "b"]]
    elif k == "LossLink":
        x["loss_factor"] = 1.0
    elif k == "PiecewiseLink":
        x["costs"], x["max_flows"], x["nsteps"] = [-1.0, 0.0], [2.0, None], 2
    elif k == "DelayNode":
        x["timesteps"], x["initial_flow"] = 1, 3.0
    elif k == "RiverGauge":
        x["mrf"], x["mrf_cost"] = 2.0, -10.0
    nodes = [y for y in (a, b, x) if y]
    if sp["order"] and k != "AggregatedNode":
        nodes.reverse()
    nodes += [{"name": "S", "type": "Storage", "max_volume": 1000.0, "initial_volume": sp["init"]}, {"name": "si", "type": "Input", "max_flow": flow, "cost": -50.0},
              {"name": "so", "type": "Output", "max_flow": {"type": "veriftable", "table": sp["release"]}, "cost": -100.0}]
    doc["edges"] += [["si", "S"], ["S", "so"]]
    doc["recorders"] = {}
    pars = {}
    for i, p in enumerate(sp["ps"]):
        d = {"type": {"storage": "storagethreshold", "node": "nodethreshold", "parameter": "parameterthreshold", "recorder": "recorderthreshold", "year": "currentyearthreshold",
                      "day": "currentordinaldaythreshold", "multinode": "multiplethresholdindex", "multiparameter": "multiplethresholdparameterindex"}[p["kind"]]}
        if p["kind"] in ("node", "multinode"):
            d["node"] = "X"
        if p["kind"] == "storage":
            d["storage_node"] = "S"
        if p["kind"] in ("parameter", "multiparameter"):
            d["parameter"] = table_doc(p["of"], False)
        if p["kind"] == "recorder":
            d["recorder"] = "r%d" % i
            if p["first"] is not None:
                d["initial_value"] = p["first"]
            if p["rec"] == "parameter":
                pars["q%d" % i] = table_doc(p["of"], False)
                doc["recorders"]["r%d" % i] = {"type": "numpyarrayparameter", "parameter": "q%d" % i}
            else:
                doc["recorders"]["r%d" % i] = {"type": "numpyarraynode", "node": "X"} if p["rec"] == "flow" else {"type": "numpyarraystorage", "node": "S"}
        if "ths" in p:
            d["thresholds"] = [table_doc(x) for x in p["ths"]]
        else:
            d["threshold"] = table_doc(p["th"])
            if p["pred"] is not None:
                d["predicate"] = p["pred"]
            if p["ratchet"]:
                d["ratchet"] = True
            if "values" in p:
                d["values"] = p["values"]
        pars["p%d" % i] = d
        if p["use"]:
            m = 1 + len(p.get("ths", [0]))
            pars["a%d" % i] = {"type": "indexedarray", "index_parameter": "p%d" % i, "params": [{"type": "constant", "value": 10.0 + j} for j in range(m)]}
    names = sorted(pars, reverse=sp["order"])
    doc["parameters"] = {x: pars[x] for x in names}
    doc["nodes"] = nodes
    return doc


def t_thresholds(sp, ev):
    nets.register()
    model = nets.load(document(sp))
    model.setup()
    X, S = model.nodes["X"], model.nodes["S"]
    start = dt.date.fromisoformat(sp["start"])
    ev.tag(sp["kind"])
    n, ns = sp["n"], sp["ns"]
    seen = {}
    for run in range(2):
        flows, vols = [], [np.array(S.volume)]
        latched = {}
        req_close("initial volume", vols[0][0], sp["init"])
        for t in range(n):
            model.step()
            date = start + dt.timedelta(days=sp["days"] * t)
            for i, p in enumerate(sp["ps"]):
                par = model.parameters["p%d" % i]
                for s in range(ns):
                    k = p["kind"]
                    if k in ("node", "multinode"):
                        x = float(flows[-1][s]) if t else 0.0
                    elif k == "storage":
                        x = float(vols[-1][s])
                    elif k in ("parameter", "multiparameter"):
                        x = p["of"]["v"][t][s]
                    elif k == "recorder":
                        x = (float(flows[-1][s]) if p["rec"] == "flow" else float(vols[-1][s]) if p["rec"] == "volume" else p["of"]["v"][t - 1][s]) if t else None
                    else:
                        x = float(date.year if k == "year" else date.toordinal())
                    if "ths" in p:
                        ths = [y["v"][t][s] for y in p["ths"]]
                        want = next((j for j, y in enumerate(ths) if x >= y), len(ths))
                        wv, th = float(want), ths
                    else:
                        th = p["th"]["v"][t][s]
                        if t == 0 and k == "node":
                            want = 0
                        elif t == 0 and k == "recorder":
                            want = 1 if p["first"] is None else p["first"]
                        elif p["ratchet"] and latched.get((i, s)):
                            want = 1
                        else:
                            want = int(OPS[(p["pred"] or "LT").upper()](x, th))
                            latched[i, s] = latched.get((i, s), 0) or want
                            if x == th:
                                ev.tag("equal")
                        wv = p["values"][want] if "values" in p else float("nan")
                    what = "run %d step %d scenario %d: %s %s of %r against %r" % (run, t, s, k, p.get("pred", ""), x, th)
                    got = par.get_all_indices()[s]
                    if got != want:
                        raise Violation("%s: index %r, expected %r" % (what, got, want))
                    req_close(what + ": value", par.get_all_values()[s], wv)
                    if p["use"]:
                        req_close(what + ": selected", model.parameters["a%d" % i].get_all_values()[s], 10.0 + want)
                    seen.setdefault(i, set()).add(want)
                ev.tag(p["kind"], "ratchet" if p.get("ratchet") else "no ratchet")
            flows.append(np.array(X.flow))
            vols.append(np.array(S.volume))
        model.reset()
    ev.nt(any(len(x) > 1 for x in seen.values()))


TESTS = [Test("thresholds", specs(), t_thresholds, 1200, 1)]
