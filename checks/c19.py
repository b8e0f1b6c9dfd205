"""C19: components that look back see exactly the past flows."""

import datetime
import math

import numpy as np
from hypothesis import strategies as st

from checks.c01 import step_days
from harness import compound, extras, nets
from harness.core import Test, raises, req_close

TECHNIQUE = "random networks with every node kind and look-back components on them, compared in every step, scenario and re-run with the history of reported flows"
RULE = ("networks of plain, compound, aggregated and virtual nodes with one to five look-back parameters (previous flow, delay, rolling mean, deficit, volume) of "
        "random length; non-trivial: some watched node's flow changed between two time-steps")
NOTE = "Every look-back value (and every node's previous flow, sub-nodes included) of every generated run is the documented function of the flows reported earlier in that run."

ALL = ("FlowParameter", "delay", "mean", "deficit", "storage", "proportional")


@st.composite
def specs(draw):
    spec = draw(extras.with_extras(compound.compounds(max_n=7, vary_volume=False, max_inputs=2, max_outputs=2, max_links=3), factors=False, max_agg=1, max_vs=1))
    stores = [d["name"] for d in spec["nodes"] if d["type"] in ("Storage", "Reservoir")]
    links = [d["name"] for d in spec["nodes"] if d["type"] in ("Input", "Output", "Link", "Catchment")]
    if stores and draw(st.booleans()):
        spec["aggstore"] = stores
    everything = [d["name"] for d in spec["nodes"]] + [a["name"] for a in spec["agg"]] + [v["name"] for v in spec["vs"]]
    if "aggstore" in spec:
        everything.append("aggstore")
    subs = []
    for d in spec["nodes"]:
        if d["type"] == "DelayNode":
            subs += [d["name"] + " Output", d["name"] + " Input"]
    spec["watch"] = []
    fixed = nets.STEPS[spec["step"]][1]
    for k in range(draw(st.integers(1, 5))):
        w = {"kind": draw(st.sampled_from(ALL[:4] * 2 + ALL[4:])), "init": draw(st.sampled_from([0.0, 0.0, 1.5, -2.0, 10.0]))}
        w["node"] = draw(st.sampled_from(everything + subs))
        if w["kind"] == "FlowParameter":       # accepts nodes only, neither storages nor aggregated nodes
            w["node"] = draw(st.sampled_from([d["name"] for d in spec["nodes"] if d["name"] not in stores] + subs))
        w["T"] = draw(st.integers(1, 9))
        if fixed and draw(st.booleans()):
            w["days"] = True
            w["off"] = draw(st.integers(0, fixed - 1)) if w["kind"] == "delay" and draw(st.integers(0, 3)) == 0 else 0
        if w["kind"] == "deficit":
            w["node"] = draw(st.sampled_from(links))
        if w["kind"] in ALL[4:]:
            pool = stores + [v["name"] for v in spec["vs"]] + (["aggstore"] if "aggstore" in spec else [])
            if not pool:
                w["kind"] = "mean"
            else:
                w["node"] = draw(st.sampled_from(pool))
        spec["watch"].append(w)
    spec["stop"] = draw(st.one_of(st.none(), st.integers(1, 3)))        # the first run is given up after this many steps
    spec["front"] = draw(st.booleans())
    spec["relength"] = draw(st.booleans())      # a last run with time-steps of another length
    return spec


def document(spec):
    doc = compound.document(spec)
    extra = extras.docs(spec)
    if "aggstore" in spec:
        extra.append({"name": "aggstore", "type": "AggregatedStorage", "storage_nodes": list(spec["aggstore"])})
    doc["nodes"] = extra + doc["nodes"] if spec["front"] else doc["nodes"] + extra
    days = nets.STEPS[spec["step"]][1]
    pars = {}
    for i, w in enumerate(spec["watch"]):
        k = w["kind"]
        d = {"type": {"FlowParameter": "flow", "delay": "flowdelay", "mean": "rollingmeanflownode", "deficit": "deficit"}.get(k, "storage")}
        if k in ALL[4:]:
            d["storage_node"] = w["node"]
            if k == "proportional":
                d["use_proportional_volume"] = True
        else:
            d["node"] = w["node"]
        if k in ("delay", "mean"):
            d["initial_flow"] = w["init"]
            if w.get("days"):
                d["days"] = w["T"] * days + w["off"]
            else:
                d["timesteps"] = w["T"]
        elif k == "FlowParameter" and w["init"]:
            d["initial_value"] = w["init"]
        pars["w%d" % i] = d
        pars["u%d" % i] = {"type": "aggregated", "agg_func": "sum", "parameters": ["w%d" % i, {"type": "constant", "value": 1.0}]}
    doc["parameters"] = dict(doc.get("parameters", {}), **pars)
    return doc


def other_length(spec):
    """another length of the time-steps which divides all lengths in days"""
    days = nets.STEPS[spec["step"]][1]
    if not days or not spec["relength"]:
        return None
    g = 0
    for w in spec["watch"]:
        if w.get("days") and w["kind"] in ("delay", "mean"):
            g = math.gcd(g, w["T"] * days)
    for d in spec["nodes"]:
        if d["type"] == "DelayNode" and d["days"]:
            g = math.gcd(g, d["delay"] * days)
    if g == 0:
        return days + 1
    return max((x for x in range(1, g + 1) if g % x == 0 and x != days), default=None) if days == 1 else 1


def t_lookback(spec, ev):
    doc = document(spec)
    if any(w.get("off") for w in spec["watch"]):
        raises(ValueError, lambda: nets.load(doc).setup(), "a delay that is no whole number of time-steps")
        ev.tag("indivisible delay")
        return
    model = nets.load(doc)
    ns = spec["ns"]
    kinds = {d["name"]: d for d in spec["nodes"]}
    model.setup()
    every = list(model.graph.nodes())
    other = other_length(spec)
    for run in range(3 if other else 2):
        if run == 1:
            model.reset()
        elif run == 2:
            ts = model.timestepper
            ts.end = ts.start + datetime.timedelta(days=other * (spec["n"] - 1))
            ts.delta = other
            model.setup()
            ev.tag("time-steps of another length")
        for node in every:
            req_close("run %d: previous flow of %s before the first step" % (run, node.name), np.abs(node.prev_flow).max(), 0.0)
        hist = {w["node"]: [] for w in spec["watch"]}
        vols = {w["node"]: np.array(model.nodes[w["node"]].volume) for w in spec["watch"] if w["kind"] in ALL[4:]}
        pcs = {w["node"]: np.array(model.nodes[w["node"]].current_pc) for w in spec["watch"] if w["kind"] in ALL[4:]}
        for t in range(spec["n"]):
            if run == 0 and t == spec["stop"]:
                break
            try:
                model.step()
            except RuntimeError:
                ev.tag("infeasible")
                return
            for node in every:
                for s in range(ns):
                    req_close("run %d step %d scenario %d: previous flow of %s %r" % (run, t, s, type(node).__name__, node.name), node.prev_flow[s], node.flow[s], 0, 0)
            for i, w in enumerate(spec["watch"]):
                k, h, T = w["kind"], hist[w["node"]], w["T"]
                if run == 2 and w.get("days"):
                    T = T * nets.STEPS[spec["step"]][1] // other
                got, used = model.parameters["w%d" % i].get_all_values(), model.parameters["u%d" % i].get_all_values()
                for s in range(ns):
                    what = "run %d step %d scenario %d: %s %r of %s" % (run, t, s, k, {x: w[x] for x in ("T", "init", "days") if x in w}, w["node"])
                    if k == "FlowParameter":
                        want = h[-1][s] if t else w["init"]
                    elif k == "delay":
                        want = h[t - T][s] if t >= T else w["init"]
                    elif k == "mean":
                        want = np.mean([x[s] for x in h[-T:]]) if t else w["init"]
                    elif k == "storage":
                        want = vols[w["node"]][s]
                    elif k == "proportional":
                        want = pcs[w["node"]][s]
                    else:
                        def deficit(t, flow):
                            mx = kinds[w["node"]].get("max")
                            return (nets.INF if mx is None else nets.val(mx, t, s)) - flow
                        want = deficit(t - 1, h[-1][s]) if t else 0.0
                        req_close(what + " after the step", got[s], deficit(t, float(model.nodes[w["node"]].flow[s])), 1e-9, 1e-9)
                    if k != "deficit":
                        req_close(what, got[s], want, 1e-9, 1e-9)
                    req_close(what + " as used by another parameter", used[s], want + 1.0, 1e-9, 1e-9)
                    ev.tag(k)
            for x in hist:
                f = np.array(model.nodes[x].flow)
                if hist[x] and np.abs(hist[x][-1] - f).max() > 1e-6:
                    ev.nt()
                    ev.tag("node " + type(model.nodes[x]).__name__)
                hist[x].append(f)
            for x in vols:
                vols[x], pcs[x] = np.array(model.nodes[x].volume), np.array(model.nodes[x].current_pc)


TESTS = [Test("lookback", specs(), t_lookback, 1200, 1)]
