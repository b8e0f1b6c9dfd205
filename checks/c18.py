"""C18: licence parameters apportion the remaining annual allowance."""

import calendar
import datetime as dt
import math

import numpy as np
from hypothesis import strategies as st

from harness import cal, nets, pm
from harness.core import Test, require, req_close

TECHNIQUE = "random multi-year runs of licensed nodes, compared in every step with an independent account of the calendar year's use"
RULE = ("one to three licences of all kinds, random demands per step and scenario, daily to monthly steps crossing year ends and leap years, re-run; "
        "non-trivial: the run enters a second calendar year or a licence limits the flow")
NOTE = "Each licence equals the allowance left, per day left in the year (or its documented function), in every generated step; the year's use stays within it."


@st.composite
def specs(draw):
    kind = draw(st.sampled_from(["D", "D", "D", "W", "M"]))
    ns = draw(st.integers(1, 3))
    y = draw(st.sampled_from([2014, 2015, 2016, 1999, 2000, 1900, 2023]))
    n = draw(st.integers(2, 12))
    step = {"kind": kind, "n": draw(st.sampled_from([1, 1, 2, 5, 7, 10, 30, 45, 100])) if kind == "D" else draw(st.sampled_from([1, 1, 2])), "form": "int" if kind == "D" else "str",
            "anchor": None}
    w = {"D": 1, "W": 7, "M": 30}[kind] * step["n"]
    start = (dt.date(y, 12, 31) - dt.timedelta(days=draw(st.integers(0, n)) * w + draw(st.integers(0, w)))).isoformat()
    if draw(st.integers(0, 4)) == 0:
        start = "%d-01-01" % y
    sp = {"step": step, "start": start, "n": n, "ns": ns, "ls": []}
    for i in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["annual", "annual", "annual", "exp", "hyper", "timestep"]))
        amount = float(draw(st.integers(1, 4000)))
        big = draw(st.sampled_from([1, 10, 100, 1000]))
        l = {"kind": k, "amount": amount, "demand": [[float(draw(st.integers(0, 12)) * big) for _ in range(ns)] for _ in range(n)],
             "k": draw(st.sampled_from([None, 0.5, 2.0])), "value": draw(st.integers(1, 40)) / 4.0,
             "on": draw(st.sampled_from(["in", "out", "link"])), "nodes": draw(st.booleans())}
        sp["ls"].append(l)
    return sp


def t_licence(sp, ev):
    from pywr.parameters.licenses import TimestepLicense
    nets.register()
    clock = {"step": sp["step"], "start": sp["start"], "n": sp["n"]}
    n, ns = sp["n"], sp["ns"]
    doc = pm.document(clock, [ns] if ns > 1 else [])
    doc["nodes"], doc["edges"] = [], []
    for i, l in enumerate(sp["ls"]):
        a = {"name": "in%d" % i, "type": "Input"}
        c = {"name": "link%d" % i, "type": "Link"}
        b = {"name": "out%d" % i, "type": "Output", "cost": -10.0}
        node = {"in": a, "link": c, "out": b}[l["on"]]
        (b if node is a else a)["max_flow"] = {"type": "veriftable", "table": l["demand"]}
        d = {"node": node["name"]}
        if l["kind"] == "annual":
            d.update(type="annuallicense", amount=l["amount"])
        elif l["kind"] == "exp":
            d.update(type="annualexponentiallicense", amount=l["amount"], max_value=l["value"])
            if l["k"] is not None:
                d["k"] = l["k"]
        elif l["kind"] == "hyper":
            d.update(type="annualhyperbolalicense", amount=l["amount"], value=l["value"])
        if l["kind"] != "timestep":
            doc["parameters"]["l%d" % i] = d
            node["max_flow"] = "l%d" % i
        doc["nodes"] += [a, c, b]
        doc["edges"] += [[a["name"], c["name"]], [c["name"], b["name"]]]
    model = nets.load(doc)
    for i, l in enumerate(sp["ls"]):
        if l["kind"] == "timestep":
            node = model.nodes[{"in": "in%d", "link": "link%d", "out": "out%d"}[l["on"]] % i]
            node.max_flow = TimestepLicense(model, node, l["value"], name="l%d" % i)
    model.setup()
    periods = pm.steps(clock)
    limited = False
    for run in range(2):
        rem = [[l["amount"]] * ns for l in sp["ls"]]
        use = {}
        prev = None
        for t in range(n):
            a, b, _ = periods[t]
            days = (b - a).days
            crosses = (b - dt.timedelta(days=1)).year != a.year
            model.step()
            for i, l in enumerate(sp["ls"]):
                node = model.nodes[{"in": "in%d", "link": "link%d", "out": "out%d"}[l["on"]] % i]
                for s in range(ns):
                    flow = float(node.flow[s])
                    if l["kind"] == "timestep":
                        want = l["value"]
                    else:
                        if prev is not None and periods[t - 1][0].year != a.year:
                            first = dt.datetime(a.year, 1, 1)
                            rem[i][s] = max(l["amount"] - (a - first).days * prev[i][s], 0.0)
                        share = rem[i][s] / (dt.datetime(a.year + 1, 1, 1) - a).days
                        x = share / (l["amount"] / (366 if calendar.isleap(a.year) else 365))
                        if l["kind"] == "annual":
                            want = share
                        elif l["kind"] == "exp":
                            want = l["value"] * math.exp(-x / (l["k"] or 1.0))
                        else:
                            want = l["value"] / x if x > 1e-12 else math.inf
                    what = "run %d step %d (%s, %d days) scenario %d: %s licence" % (run, t, a.date(), days, s, l["kind"])
                    got = float(model.parameters["l%d" % i].get_all_values()[s])
                    if not (l["kind"] == "hyper" and (math.isinf(want) or want > 1e8)):
                        req_close(what, got, want, 1e-6, 1e-6)
                    req_close(what + ": flow", flow, min(got, l["demand"][t][s]), 1e-6, 1e-5)
                    limited = limited or got < l["demand"][t][s]
                    rem[i][s] = max(rem[i][s] - flow * days, 0.0)
                    key = (i, s, a.year)
                    use[key] = use.get(key, 0.0) + (flow * days if not crosses else math.nan)
                    if l["kind"] == "annual" and not crosses and not math.isnan(use[key]) and not (prev is not None and periods[t - 1][0].year != a.year and periods[t - 1][1] > dt.datetime(a.year, 1, 1)):
                        left = (dt.datetime(a.year + 1, 1, 1) - a).days
                        if all((x[1] - dt.timedelta(days=1)).year == x[0].year for x in periods[:t + 1]):
                            require(use[key] <= l["amount"] * (1 + 1e-6) + 1e-5, "%s: use in %d is %r of %r", what, a.year, use[key], l["amount"])
                ev.tag(l["kind"], sp["step"]["kind"])
            prev = [[float(x) for x in model.nodes[{"in": "in%d", "link": "link%d", "out": "out%d"}[l["on"]] % i].flow] for i, l in enumerate(sp["ls"])]
        model.reset()
    ev.nt(limited or periods[0][0].year != periods[-1][0].year)


TESTS = [Test("licence", specs(), t_licence, 700, 1)]
