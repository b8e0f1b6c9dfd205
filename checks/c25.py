"""C25: event recorders find exactly the maximal triggered periods."""

import math
import operator

import numpy as np
from hypothesis import strategies as st

from checks.c23 import statistic
from harness import driven, pm
from harness.core import Test, req_arrays, req_close, req_equal

TECHNIQUE = "random driven models with random triggers and event recorders, compared with the maximal runs of the known trigger series"
RULE = ("triggers from parameters (also fractional and negative), index parameters and threshold recorders, minimum lengths, tracked parameters, duration and "
        "statistic recorders; non-trivial: some scenario has an event and some trigger changes")
NOTE = "The events, their ends, tracked values, durations and statistics are those of the maximal triggered runs of each scenario, also after a re-run."

OPS = {"LT": operator.lt, "GT": operator.gt, "LE": operator.le, "GE": operator.ge, "EQ": operator.eq, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}
aggs = st.sampled_from(["mean", "sum", "min", "max", "median"])


@st.composite
def specs(draw):
    sp = draw(driven.specs(maxn=14, kinds="DDDDMW", biased=True))
    n, c = driven.nsteps(sp), driven.ncomb(sp)
    sp["trig"] = [[draw(st.sampled_from([0.0, 0.0, 1.0, 1.0, 0.5, 2.0, -0.25])) for _ in range(c)] for _ in range(n)]
    if draw(st.integers(0, 5)) == 0:
        j = draw(st.integers(0, c - 1))
        for r in sp["trig"]:
            r[j] = 0.0
    sp["es"] = []
    for k in range(draw(st.integers(1, 3))):
        e = {"k": draw(st.sampled_from(["param", "param", "index", "index", "node", "storage", "storage recorder", "node recorder"])),
             "min": draw(st.sampled_from([None, None, 1, 2, 3])), "track": draw(st.sampled_from([None, 0, 1])), "ops": draw(st.sampled_from(sorted(OPS)))}
        e["thr"] = draw(st.integers(0, 30).map(lambda x: x / 4.0 + 0.1)) if e["k"].startswith("node") else draw(st.integers(0, 60).map(lambda x: x + 0.1))
        if e["k"] in ("node", "storage"):
            e["ops"] = draw(st.sampled_from(["LT", "GT"]))
        e["e"] = draw(st.one_of(st.none(), aggs)) if e["track"] is not None else None
        e["agg"] = draw(aggs)
        e["dur"] = {"agg": draw(st.one_of(st.none(), aggs)), "r": draw(st.one_of(st.none(), aggs))} if draw(st.booleans()) else None
        e["stat"] = {"agg": draw(st.one_of(st.none(), aggs)), "r": draw(st.one_of(st.none(), aggs)), "e": draw(st.one_of(st.none(), aggs))} \
            if e["track"] is not None and draw(st.booleans()) else None
        sp["es"].append(e)
    return sp


def document(sp):
    doc = driven.document(sp)
    doc["parameters"]["trig"] = {"type": "veriftable", "table": sp["trig"]}
    for k, e in enumerate(sp["es"]):
        if e["k"] in ("node", "storage"):
            d = {"type": e["k"] + "threshold", "threshold": e["thr"], "predicate": e["ops"], "values": [0.0, 1.0]}
            d["storage_node" if e["k"] == "storage" else "node"] = "store" if e["k"] == "storage" else "dem"
            doc["parameters"]["thr%d" % k] = d
        trigger = {"param": "trig", "index": "i0"}.get(e["k"], "thr%d" % k)
        d = {"type": "event", "threshold": trigger, "agg_func": e["agg"]}
        if e["min"] is not None:
            d["minimum_event_length"] = e["min"]
        if e["track"] is not None:
            d["tracked_parameter"] = "p%d" % e["track"]
        if e["e"] is not None:
            d["event_agg_func"] = e["e"]
        R = doc["recorders"]
        R["e%d" % k] = d
        for kind, x in (("eventduration", e["dur"]), ("eventstatistic", e["stat"])):
            if x is not None:
                d = {"type": kind, "event_recorder": "e%d" % k}
                for a, b in (("agg", "agg_func"), ("r", "recorder_agg_func"), ("e", "event_agg_func")):
                    if x.get(a) is not None:
                        d[b] = x[a]
                R["%s%d" % (kind, k)] = d
        if e["k"].endswith("recorder"):         # these can only be made in code
            for name in ("e%d" % k, "eventduration%d" % k, "eventstatistic%d" % k):
                R.pop(name, None)
    return doc


def build(sp):
    from pywr import recorders
    model = driven.load(document(sp))
    for k, e in enumerate(sp["es"]):
        if not e["k"].endswith("recorder"):
            continue
        cls, node = (recorders.StorageThresholdRecorder, "store") if e["k"].startswith("storage") else (recorders.NodeThresholdRecorder, "dem")
        trigger = cls(model, model.nodes[node], e["thr"], predicate=e["ops"], name="thr%d" % k)
        kw = {"agg_func": e["agg"], "name": "e%d" % k}
        if e["min"] is not None:
            kw["minimum_event_length"] = e["min"]
        if e["track"] is not None:
            kw["tracked_parameter"] = model.parameters["p%d" % e["track"]]
        if e["e"] is not None:
            kw["event_agg_func"] = e["e"]
        ev = recorders.EventRecorder(model, trigger, **kw)
        for kind, cls, x in (("eventduration", recorders.EventDurationRecorder, e["dur"]), ("eventstatistic", recorders.EventStatisticRecorder, e["stat"])):
            if x is not None:
                kw = {b: x[a] for a, b in (("agg", "agg_func"), ("r", "recorder_agg_func"), ("e", "event_agg_func")) if x.get(a) is not None}
                cls(model, ev, name="%s%d" % (kind, k), **kw)
    return model


def triggers(sp, e, h):
    k = e["k"]
    if k == "param":
        return np.array(sp["trig"]) != 0
    if k == "index":
        return h["i"][0] != 0
    if k.endswith("recorder"):
        a = h["vol"] if k.startswith("storage") else h["flow"]["dem"]
        return OPS[e["ops"]](a, e["thr"])
    # threshold parameters look at the state before the time-step
    a = h["vol"] if k == "storage" else h["flow"]["dem"]
    first = sp["init"] if k == "storage" else None
    out = np.zeros(a.shape, dtype=bool)
    for t in range(len(a)):
        if t == 0 and first is None:
            continue                    # no previous flow: the parameter has its first value
        out[t] = OPS[e["ops"]](a[t - 1] if t else np.full(a.shape[1], first), e["thr"])
    return out


def runs(col, least):
    out, start = [], None
    for t, x in enumerate(list(col) + [False]):
        if x and start is None:
            start = t
        elif not x and start is not None:
            if t - start >= least:
                out.append((start, t))
            start = None
    return out


def t_events(sp, ev):
    h = driven.history(sp)
    steps = pm.steps(sp["clock"])
    n, c = driven.nsteps(sp), driven.ncomb(sp)
    dates = [a.strftime("%Y-%m-%d") for a, _, _ in steps] + [steps[-1][1].strftime("%Y-%m-%d")]
    model = build(sp)
    days = [0]
    for a, b, _ in steps:
        days.append(days[-1] + (b - a).days)
    for run in range(2):
        model.run()
        for k, e in enumerate(sp["es"]):
            what = "event recorder %d (%s, run %d)" % (k, e["k"], run + 1)
            rec = model.recorders["e%d" % k]
            trig = triggers(sp, e, h)
            want = [(s, a, b) for s in range(c) for a, b in runs(trig[:, s], e["min"] or 1)]
            got = [(x.scenario_index.global_id, x.start.index, x.end.index) for x in rec.events]
            req_equal(what + ": events (scenario, start, end)", sorted(got), sorted(want))
            for x in rec.events:
                a, b, s = x.start.index, x.end.index, x.scenario_index.global_id
                req_equal(what + ": duration of event %r" % ((s, a, b),), x.duration, days[b] - days[a])
                if e["track"] is not None:
                    req_arrays(what + ": tracked values of event %r" % ((s, a, b),), x.values, h["p"][e["track"]][a:b, s])
            df = rec.to_dataframe()
            req_equal(what + ": table", sorted((int(i), driven.first_day(a), driven.first_day(b)) for i, a, b in zip(df["scenario_id"], df["start"], df["end"])),
                      sorted((s, dates[a], dates[b]) for s, a, b in want))
            if e["track"] is not None and want:
                f = e["e"] or e["agg"]
                vals = {(int(i), driven.first_day(a)): v for i, a, v in zip(df["scenario_id"], df["start"], df["value"])}
                for s, a, b in want:
                    req_close(what + ": value of event %r" % ((s, a, b),), vals[(s, dates[a])], statistic(f, h["p"][e["track"]][a:b, s]))
            for kind, x in (("eventduration", e["dur"]), ("eventstatistic", e["stat"])):
                if x is None:
                    continue
                per = [[] for _ in range(c)]
                for s, a, b in want:
                    if kind == "eventduration":
                        per[s].append(float(days[b] - days[a]))
                    else:
                        per[s].append(statistic(x["e"] or x["agg"] or "mean", h["p"][e["track"]][a:b, s]))
                v = [statistic(x["r"] or x["agg"] or "mean", p) if p else math.nan for p in per]
                req_arrays("%s of %s" % (kind, what), model.recorders["%s%d" % (kind, k)].values(), v)
                ev.tag(kind)
            ev.tag(e["k"], *(["open at the end"] if any(b == n for _, _, b in want) else []))
            ev.nt(bool(want) and bool((trig[1:] != trig[:-1]).any()))


TESTS = [Test("events", specs(), t_events, 350)]
