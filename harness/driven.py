"""A model whose whole history (flows, volumes, parameters, indices) follows from the case by plain arithmetic."""

import numpy as np
from hypothesis import strategies as st

from harness import cal, nets, pm, scen

q = st.one_of(*[st.integers(0, 24).map(lambda x: x / 4.0)] * 5, st.integers(1, 12).map(lambda x: x / 2048.0))       # now and then small
num = st.integers(-24, 24).map(lambda x: x / 4.0)

TABLES = ("sup", "dem", "cat", "out")


@st.composite
def specs(draw, maxn=10, kinds="DDDDDWMQ", tables=True, max_combos=8, npar=2, nidx=2, biased=False, lo=1800, hi=2150, clock=None):
    sp = {"clock": draw(clock or pm.clocks(maxn, kinds, lo, hi)), "scen": draw(scen.sets(max_scen=2, max_size=3, max_combos=max_combos))}
    if draw(st.integers(0, 3)) == 0:
        sp["scen"] = {"scen": [], "user": None}
    n, c = sp["clock"]["n"], len(scen.combos(sp["scen"])) if sp["scen"]["scen"] else 1

    def table(base):
        if n * c > 60:         # long runs: a short pattern, repeated with a shift per combination
            pat = draw(st.lists(base, min_size=1, max_size=12))
            step = draw(st.integers(0, 5))
            return [[pat[(t + step * s) % len(pat)] for s in range(c)] for t in range(n)]
        return [[draw(base) for _ in range(c)] for _ in range(n)]
    sp["t"] = {k: table(q) for k in TABLES}
    sp["p"] = [table(num) for _ in range(npar)]
    sp["i"] = [table(st.sampled_from([0, 0, 1, 1, 2, 3]) if not biased else st.sampled_from([0, 0, 0, 1, 1, 1, 1, 2])) for _ in range(nidx)]
    sp["maxv"] = float(draw(st.integers(1, 60)))
    sp["minv"] = draw(st.sampled_from([0.0, 0.0, 0.25])) * sp["maxv"]
    sp["init"] = sp["minv"] + draw(st.sampled_from([0.0, 0.5, 1.0, 0.75])) * (sp["maxv"] - sp["minv"])
    sp["cost"] = draw(num)
    return sp


def nsteps(sp):
    return sp["clock"]["n"]


def ncomb(sp):
    return len(sp["p"][0][0]) if sp["p"] else len(sp["t"]["sup"][0])


def document(sp):
    s = sp["clock"]
    doc = {"metadata": {"title": "d", "minimum_version": "0.1"}, "timestepper": pm.timestepper(s), "solver": {"name": "glpk"}, "recorders": {}}
    if sp["scen"]["scen"]:
        scen.put(doc, sp["scen"])
    doc["parameters"] = {k: {"type": "veriftable", "table": sp["t"][k]} for k in TABLES}
    for j, t in enumerate(sp["p"]):
        doc["parameters"]["p%d" % j] = {"type": "veriftable", "table": t}
    for j, t in enumerate(sp["i"]):
        doc["parameters"]["i%d" % j] = {"type": "verifindex", "table": t}
    doc["nodes"] = [
        {"name": "sup", "type": "Input", "max_flow": "sup", "cost": sp["cost"]},
        {"name": "dem", "type": "Output", "max_flow": "dem", "cost": -100.0},
        {"name": "cat", "type": "Catchment", "flow": "cat"},
        {"name": "store", "type": "Storage", "min_volume": sp["minv"], "max_volume": sp["maxv"], "initial_volume": sp["init"], "cost": -1.0},
        {"name": "out", "type": "Output", "max_flow": "out", "cost": -20.0},
        {"name": "spill", "type": "Output", "cost": 5.0}]
    doc["edges"] = [["sup", "dem"], ["cat", "store"], ["store", "out"], ["store", "spill"]]
    return doc


def history(sp):
    """the series [step, combination] of everything, and the days of every step"""
    days = np.array([(b - a).total_seconds() / 86400.0 for a, b, _ in pm.steps(sp["clock"])])
    T = {k: np.array(v, dtype=float) for k, v in sp["t"].items()}
    n, c = T["sup"].shape
    h = {"days": days, "flow": {"sup": np.minimum(T["sup"], T["dem"]), "dem": np.minimum(T["sup"], T["dem"]), "cat": T["cat"]},
         "max": {"sup": T["sup"], "dem": T["dem"], "cat": T["cat"], "out": T["out"]},
         "p": [np.array(x, dtype=float) for x in sp["p"]], "i": [np.array(x, dtype=int) for x in sp["i"]]}
    vol, out, spill = np.zeros((n, c)), np.zeros((n, c)), np.zeros((n, c))
    v = np.full(c, sp["init"], dtype=float)
    for t in range(n):
        d = days[t]
        a = T["cat"][t]
        out[t] = np.minimum(T["out"][t], np.maximum(v - sp["minv"], 0.0) / d + a)
        nv = v + (a - out[t]) * d
        spill[t] = np.maximum(nv - sp["maxv"], 0.0) / d
        v = np.minimum(nv, sp["maxv"])
        for x in (sp["minv"], sp["maxv"]):
            v = np.where(np.abs(v - x) < 1e-6, x, v)
        vol[t] = v
    h["flow"]["out"], h["flow"]["spill"] = out, spill
    h["vol"], h["pc"] = vol, vol / sp["maxv"]
    return h


def labels(sp):
    return scen.labels(sp["scen"]) if sp["scen"]["scen"] else [(0,)]


def load(doc):
    return nets.load(doc, plain="scenarios" in doc)


def first_day(x):
    """the start of an entry of a table index (a period or a timestamp) as 'YYYY-MM-DD'"""
    import pandas as pd
    if isinstance(x, pd.Period):
        x = x.start_time
    return pd.Timestamp(x).strftime("%Y-%m-%d")


def check_frame(what, df, sp, want, rtol=1e-7, atol=1e-7, index="dates", plain=True):
    """a table output: values, dates and scenario labels"""
    from harness.core import req_arrays, req_equal
    req_arrays(what + " table", df.values, want, rtol, atol)
    if index == "dates":
        got = [first_day(x) for x in df.index]
        req_equal(what + ": dates of the table", got, [a.strftime("%Y-%m-%d") for a, _, _ in pm.steps(sp["clock"])])
    elif index is not None:
        req_equal(what + ": index of the table", [float(x) for x in df.index], [float(x) for x in index])
    if sp["scen"]["scen"]:
        names = [s["name"] for s in sp["scen"]["scen"]]
        req_equal(what + ": scenario names of the table", list(df.columns.names), names)
        got = [tuple(x) if isinstance(x, tuple) else (x,) for x in df.columns]
        req_equal(what + ": combinations of the table", got, labels(sp))
