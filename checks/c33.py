"""C33: calibration scores and storage density estimates."""

import datetime as dt
import math

import numpy as np
from hypothesis import strategies as st

from harness import cal, nets, pm, rich
from harness.core import Test, Violation, isclose, raises, require, req_close, req_equal

TECHNIQUE = "property-based testing: random modelled and observed series on random calendars, against the textbook formulas computed with plain loops; an own reflected Gaussian kernel estimate for the storage densities"
RULE = ("random flows, scenarios, observation spans and frequencies, one observed series or one per scenario; random storage histories, targets and resampling; "
        "non-trivial: modelled and observed series differ, or the density is computed from varying volumes")
NOTE = "Every score and probability equals its definition on every generated history."

DAY = dt.timedelta(days=1)
AGG = {"mean": np.mean, "sum": np.sum, "max": np.max, "min": np.min}


@st.composite
def comparisons(draw):
    clock = draw(pm.clocks(10, "DDDDDWM", 1990, 2030))
    if clock["step"]["kind"] != "D":
        clock["step"]["n"] = 1      # observations are not resampled to multiples of these (see C14)
    steps = pm.steps(clock)
    ns = draw(st.sampled_from([1, 2, 3]))
    x = st.integers(0, 200).map(lambda i: i / 8.0)
    flows = [[draw(x) for _ in range(ns)] for _ in steps]
    cols = 1 if draw(st.booleans()) else ns
    same = draw(st.integers(0, 2)) == 0
    whole = clock["step"]["kind"] in "WM" or clock["step"]["n"] > 1
    freq = draw(st.sampled_from(["D", "model"])) if whole else "D"
    before, after = draw(st.integers(0, 5)), draw(st.integers(0, 5))
    if freq == "D":
        n = (steps[-1][1] - steps[0][0]).days + before + after
    else:
        before = after = 0
        n = len(steps)
    pattern = [draw(x) for _ in range(draw(st.integers(1, 9)))]
    obs = [[round(pattern[(3 * i + 5 * c) % len(pattern)] + 0.37 * (i % 4) + 0.01 * (i % 11), 6) for c in range(cols)] for i in range(n)]
    return {"clock": clock, "ns": ns, "flows": flows, "obs": obs, "freq": freq, "before": before, "period": draw(st.booleans()), "same": same and freq == "D",
            "factor": draw(st.sampled_from([1.0, 1.0, 2.5])), "agg": draw(st.sampled_from(sorted(AGG))), "again": draw(st.booleans())}


def t_scores(spec, ev):
    import pandas
    from pywr.recorders import calibration as C
    steps = pm.steps(spec["clock"])
    ns, cols = spec["ns"], len(spec["obs"][0])
    start = steps[0][0] - DAY * spec["before"]
    if spec["freq"] == "D":
        index = pandas.period_range(start, periods=len(spec["obs"]), freq="D")
        if not spec["period"]:
            index = index.to_timestamp()
    doc = {"metadata": {"title": "c", "minimum_version": "0.1"}, "timestepper": pm.timestepper(spec["clock"]), "scenarios": [{"name": "S", "size": ns}],
           "nodes": [{"name": "in", "type": "Catchment", "flow": {"type": "veriftable", "table": spec["flows"]}}, {"name": "out", "type": "Output"}], "edges": [["in", "out"]]}
    model = rich.load(doc)
    if spec["freq"] == "model":
        index = model.timestepper.datetime_index
        require(len(index) == len(steps), "the model has %d steps, not %d", len(index), len(steps))
    obs = [list(r) for r in spec["obs"]]
    frame = pandas.DataFrame(np.array(obs, dtype=float), index=index, columns=["c%d" % i for i in range(cols)])
    if not isinstance(index, pandas.PeriodIndex):
        frame = frame.asfreq("D")
    keep = frame.copy()
    scores = {}
    for name in ("RootMeanSquaredError", "MeanAbsoluteError", "MeanSquareError", "PercentBias", "RMSEStandardDeviationRatio", "NashSutcliffeEfficiency"):
        kw = {} if spec["factor"] == 1.0 else {"factor": spec["factor"]}
        scores[name] = getattr(C, name + "NodeRecorder")(model, model.nodes["in"], frame, name=name, agg_func=spec["agg"], **kw)
    model.run()
    if spec["again"]:
        model.run()
    require(keep.equals(frame), "the observations were modified")
    ev.tag("freq " + spec["freq"], "%d columns, %d scenarios" % (cols, ns), "steps " + spec["clock"]["step"]["kind"])
    for s in range(ns):
        mod = [row[s] * spec["factor"] for row in spec["flows"]]
        series = []
        for i, (a, b, _) in enumerate(steps):
            c = s if cols == ns else 0
            if spec["freq"] == "model":
                series.append(obs[i][c])
            else:
                days = [obs[k][c] for k in range((a - start).days, (b - start).days)]
                series.append(sum(days) / len(days))
        n = len(series)
        err = [o - m for o, m in zip(series, mod)]
        mse = sum(e * e for e in err) / n
        mean = sum(series) / n
        var = sum((o - mean) ** 2 for o in series) / n
        want = {"RootMeanSquaredError": math.sqrt(mse), "MeanAbsoluteError": sum(abs(e) for e in err) / n, "MeanSquareError": mse}
        if abs(mean) > 1e-6:
            want["PercentBias"] = 100.0 * sum(err) / sum(series)
        if var > 1e-8:
            want["RMSEStandardDeviationRatio"] = math.sqrt(mse) / math.sqrt(var)
            want["NashSutcliffeEfficiency"] = 1.0 - mse / var
            ev.tag("varying observations")
        ev.nt(mse > 0)
        for name, w in want.items():
            v = scores[name].values()
            req_equal("number of values of %s" % name, len(v), ns)
            req_close("%s of scenario %d" % (name, s), v[s], w, 1e-7, 1e-7)
    for name, rec in scores.items():
        v = np.asarray(rec.values(), dtype=float)
        if np.all(np.isfinite(v)) and np.max(np.abs(v)) < 1e9:
            req_close("%s over the scenarios" % name, rec.aggregated_value(), AGG[spec["agg"]](v), 1e-9, 1e-9)


# -- densities -------------------------------------------------------------------------------------------------

@st.composite
def densities(draw):
    n = draw(st.sampled_from([5, 12, 40, 75]))
    clock = {"step": {"kind": "D", "n": 1, "form": "int", "anchor": None}, "start": draw(cal.dates(1990, 2030)), "n": n}
    if draw(st.integers(0, 3)) == 0:
        clock = draw(pm.clocks(12, "DDWM", 1990, 2030))
    n = len(pm.steps(clock))
    ns = draw(st.sampled_from([1, 1, 2, 3]))
    days = max((b - a).days for a, b, _ in pm.steps(clock))
    pat = [draw(st.integers(-20, 20)) / 4.0 for _ in range(draw(st.integers(3, 9)))]
    net = [[round(pat[(i * (s + 2) + 3 * s) % len(pat)] + 0.13 * ((i * 7 + s) % 5), 6) for s in range(ns)] for i in range(n)]
    daily = clock["step"]["kind"] == "D" and clock["step"]["n"] == 1
    out = {"clock": clock, "ns": ns, "net": net, "top": draw(st.sampled_from([20.0, 50.0, 150.0])) * days, "start": draw(st.integers(0, 10)) / 10.0,
           "target": draw(st.integers(0, 20)) / 20.0, "reflect": draw(st.sampled_from([None, True, False])), "num": draw(st.sampled_from([None, 11, 50])),
           "curve": draw(st.sampled_from([0.3, 0.5, 0.8])), "json": draw(st.booleans())}
    if daily and draw(st.booleans()):
        out["resample"] = [draw(st.sampled_from(["M", "M", "Q", "2D", "5D"])), draw(st.sampled_from(["min", "max", "mean"]))]
    return out


def phi(x):
    return 0.5 * (1.0 + math.erf(x / math.sqrt(2.0)))


def estimate(values, lo, hi, points, mirrors):
    """The probability of [lo, hi] and the density at points, with mirrored copies of the values: a Gaussian kernel of Scott's width."""
    n = len(values)
    mean = sum(values) / n
    sd = math.sqrt(sum((v - mean) ** 2 for v in values) / (n - 1)) * n ** (-1.0 / 5.0)
    p, pdf = 0.0, [0.0] * len(points)
    for image in [lambda v: v] + mirrors:
        for v in values:
            c = image(v)
            p += (phi((hi - c) / sd) - phi((lo - c) / sd)) / n
            for k, x in enumerate(points):
                pdf[k] += math.exp(-0.5 * ((x - c) / sd) ** 2) / (sd * math.sqrt(2 * math.pi)) / n
    return p, pdf


def t_density(spec, ev):
    steps = pm.steps(spec["clock"])
    ns = spec["ns"]
    inflow = [[max(x, 0.0) for x in r] for r in spec["net"]]
    demand = [[max(-x, 0.0) for x in r] for r in spec["net"]]
    kw = {}
    if spec["reflect"] is not None:
        kw["use_reflection"] = spec["reflect"]
    if spec["num"] is not None:
        kw["num_pdf"] = spec["num"]
    if "resample" in spec:
        kw["resample_freq"], kw["resample_func"] = spec["resample"]
    doc = {"metadata": {"title": "k", "minimum_version": "0.1"}, "timestepper": pm.timestepper(spec["clock"]), "scenarios": [{"name": "S", "size": ns}],
           "nodes": [{"name": "in", "type": "Input", "max_flow": {"type": "veriftable", "table": inflow}, "cost": -1.0},
                     {"name": "res", "type": "Storage", "max_volume": spec["top"], "initial_volume": round(spec["top"] * spec["start"], 6)},
                     {"name": "out", "type": "Output", "max_flow": {"type": "veriftable", "table": demand}, "cost": -10.0}],
           "edges": [["in", "res"], ["res", "out"]],
           "parameters": {"curve": {"type": "constant", "value": spec["curve"]}}, "recorders": {}}
    one = dict(kw, type="gaussiankdestorage", node="res", target_volume_pc=spec["target"])
    two = dict(kw, type="normalisedgaussiankdestorage", node="res", parameter="curve")
    if spec["json"]:
        doc["recorders"] = {"kde": one, "norm": two}
    model = rich.load(doc)
    if not spec["json"]:
        from pywr.recorders import GaussianKDEStorageRecorder, NormalisedGaussianKDEStorageRecorder
        GaussianKDEStorageRecorder(model, model.nodes["res"], name="kde", target_volume_pc=spec["target"], **kw)
        NormalisedGaussianKDEStorageRecorder(model, model.nodes["res"], name="norm", parameter=model.parameters["curve"], **kw)
    watch = rich.watcher(model)
    # the volumes, from the balance
    vol, vols = [round(spec["top"] * spec["start"], 6)] * ns, []
    for i, (a, b, _) in enumerate(steps):
        vol = [min(max(v + (b - a).days * x, 0.0), spec["top"]) for v, x in zip(vol, spec["net"][i])]
        vols.append(vol)

    def groups(table):
        if "resample" not in spec:
            return table
        freq, func = spec["resample"]
        f = {"min": min, "max": max, "mean": lambda x: sum(x) / len(x)}[func]
        key = {"M": lambda d, i: (d.year, d.month), "Q": lambda d, i: (d.year, (d.month - 1) // 3), "2D": lambda d, i: i // 2, "5D": lambda d, i: i // 5}[freq]
        parts = {}
        for i, row in enumerate(table):
            parts.setdefault(key(steps[i][0], i), []).append(row)
        return [[f([r[s] for r in rows]) for s in range(ns)] for _, rows in sorted(parts.items())]

    pc = [[v / spec["top"] for v in r] for r in vols]
    cc = spec["curve"]
    norm = [[x / cc - 1.0 if x < cc else (x - cc) / (1.0 - cc) for x in r] for r in pc]
    flat, flatn = [x for r in groups(pc) for x in r], [x for r in groups(norm) for x in r]
    spread = max(flat) - min(flat)
    if len(flat) < 2 or spread < 1e-3:
        ev.tag("no spread")
        return      # no density can be estimated
    model.run()
    for i in range(len(steps)):
        for s in range(ns):
            req_close("step %d scenario %d: proportional volume" % (i, s), watch.log["proportional volume of res"][i][s], pc[i][s], 1e-6, 1e-6)
    mirror = spec["reflect"] is not False
    what = "%d values from %r to %r%s" % (len(flat), min(flat), max(flat), " (%s)" % spec["resample"] if "resample" in spec else "")
    ev.tag("reflection" if mirror else "no reflection", "resampled " + spec["resample"][0] if "resample" in spec else "not resampled")
    ev.nt()
    tol = 1e-5
    for name, values, lo, hi, mirrors in (("kde", flat, 0.0, spec["target"], [lambda v: -v, lambda v: 2.0 - v]), ("norm", flatn, -1.0, 0.0, [lambda v: -2.0 - v, lambda v: 2.0 - v])):
        rec = model.recorders[name]
        frame = rec.to_dataframe()
        req_equal("%s: points of the density" % name, len(frame), spec["num"] or 101)
        points = [float(x) for x in frame.index]
        p, pdf = estimate(values, lo, hi, points, mirrors if mirror else [])
        req_close("%s: probability of being at or below the target, %s" % (name, what), rec.aggregated_value(), p, 1e-5, tol)
        require(-1e-9 <= rec.aggregated_value() <= 1 + 1e-9 or mirror and rec.aggregated_value() < 1.01, "%s: probability %r" % (name, rec.aggregated_value()))
        got = np.asarray(frame.values, dtype=float).ravel()
        req_equal("%s: densities" % name, len(got), len(pdf))
        top = max(pdf) + 1e-3
        for x, g, w in zip(points, got, pdf):
            req_close("%s: density at %r, %s" % (name, x, what), g / top, w / top, 1e-4, 1e-4)
        req_close("%s: values()" % name, float(np.asarray(rec.values()).ravel()[0]), got[0], 1e-12, 1e-12)
    # the whole range
    points = [float(x) for x in model.recorders["kde"].to_dataframe().index]
    req_close("first point of the density", points[0], 0.0, 0, 1e-12)
    req_close("last point of the density", points[-1], 1.0, 0, 1e-12)


TESTS = [
    Test("scores", comparisons(), t_scores, 800, 1.0),
    Test("density", densities(), t_density, 500, 1.5),
]
