"""C23: summary recorders equal the statistic of the recorded series."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import driven, scen
from harness.core import Test, raises, req_arrays, req_close, req_equal

TECHNIQUE = "random driven models with random summary recorders, differential against independent implementations of the named statistics on the known history"
RULE = ("one to five recorders (totals, means, frequencies, minima, flags, duration curves, deviations, rolling and aggregated recorders) with random aggregation "
        "functions over time, recorders and scenarios, missing values and constraint bounds; non-trivial: some recorder's values differ between scenarios or its "
        "series changes")
NOTE = "Every value, aggregated value, series and constraint judgement equals the named statistic of the known history, also after a re-run."

# ---------------------------------------------------------------------------------------------------------------
# the statistics


def percentile(xs, qq):
    xs = sorted(xs)
    if any(math.isnan(x) for x in xs):
        return math.nan
    k = (len(xs) - 1) * qq / 100.0
    i = min(int(math.floor(k)), len(xs) - 1)
    j = min(i + 1, len(xs) - 1)
    return xs[i] + (xs[j] - xs[i]) * (k - i)


def statistic(f, xs, ignore=False):
    xs = [float(x) for x in xs]
    if ignore:
        xs = [x for x in xs if not math.isnan(x)]
        if not xs:
            return math.nan
    name, arg = (f, None) if isinstance(f, str) else (f["func"], f)
    nan = any(math.isnan(x) for x in xs)
    if name == "count_nonzero":
        return float(sum(1 for x in xs if x != 0))
    if nan:
        return math.nan
    if name == "sum":
        return math.fsum(xs)
    if name == "mean":
        return math.fsum(xs) / len(xs)
    if name == "product":
        return math.prod(xs)
    if name in ("min", "max"):
        return (min if name == "min" else max)(xs)
    if name == "median":
        return percentile(xs, 50)
    if name == "range":
        return max(xs) - min(xs)
    a = arg.get("args", []) or []
    kw = arg.get("kwargs", {})
    if name == "percentile":
        return percentile(xs, a[0] if a else kw["q"])
    score = a[0] if a else kw["score"]
    below, at, n = sum(x < score for x in xs), sum(x <= score for x in xs), len(xs)
    kind = kw.get("kind", "rank")
    if kind == "weak":
        return 100.0 * at / n
    if kind == "strict":
        return 100.0 * below / n
    if kind == "mean":
        return 50.0 * (below + at) / n
    return 50.0 * (below + at + (1 if at > below else 0)) / n


def columns(f, a, ignore=False):
    a = np.asarray(a, dtype=float)
    return np.array([statistic(f, a[:, j], ignore) for j in range(a.shape[1])])


# ---------------------------------------------------------------------------------------------------------------
# generator

plain = st.sampled_from(["sum", "mean", "min", "max", "median", "product", "Mean"])
perc = st.integers(0, 20).map(lambda x: 5 * x)
pct = st.one_of(perc.map(lambda x: {"func": "percentile", "args": [x]}), perc.map(lambda x: {"func": "percentile", "args": [], "kwargs": {"q": x}}))
score = st.builds(lambda s, k: {"func": "percentileofscore", "kwargs": {"score": s, "kind": k}}, driven.num, st.sampled_from(["rank", "weak", "strict", "mean"]))
score = st.one_of(score, driven.num.map(lambda x: {"func": "percentileofscore", "args": [x]}))
smooth = st.one_of(plain, plain, pct)                          # insensitive to rounding
anyfunc = st.one_of(plain, pct, score, st.just("count_nonzero"), st.just("range"))
lists = st.lists(perc, min_size=1, max_size=5)

EXACT = ("array p", "array i", "count")


@st.composite
def specs(draw):
    sp = draw(driven.specs(maxn=9))
    n, c = driven.nsteps(sp), driven.ncomb(sp)
    # missing values
    sp["nan"] = sorted({(draw(st.integers(0, n - 1)), draw(st.integers(0, c - 1))) for _ in range(draw(st.sampled_from([0, 0, 1, 2, n * c])))})
    sp["nan"] = [list(x) for x in sp["nan"]]
    if draw(st.integers(0, 3)) == 0:      # a whole column is missing
        j = draw(st.integers(0, c - 1))
        sp["nan"] = [[t, j] for t in range(n)]
    sp["rs"] = []
    for k in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["total", "mean", "totaldeficit", "frequency", "min", "flag", "totalp", "meanp", "count", "array flow", "array p", "array p",
                                     "array i", "array vol", "fdc", "sdc", "dev", "dev", "rollp", "rollf", "agg", "agg"]))
        if kind == "agg" and not [r for r in sp["rs"] if r["k"] not in ("rollp", "rollf")]:
            kind = "total"
        r = {"k": kind, "agg": draw(anyfunc if kind in EXACT else smooth) if draw(st.integers(0, 4)) else None, "ignore": draw(st.booleans())}
        if kind in ("total", "mean", "totaldeficit", "frequency", "array flow", "fdc", "dev", "rollf"):
            r["node"] = draw(st.sampled_from(["dem", "out", "sup"] if kind in ("totaldeficit", "frequency") else ["dem", "out", "sup", "spill", "cat"]))
        if kind in ("total", "mean", "totalp", "meanp", "array flow"):
            r["factor"] = draw(st.sampled_from([None, 1.0, 2.0, -0.5]))
        if kind in ("totalp", "meanp", "rollp"):
            r["p"] = draw(st.integers(0, 1))
        if kind == "totalp":
            r["integrate"] = draw(st.sampled_from([None, False, True]))
        if kind == "count":
            r["i"], r["thr"] = draw(st.integers(0, 1)), draw(st.integers(0, 3))
        if kind == "array i":
            r["i"] = draw(st.integers(0, 1))
        if kind == "flag":
            r["thr"] = draw(st.integers(0, 60).map(lambda x: x + 0.1))
        if kind.startswith("array"):
            r["t"] = draw(anyfunc if kind in EXACT else smooth) if draw(st.integers(0, 3)) else None
        if kind in ("fdc", "sdc", "dev"):
            r["pc"] = draw(lists)
            r["t"] = draw(smooth) if draw(st.booleans()) else None
            r["old"] = draw(st.integers(0, 3)) == 0
        if kind == "sdc":
            r["prop"] = draw(st.booleans())
        if kind == "dev":
            S = sp["scen"]["scen"]
            r["scenario"] = draw(st.integers(0, len(S) - 1)) if S and draw(st.booleans()) else None
            m = S[r["scenario"]]["size"] if r["scenario"] is not None else c
            for side in draw(st.sampled_from([["lower"], ["upper"], ["lower", "upper"]])):
                w = draw(st.sampled_from([0, 1, m])) if r["scenario"] is None else m
                tq = st.sampled_from([0.0, 0.5, 1.0, 2.0, 3.0, 4.0, 1.25])
                r[side] = [draw(tq) for _ in r["pc"]] if w == 0 else [[draw(tq) for _ in range(w)] for _ in r["pc"]]
        if kind == "rollp":
            r["w"] = draw(st.integers(1, 6))
            r["t"] = draw(st.one_of(plain, pct, st.just("count_nonzero"))) if draw(st.booleans()) else None
            r["old"] = draw(st.integers(0, 3)) == 0
        if kind == "rollf":
            r["w"] = draw(st.integers(1, 6))
            s = sp["clock"]["step"]
            r["days"] = s["kind"] == "D" and s["form"] == "int" and draw(st.booleans())
            r["off"] = draw(st.integers(0, s["n"] - 1)) if r["days"] else 0
        if kind == "agg":
            ok = [j for j, x in enumerate(sp["rs"]) if x["k"] not in ("rollp", "rollf")]
            r["of"] = draw(st.lists(st.sampled_from(ok), min_size=1, max_size=3))
            f = anyfunc.filter(lambda x: x != "range") if all(sp["rs"][j]["k"] in EXACT for j in r["of"]) else smooth
            r["agg"] = draw(smooth) if draw(st.integers(0, 4)) else None
            r["r"] = draw(f) if draw(st.integers(0, 2)) else None
        # constraints
        r["lo"], r["hi"] = draw(st.sampled_from([None, None, 0.0, -1.0, 1.0, -0.25])), draw(st.sampled_from([None, None, 0.0, -1.0, 1.0, 0.25]))
        r["obj"] = draw(st.sampled_from([None, None, "maximise", "maximize", "max", "minimise", "minimize", "min"]))
        sp["rs"].append(r)
    return sp


RANGE = {"range": lambda x, axis=None: np.max(x, axis=axis) - np.min(x, axis=axis)}


def document(sp):
    doc = driven.document(sp)
    for t, s in sp["nan"]:
        tab = doc["parameters"]["p1"]["table"] = [list(r) for r in doc["parameters"]["p1"]["table"]]
        tab[t][s] = math.nan
    for k, r in enumerate(sp["rs"]):
        kind = r["k"]
        d = {"type": {"total": "totalflownode", "mean": "meanflownode", "totaldeficit": "totaldeficitnode", "frequency": "deficitfrequencynode",
                      "min": "minimumvolumestorage", "flag": "minimumthresholdvolumestorage", "totalp": "totalparameter", "meanp": "meanparameter",
                      "count": "timestepcountindexparameter", "array flow": "numpyarraynode", "array p": "numpyarrayparameter",
                      "array i": "numpyarrayindexparameter", "array vol": "numpyarraystorage", "fdc": "flowdurationcurve", "sdc": "storagedurationcurve",
                      "dev": "flowdurationcurvedeviation", "rollp": "rollingwindowparameter", "rollf": "rollingmeanflownode", "agg": "aggregated"}[kind]}
        if "node" in r:
            d["node"] = r["node"]
        if kind in ("min", "flag", "array vol", "sdc"):
            d["node"] = "store"
        if kind in ("totalp", "meanp", "rollp"):
            d["parameter"] = "p%d" % r["p"]
        if kind == "array p":
            d["parameter"] = "p1"
        if kind in ("count", "array i"):
            d["parameter"] = "i%d" % r["i"]
        for a, b in (("factor", "factor"), ("integrate", "integrate"), ("thr", "threshold"), ("pc", "percentiles"), ("prop", "proportional"),
                     ("lower", "lower_target_fdc"), ("upper", "upper_target_fdc")):
            if r.get(a) is not None:
                d[b] = r[a]
        if r["agg"] is not None and r["agg"] != "range":
            d["agg_func"] = r["agg"]
        if r.get("t") is not None and r["t"] != "range":
            key = "temporal_agg_func"
            if r.get("old"):
                key = {"fdc": "fdc_agg_func", "dev": "fdc_agg_func", "sdc": "sdc_agg_func", "rollp": "agg_func"}[kind]
            d[key] = r["t"]
        elif kind == "rollp":
            d.pop("agg_func", None)
        if r["ignore"]:
            d["ignore_nan"] = True
        if kind == "rollf":
            d.pop("agg_func", None), d.pop("ignore_nan", None)
            if r["days"]:
                d["days"] = r["w"] * sp["clock"]["step"]["n"] + r["off"]
            else:
                d["timesteps"] = r["w"]
        if kind == "rollp":
            d["window"] = r["w"]
        if kind == "dev" and r["scenario"] is not None:
            d["scenario"] = sp["scen"]["scen"][r["scenario"]]["name"]
        if kind == "agg":
            d["recorders"] = ["r%d" % j for j in r["of"]]
            if r["r"] is not None and r["r"] != "range":
                d["recorder_agg_func"] = r["r"]
        if kind != "rollf":
            lo, hi = r["lo"], r["hi"]
            if lo is not None and hi is not None and lo > hi:
                lo, hi = hi, lo
            if lo is not None:
                d["constraint_lower_bounds"] = lo
            if hi is not None:
                d["constraint_upper_bounds"] = hi
            if r["obj"] is not None:
                d["is_objective"] = r["obj"]
        doc["recorders"]["r%d" % k] = d
    return doc


def lower(f):
    return f.lower() if isinstance(f, str) else f


def expected(sp):
    """[(values, extra series or None)]"""
    h = driven.history(sp)
    for t, s in sp["nan"]:
        h["p"][1][t, s] = math.nan
    out = []
    n, c = driven.nsteps(sp), driven.ncomb(sp)
    days = h["days"][:, None]
    for r in sp["rs"]:
        k, t = r["k"], lower(r.get("t") or "mean")
        f = 1.0 if r.get("factor") is None else r["factor"]
        v, extra = None, None
        if k == "total":
            v = (h["flow"][r["node"]] * days * f).sum(axis=0)
        elif k == "mean":
            v = h["flow"][r["node"]].mean(axis=0) * f
        elif k == "totaldeficit":
            v = ((h["max"][r["node"]] - h["flow"][r["node"]]) * days).sum(axis=0)
        elif k == "frequency":
            v = (np.abs(h["max"][r["node"]] - h["flow"][r["node"]]) > 1e-6).mean(axis=0)
        elif k == "min":
            v = h["vol"].min(axis=0)
        elif k == "flag":
            v = (h["vol"].min(axis=0) <= r["thr"]).astype(float)
        elif k == "totalp":
            v = (h["p"][r["p"]] * f * (days if r["integrate"] else 1.0)).sum(axis=0)
        elif k == "meanp":
            v = h["p"][r["p"]].mean(axis=0) * f
        elif k == "count":
            v = (h["i"][r["i"]] >= r["thr"]).sum(axis=0).astype(float)
        elif k == "array flow":
            v = columns(t, h["flow"][r["node"]] * f, r["ignore"])
        elif k == "array p":
            v = columns(t, h["p"][1], r["ignore"])
        elif k == "array i":
            v = columns(t, h["i"][r["i"]], r["ignore"])
        elif k == "array vol":
            v = columns(t, h["vol"], r["ignore"])
        elif k in ("fdc", "sdc", "dev"):
            a = h["flow"][r["node"]] if k != "sdc" else h["pc"] if r["prop"] else h["vol"]
            extra = np.array([[percentile(a[:, j], x) for j in range(c)] for x in r["pc"]])
            if k == "dev":
                curve, dev = extra, np.zeros_like(extra)
                cs = scen.combos(sp["scen"]) if sp["scen"]["scen"] else [(0,)]
                for j in range(c):
                    for i in range(len(r["pc"])):
                        worst = [0.0]
                        for side in ("lower", "upper"):
                            if side in r:
                                row = r[side][i]
                                if isinstance(row, list):
                                    row = row[0] if len(row) == 1 else row[cs[j][r["scenario"]] if r["scenario"] is not None else j]
                                x = curve[i, j]
                                worst.append(math.nan if row == 0 else ((x - row) if side == "upper" else (row - x)) / row)
                        dev[i, j] = math.nan if any(math.isnan(x) for x in worst) else max(worst)
                extra = dev
            v = columns(t, extra, r["ignore"])
        elif k == "rollp":
            a = h["p"][r["p"]]
            extra = np.array([columns(t, a[max(0, i - r["w"] + 1): i + 1]) for i in range(n)])
        elif k == "rollf":
            a = h["flow"][r["node"]]
            extra = np.array([a[max(0, i - r["w"] + 1): i + 1].mean(axis=0) for i in range(n)])
        elif k == "agg":
            v = columns(lower(r["r"] or r["agg"] or "mean"), np.array([out[j][0] for j in r["of"]]))
        out.append((v, extra))
    return out


def judge(name, rec, r, v, ev):
    """the aggregate over scenarios and the constraint bounds"""
    want = statistic(lower(r["agg"] or "mean"), v, r["ignore"])
    got = rec.aggregated_value()
    req_close("%s: aggregated value" % name, got, want, 1e-7, 1e-6)
    lo, hi = r["lo"], r["hi"]
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    req_equal("%s: bounds" % name, (rec.constraint_lower_bounds, rec.constraint_upper_bounds), (lo, hi))
    want_flags = (lo is not None and lo == hi, lo is not None and hi is not None and lo != hi, lo is not None and hi is None, lo is None and hi is not None)
    req_equal("%s: (equality, double, lower, upper) bounded" % name,
              (rec.is_equality_constraint, rec.is_double_bounded_constraint, rec.is_lower_bounded_constraint, rec.is_upper_bounded_constraint), want_flags)
    req_equal("%s: is a constraint" % name, rec.is_constraint, lo is not None or hi is not None)
    req_equal("%s: objective" % name, rec.is_objective, None if r["obj"] is None else r["obj"][:3] + "imise")
    if lo is None and hi is None:
        raises(ValueError, rec.is_constraint_violated, "%s: judging a constraint without bounds" % name)
        return
    edges = [x for x in (lo, hi) if x is not None]
    if math.isnan(want):
        broken = True
    elif r["k"] in EXACT and r["agg"] in (None, "min", "max", "median", "count_nonzero") and r.get("t") in (None, "min", "max", "count_nonzero") and got == want:
        broken = not ((lo is None or want >= lo) and (hi is None or want <= hi))
    elif min(abs(want - x) for x in edges) < 1e-5:
        return
    else:
        broken = not ((lo is None or want >= lo) and (hi is None or want <= hi))
    ev.tag("constraint")
    req_equal("%s: constraint violated" % name, rec.is_constraint_violated(), broken)


def t_driven(sp, ev):
    model = driven.load(document(sp))
    want = expected(sp)
    for k, r in enumerate(sp["rs"]):
        rec = model.recorders["r%d" % k]
        if r["agg"] == "range" and r["k"] not in ("rollf", "rollp"):
            rec.agg_func = RANGE["range"]
        if r.get("t") == "range" and r["k"].startswith("array"):
            rec.temporal_agg_func = RANGE["range"]
    for run in range(2):
        model.run()
        for k, (r, (v, extra)) in enumerate(zip(sp["rs"], want)):
            name = "recorder r%d (%s, run %d)" % (k, r["k"], run + 1)
            rec = model.recorders["r%d" % k]
            if extra is not None:
                got = {"fdc": "fdc", "sdc": "sdc", "dev": "fdc_deviations"}.get(r["k"], "data")
                req_arrays(name + " series", getattr(rec, got), extra, atol=1e-6)
                if r["k"] in ("fdc", "sdc", "dev"):
                    if sp["scen"]["scen"]:
                        driven.check_frame(name, rec.to_dataframe(), sp, extra, atol=1e-6, index=r["pc"])
                ev.nt(len(np.unique(extra)) > 1)
            if v is None:
                continue
            req_arrays(name + " values", rec.values(), v, atol=1e-6)
            judge(name, rec, r, v, ev)
            ev.nt(len(np.unique(v)) > 1)
            ev.tag(r["k"])


TESTS = [Test("driven", specs(), t_driven, 700)]
