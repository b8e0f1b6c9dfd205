"""C24: calendar-based recorders attribute each day to the right period."""

import datetime as dt

import numpy as np
from hypothesis import strategies as st

from checks.c23 import columns, lower, percentile
from harness import cal, driven, pm
from harness.core import Test, req_arrays, req_equal

TECHNIQUE = "random driven models over runs of up to several years on random time-steps, calendar recorders compared with day-by-day accounting on Python dates"
RULE = ("daily, multi-day, monthly, quarterly and yearly steps from random dates (turns of the year, leap years), with annual counts, annual totals and seasonal "
        "duration curves; non-trivial: the run touches more than one year, or a season or window selects some but not all steps")
NOTE = "Every annual count, annual total and seasonal curve equals the accounting of the known history by calendar year, window, month or season, also after a re-run."
ASSUMPTIONS = ["weekly steps and quarters that cross the turn of the year are left out: pywr gives such a step the year of its last day (recorded under C08)"]


@st.composite
def clocks(draw):
    k = draw(st.sampled_from("DDDDDDMMQYL"))
    if k == "L":
        step, n = {"kind": "D", "n": 1, "form": draw(st.sampled_from(["int", "str"])), "anchor": None}, draw(st.integers(300, 800))
    elif k == "D":
        step = {"kind": "D", "n": draw(st.sampled_from([1, 1, 2, 3, 5, 7, 10, 30, 31, 60, 90, 182, 364, 365, 366])), "form": draw(st.sampled_from(["int", "str"])), "anchor": None}
        n = draw(st.integers(1, 30))
    else:
        step = {"kind": k, "n": draw(st.integers(1, 5)) if k == "M" else 1, "form": "str", "anchor": None}
        n = draw(st.integers(1, 30 if k == "M" else 8))
    y = draw(st.integers(1801, 2140))
    y = draw(st.sampled_from([y, y // 4 * 4, y // 100 * 100]))
    base = dt.datetime(y, 1, 1) + cal.DAY * draw(st.one_of(st.integers(0, 364), st.sampled_from([0, 1, 30, 57, 58, 59, 60, 360, 364, 365])))
    return {"step": step, "start": base.strftime("%Y-%m-%d"), "n": n}


@st.composite
def specs(draw):
    sp = draw(driven.specs(clock=clocks(), max_combos=6))
    daily, month = sp["clock"]["step"]["kind"] == "D", sp["clock"]["step"]["kind"] in "DM"
    months = st.lists(st.integers(1, 12), min_size=1, max_size=8, unique=True)
    sp["rs"] = []
    days = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    inrun = sorted({lab.month for _, _, lab in pm.steps(sp["clock"])})
    for k in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["count", "threshold", "threshold", "threshold", "total", "total", "season"]))
        r = {"k": kind, "t": None}
        if kind in ("threshold", "total", "season"):
            r["t"] = draw(st.sampled_from([None, None, "sum", "mean", "max", "min", "median"]))
        if kind == "count":
            r["i"], r["thr"] = draw(st.integers(0, 1)), draw(st.integers(0, 3))
        elif kind == "threshold":
            r["is"] = draw(st.lists(st.integers(0, 1), min_size=1, max_size=2, unique=True))
            r["thr"] = draw(st.integers(0, 3))
            r["not"] = draw(months) if month and draw(st.booleans()) else None
            if daily and draw(st.integers(0, 3)):
                a, b = sorted(draw(st.lists(st.integers(0, 364), min_size=2, max_size=2)))
                a, b = cal.parse("2001-01-01") + cal.DAY * a, cal.parse("2001-01-01") + cal.DAY * b
                which = draw(st.sampled_from(["from", "to", "both", "both", "both", "half"]))
                if which in ("from", "both", "half"):
                    r["from"] = [a.month, a.day]
                if which in ("to", "both"):
                    r["to"] = [b.month, b.day]
                if which == "half":
                    r["from"][draw(st.integers(0, 1))] = None
        elif kind == "total":
            r["nodes"] = draw(st.lists(st.sampled_from(["dem", "cat", "out", "spill"]), min_size=1, max_size=3, unique=True))
            r["f"] = [draw(draw(st.sampled_from([st.sampled_from([1.0, 2.0, -0.5, 0.25]), st.sampled_from([1, 2])]))) for _ in r["nodes"]] if draw(st.booleans()) else None
        else:
            if not month:
                r = {"k": "count", "t": None, "i": 0, "thr": 1}
            else:
                some = draw(st.sampled_from(inrun))
                r["months"] = sorted(set(draw(months)) | {some})
                r["pc"] = draw(st.lists(st.integers(0, 20).map(lambda x: 5 * x), min_size=1, max_size=4))
                r["node"] = draw(st.sampled_from(["dem", "out", "cat"]))
        sp["rs"].append(r)
    return sp


def document(sp):
    doc = driven.document(sp)
    for j, r in enumerate(sp["rs"]):
        k = r["k"]
        if k == "count":
            d = {"type": "annualcountindexparameter", "parameter": "i%d" % r["i"], "threshold": r["thr"]}
        elif k == "threshold":
            d = {"type": "annualcountindexthreshold", "parameters": ["i%d" % i for i in r["is"]], "threshold": r["thr"]}
            if r["not"] is not None:
                d["exclude_months"] = r["not"]
            for side in ("from", "to"):
                for key, x in zip(("month", "day"), r.get(side) or (None, None)):
                    if x is not None:
                        d["include_%s_%s" % (side, key)] = x
        elif k == "total":
            d = {"type": "annualtotalflow", "nodes": r["nodes"]}
            if r["f"] is not None:
                d["factors"] = r["f"]
        else:
            d = {"type": "seasonalflowdurationcurve", "node": r["node"], "percentiles": r["pc"], "months": r["months"]}
        if r["t"] is not None:
            d["temporal_agg_func"] = r["t"]
        doc["recorders"]["r%d" % j] = d
    return doc


def t_calendar(sp, ev):
    steps = pm.steps(sp["clock"])
    h = driven.history(sp)
    n, c = driven.nsteps(sp), driven.ncomb(sp)
    y0, y1 = cal.parse(sp["clock"]["start"]).year, steps[-1][0].year
    ny = y1 - y0 + 1
    want = []
    some = False
    for r in sp["rs"]:
        k = r["k"]
        data = np.zeros((ny, c))
        if k == "count":
            for y in range(ny):
                rows = [t for t in range(n) if steps[t][0].year == y0 + y]
                if rows:
                    data[y] = (h["i"][r["i"]][rows].max(axis=0) >= r["thr"])
            want.append((data.sum(axis=0), None))
        elif k == "threshold":
            lo = r.get("from") if r.get("from") and None not in r["from"] else [1, 1]
            hi = r.get("to") or [12, 31]
            sel = 0
            for t, (a, b, lab) in enumerate(steps):
                if r["not"] is not None and a.month in r["not"]:
                    continue
                if not (tuple(lo) <= (a.month, a.day) <= tuple(hi)):
                    continue
                sel += 1
                hit = np.zeros(c, dtype=bool)
                for i in r["is"]:
                    hit |= h["i"][i][t] >= r["thr"]
                data[a.year - y0] += hit
            some = some or 0 < sel < n
            want.append((columns(r["t"] or "sum", data), data))
        elif k == "total":
            f = r["f"] or [1.0] * len(r["nodes"])
            for t, (a, b, lab) in enumerate(steps):
                rate = sum(h["flow"][x][t] * y for x, y in zip(r["nodes"], f))
                for y in range(a.year, b.year + 1):
                    d = cal.day_span(a, b, dt.datetime(y, 1, 1), dt.datetime(y + 1, 1, 1))
                    if 0 <= y - y0 < ny:
                        data[y - y0] += rate * d
            want.append((columns(r["t"] or "sum", data), data))
        else:
            rows = [t for t in range(n) if steps[t][0].month in r["months"]]
            some = some or 0 < len(rows) < n
            a = h["flow"][r["node"]][rows]
            curve = np.array([[percentile(a[:, j], x) for j in range(c)] for x in r["pc"]])
            want.append((columns(lower(r["t"] or "mean"), curve), curve))
    model = driven.load(document(sp))
    for run in range(2):
        model.run()
        for j, (r, (v, data)) in enumerate(zip(sp["rs"], want)):
            rec, what = model.recorders["r%d" % j], "recorder r%d (%s, run %d)" % (j, r["k"], run + 1)
            if r["k"] == "season":
                req_arrays(what + " curve", rec.fdc, data, atol=1e-5)
            elif data is not None:
                req_arrays(what + " by year", rec.data, data, atol=1e-4)
                df = rec.to_dataframe()
                req_arrays(what + " table", df.values, data, atol=1e-4)
                req_equal(what + ": years of the table", [x.year for x in df.index], list(range(y0, y1 + 1)))
            req_arrays(what + " values", rec.values(), v, atol=1e-4)
        if n > 300:
            break
    ev.nt(ny > 1 or some)
    ev.tag("step %s" % sp["clock"]["step"]["kind"], *[r["k"] for r in sp["rs"]])
    if any(a.year != (b - cal.DAY).year for a, b, _ in steps):
        ev.tag("crosses a year")


TESTS = [Test("calendar", specs(), t_calendar, 500)]
