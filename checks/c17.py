"""C17: periodic licences renew exactly at their renewal dates."""

import datetime as dt

import numpy as np
from hypothesis import strategies as st

from harness import nets, cal
from harness.core import Test, require, req_close

TECHNIQUE = "random licences, demands and calendars, run twice against a day-arithmetic reference of renewal, season and rolling window"
RULE = ("one to three licences (annual, seasonal, monthly, rolling) each on one or two prioritised demands, time-steps of 1 to 60 days or months, "
        "start dates around renewal dates, leap days and year ends; non-trivial: a renewal of a used licence, a change of season or a full rolling window")
NOTE = ("Every time-step's flow and volume equal the reference that renews on the first time-step on or after each renewal date, for both runs; "
        "any window of a rolling licence stays within its limit.")


def month_len(m):
    return 29 if m == 2 else 30 if m in (4, 6, 9, 11) else 31


@st.composite
def monthdays(draw):
    m = draw(st.integers(1, 12))
    d = draw(st.one_of(st.integers(1, month_len(m)), st.sampled_from([1, month_len(m), 28])))
    return [m, min(d, month_len(m))]


@st.composite
def licences(draw):
    monthly_step = draw(st.integers(0, 5)) == 0
    step = "M" if monthly_step else draw(st.sampled_from([1, 1, 2, 3, 5, 7, 10, 14, 30, 60]))
    n = draw(st.integers(2, 14 if step == 1 else 30))
    ns = draw(st.integers(1, 2))
    lics = []
    for k in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["annual", "annual", "seasonal", "seasonal", "monthly", "rolling"]))
        mx = float(draw(st.integers(1, 60)))
        l = {"kind": kind, "max": mx, "min": draw(st.sampled_from([0.0, 0.0, 0.0, 0.25])) * mx, "param": draw(st.integers(0, 4)) == 0}
        l["init"] = l["min"] + draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 1.0])) * (mx - l["min"])
        l["pc"] = draw(st.booleans())
        if kind in ("annual", "seasonal"):
            l["reset"] = [draw(st.integers(1, 12)), 1] if monthly_step else draw(monthdays())
            l["to_init"] = draw(st.integers(0, 2)) == 0
        if kind == "seasonal":
            l["end"] = [draw(st.integers(1, 12)), 1] if monthly_step else draw(monthdays())
            if l["end"] == l["reset"]:
                l["end"] = [l["reset"][0] % 12 + 1, 1]
        if kind == "monthly":
            l["months"] = draw(st.integers(1, 6))
            l["initial_months"] = draw(st.integers(0, l["months"] - 1))
            l["to_init"] = draw(st.integers(0, 2)) == 0
        if kind == "rolling":
            l["T"] = draw(st.integers(2, 8))
            l["by_days"] = step != "M" and draw(st.booleans())
            if l["init"] == 0:
                l["param"] = False
        if l["param"] and kind != "rolling" and ns > 1 and draw(st.booleans()):
            l["maxs"] = [mx + draw(st.integers(0, 20)) for _ in range(ns)]
        q = st.integers(0, 30).map(float) if step == 1 else st.integers(0, 60).map(lambda x: x / 16.0)
        l["demand"] = [draw(nets.varying(q, n, ns, ("t", "t", "ts", "c"))) for _ in range(draw(st.integers(1, 2)))]
        l["factors"] = draw(st.one_of(st.none(), st.lists(st.sampled_from([1.0, 2.0, 0.5]), min_size=len(l["demand"]), max_size=len(l["demand"]))))
        lics.append(l)
    # a start close to a renewal or season end of one of the licences, or to the turn of the year
    marks = [m for l in lics for m in (l.get("reset"), l.get("end")) if m] + [[1, 1], [3, 1]]
    m, d = draw(st.sampled_from(marks))
    y = draw(st.sampled_from([1999, 2000, 2003, 2004, 2015, 2016, 2099, 2100]))
    if m == 2 and d == 29 and not cal.leap(y):
        m, d = 3, 1
    back = draw(st.integers(0, 2 * (step if step != "M" else 30) + 3))
    start = dt.date(y, m, d) - dt.timedelta(days=back)
    if (start.month, start.day) == (3, 1) and not cal.leap(start.year):
        start -= dt.timedelta(days=1)        # whether a renewal on 29 February falls on this first day is a matter of definition
    if monthly_step:
        start = start.replace(day=1)
        for l in lics:
            # the first time-step is its last day to pywr: whether it is on a renewal date is a matter of definition
            if "reset" in l and l["reset"][0] == start.month:
                l["reset"][0] = start.month % 12 + 1
                if l.get("end") == l["reset"]:
                    l["end"] = [l["reset"][0] % 12 + 1, 1]
    return {"step": step, "n": n, "ns": ns, "lics": lics, "start": start.isoformat(),
            "solver": draw(st.sampled_from(["glpk", "glpk", "glpk-edge", "lpsolve"]))}


def steps_of(spec):
    """[(first day, date pywr gives the step, days)]"""
    d = dt.date.fromisoformat(spec["start"])
    out = []
    for _ in range(spec["n"]):
        if spec["step"] == "M":
            nxt = dt.date(d.year + d.month // 12, d.month % 12 + 1, 1)
            out.append((d, nxt - dt.timedelta(days=1), (nxt - d).days))
        else:
            nxt = d + dt.timedelta(days=spec["step"])
            out.append((d, d, spec["step"]))
        d = nxt
    return out


def on_or_after(y, m, d):
    """29 February is 1 March in other years"""
    try:
        return dt.date(y, m, d)
    except ValueError:
        return dt.date(y, m + 1, 1)


def renewals(l, steps):
    """time-steps at which the licence is renewed"""
    dates = [s[1] for s in steps]
    out = set()
    if l["kind"] in ("annual", "seasonal"):
        m, d = l["reset"]
        for y in range(dates[0].year - 1, dates[-1].year + 1):
            r = on_or_after(y, m, d)
            if r == dates[0]:
                out.add(0)
            for k in range(1, len(dates)):
                if dates[k - 1] < r <= dates[k]:
                    out.add(k)
    elif l["kind"] == "monthly":
        m = dates[0].year * 12 + dates[0].month - 1 + l["months"] - l["initial_months"]
        while m <= dates[-1].year * 12 + dates[-1].month - 1:
            r = dt.date(m // 12, m % 12 + 1, 1)
            out.add(min(k for k in range(len(dates)) if dates[k] >= r))
            m += l["months"]
    return out


def in_season(l, day):
    if l["kind"] != "seasonal":
        return True
    a, b, x = tuple(l["reset"]), tuple(l["end"]), (day.month, day.day)
    # walk the circle of the year from the start of the season: is its end met after the day?
    pos = [((v[0] - a[0]) * 31 + v[1] - a[1]) % 372 for v in (b, x)]
    return pos[1] < pos[0]


def document(spec):
    steps = steps_of(spec)
    doc = {"metadata": {"title": "x", "minimum_version": "0.1"}, "solver": {"name": spec["solver"]},
           "timestepper": {"start": spec["start"], "end": steps[-1][0].isoformat(), "timestep": spec["step"]},
           "nodes": [], "edges": [], "parameters": {}}
    if spec["ns"] > 1:
        doc["scenarios"] = [{"name": "s", "size": spec["ns"]}]
    for i, l in enumerate(spec["lics"]):
        outs = []
        for j, q in enumerate(l["demand"]):
            a, b = "in%d_%d" % (i, j), "out%d_%d" % (i, j)
            f = (l["factors"] or [1.0, 1.0])[j]
            doc["nodes"] += [{"name": a, "type": "Input"}, {"name": b, "type": "Output", "max_flow": nets.param_doc(q), "cost": -f * (10.0, 1.0)[j]}]
            doc["edges"].append([a, b])
            outs.append(b)
        d = {"name": "lic%d" % i, "type": {"annual": "AnnualVirtualStorage", "seasonal": "SeasonalVirtualStorage",
                                          "monthly": "MonthlyVirtualStorage", "rolling": "RollingVirtualStorage"}[l["kind"]],
             "nodes": outs, "min_volume": l["min"], "max_volume": l["max"]}
        if l["factors"]:
            d["factors"] = l["factors"]
        if l["param"]:
            d["max_volume"] = {"type": "constantscenario", "scenario": "s", "values": l["maxs"]} if "maxs" in l else {"type": "constant", "value": l["max"]}
            d["initial_volume"], d["initial_volume_pc"] = l["init"], l["init"] / l["max"]
        elif l["pc"]:
            d["initial_volume_pc"] = l["init"] / l["max"]
        else:
            d["initial_volume"] = l["init"]
        if "reset" in l:
            d["reset_month"], d["reset_day"] = l["reset"]
        if "end" in l:
            d["end_month"], d["end_day"] = l["end"]
        if l.get("to_init"):
            d["reset_to_initial_volume"] = True
        if "months" in l:
            d["months"], d["initial_months"] = l["months"], l["initial_months"]
        if "T" in l:
            if l["by_days"]:
                d["days"] = l["T"] * spec["step"]
            else:
                d["timesteps"] = l["T"]
        doc["nodes"].append(d)
    return doc


def t_licences(spec, ev):
    model = nets.load(document(spec))
    model.setup()
    steps = steps_of(spec)
    ns = spec["ns"]
    for run in range(2):
        if run:
            model.reset()
        given = [True] * len(spec["lics"])       # whether the share is still the one of the document, which is the same in all scenarios
        vol = [np.full(ns, l["init"]) for l in spec["lics"]]
        used = [[] for _ in spec["lics"]]
        for t, (_, day, days) in enumerate(steps):
            model.step()
            for i, l in enumerate(spec["lics"]):
                what = "run %d step %d (%s, %d days) licence %d (%s): " % (run, t, day, days, i, l["kind"])
                node = model.nodes["lic%d" % i]
                renew, on = t in renewals(l, steps), in_season(l, day)
                ev.tag(l["kind"], "on" if on else "off")
                if not on:
                    ev.nt()
                if renew:
                    ev.tag("renewal")
                    ev.nt(abs(vol[i][0] - l["max"]) > 1e-6)
                    if len(set(l.get("maxs", [0]))) > 1:
                        ev.tag("renewed to maxima of scenarios")
                if renew:
                    given[i] = l["to_init"] or (t == 0 and l["param"])
                given[i] = given[i] and not on
                u = np.zeros(ns)
                for s in range(ns):
                    v = vol[i][s]
                    mx = l["maxs"][s] if "maxs" in l else l["max"]
                    if renew:
                        v = l["init"] if l["to_init"] or (t == 0 and l["param"]) else mx
                    left = max(v - l["min"], 0.0) / days
                    if mx == l["min"]:
                        left = 0.0
                    for j, q in enumerate(l["demand"]):
                        f = (l["factors"] or [1.0, 1.0])[j]
                        want = nets.val(q, t, s)
                        if on:
                            want = min(want, left / f)
                            left = max(left - f * want, 0.0)
                        req_close(what + "use by demand %d, scenario %d" % (j, s), model.nodes["out%d_%d" % (i, j)].flow[s], want, 0, 2e-6)
                        u[s] += f * want
                    if on:
                        v -= u[s] * days
                    else:
                        u[s] = 0.0
                    if l["kind"] == "rolling":
                        back = used[i][t - (l["T"] - 1)][s] if t >= l["T"] - 1 else (l["max"] - l["init"]) / (l["T"] - 1)
                        v += back
                        ev.nt(t >= l["T"] - 1 and back > 1e-6)
                    req_close(what + "volume in scenario %d" % s, node.volume[s], v, 0, 1e-5)
                    req_close(what + "flow of the licence in scenario %d" % s, node.flow[s], -u[s], 0, 2e-6)
                    if not given[i] or "maxs" not in l:
                        req_close(what + "share left in scenario %d" % s, node.current_pc[s], node.volume[s] / mx, 1e-9, 1e-9)
                    vol[i][s] = float(node.volume[s])
                used[i].append(u * days)
                if l["kind"] == "rolling" and t + 1 >= l["T"]:
                    w = sum(used[i][-l["T"]:])
                    require((w <= l["max"] - l["min"] + 1e-4).all(), what + "%r used within the window" % (w,))


TESTS = [Test("licences", licences(), t_licences, 1500, 1)]
