"""C09: profile parameters return the entry for the calendar position."""

import datetime as dt
import math

import numpy as np
from hypothesis import strategies as st

from harness import cal, nets, pm
from harness.core import Test, require, req_close

TECHNIQUE = "random profiles, calendars and scenarios, differential against formulas on datetime fields"
RULE = ("one to four profiles of random kinds (daily, weekly, monthly plain and interpolated, per-scenario, drawdown, harmonic, radial basis, "
        "weighted average) on random dates and steps; non-trivial: more than one distinct value")
NOTE = "Each profile equals the documented entry or formula for the date of every generated time-step and its scenario."
ASSUMPTIONS = ["For week, month and quarter periods the date is that of pandas.Period (last day of the first base unit), as Timestep documents.",
               "Radial basis interpolation itself is scipy.interpolate.Rbf, as documented.",
               "A drawdown profile that is reset before March counts the days of a leap year, as the repository's tests require."]

nums = st.integers(-400, 400).map(lambda x: x / 8.0)


def noisy(rng, *shape):
    """distinct values, so that any other entry is noticed"""
    return np.round(rng.permutation(int(np.prod(shape))).astype(float).reshape(shape) / 4 + 1, 4)


def make(rng, *shape):
    return np.random.RandomState(rng), noisy(np.random.RandomState(rng), *shape)


@st.composite
def profiles(draw):
    clock = draw(pm.clocks(maxn=draw(st.sampled_from([8, 40]))))
    if clock["step"]["kind"] == "D" and draw(st.integers(0, 5)) == 0:
        clock["n"] = 400 // clock["step"]["n"] + 1
    sizes = draw(st.lists(st.integers(1, 3), max_size=2))
    ps = []
    for k in range(draw(st.integers(1, 4))):
        kinds = ["daily", "weekly", "monthly", "interp", "drawdown", "harmonic", "rbf", "average"] + (["sdaily", "sweekly", "smonthly"] if sizes else [])
        kind = draw(st.sampled_from(kinds))
        p = {"kind": kind, "seed": draw(st.integers(0, 10 ** 6))}
        if kind[0] == "s":
            p["sc"] = draw(st.integers(0, len(sizes) - 1))
        if kind == "weekly":
            p["len"] = draw(st.sampled_from([52, 52, 53]))
        if kind == "interp":
            p["day"] = draw(st.sampled_from(["first", "last"]))
        if kind == "drawdown":
            p["month"] = draw(st.integers(1, 12))
            p["day"] = draw(st.integers(1, 28 if p["month"] == 2 else 30 if p["month"] in (4, 6, 9, 11) else 31))
            if draw(st.booleans()):
                p["month"], p["day"] = draw(st.sampled_from([(1, 1), (2, 1), (2, 27), (2, 28), (3, 1), (3, 2), (12, 31)]))
            p["residual"] = draw(st.sampled_from([0, 0, 10, 100, None]))
        if kind == "harmonic":
            m = draw(st.integers(1, 3))
            p["mean"] = draw(nums)
            p["amp"] = [draw(nums) + 0.5 ** 0.5 for _ in range(m)]
            p["phase"] = [draw(st.integers(0, 60)) / 10.0 + 0.01 for _ in range(m)]
            if draw(st.integers(0, 3)) == 0:
                p["amp"], p["phase"] = [draw(st.integers(-3, 3)) for _ in range(m)], [draw(st.integers(0, 6)) for _ in range(m)]
        if kind == "rbf":
            days = [1] + sorted(draw(st.lists(st.integers(10, 355), min_size=2, max_size=6, unique=True)))
            p["days"] = days
            p["values"] = [draw(nums) for _ in days]
            p["rbf"] = draw(st.sampled_from([None, {"function": "linear"}, {"function": "cubic"}, {"function": "gaussian", "epsilon": 60.0}]))
            p["lo"] = draw(st.sampled_from([None, -5.0]))
            p["hi"] = draw(st.sampled_from([None, 5.0]))
        if kind == "average":
            m = draw(st.integers(1, 3))
            p["vols"] = [float(draw(st.integers(1, 40))) for _ in range(m)]
            p["of"] = [draw(st.sampled_from(["daily", "monthly", "interp", "constant"])) for _ in range(m)]
        ps.append(p)
    return {"clock": clock, "sizes": sizes, "ps": ps}


def interp_daily(v, day):
    """value at a day of a 365 day year by linear interpolation between month starts (or ends), 28 Feb held on the 29th"""
    first = [sum([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][:m]) for m in range(13)]
    out = []
    for slot in range(366):
        i = slot - (1 if slot > 58 else 0)            # zero based day of a 365 day year
        if day == "first":
            m = max(k for k in range(12) if first[k] <= i)
            a, b = v[m], v[(m + 1) % 12]
            f = (i - first[m]) / (first[m + 1] - first[m])
        else:
            j = i + 1                                  # day number: month k ends on first[k + 1]
            m = min(k for k in range(12) if j <= first[k + 1])
            a, b = v[m - 1], v[m]
            f = (j - first[m]) / (first[m + 1] - first[m])
        out.append(a + (b - a) * f)
    return out


MONTH_SLOTS = [m for m in range(12) for _ in range([31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m])]


def drawdown(p, d):
    m, day, r = p["month"], p["day"], p["residual"] or 0

    def at(y):
        return dt.datetime(y, m, day)
    y = d.year if (d.month, d.day) >= (m, day) else d.year - 1
    if (m, day) > (2, 29):
        total = (at(y + 1) - at(y)).days
        into = (d - at(y)).days
    else:
        total = 366 if cal.leap(y) else 365
        into = (cal.profile_day(d) - cal.profile_day(dt.datetime(2016, m, day))) % 366
    return 1 + (r / total - 1) / total * into


def build(p, model_doc, name):
    """(parameter document, function of (date, combination))"""
    kind = p["kind"]
    if kind == "daily":
        v = make(p["seed"], 366)[1]
        return {"type": "dailyprofile", "values": v.tolist()}, lambda d, c: v[cal.profile_day(d)]
    if kind == "weekly":
        v = make(p["seed"], p["len"])[1]
        return {"type": "weeklyprofile", "values": v.tolist()}, lambda d, c: v[cal.week(d)]
    if kind == "monthly":
        v = make(p["seed"], 12)[1]
        return {"type": "monthlyprofile", "values": v.tolist()}, lambda d, c: v[d.month - 1]
    if kind == "interp":
        v = make(p["seed"], 12)[1]
        daily = interp_daily(v, p["day"])
        return {"type": "monthlyprofile", "values": v.tolist(), "interp_day": p["day"]}, lambda d, c: daily[cal.profile_day(d)]
    if kind == "drawdown":
        doc = {"type": "uniformdrawdownprofile", "reset_day": p["day"], "reset_month": p["month"]}
        if p["residual"] is not None:
            doc["residual_days"] = p["residual"]
        return doc, lambda d, c: drawdown(p, d)
    if kind == "harmonic":
        def f(d, c):
            t = d.timetuple().tm_yday - 1
            return p["mean"] + sum(a * math.cos(2 * math.pi * (n + 1) * t / 365.0 + ph) for n, (a, ph) in enumerate(zip(p["amp"], p["phase"])))
        return {"type": "annualharmonicseries", "mean": p["mean"], "amplitudes": p["amp"], "phases": p["phase"]}, f
    if kind == "rbf":
        from scipy.interpolate import Rbf
        x, y = p["days"], p["values"]
        r = Rbf([x[-1] - 365] + x + [366, 365 + x[1]], [y[-1]] + y + [y[0], y[1]], **(p["rbf"] or {}))
        doc = {"type": "rbfprofile", "days_of_year": list(x), "values": list(y)}
        if p["rbf"]:
            doc["rbf_kwargs"] = dict(p["rbf"])
        for k, kk in (("lo", "min_value"), ("hi", "max_value")):
            if p[k] is not None:
                doc[kk] = p[k]
        daily = r(np.arange(1, 366))

        def g(d, c):
            slot = cal.profile_day(d)
            v = float(daily[slot - (1 if slot > 58 else 0)])
            v = v if p["hi"] is None else min(v, p["hi"])
            return v if p["lo"] is None else max(v, p["lo"])
        return doc, g
    if kind == "average":
        st_, docs, tot = [], [], np.zeros(366)
        for i, (vol, of) in enumerate(zip(p["vols"], p["of"])):
            sname = "%s_s%d" % (name, i)
            model_doc["nodes"].append({"name": sname, "type": "Storage", "initial_volume": vol / 2, "inputs": 1, "outputs": 1})
            model_doc["nodes"][-1]["max_volume"] = vol if p["seed"] % 3 else {"type": "constant", "value": vol}
            model_doc["nodes"] += [{"name": sname + "i", "type": "Input", "max_flow": 1.0}, {"name": sname + "o", "type": "Output", "max_flow": 0.5}]
            model_doc["edges"] += [[sname + "i", sname], [sname, sname + "o"]]
            st_.append(sname)
            if of == "daily":
                v = make(p["seed"] + i, 366)[1]
                docs.append({"type": "dailyprofile", "values": v.tolist()})
            elif of == "monthly":
                w = make(p["seed"] + i, 12)[1]
                docs.append({"type": "monthlyprofile", "values": w.tolist()})
                v = np.array([w[m] for m in MONTH_SLOTS])
            elif of == "interp":
                w = make(p["seed"] + i, 12)[1]
                docs.append({"type": "monthlyprofile", "values": w.tolist(), "interp_day": "first"})
                v = np.array(interp_daily(w, "first"))
            else:
                docs.append({"type": "constant", "value": 1.5 + i})
                v = np.full(366, 1.5 + i)
            tot += v * vol
        daily = tot / sum(p["vols"])
        return {"type": "weightedaverageprofile", "storages": st_, "profiles": docs}, lambda d, c: daily[cal.profile_day(d)]
    n = {"sdaily": 366, "sweekly": 52, "smonthly": 12}[kind]
    v = make(p["seed"], p["size"], n)[1]
    doc = {"type": {"sdaily": "scenariodailyprofile", "sweekly": "scenarioweeklyprofile", "smonthly": "scenariomonthlyprofile"}[kind],
           "scenario": "S%d" % p["sc"], "values": v.tolist()}
    pos = {"sdaily": cal.profile_day, "sweekly": cal.week, "smonthly": lambda d: d.month - 1}[kind]
    return doc, lambda d, c: v[c[p["sc"]], pos(d)]


def t_profiles(spec, ev):
    doc = pm.document(spec["clock"], spec["sizes"])
    fs = {}
    for i, p in enumerate(spec["ps"]):
        p = dict(p)
        if "sc" in p:
            p["size"] = spec["sizes"][p["sc"]]
        doc["parameters"]["p%d" % i], fs["p%d" % i] = build(p, doc, "p%d" % i)
        ev.tag(p["kind"])
    model = nets.load(doc)
    got = pm.values(model, list(fs))
    steps = pm.steps(spec["clock"])
    cs = pm.combos(spec["sizes"])
    for k, f in fs.items():
        kind = spec["ps"][int(k[1:])]["kind"]
        require(got[k].shape == (len(steps), len(cs)), "%s: %r values for %d steps of %d scenarios" % (kind, got[k].shape, len(steps), len(cs)))
        for t, (a, _, d) in enumerate(steps):
            for s, c in enumerate(cs):
                req_close("%s on %s (step %d starts %s), scenario %r" % (kind, d.date(), t, a.date(), c), got[k][t, s], f(d, c), 1e-9, 1e-9)
        ev.nt(len(set(got[k].ravel().tolist())) > 1)


def t_sizes(spec, ev):
    """a profile with the wrong number of entries is refused"""
    kind, n = spec["kind"], spec["n"]
    clock = {"step": {"kind": "D", "n": 1, "form": "int", "anchor": None}, "start": "2015-01-01", "n": 1}
    full = {"daily": 366, "weekly": 52, "monthly": 12}[kind[1:] if kind[0] == "s" else kind]
    d = {"type": ("scenario" if kind[0] == "s" else "") + (kind[1:] if kind[0] == "s" else kind) + "profile"}
    size = 2
    rows = spec["rows"]
    if kind[0] == "s":
        d.update(scenario="S0", values=np.ones((rows, n)).tolist())
        ok = n == full and rows == size
    else:
        d["values"] = [1.0] * n
        ok = n == full or (kind == "weekly" and n == 53)
    ev.nt(not ok)
    ev.tag(kind, "accepted" if ok else "refused")
    doc = pm.document(clock, [size], {"p": d})

    def go():
        nets.load(doc).run()
    e = None
    try:
        go()
    except Exception as x:
        e = x
    require((e is None) == ok, "%s with %r entries%s: %s" % (kind, n, " in %d rows" % rows if kind[0] == "s" else "", "accepted" if e is None else repr(e)))


sizes = st.fixed_dictionaries({"kind": st.sampled_from(["daily", "weekly", "monthly", "sdaily", "sweekly", "smonthly"]),
                               "n": st.one_of(st.sampled_from([12, 52, 53, 365, 366, 367, 11, 13, 51]), st.integers(1, 400)), "rows": st.integers(1, 3)})

TESTS = [Test("profiles", profiles(), t_profiles, 1200, 3), Test("sizes", sizes, t_sizes, 200, 0.3)]
