"""C14: time-series inputs are aligned to model time-steps."""

import datetime as dt
import math
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from harness import cal, nets, pm
from harness.core import Test, Violation, require, raises, req_close, req_equal

TECHNIQUE = "random tables (span, frequency, gaps) against random model calendars, differential against day arithmetic on the intervals the entries stand for; must-raise and must-succeed oracles"
RULE = ("data of hourly to annual frequency starting before, at or after the model and ending anywhere, against day, week, month, quarter and year "
        "steps; tables inline, by reference or as CSV, Excel and HDF files, array inputs with offsets; non-trivial: data and model differ in "
        "frequency or span, or an offset is used, or the case must be refused")
NOTE = "Every generated table is either refused (required for uncovered periods) or read as exactly the entries of each time-step."

DAY = dt.timedelta(days=1)


@st.composite
def data_freqs(draw):
    k = draw(st.sampled_from(["D", "D", "D", "nD", "h", "W", "M", "ME", "Y"]))
    if k == "nD":
        return {"k": k, "n": draw(st.sampled_from([2, 3, 5, 6, 7, 10, 14]))}
    if k == "h":
        return {"k": k, "n": draw(st.sampled_from([1, 6, 12]))}
    if k == "W":
        return {"k": k, "a": draw(st.sampled_from(cal.WEEKDAYS))}
    return {"k": k}


@st.composite
def model_freqs(draw):
    k = draw(st.sampled_from(["D", "D", "nD", "nD", "W", "M", "Q", "Y"]))
    if k == "nD":
        return {"k": "D", "n": draw(st.sampled_from([2, 3, 5, 6, 7, 10, 14]))}
    if k == "W":
        return {"k": k, "n": 1, "a": draw(st.sampled_from(cal.WEEKDAYS))}
    return {"k": k, "n": 1}


def data_periods(f, start, n):
    """[(timestamp, interval start, interval end)] of n entries from the first entry on or after start"""
    k, out = f["k"], []
    if k in ("D", "nD", "h"):
        w = DAY * f.get("n", 1) if k != "h" else dt.timedelta(hours=f["n"])
        for i in range(n):
            out.append((start + w * i, start + w * i, start + w * (i + 1)))
    elif k == "W":
        d = start
        while d.weekday() != cal.WEEKDAYS.index(f["a"]):
            d += DAY
        for i in range(n):
            e = d + DAY * 7 * i
            out.append((e, e - DAY * 6, e + DAY))
    else:
        months = 12 if k == "Y" else 1
        d = dt.datetime(start.year, start.month, 1)
        if k == "Y":
            d = dt.datetime(start.year, 1, 1)
        if d < start and k != "ME":
            d = cal.add_months(d, months)
        for i in range(n):
            a, b = cal.add_months(d, months * i), cal.add_months(d, months * (i + 1))
            out.append((b - DAY if k == "ME" else a, a, b))
    return out


def length(f):
    return {"D": 1, "nD": f.get("n", 1), "h": f.get("n", 1) / 24.0, "W": 7, "M": 30, "ME": 30, "Y": 365, "Q": 91}[f["k"]] * (f["n"] if f["k"] == "D" and "n" in f else 1)


@st.composite
def specs(draw, calls=("int",), nans=True):
    df, mf = draw(data_freqs()), draw(model_freqs())
    start = cal.parse(draw(cal.dates(1850, 2100)))
    n = draw(st.integers(1, 10 if mf["k"] != "Y" else 3))
    step = cal.Step(mf["k"], mf["n"], mf.get("a"))
    periods = step.periods(start, start, extra=n - 1)
    # data: a number of its own periods (or any days) before the model starts, to some point around the end
    lead = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5]))
    w = length(df)
    back = lead * w if draw(st.booleans()) else lead
    d0 = (periods[0][0] if draw(st.integers(0, 3)) else start) - dt.timedelta(hours=round(back * 24))
    if df["k"] in ("M", "ME", "Y") or df["k"] == "W":
        d0 = dt.datetime(d0.year, d0.month, d0.day)
        if draw(st.integers(0, 4)):
            d0 = dt.datetime(d0.year, d0.month, 1) if df["k"] != "Y" else dt.datetime(d0.year, 1, 1)
            if df["k"] == "W":
                d0 = periods[0][0]
    if draw(st.integers(0, 5)) == 0:
        d0 = d0 + DAY * draw(st.integers(1, 4))
    span = (periods[-1][1] - d0).total_seconds() / 86400.0
    m = max(1, math.ceil(span / w) + draw(st.sampled_from([0, 0, 1, 2, 5, -1, -2])))
    if df["k"] in ("M", "ME", "Y", "W"):
        m += 2
    m = min(m, 1500)
    if m < 3:
        m = 3
    return {"df": df, "mf": mf, "start": start.strftime("%Y-%m-%d"), "n": n, "d0": d0.isoformat(), "m": m,
            "nan": draw(st.integers(0, m - 1)) if nans and draw(st.integers(0, 7)) == 0 else None, "seed": draw(st.integers(0, 9)),
            "cols": draw(st.sampled_from([0, 1, 2])), "how": draw(st.sampled_from(["mean", "mean", "sum", "max"])), "period": draw(st.booleans())}


def values_of(sp):
    v = [float((i * 7 + sp["seed"] * 3) % 23) + i / 8.0 for i in range(sp["m"])]
    if sp.get("nan") is not None:
        v[sp["nan"]] = math.nan
    return v


def reference(sp):
    """(values per model period or None, status) with status 'ok', 'raise' or 'either'"""
    df, mf = sp["df"], sp["mf"]
    step = cal.Step(mf["k"], mf["n"], mf.get("a"))
    start = cal.parse(sp["start"])
    model = step.periods(start, start, extra=sp["n"] - 1)
    data = data_periods(df, cal.parse(sp["d0"]), sp["m"])
    v = values_of(sp)
    tick = df["k"] in ("D", "nD", "h")
    agg = {"mean": lambda x: sum(x) / len(x), "sum": sum, "max": max}[sp["how"]]
    status = "ok"
    out = []
    if mf["k"] == "D":
        fine = tick and length(df) <= mf["n"]
        if fine:
            mult = round(mf["n"] * 24) % round(length(df) * 24) == 0
            aligned = (model[0][0] - data[0][1]).total_seconds() % (length(df) * 86400) == 0
            if not mult or not aligned:
                return None, "either"
            for a, b in model:
                x = [v[i] for i, d in enumerate(data) if a <= d[1] < b]
                good = [y for y in x if not math.isnan(y)]
                full = round((b - a).total_seconds() / 86400 / length(df))
                if not good:
                    return None, ("raise" if sp["how"] != "sum" else "either")
                if len(good) < full:
                    status = "either"
                out.append(agg(good))
        else:
            # every day takes the entry whose interval it is in
            if tick and (model[0][0] - data[0][1]).total_seconds() % (mf["n"] * 86400) != 0:
                status = "either"
            for a, b in model:
                days = [a] if tick else [a + DAY * i for i in range(mf["n"])]
                x = []
                for d in days:
                    j = next((i for i, p in enumerate(data) if p[1] <= d < p[2]), None)
                    x.append(math.nan if j is None else v[j])
                good = [y for y in x if not math.isnan(y)]
                if not good:
                    return None, "raise"
                if len(good) < len(x):
                    if mf["n"] == 1 or math.isnan(x[0]):
                        return None, "raise" if sp.get("nan") is None else "either"
                    status = "either"
                out.append(agg(good))
            if sp.get("nan") is not None and any(math.isnan(v[i]) for i, p in enumerate(data) if p[2] > model[0][0] and p[1] < model[-1][1]):
                return None, "either"           # filled forward from the entry before, or refused
    else:
        if not tick:
            nested = {"M": ("M", "ME"), "Q": ("M", "ME"), "Y": ("M", "ME", "Y"), "W": ("W",)}[mf["k"]]
            if df["k"] not in nested or (mf["k"] == "W" and mf["a"] != df["a"]):
                return None, "either"
        elif df["k"] == "nD":
            return None, "either"
        for a, b in model:
            inside = [i for i, d in enumerate(data) if a <= d[1] < b]
            good = [v[i] for i in inside if not math.isnan(v[i])]
            if not good:
                return None, ("raise" if sp["how"] != "sum" else "either")
            if len(good) < len(inside) or data[inside[0]][1] != a or data[inside[-1]][2] < b:
                status = "either"
            out.append(agg(good))
    return out, status


def frame(sp):
    import pandas as pd
    data = data_periods(sp["df"], cal.parse(sp["d0"]), sp["m"])
    v = values_of(sp)
    k = sp["df"]["k"]
    freq = {"D": "D", "nD": "%dD" % sp["df"].get("n", 1), "h": "%dh" % sp["df"].get("n", 1), "W": "W-%s" % sp["df"].get("a"), "M": "MS", "ME": "ME", "Y": "YS"}[k]
    idx = pd.date_range(data[0][0], periods=sp["m"], freq=freq)
    assert [x.to_pydatetime() for x in idx] == [d[0] for d in data], (idx, data)
    if sp["cols"] == 0:
        return pd.Series(v, index=idx)
    return pd.DataFrame({"c%d" % j: [x + 100.0 * j for x in v] for j in range(sp["cols"])}, index=idx)


def judge(sp, fn, what, ev):
    """fn() -> list of values per column"""
    want, status = reference(sp)
    try:
        got = fn()
    except (Exception,) as e:
        if type(e).__name__ not in ("ResamplingError", "ValueError", "IndexError", "KeyError", "IncompatibleFrequency"):
            if status == "ok":
                raise Violation("%s: %s: %s" % (what, type(e).__name__, e))
        require(status != "ok", "%s: the data covers the model, but %s: %s", what, type(e).__name__, str(e)[:200])
        ev.tag("refused (%s)" % status)
        return None
    require(status != "raise", "%s: not all time-steps have data, but the result is %r", what, got)
    if want is None:
        ev.tag("undecided")
        return None
    ev.tag("aligned")
    return want, got


def label(sp):
    return "%s data from %s (%d entries) for %s x %d steps from %s" % (sp["df"], sp["d0"], sp["m"], sp["mf"], sp["n"], sp["start"])


def t_align(sp, ev):
    import pandas as pd
    from pywr.dataframe_tools import align_and_resample_dataframe
    step = cal.Step(sp["mf"]["k"], sp["mf"]["n"], sp["mf"].get("a"))
    start = cal.parse(sp["start"])
    model = step.periods(start, start, extra=sp["n"] - 1)
    target = pd.period_range(start, model[-1][0] if len(model) > 1 else start, freq=step.freq)
    assert len(target) == len(model)
    df = frame(sp)
    if sp["period"] and sp["df"]["k"] != "nD" and not (sp["df"]["k"] == "h" and sp["df"].get("n") != 1):
        df = df.to_period()
    before = df.copy()
    r = judge(sp, lambda: align_and_resample_dataframe(df, target, resample_func=sp["how"]), label(sp), ev)
    require(df.equals(before), label(sp) + ": the data given was changed")
    ev.tag("%s->%s" % (sp["df"]["k"], sp["mf"]["k"]))
    ev.nt(sp["df"]["k"] != sp["mf"]["k"] or sp["d0"][:10] != sp["start"] or sp["mf"]["n"] > 1)
    if r is None:
        return
    want, got = r
    require(got.index.equals(target), label(sp) + ": index %r" % (got.index,))
    cols = [got] if got.ndim == 1 else [got[c] for c in got.columns]
    for j, c in enumerate(cols):
        for t, x in enumerate(want):
            add = 0.0
            if j:
                add = None
            if add is None:
                # columns are shifted copies: only mean and max keep the shift
                if sp["how"] == "sum":
                    continue
                add = 100.0 * j
            req_close("%s: column %d step %d" % (label(sp), j, t), float(c.iloc[t]), x + add)


# -- the same through documents and files ------------------------------------------------------------------------------

@st.composite
def model_specs(draw):
    sp = draw(specs(nans=False))
    sp["how"] = "mean"
    sp["cols"] = draw(st.sampled_from([1, 2, 3]))
    if sp["df"].get("k") == "nD" and sp["df"]["n"] % 7 == 0:
        # pandas infers weekly frequencies (entries stamped with the last day) for files of this spacing
        sp["df"] = {"k": "nD", "n": 5}
    sp["via"] = draw(st.sampled_from(["inline", "table", "csv", "csv", "hdf", "excel", "table csv"]))
    sp["offset"] = draw(st.sampled_from([None, None, 1, -1, 2, -3, 20]))
    sp["scenario"] = draw(st.booleans())
    sp["col"] = draw(st.integers(0, sp["cols"] - 1))
    sp["dayfirst"] = draw(st.booleans())
    return sp


def write(sp, df, folder):
    """the part of the document that refers to the data"""
    via = sp["via"].split()[-1]
    if via in ("inline", "table"):
        out = {"data": {c: {str(i): float(x) for i, x in df[c].items()} for c in df.columns}, "parse_dates": True}
    else:
        df = df.copy()
        df.index.name = "Date"
        name = os.path.join(folder, "data." + {"csv": "csv", "hdf": "h5", "excel": "xlsx"}[via])
        out = {"url": os.path.basename(name)}
        if via == "csv":
            fmt = ("%d/%m/%Y" if sp["dayfirst"] else "%Y-%m-%d") + (" %H:%M" if sp["df"]["k"] == "h" else "")
            df.to_csv(name, date_format=fmt)
            out.update(parse_dates=True, index_col=0)
            if sp["dayfirst"]:
                out["dayfirst"] = True
        elif via == "hdf":
            df.to_hdf(name, key="d")
            out["key"] = "d"
        else:
            df.to_excel(name)
            out.update(parse_dates=True, index_col=0)
    return out


def t_model(sp, ev):
    start = cal.parse(sp["start"])
    if start.year < 1905 and sp["via"] == "excel" or start.year < 1700:
        ev.tag("skipped")
        return
    folder = tempfile.mkdtemp(prefix="verif-c14-")
    try:
        df = frame(sp)
        step = cal.Step(sp["mf"]["k"], sp["mf"]["n"], sp["mf"].get("a"))
        model_periods = step.periods(start, start, extra=sp["n"] - 1)
        scen = sp["scenario"] and sp["cols"] > 1
        doc = pm.document({"step": {"kind": "D", "n": 1, "form": "int", "anchor": None}, "start": sp["start"], "n": 1}, [sp["cols"]] if scen else [])
        doc["timestepper"] = {"start": sp["start"], "end": (model_periods[-1][0] if sp["n"] > 1 else start).strftime("%Y-%m-%d"),
                              "timestep": sp["mf"]["n"] if sp["mf"]["k"] == "D" else step.freq}
        ref = write(sp, df, folder)
        p = {"type": "dataframe"}
        if sp["via"].startswith("table"):
            doc["tables"] = {"t": ref}
            p["table"] = "t"
        else:
            p.update(ref)
        if scen:
            p["scenario"] = "S0"
        else:
            p["column"] = "c%d" % sp["col"]
        if sp["offset"] is not None:
            p["timestep_offset"] = sp["offset"]
        doc["parameters"]["p"] = p
        from pywr.model import Model
        import copy
        # infer_freq needs three entries; fewer are refused with a message
        what = "%s via %s" % (label(sp), sp["via"])

        def run():
            m = Model.load(copy.deepcopy(doc), path=folder)
            return pm.values(m, ["p"])["p"]
        r = judge(sp, run, what, ev)
        ev.tag(sp["via"], "offset" if sp["offset"] else "no offset", "scenario" if scen else "column")
        ev.nt(sp["df"]["k"] != sp["mf"]["k"] or sp["d0"][:10] != sp["start"] or sp["mf"]["n"] > 1 or bool(sp["offset"]))
        if r is None:
            return
        want, got = r
        req_equal(what + ": shape", got.shape, (sp["n"], sp["cols"] if scen else 1))
        for t in range(sp["n"]):
            for j in range(got.shape[1]):
                k = min(max(t + (sp["offset"] or 0), 0), sp["n"] - 1)
                req_close("%s: offset %r step %d column %d" % (what, sp["offset"], t, j), got[t, j], want[k] + 100.0 * (j if scen else sp["col"]))
    finally:
        shutil.rmtree(folder)


# -- arrays and tables ---------------------------------------------------------------------------------------------------

@st.composite
def array_specs(draw):
    n = draw(st.integers(1, 8))
    size = draw(st.integers(1, 4))
    return {"n": n, "rows": max(1, n + draw(st.sampled_from([0, 0, 0, 1, 4, -1]))), "size": size, "cols": max(1, size + draw(st.sampled_from([0, 0, 0, 1, -1]))),
            "offset": draw(st.sampled_from([None, None, 1, -1, 3, -2])), "scenario": draw(st.booleans()), "before": draw(st.integers(0, 2)),
            "kind": draw(st.sampled_from(["tables f8", "tables f8", "tables i4", "array", "array scenario", "monthly factors"])), "where": draw(st.booleans()),
            "start": draw(cal.dates(1900, 2050)), "step": draw(st.sampled_from([1, 1, 7, "M"])), "seed": draw(st.integers(0, 99))}


def t_arrays(sp, ev):
    import tables
    import warnings
    from pywr.model import Model
    nets.register()
    folder = tempfile.mkdtemp(prefix="verif-c14-")
    try:
        n, size = sp["n"], sp["size"]
        rng = np.random.RandomState(sp["seed"])
        data = rng.randint(0, 50, size=(sp["rows"], sp["cols"])).astype(float)
        kind = sp["kind"]
        if kind == "tables f8":
            data = data + 0.25
        step = cal.Step("M" if sp["step"] == "M" else "D", 1 if sp["step"] == "M" else sp["step"])
        start = cal.parse(sp["start"])
        periods = step.periods(start, start, extra=n - 1)
        sizes = [2] * min(sp["before"], 1) + [size]
        doc = pm.document({"step": {"kind": "D", "n": 1, "form": "int", "anchor": None}, "start": sp["start"], "n": 1}, sizes)
        doc["timestepper"] = {"start": sp["start"], "end": (periods[-1][0] if n > 1 else start).strftime("%Y-%m-%d"), "timestep": sp["step"]}
        mine = len(sizes) - 1
        combos = pm.combos(sizes)
        scen = "S%d" % mine
        refuse, want = False, np.zeros((n, len(combos)))
        off = 0
        if kind.startswith("tables"):
            off = sp["offset"] or 0
            path = os.path.join(folder, "a.h5")
            with tables.open_file(path, "w") as h5:
                where = "/" if not sp["where"] else h5.create_group("/", "grp")
                h5.create_carray(where, "x", obj=data.astype(np.int32 if "i4" in kind else np.float64))
            p = {"type": "tablesarray", "url": "a.h5", "node": "x"}
            if sp["where"]:
                p["where"] = "/grp"
            if sp["scenario"]:
                p["scenario"] = scen
                refuse = sp["cols"] < size
            if sp["offset"] is not None:
                p["timestep_offset"] = sp["offset"]
            refuse = refuse or sp["rows"] < n
        elif kind == "array":
            p = {"type": "arrayindexed", "values": data[:, 0].tolist()}
            refuse = sp["rows"] < n
        elif kind == "array scenario":
            p = {"type": "arrayindexedscenario", "scenario": scen, "values": data.tolist()}
            refuse = sp["cols"] != size or sp["rows"] < n
        else:
            fac = rng.randint(1, 9, size=(sp["cols"], 12)) / 4.0
            p = {"type": "arrayindexedscenariomonthlyfactors", "scenario": scen, "values": data[:, 0].tolist(), "factors": fac.tolist()}
            refuse = sp["cols"] != size or sp["rows"] < n
        doc["parameters"]["p"] = p
        what = "%s %s rows for %d steps, %d columns for a scenario of %d, offset %r" % (kind, sp["rows"], n, sp["cols"], size, sp["offset"])
        ev.tag(kind, "refused" if refuse else "accepted")
        ev.nt()

        def run():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return pm.values(Model.load(doc, path=folder), ["p"])["p"]
        if refuse:
            raises((ValueError, IndexError, TypeError), run, what)
            return
        got = run()
        for t in range(n):
            for c, ix in enumerate(combos):
                k = min(max(t + off, 0), sp["rows"] - 1)
                if kind.startswith("tables"):
                    w = data[k, ix[mine] if sp["scenario"] else 0]
                elif kind == "array":
                    w = data[t, 0]
                elif kind == "array scenario":
                    w = data[t, ix[mine]]
                else:
                    w = data[t, 0] * fac[ix[mine], periods[t][0].month - 1]
                want[t, c] = w
                req_close("%s: step %d combination %r" % (what, t, ix), got[t, c], w)
    finally:
        shutil.rmtree(folder)


# -- constants and profiles taken from tables ---------------------------------------------------------------------------------

@st.composite
def lookup_specs(draw):
    r, c = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    return {"rows": r, "cols": c, "multi": draw(st.booleans()), "mcol": draw(st.integers(0, 3)) == 0,
            "via": draw(st.sampled_from(["csv", "table csv", "hdf", "excel", "table"])),
            "row": draw(st.integers(0, r - 1)), "col": draw(st.integers(0, c - 1)), "bad": draw(st.sampled_from([None, None, None, None, "row", "col"])),
            "what": draw(st.sampled_from(["constant", "max_flow", "monthly", "volume"])), "seed": draw(st.integers(0, 99))}


def t_lookup(sp, ev):
    import pandas as pd
    import copy
    from pywr.model import Model
    folder = tempfile.mkdtemp(prefix="verif-c14-")
    try:
        rng = np.random.RandomState(sp["seed"])
        monthly = sp["what"] == "monthly"
        cols = 12 if monthly else sp["cols"]
        data = rng.randint(1, 200, size=(sp["rows"], cols)) / 4.0
        multi = sp["multi"] and sp["via"] not in ("table", "inline")
        names = ["r%d" % i for i in range(sp["rows"])]
        if multi:
            index = pd.MultiIndex.from_tuples([(x, "s%d" % (i % 2)) for i, x in enumerate(names)], names=["a", "b"])
        else:
            index = pd.Index(names, name="a")
        df = pd.DataFrame(data, index=index, columns=["c%d" % i for i in range(cols)])
        via = sp["via"].split()[-1]
        mcol = sp["mcol"] and via in ("csv", "hdf") and not monthly
        if mcol:
            # two rows of headings
            df.columns = pd.MultiIndex.from_tuples([("c%d" % i, "u%d" % (i % 2)) for i in range(cols)])
        if via in ("table", "inline"):
            ref = {"data": {c: {i: float(x) for i, x in df[c].items()} for c in df.columns}}
        else:
            name = os.path.join(folder, "d." + {"csv": "csv", "hdf": "h5", "excel": "xlsx"}[via])
            ref = {"url": os.path.basename(name)}
            if via == "csv":
                df.to_csv(name)
            elif via == "hdf":
                df.to_hdf(name, key="k")
                ref["key"] = "k"
            else:
                df.to_excel(name)
            if via != "hdf":
                ref["index_col"] = (["a", "b"] if multi and via == "csv" and not mcol else [0, 1] if multi
                                    else "a" if via == "csv" and not mcol else 0)
            if via == "csv" and mcol:
                ref["header"] = [0, 1]
        sel = dict(ref)
        doc = pm.document({"step": {"kind": "M", "n": 1, "form": "str", "anchor": None}, "start": "2015-01-01", "n": 12})
        if sp["via"].startswith("table"):
            doc["tables"] = {"t": ref}
            sel = {"table": "t"}
        i = sp["row"]
        sel["index"] = [names[i], "s%d" % (i % 2)] if multi else names[i]
        if not monthly:
            sel["column"] = ["c%d" % sp["col"], "u%d" % (sp["col"] % 2)] if mcol else "c%d" % sp["col"]
        if sp["bad"] == "row":
            sel["index"] = ["zzz", "s0"] if multi else "zzz"
        elif sp["bad"] == "col" and not monthly:
            sel["column"] = ["zzz", "u0"] if mcol else "zzz"
        bad = sp["bad"] == "row" or (sp["bad"] == "col" and not monthly)
        if sp["what"] in ("constant", "monthly"):
            doc["parameters"]["p"] = dict(sel, type="constant" if sp["what"] == "constant" else "monthlyprofile")
        elif sp["what"] == "max_flow":
            doc["nodes"][1]["max_flow"] = sel
            doc["nodes"][0]["max_flow"] = 1000.0
        else:
            doc["nodes"].append({"name": "st", "type": "Storage", "max_volume": sel, "initial_volume": dict(sel, **({"table": "t"} if "table" in sel else {}))})
            doc["nodes"].append({"name": "si", "type": "Input", "max_flow": 0.0})
            doc["edges"] += [["si", "st"], ["st", "out"]]
        what = "%s of %r in a table of %d x %d via %s" % (sp["what"], sel, sp["rows"], cols, sp["via"])
        ev.tag(sp["what"], sp["via"], "multi" if multi else "single", "columns of two levels" if mcol else "plain columns", "bad" if bad else "good")
        ev.nt()

        def load():
            m = Model.load(copy.deepcopy(doc), path=folder)
            m.setup()
            return m
        if bad:
            raises(KeyError, load, what)
            return
        m = load()
        if sp["what"] in ("constant", "monthly"):
            got = []
            for t in range(12):
                m.step()
                got.append(float(m.parameters["p"].get_all_values()[0]))
            for t in range(12):
                req_close(what + " step %d" % t, got[t], data[i, t if monthly else sp["col"]])
        elif sp["what"] == "max_flow":
            m.step()
            req_close(what, m.nodes["out"].flow[0], data[i, sp["col"]])
        else:
            req_close(what, m.nodes["st"].volume[0], data[i, sp["col"]])
            req_close(what, m.nodes["st"].get_max_volume(m.scenarios.combinations[0]), data[i, sp["col"]])
    finally:
        shutil.rmtree(folder)


TESTS = [Test("align", specs(), t_align, 700, 3), Test("model", model_specs(), t_model, 250, 3), Test("arrays", array_specs(), t_arrays, 200, 2),
         Test("lookup", lookup_specs(), t_lookup, 150, 2)]
