"""C15: scenario-dependent inputs use the entry of the current scenario."""

import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from harness import cal, nets, pm, scen
from harness.core import Test, Violation, require, raises, req_close, req_equal

TECHNIQUE = "random scenario sets (sizes, slices, user combinations) and entries that encode their member, compared with the entry of each combination's member"
RULE = ("one to three scenarios with slices (open, negative, stepped, beyond the end) or user combinations (repeats, any order), every scenario-aware "
        "parameter kind with random entries; non-trivial: more than one combination, or a case that must be refused")
NOTE = "Each scenario-aware parameter reads the entry of its own scenario's member in every generated combination; wrong numbers of entries are refused."

KINDS = ["constantscenario", "constantscenarioindex", "arrayindexedscenario", "monthlyfactors", "dataframe", "tables f8", "tables i4",
         "scenariodaily", "scenarioweekly", "scenariomonthly", "wrapper"]


@st.composite
def specs(draw):
    sp = {"set": draw(scen.sets()), "n": draw(st.integers(1, 4)), "start": draw(cal.dates(1950, 2050)), "step": draw(st.sampled_from([1, 1, 9, 31])),
          "seed": draw(st.integers(0, 999)), "ps": [], "order": draw(st.booleans())}
    k = len(sp["set"]["scen"])
    for _ in range(draw(st.integers(1, 5))):
        sp["ps"].append({"kind": draw(st.sampled_from(KINDS)), "of": draw(st.integers(0, k - 1)), "offset": draw(st.sampled_from([0, 0, 1, -1, 5])),
                         "extra": draw(st.integers(0, 2))})
    return sp


def build(sp, folder, short=None):
    """document and expected[p][t][combination]; short: (parameter, number of entries more or less)"""
    import pandas as pd
    import tables
    n = sp["n"]
    clock = {"step": {"kind": "D", "n": sp["step"], "form": "int", "anchor": None}, "start": sp["start"], "n": n}
    doc = scen.put(pm.document(clock), sp["set"])
    dates = [x[0] for x in pm.steps(clock)]
    combos = scen.combos(sp["set"])
    rng = np.random.RandomState(sp["seed"])
    ps, want = {}, []
    for i, p in enumerate(sp["ps"]):
        s = sp["set"]["scen"][p["of"]]
        size = s["size"] + (short[1] if short and short[0] == i else 0)
        k = p["kind"]
        # entries encode the parameter, the member and the position
        d = {"scenario": s["name"]}
        ix = [min(max(t + p["offset"], 0), n + p["extra"] - 1) for t in range(n)]
        if k in ("constantscenario", "constantscenarioindex"):
            v = rng.permutation(50)[:size]
            v = v if k.endswith("index") else v / 4.0 - 2.0
            d.update(type=k, values=v.tolist())

            def f(t, m, v=v):
                return v[m]
        elif k in ("arrayindexedscenario", "dataframe", "tables f8", "tables i4"):
            rows = n + p["extra"]
            if k == "dataframe":
                rows = max(rows, 3)
            v = rng.permutation(rows * size * 2)[:rows * size].reshape(rows, size).astype(float)
            if k != "tables i4":
                v = v / 4.0
            if k == "arrayindexedscenario":
                d.update(type=k, values=v.tolist())
                ix = list(range(n))
            elif k == "dataframe":
                ix = [min(max(t + p["offset"], 0), n - 1) for t in range(n)]
                days = pd.date_range(sp["start"], periods=rows, freq="%dD" % sp["step"])
                if sp["step"] == 31:
                    days = pd.date_range(dates[0], periods=rows * 31, freq="D")
                    vv = np.repeat(v, 31, axis=0)
                else:
                    vv = v
                d.update(type=k, data={"c%d" % j: {str(x): float(y) for x, y in zip(days, vv[:, j])} for j in range(size)}, parse_dates=True, timestep_offset=p["offset"])
            else:
                path = os.path.join(folder, "p%d.h5" % i)
                with tables.open_file(path, "w") as h5:
                    h5.create_carray("/", "x", obj=v.astype(np.int32 if "i4" in k else np.float64))
                d.update(type="tablesarray", url=path, node="x", timestep_offset=p["offset"])

            def f(t, m, v=v, ix=ix):
                return v[ix[t], m]
        elif k == "monthlyfactors":
            v, fac = rng.permutation(n + p["extra"]) + 1.0, rng.permutation(size * 12).reshape(size, 12) / 4.0 + 1.0
            d.update(type="arrayindexedscenariomonthlyfactors", values=v.tolist(), factors=fac.tolist())

            def f(t, m, v=v, fac=fac):
                return v[t] * fac[m, dates[t].month - 1]
        elif k.startswith("scenario"):
            w = {"daily": 366, "weekly": 52, "monthly": 12}[k[8:]]
            v = rng.permutation(size * w).reshape(size, w) / 4.0
            d.update(type=k + "profile", values=v.tolist())

            def f(t, m, v=v, w=w):
                x = dates[t]
                return v[m, {366: cal.profile_day, 52: cal.week, 12: lambda y: y.month - 1}[w](x)]
        else:
            v = rng.permutation(size * n * 2)[:size * n].reshape(size, n) / 4.0
            d.update(type="scenariowrapper", parameters=["w%d_%d" % (i, j) for j in range(size)])
            for j in range(size):
                ps["w%d_%d" % (i, j)] = {"type": "arrayindexed", "values": v[j].tolist()} if j % 2 else {"type": "veriftable", "table": [[v[j][t] + c for c in range(len(combos))] for t in range(n)]}

            def f(t, m, v=v):
                return v[m, t]
        ps["p%d" % i] = d
        if not short:
            want.append([[float(f(t, c[p["of"]])) + (j if k == "wrapper" and not c[p["of"]] % 2 else 0.0) for j, c in enumerate(combos)] for t in range(n)])
    doc["parameters"] = {x: ps[x] for x in sorted(ps, reverse=sp["order"])}
    return doc, want, combos


def load(doc, folder):
    import warnings
    from pywr.model import Model
    nets.register()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = Model.load(doc, path=folder)
        m.setup()
    return m


def t_entries(sp, ev):
    folder = tempfile.mkdtemp(prefix="verif-c15-")
    try:
        doc, want, combos = build(sp, folder)
        m = load(doc, folder)
        req_equal("combinations", [tuple(int(y) for y in x.indices) for x in m.scenarios.combinations], combos)
        got = pm.values(m, ["p%d" % i for i in range(len(sp["ps"]))])
        for i, p in enumerate(sp["ps"]):
            for t in range(sp["n"]):
                for j, c in enumerate(combos):
                    req_close("%s of scenario %r (size %d) step %d combination %r of %r" % (
                        p["kind"], sp["set"]["scen"][p["of"]]["name"], sp["set"]["scen"][p["of"]]["size"], t, c, sp["set"]["user"] or [s["slice"] for s in sp["set"]["scen"]]),
                        got["p%d" % i][t, j], want[i][t][j])
                    if p["kind"] in ("constantscenarioindex", "tables i4"):
                        par = m.parameters["p%d" % i]
                        if t == sp["n"] - 1:
                            req_equal("index of %s" % p["kind"], int(par.get_all_indices()[j]), int(want[i][t][j]))
            ev.tag(p["kind"])
        ev.tag("user" if sp["set"]["user"] else "sliced" if any(s["slice"] for s in sp["set"]["scen"]) else "full")
        ev.nt(len(combos) > 1)
    finally:
        shutil.rmtree(folder)


@st.composite
def bad_specs(draw):
    sp = draw(specs())
    sp["ps"] = sp["ps"][:1]
    sp["by"] = draw(st.sampled_from([-1, 1]))
    return sp


def t_refuse(sp, ev):
    p = sp["ps"][0]
    size = sp["set"]["scen"][p["of"]]["size"]
    if size + sp["by"] < 1 or (p["kind"].startswith("tables") and sp["by"] > 0):
        ev.tag("skipped")          # an array with more columns is accepted with a warning
        return
    folder = tempfile.mkdtemp(prefix="verif-c15-")
    try:
        doc, _, _ = build(sp, folder, short=(0, sp["by"]))
        raises((ValueError, IndexError), lambda: load(doc, folder).run(), "%s with %d entries for a scenario of %d" % (p["kind"], size + sp["by"], size))
        ev.tag(p["kind"])
        ev.nt()
    finally:
        shutil.rmtree(folder)


TESTS = [Test("entries", specs(), t_entries, 700, 4), Test("refuse", bad_specs(), t_refuse, 150, 1)]
