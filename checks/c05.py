"""C05: scenarios do not influence each other and are selected exactly."""

import numpy as np
from hypothesis import strategies as st

from harness import rich, scen
from harness.core import Test, Violation, req_arrays, req_equal

TECHNIQUE = "random whole models and scenario sets, metamorphic relation between the run of all combinations, runs of single combinations, slices and user-defined combinations"
RULE = ("whole models from 75 kinds of parameters, 35 of recorders and 20 of nodes with one to three scenarios; non-trivial: at least two combinations whose "
        "results differ")
NOTE = "Every flow, volume, parameter, index, recorder value, series and table column of every combination equals that of the same combination in the full run, and carries its label."


@st.composite
def selections(draw):
    sp = draw(rich.models(max_scen=3, max_combos=8, hot=2))
    if not sp["scen"]["scen"] or len(scen.combos(sp["scen"])) == 1:
        sp["scen"]["scen"].append({"name": "extra", "size": draw(st.integers(2, 3)), "slice": None, "names": None})
        # let something depend on it
        size = sp["scen"]["scen"][-1]["size"]
        for d in sp["doc"]["nodes"]:
            if d["name"] in ("in0", "in2", "cat1", "cat3"):
                d["flow" if d["type"] == "Catchment" else "max_flow"] = {"type": "constantscenario", "scenario": "extra", "values": [1.017, 4.0313, 7.0771][:size]}
    full = scen.combos(sp["scen"])
    runs = []
    k = draw(st.integers(0, len(full) - 1))
    runs.append({"user": [list(full[k])]})
    runs.append({"user": [list(x) for x in draw(st.lists(st.sampled_from(full), min_size=1, max_size=6))]})
    sl = []
    for s in sp["scen"]["scen"]:
        x = [draw(st.one_of(st.none(), st.integers(-s["size"], s["size"]))), draw(st.one_of(st.none(), st.integers(-s["size"], s["size"] + 1))), draw(st.sampled_from([None, 1, 2]))]
        sl.append(x if range(s["size"])[slice(*x)] and draw(st.booleans()) else None)
    runs.append({"slices": sl})
    sp["runs"] = runs
    sp["same"] = draw(st.integers(0, 2)) == 0       # all of them one after the other with one model
    return sp


def chosen(sp, run):
    out = {"scen": [dict(s) for s in sp["scen"]["scen"]], "user": run.get("user")}
    if "slices" in run:
        for s, x in zip(out["scen"], run["slices"]):
            s["slice"] = x
    return out


def run_one(sp, use, before=None):
    """before: (model, watcher) of an earlier run, of which only the selection is changed"""
    if before is None:
        model = rich.load(rich.document(sp, use))
        watch = rich.watcher(model)
    else:
        model, watch = before
        model.scenarios.user_combinations = use.get("user")
        for s in use["scen"]:
            model.scenarios[s["name"]].slice = None if s["slice"] is None else slice(*s["slice"])
    model.run()
    return model, rich.results(model, watch), watch


def column_labels(df):
    return [tuple(x) if isinstance(x, tuple) else (x,) for x in df.columns]


def t_selections(sp, ev):
    full = scen.combos(sp["scen"])
    model, want, watch = run_one(sp, None)
    check_labels("all combinations", model, sp, sp["scen"], want)
    for run in sp["runs"]:
        use = chosen(sp, run)
        sel = scen.combos(use)
        at = [full.index(c) for c in sel]
        model, got, _ = run_one(sp, use, (model, watch) if sp["same"] else None)
        what = "combinations %r of %r" % (sel, [s["size"] for s in use["scen"]])
        check_labels(what, model, sp, use, got)
        req_equal(what + ": results", sorted(got), sorted(want))
        for k in sorted(got):
            g, w = got[k], want[k]
            if k.startswith("aggregated value") or k == "number of steps":
                continue
            if k.startswith("frame"):
                if "scenario_id" in g.columns:
                    same_events("%s: %s" % (what, k), g, w, at)
                elif w.shape[1] == len(full):
                    req_equal("%s: %s index" % (what, k), [str(x) for x in g.index], [str(x) for x in w.index])
                    req_arrays("%s: %s" % (what, k), g.values, w.values[:, at], 1e-6, 1e-6)
                continue
            if w.ndim and w.shape[-1] == len(full):
                req_arrays("%s: %s" % (what, k), g, w[..., at], 1e-6, 1e-6)
            else:
                raise Violation("%s: %s has shape %r" % (what, k, w.shape))
    rich.tags(sp, want, ev)
    ev.tag("one model" if sp["same"] else "one model each")
    ev.tag("%d scenarios" % len(sp["scen"]["scen"]))
    ev.nt(any(k.startswith(("flow", "volume", "parameter", "index")) and np.abs(v - v[:, :1]).max() > 1e-6 for k, v in want.items() if not k.startswith("frame") and v.ndim == 2))


def same_events(what, g, w, at):
    for j, a in enumerate(at):
        x, y = g[g["scenario_id"] == j], w[w["scenario_id"] == a]
        for c in ("start", "end"):
            req_equal("%s: %s of the events" % (what, c), [str(v) for v in x[c]], [str(v) for v in y[c]])
        if "value" in w.columns and len(y):
            req_arrays("%s: value of the events" % what, x["value"].values, y["value"].values, 1e-6, 1e-6)


def check_labels(what, model, sp, use, res):
    names = [s["name"] for s in use["scen"]]
    labels = scen.labels(use)
    sel = scen.combos(use)
    req_equal(what + ": combinations that ran", [tuple(int(i) for i in c.indices) for c in model.scenarios.combinations], sel)
    req_equal(what + ": numbers of the combinations", [c.global_id for c in model.scenarios.combinations], list(range(len(sel))))
    mi = model.scenarios.multiindex
    req_equal(what + ": names in the index of combinations", list(mi.names), names)
    req_equal(what + ": index of combinations", [tuple(x) if isinstance(x, tuple) else (x,) for x in mi], labels)
    for k, df in res.items():
        if k.startswith("frame") and "scenario_id" not in df.columns:
            if df.columns.nlevels == len(names) and list(df.columns.names) == names:
                req_equal("%s: labels of %s" % (what, k), column_labels(df), labels)
            elif df.shape[1] == len(sel):
                raise Violation("%s: %s has columns %r" % (what, k, list(df.columns)))


TESTS = [Test("selections", selections(), t_selections, 2400)]
