"""C26: results written to files read back as the results of the run."""

import bz2
import csv
import gzip
import os
import pathlib
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from harness import pm, rich, scen
from harness.core import Test, req_arrays, req_close, req_equal, require

TECHNIQUE = "random whole models written to CSV and HDF5 files in random configurations and histories of runs, read back and compared with what an observer saw in the same run"
RULE = ("whole models from 75 kinds of parameters and 20 of nodes, with scenarios, slices and user-defined combinations; non-trivial: at least three requested series "
        "of which one changes over time, and at least two steps")
NOTE = "Every requested array, table, label and date read back from the file equals what was observed in memory during the run."


# ---------------------------------------------------------------------------------------------------------------

@st.composite
def common(draw):
    sp = draw(rich.models(max_scen=2, max_combos=6, recs=1, hot=2))
    sp["doc"]["recorders"] = {}
    full = scen.combos(sp["scen"])
    use = {"scen": [dict(s) for s in sp["scen"]["scen"]], "user": None}
    how = draw(st.sampled_from(["full", "full", "user", "slice"])) if use["scen"] else "full"
    if how == "user":
        use["user"] = [list(x) for x in draw(st.lists(st.sampled_from(full), min_size=1, max_size=5))]
    elif how == "slice":
        for s in use["scen"]:
            x = [draw(st.one_of(st.none(), st.integers(-s["size"], s["size"]))), draw(st.one_of(st.none(), st.integers(-s["size"], s["size"] + 1))), draw(st.sampled_from([None, 1, 2]))]
            s["slice"] = x if range(s["size"])[slice(*x)] and draw(st.booleans()) else None
    sp["use"] = use
    n = sp["clock"]["n"]
    sp["ops"] = draw(st.lists(st.sampled_from([["run"], ["steps", 1], ["steps", 2], ["given up", 1], ["given up", 2], ["given up", n - 1], ["period", max(1, n - 1)], ["setup"]]), max_size=2))
    sp["names"] = {"in0": draw(st.sampled_from(["in0", "in0", "ab", "Node é", "A B.c"]))}
    return sp


@st.composite
def tables(draw, two):
    sp = draw(common())
    n = sp["clock"]["n"]
    names = [d["name"] for d in sp["doc"]["nodes"]]
    params = sorted(sp["doc"]["parameters"])
    o = {"where": draw(st.sampled_from(["/", "/", "/group", "/group/sub"])), "time": draw(st.sampled_from(["/time", "/time", "/meta/time", None])),
         "scenarios": draw(st.sampled_from(["/scenarios", "/scenarios", "/meta/scenarios", None])), "file": draw(st.sampled_from(["str", "str", "path", "handle"])),
         "deep": draw(st.booleans()), "api": draw(st.booleans()), "metadata": draw(st.sampled_from([{}, {"author": "me", "number": 3}])),
         "filters": draw(st.sampled_from([None, {"complib": "zlib", "complevel": 5}, {"complib": "blosc", "complevel": 9, "shuffle": True}, {"complib": "bzip2", "complevel": 1, "fletcher32": True}]))}
    nodes = draw(st.lists(st.sampled_from(names), max_size=6, unique=True))
    o["nodes"] = draw(st.sampled_from([None, nodes, nodes]))
    o["objects"] = [draw(st.booleans()) for _ in nodes]
    o["places"] = [draw(st.sampled_from([None, None, "/zn%d" % k, "/other/zn%d" % k])) for k in range(len(nodes))]
    o["again"] = draw(st.sampled_from([None, None, "/again/x"]))       # the first node a second time, elsewhere
    ps = draw(st.lists(st.sampled_from(params), max_size=6, unique=True))
    o["parameters"] = ps
    o["pobjects"] = [draw(st.booleans()) for _ in ps]
    o["pplaces"] = [draw(st.sampled_from([None, None, "/zp%d" % k, "/other/zp%d" % k])) for k in range(len(ps))]
    o["routes"] = sp["doc"]["solver"]["name"] in ("glpk", "lpsolve") and draw(st.integers(0, 2)) == 0
    if two:
        k = draw(st.sampled_from(["default", "timesteps", "timesteps", "timesteps", "size", "none"]))
        if k == "timesteps":
            o["buffer_timesteps"] = draw(st.integers(1, n + 2))
        elif k == "size":
            o["buffer_size"] = draw(st.sampled_from([1, 0.0001, 0.001, 0.01]))
        elif k == "none":
            o["buffer_size"] = None
    else:
        o["legacy"] = draw(st.integers(0, 3)) == 0
    sp["o"] = o
    return sp


def rename(doc, names):
    """the document with nodes renamed"""
    def rec(x, key=None):
        if isinstance(x, dict):
            return {k: rec(v, k) for k, v in x.items()}
        if isinstance(x, list):
            return [rec(v, key) for v in x]
        if isinstance(x, str) and key != "type":
            return names.get(x, x)
        return x
    return rec(doc)


def observer(model, routes=False):
    from pywr._core import AbstractStorage
    from pywr.parameters import IndexParameter, Parameter
    from pywr.recorders import Recorder

    def limit(n, what, si):
        """the limit set by the user: a number, a parameter, or the sum of those of the steps of a piecewise link"""
        if hasattr(n, "storage_nodes"):
            return sum(limit(x, what, si) for x in n.storage_nodes)
        if what == "max_flow" and hasattr(n, "max_flows"):
            xs = n.max_flows
        elif what == "min_flow" and hasattr(n, "max_flows"):
            return 0.0
        else:
            xs = [getattr(n, what)]
        none = np.inf if what[:3] == "max" else 0.0
        return sum(none if x is None else x.get_value(si) if isinstance(x, Parameter) else float(x) for x in xs)

    class Observer(Recorder):
        def reset(self):
            self.log, self.rows = {}, []

        def after(self):
            ts = self.model.timestepper.current
            self.rows.append((ts.year, ts.month, ts.day, ts.index, ts.datetime))
            add = lambda k, v: self.log.setdefault(k, []).append(np.array(v, dtype=float))
            combos = self.model.scenarios.combinations
            for n in self.model.nodes:
                store = isinstance(n, AbstractStorage)
                what = "volume" if store else "flow"
                add((n.name, what), n.volume if store else n.flow)
                for side in ("max_", "min_"):
                    add((n.name, side + what), [limit(n, side + what, si) for si in combos])
            for p in self.model.parameters:
                if p.name:
                    if isinstance(p, IndexParameter):
                        add((p.name, "parameter_index"), [p.get_index(si) for si in combos])
                    else:
                        add((p.name, "parameter"), [p.get_value(si) for si in combos])
            if routes:
                add("routes", self.model.solver.routes_flows_array)
    obs = Observer(model, name="verif observer")
    for p in model.parameters:      # some parameters change after the step, and the recorders of files look after that
        obs.children.add(p)
    return obs


def before(model, sp, observe):
    """some runs before the one whose files are read"""
    clock = sp["clock"]
    ends = [x.strftime("%Y-%m-%d") for x, _, _ in pm.steps(clock)]
    for op in sp["ops"]:
        if op[0] == "run":
            model.run()
        elif op[0] == "setup":
            model.setup()
        elif op[0] in ("steps", "given up"):
            if not model.dirty and not model.timestepper.dirty:
                model.reset()
            for _ in range(min(op[1], clock["n"])):
                model.step()
            if op[0] == "steps":
                model.finish()
        elif op[0] == "period":
            end = model.timestepper.end
            model.timestepper.end = ends[op[1] - 1]
            model.run()
            model.timestepper.end = end
    model.run()


def shape(use):
    if use["user"]:
        return (len(use["user"]),)
    return tuple(len(range(s["size"])[slice(*s["slice"]) if s["slice"] else slice(None)]) for s in use["scen"]) or (1,)


def t_csv(sp, ev):
    from pywr.recorders import CSVRecorder
    folder = tempfile.mkdtemp(prefix="verif-c26-")
    o = sp["o"]
    try:
        doc = rename(rich.document(sp, sp["use"]), sp["names"])
        nodes = [sp["names"].get(x, x) for x in o["nodes"]] if o["nodes"] is not None else None
        path = os.path.join(folder, "out.csv")
        args = {"scenario_index": o["index"]}
        if o["complib"]:
            args["complib"] = o["complib"]
        if o["csv"]:
            args["csv_kwargs"] = dict(o["csv"])
        if not o["api"]:
            doc["recorders"]["file"] = dict(args, type="csv", url=path, **({"nodes": nodes} if nodes is not None else {}))
        model = rich.load(doc)
        if o["api"]:
            CSVRecorder(model, path, nodes=[model.nodes[x] if ob else x for x, ob in zip(nodes, o["objects"])] if nodes is not None else None, **args)
        observe = observer(model)
        before(model, sp, observe)
        op = {None: open, "gzip": gzip.open, "bz2": bz2.open, "bzip2": bz2.open}[o["complib"]]
        with op(path, "rt", newline="", encoding="utf-8") as f:
            rows = list(csv.reader(f, **o["csv"]))
        want = nodes if nodes is not None else sorted(n.name for n in model.nodes)
        req_equal("header", rows[0], ["Datetime"] + want)
        steps = pm.steps(sp["clock"])
        req_equal("dates", [r[0] for r in rows[1:]], [a.isoformat() for a, _, _ in steps])
        k = len(scen.combos(sp["use"]))
        for j, name in enumerate(want):
            v = np.array(observe.log.get((name, "volume"), observe.log.get((name, "flow"))))
            for t, r in enumerate(rows[1:]):
                req_close("%s on %s in scenario %d of %d" % (name, r[0], o["index"], k), float(r[1 + j]), v[t, o["index"]], 1e-12, 1e-12)
        ev.tag("csv", "complib %s" % o["complib"], "all nodes" if nodes is None else "named nodes", *[x[0] for x in sp["ops"]])
        ev.nt(len(want) >= 3 and len(steps) > 1)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@st.composite
def csvs(draw):
    sp = draw(common())
    names = [d["name"] for d in sp["doc"]["nodes"]]
    nodes = draw(st.lists(st.sampled_from(names), max_size=6))
    sp["o"] = {"nodes": draw(st.sampled_from([None, nodes])), "objects": [draw(st.booleans()) for _ in nodes], "api": draw(st.booleans()),
               "complib": draw(st.sampled_from([None, None, "gzip", "bz2", "bzip2"])), "csv": draw(st.sampled_from([{}, {}, {"delimiter": ";"}, {"quoting": 1}])),
               "index": draw(st.integers(0, len(scen.combos(sp["use"])) - 1))}
    return sp


def recorder_args(sp, path, two):
    o = sp["o"]
    args = {"where": o["where"], "time": o["time"], "scenarios": o["scenarios"], "metadata": dict(o["metadata"])}
    if o["filters"]:
        args["filter_kwds"] = dict(o["filters"])
    if o["deep"]:
        args["create_directories"] = True
    if o["routes"]:
        args["routes_flows"] = "flows_of_routes"
    for k in ("buffer_timesteps", "buffer_size"):
        if k in o:
            args[k] = o[k]
    if o.get("legacy"):
        args["use_legacy_attribute_naming"] = True
    return args


def t_tables(two):
    def f(sp, ev):
        import tables as tb
        import pywr.recorders as pr
        folder = tempfile.mkdtemp(prefix="verif-c26-")
        o = sp["o"]
        handle = None
        try:
            doc = rename(rich.document(sp, sp["use"]), sp["names"])
            path = os.path.join(folder, *(["a", "b"] if o["deep"] else []), "out.h5")
            args = recorder_args(sp, path, two)
            names = [sp["names"].get(x, x) for x in o["nodes"]] if o["nodes"] is not None else None
            where = lambda place, name: (place if place else (o["where"] + "/" + name)).replace("//", "/")
            api = o["api"] or o["file"] == "handle"
            if not api:
                if names is not None:
                    args["nodes"] = [[p, x] if p else x for x, p in zip(names, o["places"])] + ([[o["again"], names[0]]] if o["again"] and names else [])
                if o["parameters"]:
                    args["parameters"] = [[p, x] if p else x for x, p in zip(o["parameters"], o["pplaces"])]
                doc["recorders"]["file"] = dict(args, type="tablesrecorder2" if two else "tables", url=path)
                model = rich.load(doc)
                cls = type(model.recorders["file"])
            else:
                model = rich.load(doc)
                if names is not None:
                    it = [model.nodes[x] if ob else x for x, ob in zip(names, o["objects"])]
                    args["nodes"] = [(p, x) if p else x for x, p in zip(it, o["places"])] + ([(o["again"], it[0])] if o["again"] and it else [])
                it = [model.parameters[x] if ob else x for x, ob in zip(o["parameters"], o["pobjects"])]
                if it:
                    args["parameters"] = [(p, x) if p else x for x, p in zip(it, o["pplaces"])]
                target = path
                if o["file"] == "path":
                    target = pathlib.Path(path)
                elif o["file"] == "handle":
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    sp = dict(sp, ops=[])      # the arrays can only be created once in an open file
                    target = handle = tb.open_file(path, "w", filters=tb.Filters(**o["filters"]) if o["filters"] else None)
                cls = pr.TablesRecorder2 if two else pr.TablesRecorder
                cls(model, target, **args)
            observe = observer(model, o["routes"])
            before(model, sp, observe)
            if handle:
                handle.close()
            check(sp, ev, two, cls, model, observe, path, names, where)
        finally:
            if handle and handle.isopen:
                handle.close()
            shutil.rmtree(folder, ignore_errors=True)
    return f


def check(sp, ev, two, cls, model, observe, path, names, where):
    import tables as tb
    from pywr._core import AbstractStorage
    o, use = sp["o"], sp["use"]
    steps = pm.steps(sp["clock"])
    shp = shape(use)
    req_equal("steps seen", len(observe.rows), len(steps))
    items = []
    if names is None:
        items += [(where(None, n.name), n.name) for n in model.nodes]
    else:
        items += [(where(p, x), x) for x, p in zip(names, o["places"])] + ([(o["again"], names[0])] if o["again"] and names else [])
    items += [(where(p, x), x) for x, p in zip(o["parameters"], o["pplaces"])]
    lively = 0
    with tb.open_file(path, "r") as h:
        found = {}
        keys = {}
        for key in observe.log:
            if key != "routes":
                keys.setdefault(key[0], []).append(key[1])
        for place, name in items:
            main = [x for x in keys[name] if x in ("flow", "volume", "parameter", "parameter_index")][0]
            for what in keys[name] if two else [main]:
                v = np.array(observe.log[name, what]).reshape((len(steps),) + shp)
                full = place + "/" + what if two else place
                a = h.get_node(full)
                found[full] = v
                req_arrays("%s of %s at %s" % (what, name, full), a.read(), v, 1e-12, 1e-12)
                at = a._v_attrs
                label = main if what == main else what
                if not two:
                    label = label.replace("_", "-")
                req_equal("kind recorded at " + full, at["pywr-attribute" if o.get("legacy") else "PYWR_ATTRIBUTE"], label)
                lively += int(len(v) > 1 and np.abs(v - v[0]).max() > 1e-6)
        # dates
        if o["time"]:
            t = h.get_node(o["time"])
            req_equal("table of dates", [tuple(int(r[k]) for k in ("year", "month", "day", "index")) for r in t], [r[:4] for r in observe.rows])
            req_equal("dates", [(r[0], r[1], r[2]) for r in observe.rows], [(d.year, d.month, d.day) for _, _, d in steps])
        if o["scenarios"]:
            t = h.get_node(o["scenarios"])
            req_equal("table of scenarios", [(r["name"].decode(), int(r["size"])) for r in t], [(s["name"], s["size"]) for s in use["scen"]])
            group = o["scenarios"].rsplit("/", 1)[0] or "/"
            if use["user"]:
                if two:
                    c = h.get_node("/scenario_combinations").read().tolist()
                else:
                    t = h.get_node(group, "scenario_combinations")
                    c = [[int(r[s["name"]]) for s in use["scen"]] for r in t]
                req_equal("table of combinations", c, [list(x) for x in use["user"]])
            elif any(s["slice"] for s in use["scen"]):
                t = h.get_node(group, "scenario_slices")
                got = {r["name"].decode(): list(range(s_size(use, r["name"].decode())))[slice(int(r["start"]), int(r["stop"]), int(r["step"]))] for r in t}
                req_equal("table of slices", got, {s["name"]: list(range(s["size"]))[slice(*s["slice"])] for s in use["scen"] if s["slice"]})
            if two and use["scen"]:
                req_equal("labels of the scenarios", [[y.decode() for y in x] for x in h.get_node("/scenario_ensemble_names").read().tolist()],
                          [[str(y) for y in x] for x in scen.labels(use)])
        for k, v in o["metadata"].items():
            req_equal("metadata " + k, h.root._v_attrs[k], v)
        if o["file"] != "handle":
            req_equal("title", h.title, "rich")
        if o["routes"]:
            flows = h.get_node(o["where"], "flows_of_routes").read()
            seen = np.array(observe.log["routes"])      # time, combination, route
            req_arrays("flows of the routes", flows.reshape((len(steps), flows.shape[1], -1)), seen.transpose(0, 2, 1), 1e-12, 1e-12)
            t = h.get_node("/routes")
            ends = [(r["start"].decode(), r["end"].decode()) for r in t]
            req_equal("number of routes", len(ends), flows.shape[1])
            for n in model.nodes:
                if (type(n).__name__ in ("Input", "Catchment", "Output")) and n.parent is None:
                    side = 1 if type(n).__name__ == "Output" else 0
                    mine = [k for k, e in enumerate(ends) if e[side] == n.name]
                    req_arrays("sum of the flows of the routes at " + n.name, flows.reshape((len(steps), flows.shape[1], -1))[:, mine].sum(axis=1),
                               np.array(observe.log[n.name, "flow"]), 1e-6, 1e-6)
    # the helper
    frames = list(cls.generate_dataframes(path, time=o["time"], scenarios=o["scenarios"]))
    labels = scen.combos(use) if use["scen"] else [(0,)]
    by = {}
    for name, df in frames:
        by.setdefault(name, []).append(df)
    req_equal("number of frames", len(frames), len(found))
    for full, v in found.items():
        key = ".".join(full.split("/")[-2:]) if two else full.split("/")[-1]
        flat = v.reshape((len(steps), -1))
        require(key in by, "no frame for %s" % full)
        best = [df for df in by[key] if df.shape == flat.shape and np.allclose(df.values, flat, 1e-12, 1e-12, equal_nan=True)]
        require(best, "no frame %s has the values of %s" % (key, full))
        df = best[0]
        if o["time"]:
            req_equal("dates of the frame " + key, [x.strftime("%Y-%m-%d") for x in df.index], [d.strftime("%Y-%m-%d") for _, _, d in steps])
        if o["scenarios"] and use["scen"]:
            req_equal("columns of the frame " + key, [tuple(int(y) for y in (x if isinstance(x, tuple) else (x,))) for x in df.columns], [tuple(x) for x in labels])
            req_equal("names of the columns of the frame " + key, list(df.columns.names), [s["name"] for s in use["scen"]])
    ev.tag("tables2" if two else "tables", o["file"], "user" if use["user"] else "slice" if any(s["slice"] for s in use["scen"]) else "full", *[x[0] for x in sp["ops"]])
    ev.tag("buffer %s" % ("none" if not two else "less" if o.get("buffer_timesteps", 99) < len(steps) else "all"), "routes" if o["routes"] else "no routes")
    ev.nt(len(found) >= 3 and len(steps) > 1 and lively)


def s_size(use, name):
    return [s["size"] for s in use["scen"] if s["name"] == name][0]


TESTS = [Test("csv", csvs(), t_csv, 700, weight=0.6), Test("tables", tables(False), t_tables(False), 700), Test("tables2", tables(True), t_tables(True), 900, weight=1.2)]
