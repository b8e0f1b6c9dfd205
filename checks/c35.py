"""C35: schematics and diagrams show the model's network and flows."""

import ast
import copy
import datetime
import inspect
import json
import os
import re
import shutil
import tempfile
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from checks import c26
from harness import rich, scen
from harness.core import Test, req_close, req_equal, require

TECHNIQUE = "random whole models exported as schematics and diagrams, compared with graphs computed from the generated document and sums of the route flows observed in the run"
RULE = ("whole models from 20 kinds of nodes; non-trivial: at least four nodes and four connections shown (schematics), at least three routes and two links with different flows (diagrams), "
        "series that share some but not all dates (aligned series)")
NOTE = "Nodes, classes, positions, attributes and links of the schematic of the model and of its document are those of the document; links of a diagram are the aggregated sums of the route flows."

VIRTUAL = {"virtualstorage", "annualvirtualstorage", "monthlyvirtualstorage", "seasonalvirtualstorage", "rollingvirtualstorage", "aggregatednode", "aggregatedstorage"}


@st.composite
def schematics(draw):
    sp = draw(rich.models(max_scen=1, recs=1, maxn=3))
    doc = sp["doc"]
    doc["recorders"] = {}
    k = draw(st.integers(0, 3))
    if k == 0:
        doc["nodes"] = [dict(d, position={"schematic": [draw(st.integers(0, 50)), draw(st.integers(0, 50)) / 4]}) if draw(st.booleans()) else d for d in doc["nodes"]]
    elif k == 1:
        doc["nodes"] = [dict(d, position={"geographic": [draw(st.integers(0, 50)), draw(st.integers(0, 50)) / 4]}) if draw(st.booleans()) else d for d in doc["nodes"]]
    elif k == 2:
        doc["nodes"] = [dict(d, position={"geographic": [1, 2], "schematic": [3, draw(st.integers(0, 50)) / 4]}) if draw(st.booleans()) else d for d in doc["nodes"]]
    sp["names"] = {"in0": draw(st.sampled_from(["in0", "in0", "ab", "Node é", "A 'B\".c", "{{ x }}"]))}
    sp["order"] = draw(st.integers(0, 2 ** 20))
    sp["spell"] = draw(st.sampled_from(["as is", "lower", "upper"]))
    sp["noparams"] = draw(st.booleans())
    sp["run"] = draw(st.booleans())
    return sp


def family(cls):
    """the names of the classes of nodes a class is made of, most general first"""
    from pywr.core import Node
    return [c.__name__.lower() for c in cls.__mro__[::-1] if issubclass(c, Node) and c is not Node or c is cls]


def shown(graph):
    return {n["name"]: n for n in graph["nodes"]}, Counter((graph["nodes"][e["source"]]["name"], graph["nodes"][e["target"]]["name"]) for e in graph["links"])


def t_schematics(sp, ev):
    import random

    from pywr.nodes import NodeMeta
    from pywr.notebook import PywrSchematic, pywr_json_to_d3_json, pywr_model_to_d3_json
    from pywr.parameters._parameters import get_parameter_from_registry
    doc = c26.rename(rich.document(sp), sp["names"])
    rng = random.Random(sp["order"])
    rng.shuffle(doc["nodes"])
    rng.shuffle(doc["edges"])
    types = {d["name"]: d["type"].lower() for d in doc["nodes"]}
    if sp["spell"] != "as is":
        for d in doc["nodes"]:
            d["type"] = getattr(d["type"], sp["spell"])()
    model = rich.load(doc)
    if sp["run"]:
        model.run()
    visible = {n for n, t in types.items() if t not in VIRTUAL}
    edges = Counter((e[0], e[1]) for e in doc["edges"])
    ancestry = {n: family(NodeMeta.node_registry[types[n]]) for n in visible}
    at = {d["name"]: d["position"]["schematic"] for d in doc["nodes"] if "schematic" in d.get("position", {})}
    before = copy.deepcopy(doc)
    folder = tempfile.mkdtemp(prefix="verif-c35-")
    try:
        path = os.path.join(folder, "model.json")
        with open(path, "w") as f:
            json.dump(doc, f)
        ways = [("model", pywr_model_to_d3_json(model)), ("model with attributes", pywr_model_to_d3_json(model, attributes=True)),
                ("document", pywr_json_to_d3_json(doc)), ("document with attributes", pywr_json_to_d3_json(doc, attributes=True)),
                ("file", PywrSchematic(path).graph), ("file with attributes", PywrSchematic(path, attributes=True).graph)]
        req_equal("document after it was drawn", doc, before)
        for what, graph in ways:
            require(len({n["name"] for n in graph["nodes"]}) == len(graph["nodes"]), "%s: a node is shown twice" % what)
            nodes, links = shown(graph)
            req_equal(what + ": nodes shown", sorted(nodes), sorted(visible))
            req_equal(what + ": connections shown", sorted(set(links)), sorted(set(edges)))
            if "model" not in what:
                req_equal(what + ": number of connections", links, edges)
            for n in visible:
                req_equal("%s: classes of %s" % (what, n), nodes[n]["clss"], ancestry[n])
                p = nodes[n].get("position")
                req_equal("%s: position of %s" % (what, n), list(p) if p is not None else None, list(at[n]) if n in at else None)
                require(("attributes" in nodes[n]) == ("attributes" in what), "%s: attributes of %s" % (what, n))
        docs = {d["name"]: d for d in doc["nodes"]}
        by, _ = shown(ways[3][1])
        own, _ = shown(ways[1][1])
        refs = 0
        for n in sorted(visible):
            got = {a["attribute"]: a["value"] for a in by[n]["attributes"]}
            want = {}
            for k, v in docs[n].items():
                if k == "type":
                    continue
                if isinstance(v, dict):
                    want[k] = get_parameter_from_registry(v["type"]).__name__ if "type" in v else v
                elif isinstance(v, str) and v in doc["parameters"]:
                    want[k] = v + " - " + type(model.parameters[v]).__name__
                    refs += 1
                else:
                    want[k] = str(v)
            req_equal("attributes of %s (document)" % n, got, want)
            got = {a["attribute"]: a["value"] for a in own[n]["attributes"]}
            req_equal("name of %s" % n, got.get("name"), n)
            node = model.nodes[n]
            for k in ("max_flow", "min_flow", "cost", "max_volume", "min_volume", "level", "area"):
                # what the node itself holds
                try:
                    v = inspect.getattr_static(type(node), k) and getattr(node, k)
                except AttributeError:
                    continue
                if v is None:
                    require(k not in got, "%s: %s is shown though there is none" % (n, k))
                elif hasattr(v, "get_value"):
                    req_equal("%s of %s (model)" % (k, n), got.get(k), (v.name + " - " if v.name else "") + type(v).__name__)
                elif isinstance(v, (int, float)):
                    req_equal("%s of %s (model)" % (k, n), got.get(k), str(v))
        # the web page
        for what, x in (("model", model), ("document", doc)):
            out = os.path.join(folder, what + ".html")
            sch = PywrSchematic(x, width=321, height=123, attributes=False)
            sch.to_html(out, title="the title")
            with open(out, encoding=None) as f:
                text = f.read()
            m = re.search(r"const graph = (.*);\n", text)
            require(m, "%s: no graph in the page" % what)
            req_equal(what + ": graph in the page", shown(ast.literal_eval(m.group(1))), shown(ways[0 if what == "model" else 2][1]) if what == "document" else shown(sch.graph))
            require("const width = 321" in text and "height = 123" in text and "the title" in text, "%s: size or title of the page" % what)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    ev.tag(*[types[n] for n in types])
    ev.tag("references" if refs else "no references", "positions" if at else "no positions", sp["spell"])
    ev.nt(len(visible) >= 4 and len(edges) >= 4)


# ---------------------------------------------------------------------------------------------------------------

AGG = {"mean": np.mean, "sum": np.sum, "max": np.max, "min": np.min, "median": np.median}


@st.composite
def sankeys(draw):
    sp = draw(rich.models(max_scen=2, recs=1, hot=2, solvers=("glpk", "glpk", "lpsolve")))
    sp["doc"]["recorders"] = {}
    n = sp["clock"]["n"]
    shp = [s["size"] for s in sp["scen"]["scen"]] or [1]
    o = {"time": draw(st.sampled_from([None, None, "int", "slice"])), "scenario": draw(st.sampled_from([None, None, "int", "slice"])), "calls": []}
    o["t"] = draw(st.integers(0, n - 1)) if o["time"] == "int" else [draw(st.integers(0, n - 1)), n + 1, draw(st.sampled_from([1, 2]))]
    o["s"] = draw(st.integers(0, shp[0] - 1)) if o["scenario"] == "int" else [draw(st.integers(0, shp[0] - 1)), shp[0] + 1, 1]
    o["ta"] = draw(st.sampled_from([None, None] + sorted(AGG)))
    o["sa"] = draw(st.sampled_from([None, None] + sorted(AGG)))
    o["rename"] = draw(st.sampled_from([None, None, "first", "ends"]))
    o["circular"] = draw(st.booleans())
    o["threshold"] = draw(st.sampled_from([None, None, 0.0, 1.0, 5.0]))
    o["skip"] = draw(st.booleans())
    o["where"] = draw(st.sampled_from(["/", "/group"]))
    o["table"] = draw(st.sampled_from(["/routes", "/routes", "/meta/paths"]))
    sp["o"] = o
    return sp


def t_sankeys(sp, ev):
    from pywr.notebook.sankey import routes_to_sankey_links
    from pywr.recorders import TablesRecorder
    folder = tempfile.mkdtemp(prefix="verif-c35-")
    o = sp["o"]
    try:
        doc = rich.document(sp)
        model = rich.load(doc)
        path = os.path.join(folder, "out.h5")
        TablesRecorder(model, path, nodes=[], where=o["where"], routes_flows="fl", routes=o["table"])
        observe = c26.observer(model, True)
        model.run()
        flows = np.array(observe.log["routes"])      # time, combination, route
        shp = tuple(s["size"] for s in sp["scen"]["scen"]) or (1,)
        flows = flows.transpose(0, 2, 1).reshape((len(flows), flows.shape[2]) + shp)
        top = lambda n: n if n.parent is None else n.parent
        ends = [(top(r[0]).name, top(r[-1]).name) for r in model.solver.routes]
        kw, x = {"where": o["where"], "routes": o["table"]}, flows
        if o["time"] == "int":
            kw["time_slice"] = o["t"]
            x = x[o["t"]]
        else:
            if o["time"] == "slice":
                kw["time_slice"] = slice(*o["t"])
                x = x[slice(*o["t"])]
            x = AGG[o["ta"] or "mean"](x, axis=0)
        if o["ta"]:
            kw["time_agg_func"] = AGG[o["ta"]]
        if o["scenario"]:
            kw["scenario_slice"] = o["s"] if o["scenario"] == "int" else slice(*o["s"])
            x = x[:, kw["scenario_slice"]]
        if x.ndim > 1:
            x = AGG[o["sa"] or "mean"](x, axis=tuple(range(1, x.ndim)))
            if o["sa"]:
                kw["scenario_agg_func"] = AGG[o["sa"]]
        else:
            kw["scenario_agg_func"] = None
        ren = None
        if o["rename"] == "first":
            ren = lambda name, start: name[0]
        elif o["rename"] == "ends":
            ren = lambda name, start: ("from " if start else "to ") + name
        if ren:
            kw["rename_func"] = ren
        calls = []
        first = ends[0][0]
        if o["skip"]:
            def back(start, end, flow):
                calls.append((start, end, float(flow)))
                return None if start == first else 1
            kw["callback_func"] = back
        if o["circular"]:
            kw["ignore_circular"] = True
        if o["threshold"] is not None:
            kw["flow_threshold"] = o["threshold"]
        links = routes_to_sankey_links(path, "fl", **kw)
        want = {}
        for (a, b), v in zip(ends, x):
            if o["skip"] and a == first:
                continue
            if ren:
                a, b = ren(a, True), ren(b, False)
            if o["circular"] and a == b:
                continue
            want[a, b] = want.get((a, b), 0.0) + float(v)
        if o["skip"]:
            req_equal("routes offered to the callback", [c[:2] for c in calls], ends)
            for c, v in zip(calls, x):
                req_close("flow offered to the callback", c[2], float(v), 1e-9, 1e-9)
        limit = o["threshold"] or 0.0
        got = {(k["source"], k["target"]): float(k["value"]) for k in links}
        require(len(got) == len(links), "a link is listed twice: %r" % links)
        for k, v in want.items():
            if k in got:
                req_close("flow from %s to %s" % k, got[k], v, 1e-9, 1e-9)
                require(v >= limit - 1e-9, "%r is below the threshold: %r" % (k, v))
            else:
                require(v < limit + 1e-9 and not v == limit == 0.0, "no link from %s to %s (%r)" % (k + (v,)))
        require(set(got) <= set(want), "links that are not there: %r" % sorted(set(got) - set(want)))
        if got:
            # with one of the flows as threshold: it is not below itself
            kw["flow_threshold"] = sorted(got.values())[len(got) // 2]
            again = {(k["source"], k["target"]): float(k["value"]) for k in routes_to_sankey_links(path, "fl", **kw)}
            req_equal("links with the threshold %r" % kw["flow_threshold"], again, {k: v for k, v in got.items() if v >= kw["flow_threshold"]})
        ev.tag("time %s" % o["time"], "scenario %s" % o["scenario"], "rename %s" % o["rename"], "callback" if o["skip"] else "no callback", "aggregated by %s, %s" % (o["ta"], o["sa"]))
        ev.nt(len(ends) >= 3 and len({round(v, 6) for v in want.values()}) >= 2)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


# ---------------------------------------------------------------------------------------------------------------

@st.composite
def series(draw):
    sp = {"start": [draw(st.integers(1990, 2020)), draw(st.integers(1, 12)), draw(st.integers(1, 28))], "s": []}
    for k in range(2):
        gaps = draw(st.lists(st.integers(1, 3), min_size=1, max_size=12))
        sp["s"].append({"lag": draw(st.integers(0, 5)), "gaps": gaps, "v": [draw(st.integers(0, 99)) / 4 for _ in gaps], "name": draw(st.sampled_from(["a", "b", "x y"]))})
    sp["names"] = draw(st.sampled_from([None, ["Pywr", "Aquator"], ["b", "a"]]))
    sp["from"], sp["to"] = [draw(st.one_of(st.none(), st.integers(-2, 20))) for _ in range(2)]
    sp["text"] = draw(st.booleans())
    return sp


def t_series(sp, ev):
    import pandas as pd

    from pywr.notebook.figures import align_series
    day = lambda k: datetime.datetime(*sp["start"]) + datetime.timedelta(days=k)
    data = []
    for s in sp["s"]:
        at, k = {}, s["lag"]
        for g, v in zip(s["gaps"], s["v"]):
            at[day(k)] = v
            k += g
        data.append(at)
    names = sp["names"] or [s["name"] for s in sp["s"]]
    if names[0] == names[1]:
        return
    a, b = [pd.Series(list(d.values()), index=pd.DatetimeIndex(list(d)), name=s["name"]) for d, s in zip(data, sp["s"])]
    dates = sorted(set(data[0]) & set(data[1]))
    if not dates:
        return
    give = lambda k: None if k is None else day(k).strftime("%Y-%m-%d") if sp["text"] else pd.Timestamp(day(k))
    A, B = align_series(a, b, names=sp["names"], start=give(sp["from"]), end=give(sp["to"]))
    want = [d for d in dates if (sp["from"] is None or d >= day(sp["from"])) and (sp["to"] is None or d <= day(sp["to"]))]
    for what, x, d, name in (("first", A, data[0], names[0]), ("second", B, data[1], names[1])):
        req_equal("name of the %s series" % what, x.name, name)
        req_equal("dates of the %s series" % what, [t.to_pydatetime() for t in x.index], want)
        req_equal("values of the %s series" % what, [float(v) for v in x.values], [d[t] for t in want])
    ev.tag("clipped" if want != dates else "whole", "named" if sp["names"] else "own names")
    ev.nt(0 < len(want) and len(dates) < max(len(d) for d in data))


TESTS = [Test("schematics", schematics(), t_schematics, 800), Test("diagrams", sankeys(), t_sankeys, 500, weight=0.8), Test("series", series(), t_series, 800, weight=0.2)]
