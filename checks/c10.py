"""C10: composite parameters equal their formula over current input values."""

import numpy as np
from hypothesis import strategies as st

from harness import nets, pm
from harness.core import Test, require, req_close

TECHNIQUE = "random expression graphs of parameters, differential against direct evaluation; generated cycles must be refused"
RULE = ("expression graphs of 2 to 14 parameters (nested inline or by name, in random order of definition) over time- and scenario-varying "
        "leaves; non-trivial: a composite of a composite that takes more than one value")
NOTE = "Every parameter of every generated graph has the value of its formula in every time-step and scenario, and so does the flow it drives."

small = st.integers(-12, 12).map(lambda x: x / 2.0)
AGG = ["sum", "product", "mean", "median", "min", "max"]
IAGG = ["sum", "product", "min", "max", "any", "all"]


@st.composite
def graphs(draw):
    n = draw(st.integers(1, 5))
    sizes = draw(st.lists(st.integers(1, 3), max_size=2))
    ns = int(np.prod(sizes)) if sizes else 1
    ps = []

    def floats():
        return [i for i, p in enumerate(ps)]

    def indices():
        return [i for i, p in enumerate(ps) if p["k"] in ("itable", "iscen", "aggindex")]

    def ref():
        return draw(st.sampled_from(floats()))

    def num_or_ref():
        return draw(small) if draw(st.integers(0, 3)) == 0 else {"ref": ref()}
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["array", "table", "constant", "itable"] + (["scen", "iscen"] if sizes else [])))
        p = {"k": kind}
        if kind == "array":
            p["v"] = [draw(small) for _ in range(n)]
        elif kind == "table":
            p["v"] = [[draw(small) for _ in range(ns)] for _ in range(n)]
        elif kind == "constant":
            p["v"], p["scale"], p["offset"] = draw(small), draw(st.sampled_from([None, 2.0, -0.5])), draw(st.sampled_from([None, 1.5]))
        elif kind == "itable":
            p["v"] = [[draw(st.integers(0, 3)) for _ in range(ns)] for _ in range(n)]
        else:
            p["sc"] = draw(st.integers(0, len(sizes) - 1))
            p["v"] = [draw(small if kind == "scen" else st.integers(0, 3)) for _ in range(sizes[p["sc"]])]
        ps.append(p)
    for _ in range(draw(st.integers(1, 10))):
        kind = draw(st.sampled_from(["agg", "agg", "aggindex", "division", "negative", "max", "min", "negativemax", "negativemin", "offset",
                                     "indexed", "scaled", "discount"]))
        p = {"k": kind}
        if kind == "agg":
            p["f"] = draw(st.sampled_from(AGG))
            p["of"] = [num_or_ref() for _ in range(draw(st.integers(1, 4)))]
        elif kind == "aggindex":
            if not indices():
                continue
            p["f"] = draw(st.sampled_from(IAGG))
            p["of"] = [{"ref": draw(st.sampled_from(indices()))} for _ in range(draw(st.integers(1, 3)))]
        elif kind == "division":
            p["of"] = [{"ref": ref()}, {"ref": ref()}]
        elif kind == "indexed":
            if not indices():
                continue
            p["idx"] = {"ref": draw(st.sampled_from(indices()))}
            p["of"] = [num_or_ref() for _ in range(4)]
            p["key"] = draw(st.sampled_from(["params", "parameters"]))
        elif kind == "discount":
            p["rate"] = draw(st.sampled_from([0.0, 0.035, 0.1]))
            p["base"] = draw(st.sampled_from([2000, 2015, 2016]))
        else:
            p["of"] = [{"ref": ref()}]
            p["c"] = draw(st.one_of(st.none(), small)) if kind != "scaled" else draw(small)
        ps.append(p)
    return {"n": n, "sizes": sizes, "ps": ps, "order": draw(st.permutations(range(len(ps)))),
            "inline": draw(st.lists(st.booleans(), min_size=len(ps), max_size=len(ps))), "start": draw(st.sampled_from(["2015-06-01", "2015-12-30"])),
            "late": draw(st.booleans())}


def parameter_doc(spec, i, inline):
    p = spec["ps"][i]

    def r(x):
        if not isinstance(x, dict):
            return x
        j = x["ref"]
        return parameter_doc(spec, j, inline) if j in inline else "p%d" % j
    k = p["k"]
    if k == "array":
        return {"type": "arrayindexed", "values": list(p["v"])}
    if k == "table":
        return {"type": "veriftable", "table": p["v"]}
    if k == "constant":
        return dict({"type": "constant", "value": p["v"]}, **{x: p[x] for x in ("scale", "offset") if p[x] is not None})
    if k == "itable":
        return {"type": "verifindex", "table": p["v"]}
    if k in ("scen", "iscen"):
        if k == "iscen":
            return {"type": "verifindex", "table": [[p["v"][c[p["sc"]]] for c in pm.combos(spec["sizes"])]] * spec["n"]}
        return {"type": "constantscenario", "scenario": "S%d" % p["sc"], "values": list(p["v"])}
    if k in ("agg", "aggindex"):
        return {"type": "aggregated" if k == "agg" else "aggregatedindex", "agg_func": p["f"], "parameters": [r(x) for x in p["of"]]}
    if k == "division":
        return {"type": "division", "numerator": r(p["of"][0]), "denominator": r(p["of"][1])}
    if k == "indexed":
        return {"type": "indexedarray", "index_parameter": r(p["idx"]), p["key"]: [r(x) for x in p["of"]]}
    if k == "discount":
        return {"type": "discountfactor", "rate": p["rate"], "base_year": p["base"]}
    if k == "scaled":
        return {"type": "scaledprofile", "scale": p["c"], "profile": r(p["of"][0])}
    d = {"type": k, "parameter": r(p["of"][0])}
    if k != "negative" and p["c"] is not None:
        d["offset" if k == "offset" else "threshold"] = p["c"]
    return d


def evaluate(spec, year):
    """[array (steps, combinations)] of every parameter by its formula"""
    cs = pm.combos(spec["sizes"])
    n, ns = spec["n"], len(cs)
    out = []
    for p in spec["ps"]:
        k = p["k"]

        def g(x):
            return out[x["ref"]] if isinstance(x, dict) else np.full((n, ns), x)
        if k == "array":
            v = np.repeat(np.array(p["v"], float)[:, None], ns, axis=1)
        elif k in ("table", "itable"):
            v = np.array(p["v"], float)
        elif k == "constant":
            v = np.full((n, ns), p["v"] * (1.0 if p["scale"] is None else p["scale"]) + (p["offset"] or 0.0))
        elif k in ("scen", "iscen"):
            v = np.repeat(np.array([[p["v"][c[p["sc"]]] for c in cs]], float), n, axis=0)
        elif k in ("agg", "aggindex"):
            a = np.array([g(x) for x in p["of"]])
            v = {"sum": lambda: a.sum(0), "product": lambda: a.prod(0), "mean": lambda: a.mean(0), "median": lambda: np.median(a, axis=0),
                 "min": lambda: a.min(0), "max": lambda: a.max(0), "any": lambda: (a != 0).any(0) * 1.0, "all": lambda: (a != 0).all(0) * 1.0}[p["f"]]()
        elif k == "division":
            if (g(p["of"][1]) == 0).any():
                return None
            v = g(p["of"][0]) / g(p["of"][1])
        elif k == "indexed":
            idx = out[p["idx"]["ref"]]
            if (idx > 3).any():
                return None
            v = np.choose(idx.astype(int), [g(x) for x in p["of"]])
        elif k == "discount":
            v = np.repeat(np.array([(1 + p["rate"]) ** (p["base"] - y) for y in year])[:, None], ns, axis=1)
        else:
            x = g(p["of"][0])
            c = p.get("c")
            c = 0.0 if c is None else c
            v = {"negative": lambda: -x, "max": lambda: np.maximum(x, c), "min": lambda: np.minimum(x, c), "negativemax": lambda: np.maximum(-x, c),
                 "negativemin": lambda: np.minimum(-x, c), "offset": lambda: x + c, "scaled": lambda: x * c}[k]()
        out.append(v)
    return out


def t_graph(spec, ev):
    clock = {"step": {"kind": "D", "n": 1, "form": "int", "anchor": None}, "start": spec["start"], "n": spec["n"]}
    ref = evaluate(spec, [d.year for _, _, d in pm.steps(clock)])
    if ref is None or any(np.abs(v).max() > 1e12 for v in ref):
        ev.tag("undefined")
        return
    nets.register()
    # parameters used once can be defined where they are used
    uses = {}
    for p in spec["ps"]:
        for x in p.get("of", []) + [p.get("idx")]:
            if isinstance(x, dict):
                uses[x["ref"]] = uses.get(x["ref"], 0) + 1
    inline = {i for i in range(len(spec["ps"])) if spec["inline"][i] and uses.get(i) == 1}
    names = [i for i in spec["order"] if i not in inline]
    doc = pm.document(clock, spec["sizes"])
    doc["parameters"] = {"p%d" % i: parameter_doc(spec, i, inline) for i in names}
    drive = "p%d" % names[0]
    doc["nodes"] = [{"name": "in", "type": "Input"},
                    {"name": "out", "type": "Output", "max_flow": {"type": "max", "parameter": drive, "threshold": 0.0}, "cost": -1.0}]
    model = nets.load(doc)
    # python-only ones, on top of what was loaded
    from pywr.parameters import AggregatedParameter, FunctionParameter
    first = model.parameters[drive]
    over = AggregatedParameter(model, [first, first] if spec["late"] else [first], agg_func=lambda vs: sum(vs) * 2 + len(vs), name="over")
    fn = FunctionParameter(model, None, lambda parent, ts, si: ts.index * 10.0 + si.global_id, name="fn")
    both = AggregatedParameter(model, [over, fn], agg_func="sum", name="both")
    model.setup()
    for t in range(spec["n"]):
        model.step()
        for i in names:
            par = model.parameters["p%d" % i]
            got = np.array(par.get_all_values())
            for s in range(got.size):
                req_close("step %d combination %d: %s %s" % (t, s, "p%d" % i, parameter_doc(spec, i, inline)), got[s], ref[i][t, s], 1e-9, 1e-9)
                if spec["ps"][i]["k"] in ("aggindex", "itable", "iscen"):
                    req_close("step %d combination %d: index of p%d" % (t, s, i), par.get_all_indices()[s], ref[i][t, s], 0, 0)
            p = spec["ps"][i]
            if any(isinstance(x, dict) and "of" in spec["ps"][x["ref"]] for x in p.get("of", [])):
                ev.nt(len(set(ref[i].ravel().tolist())) > 1)
            ev.tag(p["k"] + (":" + p["f"] if "f" in p else ""))
        m = 2 if spec["late"] else 1
        for s in range(ref[0].shape[1]):
            d = ref[names[0]][t, s]
            req_close("step %d combination %d: flow driven by %s" % (t, s, drive), model.nodes["out"].flow[s], max(d, 0.0), 1e-6, 1e-6)
            w = 2 * m * d + m
            req_close("step %d combination %d: custom aggregate" % (t, s), over.get_all_values()[s], w, 1e-9, 1e-9)
            req_close("step %d combination %d: function" % (t, s), fn.get_all_values()[s], 10.0 * t + s, 0, 0)
            req_close("step %d combination %d: sum of the two" % (t, s), both.get_all_values()[s], w + 10 * t + s, 1e-9, 1e-9)


@st.composite
def cycles(draw):
    n = draw(st.integers(1, 5))
    return {"n": n, "kinds": [draw(st.sampled_from(["agg", "negative", "offset", "division", "indexed"])) for _ in range(n)],
            "late": draw(st.booleans()), "tail": draw(st.integers(0, 2)), "solver": draw(st.sampled_from(["glpk", "lpsolve"]))}


def t_cycle(spec, ev):
    """p0 <- p1 <- ... <- p0 in the document, or closed afterwards through the programming interface"""
    clock = {"step": {"kind": "D", "n": 1, "form": "int", "anchor": None}, "start": "2015-01-01", "n": 2}
    n = spec["n"]
    ps = {}
    for i, k in enumerate(spec["kinds"]):
        x = "p%d" % ((i + 1) % n)
        if spec["late"] and i == n - 1:
            x = {"type": "constant", "value": 1.0}
            k = "agg"
        ps["p%d" % i] = {"agg": {"type": "aggregated", "agg_func": "sum", "parameters": [1.0, x]}, "negative": {"type": "negative", "parameter": x},
                         "offset": {"type": "offset", "offset": 1.0, "parameter": x},
                         "division": {"type": "division", "numerator": {"type": "constant", "value": 1.0}, "denominator": x},
                         "indexed": {"type": "indexedarray", "index_parameter": {"type": "verifindex", "table": [[0], [0]]}, "params": [x, 2.0]}}[k]
    for j in range(spec["tail"]):
        ps["q%d" % j] = {"type": "negative", "parameter": "p0"}
    nets.register()
    doc = pm.document(clock, (), ps, spec["solver"])
    ev.nt()
    ev.tag("closed later" if spec["late"] else "in the document", "self" if n == 1 else "longer")
    try:
        model = nets.load(doc)
        if spec["late"]:
            model.parameters["p%d" % (n - 1)].add(model.parameters["p0"])
        model.run()
    except Exception:
        return
    require(False, "parameters that depend on each other in a circle were accepted: %r" % ps)


TESTS = [Test("graph", graphs(), t_graph, 1600, 3), Test("cycle", cycles(), t_cycle, 150, 0.3)]
