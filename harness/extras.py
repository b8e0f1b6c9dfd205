"""Virtual storages and aggregated nodes on top of a network spec, and the rows they add to the reference problem."""

import numpy as np
from hypothesis import strategies as st

from harness import nets

weights = st.sampled_from([1.0, 1.0, 2.0, 0.5, 0.25, 3.0])


@st.composite
def with_extras(draw, base, max_agg=2, max_vs=2, factors=True, vary=True, series=True, limits=True):
    spec = draw(base)
    n, ns, lp = spec["n"], spec["ns"], spec["solver"] == "lpsolve"
    var = ("c", "c", "p", "t", "s", "ts") if vary and not lp else ("c",)
    plain = [d["name"] for d in spec["nodes"] if d["type"] in ("Input", "Output", "Link")]
    ins = [d["name"] for d in spec["nodes"] if d["type"] == "Input"]
    outs = [d["name"] for d in spec["nodes"] if d["type"] == "Output"]
    spec["agg"], spec["vs"] = [], []
    for k in range(draw(st.integers(0, max_agg))):
        a = {"name": "agg%d" % k, "type": "AggregatedNode"}
        ends = [x for x in (ins, outs) if len(x) > 1]
        if factors and ends and draw(st.booleans()):
            a["nodes"] = draw(st.lists(st.sampled_from(draw(st.sampled_from(ends))), min_size=2, max_size=3, unique=True))
            a["factors"] = [draw(nets.varying(weights, n, ns, var)) for _ in a["nodes"]]
        else:
            pool = plain if series else draw(st.sampled_from([ins, outs]))
            a["nodes"] = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))
        if draw(st.integers(0, 2)) == 0:
            a["weights"] = [draw(weights) for _ in a["nodes"]]
            if draw(st.booleans()):         # differences too
                a["weights"] = [w * draw(st.sampled_from([1.0, -1.0])) for w in a["weights"]]
        if limits and draw(st.integers(0, 3)):
            a["max"] = draw(nets.varying(nets.flows, n, ns, var))
        if limits and draw(st.integers(0, 4)) == 0:
            top = min(nets.all_vals(a.get("max", 4.0)))
            a["min"] = draw(nets.varying(st.sampled_from([0.25, 0.5, 1.0]).map(lambda f: round(f * top * 4) / 4 if f * top <= top else 0.0), n, ns, var))
            if max(nets.all_vals(a["min"])) > top:
                a["min"] = 0.0
        if limits and min(a.get("weights", [1.0])) < 0.0 and draw(st.booleans()):
            a["min"] = draw(nets.varying(st.sampled_from([0.0, 1.0, 2.0, 5.0, 1e6]).map(lambda x: -x), n, ns, var))
        spec["agg"].append(a)
    for k in range(draw(st.integers(0, max_vs))):
        v = {"name": "vs%d" % k, "type": "VirtualStorage"}
        v["nodes"] = draw(st.lists(st.sampled_from(plain), min_size=1, max_size=3, unique=True))
        if draw(st.booleans()):
            v["factors"] = [draw(weights) for _ in v["nodes"]]
        v["maxv"] = float(draw(st.integers(0, 80)))
        v["minv"] = draw(st.sampled_from([0.0, 0.0, 0.25])) * v["maxv"]
        f = draw(st.sampled_from([0.25, 0.5, 1.0, 1.0]))
        v["init"] = v["minv"] + f * (v["maxv"] - v["minv"])
        spec["vs"].append(v)
    return spec


def docs(spec):
    out = []
    for a in spec.get("agg", []):
        d = {"name": a["name"], "type": a["type"], "nodes": list(a["nodes"])}
        if "factors" in a:
            d["factors"] = [nets.param_doc(f) for f in a["factors"]]
        if "weights" in a:
            d["flow_weights"] = list(a["weights"])
        for k, kk in (("max", "max_flow"), ("min", "min_flow")):
            if k in a:
                d[kk] = nets.param_doc(a[k])
        out.append(d)
    for v in spec.get("vs", []):
        d = {"name": v["name"], "type": v["type"], "nodes": list(v["nodes"]), "min_volume": v["minv"], "max_volume": v["maxv"],
             "initial_volume": v["init"]}
        if "factors" in v:
            d["factors"] = list(v["factors"])
        d.update(v.get("extra", {}))
        out.append(d)
    return out


def agg_vec(problem, a):
    w = a.get("weights", [1.0] * len(a["nodes"]))
    return sum((problem.vec[x] * k for x, k in zip(a["nodes"], w)), np.zeros(len(problem.edges)))


def vs_vec(problem, v):
    f = v.get("factors", [1.0] * len(v["nodes"]))
    return sum((problem.vec[x] * k for x, k in zip(v["nodes"], f)), np.zeros(len(problem.edges)))


def rows(problem, spec, t, s, volumes, days, active=None):
    """volumes: of the virtual storages; active: names of those in force"""
    out = []
    for a in spec.get("agg", []):
        vec = agg_vec(problem, a)
        lo = nets.val(a.get("min", 0.0), t, s)
        hi = nets.val(a["max"], t, s) if "max" in a else nets.INF
        out.append((vec, lo, hi))
        if "factors" in a:
            f = [nets.val(x, t, s) for x in a["factors"]]
            for x, k in zip(a["nodes"][1:], f[1:]):
                out.append((problem.vec[a["nodes"][0]] * k - problem.vec[x] * f[0], 0.0, 0.0))
    for v in spec.get("vs", []):
        if active is not None and v["name"] not in active:
            continue
        vec = vs_vec(problem, v)
        mx, mn = nets.val(v["maxv"], t, s), nets.val(v["minv"], t, s)
        if mx == mn:
            out.append((vec, 0.0, 0.0))
        else:
            vol = volumes[v["name"]]
            out.append((vec, -max(mx - vol, 0.0) / days, max(vol - mn, 0.0) / days))
    return out
