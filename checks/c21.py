"""C21: aggregated nodes constrain and report the sum of their members."""

import math

import numpy as np
from hypothesis import strategies as st

from harness import nets, extras
from harness.core import Test, Violation, require, req_close
from checks import c01
from checks.c02 import check_asked

TECHNIQUE = "random networks with aggregated nodes, differential against the LP with exactly the documented extra rows; run invariants"
RULE = ("random networks with one to three aggregated nodes (constant or varying factors, weights and limits; members in series or parallel) "
        "or aggregated storages over real and virtual storages; non-trivial: a member flows, or an aggregate's volume changes")
NOTE = "Cost equals the reference optimum with only the documented rows, and reported sums, ratios and limits hold in every generated step."


@st.composite
def with_agg(draw):
    spec = draw(extras.with_extras(nets.networks(max_scen=2, max_n=3), max_agg=3, max_vs=0))
    if not spec["agg"]:
        o = [d["name"] for d in spec["nodes"] if d["type"] in ("Input", "Output", "Link")]
        spec["agg"] = [{"name": "agg0", "type": "AggregatedNode", "nodes": draw(st.lists(st.sampled_from(o), min_size=1, max_size=3, unique=True)),
                        "max": draw(nets.flows)}]
    return spec


def t_nodes(spec, ev):
    doc = nets.document(spec)
    doc["nodes"] += extras.docs(spec)
    series = spec["solver"] == "glpk" or spec["solver"] == "lpsolve"
    model = nets.load(doc)
    problem = nets.Problem(spec["nodes"], spec["edges"])
    problem.solve_plain = problem.solve
    problem.solve = lambda t, s, v, d: problem.solve_plain(t, s, v, d, extras.rows(problem, spec, t, s, v, d))
    ev.tag(spec["solver"], *["factors" if "factors" in a else "no factors" for a in spec["agg"]])

    def judge(t, s, ref, vols, days):
        if s == 0:
            check_asked(model, t)
        flows = {x: float(model.nodes[x].flow[s]) for x in problem.nodes}
        tot = sum(abs(f) for f in flows.values())
        what = "step %d scenario %d: " % (t, s)
        for a in spec["agg"]:
            w = a.get("weights", [1.0] * len(a["nodes"]))
            got = float(model.nodes[a["name"]].flow[s])
            want = sum(k * flows[x] for x, k in zip(a["nodes"], w))
            e = 1e-6 * (1 + tot)
            req_close(what + "flow of %s, members %r" % (a["name"], [flows[x] for x in a["nodes"]]), got, want, 0, e)
            lo, hi = nets.val(a.get("min", 0.0), t, s), nets.val(a["max"], t, s) if "max" in a else nets.INF
            require(lo - e <= got <= hi + e, what + "flow of %s is %r, outside [%r, %r]" % (a["name"], got, lo, hi))
            if "factors" in a:
                f = [nets.val(x, t, s) for x in a["factors"]]
                for x, k in zip(a["nodes"][1:], f[1:]):
                    req_close(what + "ratio of %s to %s in %s" % (x, a["nodes"][0], a["name"]), flows[x] * f[0], flows[a["nodes"][0]] * k, 0, 5 * e)
            ev.nt(any(flows[x] > 1e-6 for x in a["nodes"]))
        cost = sum(nets.val(d.get("cost", 0.0), t, s) * flows[x] for x, d in problem.nodes.items())
        req_close(what + "total cost (flows %r)" % flows, cost, ref[1], 0, c01.tol(problem, t, s, flows))
    c01.simulate(spec, ev, model, problem, judge)


# ---------------------------------------------------------------------------------------------------------------

@st.composite
def agg_storages(draw):
    spec = draw(nets.networks(max_storages=3, max_inputs=2, max_outputs=2, max_links=2, max_scen=2, max_n=8, steps="dwxm"))
    while sum(d["type"] == "Storage" for d in spec["nodes"]) < 1 + draw(st.integers(0, 1)):
        k = len(spec["nodes"])
        mx = float(draw(st.integers(1, 60)))
        spec["nodes"].append({"name": "sx%d" % k, "type": "Storage", "nin": 1, "nout": 1, "minv": 0.0, "maxv": mx, "init": mx / 2,
                              "cost": draw(nets.costs)})
        i = next(d["name"] for d in spec["nodes"] if d["type"] == "Input")
        o = next(d["name"] for d in spec["nodes"] if d["type"] == "Output")
        spec["edges"] += [[i, "sx%d" % k, None, 0], ["sx%d" % k, o, 0, None]]
    plain = [d["name"] for d in spec["nodes"] if d["type"] in ("Input", "Output", "Link")]
    spec["vs"] = []
    for k in range(draw(st.integers(0, 2))):
        v = {"name": "vs%d" % k, "type": draw(st.sampled_from(["VirtualStorage", "AnnualVirtualStorage", "MonthlyVirtualStorage", "RollingVirtualStorage"])),
             "nodes": [draw(st.sampled_from(plain))], "minv": 0.0, "maxv": float(draw(st.integers(1, 200)))}
        v["init"] = v["maxv"] * draw(st.sampled_from([0.25, 0.5, 1.0]))
        if v["type"] == "AnnualVirtualStorage":
            v["extra"] = {"reset_month": draw(st.sampled_from([1, 1, 2, 3])), "reset_day": draw(st.integers(1, 28))}
        elif v["type"] == "RollingVirtualStorage":
            v["extra"] = {"timesteps": draw(st.integers(2, 4))}
        spec["vs"].append(v)
    names = [d["name"] for d in spec["nodes"] if d["type"] == "Storage"] + [v["name"] for v in spec["vs"]]
    spec["members"] = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True))
    return spec


def t_storages(spec, ev):
    from pywr.parameters import Parameter
    doc = nets.document(spec)
    doc["nodes"] += extras.docs(spec)
    doc["nodes"].append({"name": "total", "type": "AggregatedStorage", "storage_nodes": list(spec["members"])})
    model = nets.load(doc)
    total = model.nodes["total"]
    parts = [model.nodes[x] for x in spec["members"]]
    by = {d["name"]: d for d in spec["nodes"] + spec["vs"]}
    const = not any(isinstance(by[x]["maxv"], dict) for x in spec["members"])
    seen = []

    class Probe(Parameter):
        def value(self, ts, si):
            s = si.global_id
            seen.append((ts.index, s, float(total.volume[s]), sum(float(p.volume[s]) for p in parts), float(total.current_pc[s])))
            return 0.0
    Probe(model, name="probe")

    def maxima(t, s):
        return sum(nets.val(by[x]["maxv"], t, s) for x in spec["members"])

    def now(t, what):
        for s in range(spec["ns"]):
            vols = [float(p.volume[s]) for p in parts]
            req_close(what + " scenario %d: total of %r" % (s, vols), total.volume[s], sum(vols), 1e-7, 2e-6 * len(parts))
            if t is not None or const:
                mx = maxima(t, s)
                if mx > 0:
                    req_close(what + " scenario %d: share of the total" % s, total.current_pc[s], sum(vols) / mx, 1e-7, 2e-6 * len(parts) / mx)
                else:
                    require(math.isnan(total.current_pc[s]), what + " share of nothing is %r" % float(total.current_pc[s]))
    model.setup()
    ev.tag(*[by[x]["type"] for x in spec["members"]])
    for rerun in range(2):
        now(None, "at the start")
        before = [np.array(p.volume) for p in parts]
        for t in range(spec["n"]):
            try:
                model.step()
            except RuntimeError:
                ev.tag("infeasible")
                return
            now(t, "after step %d" % t)
            check_asked(model, t)
            for which in ("min", "max"):
                want = np.sum([getattr(p, "get_all_%s_volume" % which)() for p in parts], axis=0)
                for out in (None, np.full(spec["ns"], 3.0)):
                    got = getattr(total, "get_all_%s_volume" % which)(out)
                    req_close("after step %d: %simum volume of the total" % (t, which), float(np.abs(np.array(got) - want).max()), 0.0, 0, 1e-6)
            for s in range(spec["ns"]):
                req_close("step %d scenario %d: flow of the total" % (t, s), total.flow[s], sum(float(p.flow[s]) for p in parts), 1e-7, 1e-6)
            ev.nt(any(np.abs(np.array(p.volume) - b).max() > 1e-6 for p, b in zip(parts, before)))
        model.reset()
    for t, s, got, want, pc in seen:
        req_close("during step %d scenario %d: total" % (t, s), got, want, 1e-7, 2e-6 * len(parts))
        if const and maxima(t, s) > 0:
            req_close("during step %d scenario %d: share of the total" % (t, s), pc, want / maxima(t, s), 1e-7, 2e-6 * len(parts) / maxima(t, s))


TESTS = [Test("nodes", with_agg(), t_nodes, 1200, 2), Test("storages", agg_storages(), t_storages, 800, 2)]
