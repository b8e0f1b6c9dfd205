"""C01: every allocation is a least-cost solution of the documented problem."""

import numpy as np

from harness import nets
from harness.core import Test, Violation, require

TECHNIQUE = "random networks, differential against an independent LP solved by HiGHS in every time-step"
RULE = ("networks of inputs, links, outputs and storages with random wiring, costs, bounds (constant, per step, per scenario), solver, "
        "options and step length; non-trivial: a time-step with non-zero total flow, or an infeasible problem that must be refused")
NOTE = ("Every generated time-step's total cost equals that of an independently formulated LP at the same volumes; infeasible problems "
        "are refused. Trusts SciPy/HiGHS and networks up to about a dozen nodes.")


def tol(problem, t, s, flows):
    return 1e-6 * (1 + sum(abs(nets.val(d.get("cost", 0.0), t, s)) * abs(flows.get(x, 0.0)) for x, d in problem.nodes.items()))


def volumes_now(model, spec):
    return {d["name"]: np.array(model.nodes[d["name"]].volume, dtype=float) for d in spec["nodes"] if d["type"] == "Storage"}


def step_days(spec, t):
    from harness import cal
    if nets.STEPS[spec["step"]][0] == "M":
        a = cal.add_months(cal.parse(spec["start"]), t)
        return (cal.add_months(a, 1) - a).days
    return nets.STEPS[spec["step"]][1]


def simulate(spec, ev, model, problem, judge):
    """steps the model, solving the reference problem for each scenario at the volumes the model has"""
    model.setup()
    for t in range(spec["n"]):
        vols = volumes_now(model, spec)
        days = step_days(spec, t)
        ref = []
        for s in range(spec["ns"]):
            ref.append(problem.solve(t, s, {k: v[s] for k, v in vols.items()}, days))
        if any(r[0] in ("unknown", "unbounded") or (r[0] == "infeasible" and r[1] < 1e-2) for r in ref):
            ev.tag("undecided: " + ",".join(sorted({r[0] for r in ref})))
            return
        bad = [s for s in range(spec["ns"]) if ref[s][0] == "infeasible"]
        try:
            model.step()
        except RuntimeError as e:
            if "singular" in str(e) and not spec["args"].get("retry_solve"):
                # a saved basis can become singular when factors vary; retry_solve is the documented remedy
                ev.tag("singular basis without retry_solve")
                return
            if not bad:
                raise Violation("step %d: %s although a feasible allocation exists (cost %r)" % (t, e, [r[1] for r in ref]))
            ev.tag("infeasible refused")
            ev.nt()
            return
        if bad:
            raise Violation("step %d: no error although scenario %d is infeasible (by %r)" % (t, bad[0], ref[bad[0]][1]))
        for s in range(spec["ns"]):
            judge(t, s, ref[s], {k: v[s] for k, v in vols.items()}, days)


def t_optimal(spec, ev):
    model = nets.load(nets.document(spec))
    problem = nets.Problem(spec["nodes"], spec["edges"])
    ev.tag(spec["solver"], "storages" if any(d["type"] == "Storage" for d in spec["nodes"]) else "no storage")
    for k in spec["args"]:
        ev.tag(k)

    def judge(t, s, ref, vols, days):
        flows = {x: float(model.nodes[x].flow[s]) for x in problem.nodes}
        cost = sum(nets.val(d.get("cost", 0.0), t, s) * flows[x] for x, d in problem.nodes.items())
        e = tol(problem, t, s, flows)
        if cost > ref[1] + e:
            raise Violation("step %d scenario %d: total cost %r, least cost is %r (flows %r)" % (t, s, cost, ref[1], flows))
        if cost < ref[1] - e:
            raise Violation("step %d scenario %d: total cost %r is below the least cost %r: a constraint is broken (flows %r)"
                            % (t, s, cost, ref[1], flows))
        ev.nt(sum(abs(f) for f in flows.values()) > 1e-6)
    simulate(spec, ev, model, problem, judge)


TESTS = [Test("optimal", nets.networks(), t_optimal, 1920, 3)]


# ---------------------------------------------------------------------------------------------------------------
# two domains: an output of one drives inputs of the other

from hypothesis import strategies as st   # noqa: E402


@st.composite
def two_domains(draw):
    kw = dict(max_inputs=2, max_outputs=2, max_links=3, max_storages=1, max_n=2, max_scen=2, steps="dw", min_flow=False, options=False,
              vary_volume=False)
    a = draw(nets.networks(solvers=("glpk", "glpk-edge", "lpsolve"), **kw))
    b = draw(nets.networks(solvers=(a["solver"],), **kw))
    spec = dict(a)
    n, ns = a["n"], a["ns"]

    def clip(v):
        return float(nets.all_vals(v)[0]) if isinstance(v, dict) else v
    nodes, edges = [dict(d, domain="") for d in a["nodes"]], [list(e) for e in a["edges"]]
    for d in b["nodes"]:
        d = {k: (clip(v) if k in ("max", "min", "cost", "maxv") else v) for k, v in d.items()}
        nodes.append(dict(d, name="b" + d["name"], domain="B"))
    for e in b["edges"]:
        edges.append(["b" + e[0], "b" + e[1], e[2], e[3]])
    outs = [d["name"] for d in a["nodes"] if d["type"] == "Output"]
    ins = ["b" + d["name"] for d in b["nodes"] if d["type"] == "Input"]
    cross = []
    for i in ins:
        if draw(st.integers(0, 3)) or not cross:
            cross.append([draw(st.sampled_from(outs)), i])
    for d in nodes:
        if d["name"] in ins:
            d["conv"] = draw(st.sampled_from([1.0, 0.5, 2.0, 0.1, 4.0]))
        if d["name"] in outs and "max" not in d:
            d["max"] = 20.0
    spec.update(nodes=nodes, edges=edges, cross=cross, n=n, ns=ns)
    return spec


def t_domains(spec, ev):
    doc = nets.document(spec)
    doc.pop("api", None)
    for d, out in zip(spec["nodes"], doc["nodes"]):
        if "conv" in d:
            out["conversion_factor"] = d["conv"]
    doc["edges"] += [list(c) for c in spec["cross"]]
    model = nets.load(doc)
    from pywr.domains import Domain
    other = Domain("B")
    for d in spec["nodes"]:
        if d["domain"]:
            model.nodes[d["name"]].domain = other
    problem = nets.Problem(spec["nodes"], spec["edges"])
    extra = []
    conv = {d["name"]: d.get("conv", 1.0) for d in spec["nodes"]}
    for o in sorted({c[0] for c in spec["cross"]}):
        row = -problem.vec[o]
        for c in spec["cross"]:
            if c[0] == o:
                row = row + problem.vec[c[1]] / conv[c[1]]
        extra.append((row, 0.0, 0.0))
    problem.solve_plain = problem.solve
    problem.solve = lambda t, s, v, d: problem.solve_plain(t, s, v, d, extra)
    ev.tag(spec["solver"])

    def judge(t, s, ref, vols, days):
        flows = {x: float(model.nodes[x].flow[s]) for x in problem.nodes}
        cost = sum(nets.val(d.get("cost", 0.0), t, s) * flows[x] for x, d in problem.nodes.items())
        e = tol(problem, t, s, flows)
        require(abs(cost - ref[1]) <= e, "step %d scenario %d: total cost %r, least cost is %r (flows %r)" % (t, s, cost, ref[1], flows))
        for o in sorted({c[0] for c in spec["cross"]}):
            want = sum(flows[i] / conv[i] for oo, i in spec["cross"] if oo == o)
            require(abs(flows[o] - want) <= 1e-6 * (1 + abs(want)), "output %s flows %r, its inputs in the other domain need %r" % (o, flows[o], want))
            ev.nt(want > 1e-6)
    simulate(spec, ev, model, problem, judge)


TESTS.append(Test("domains", two_domains(), t_domains, 480, 1))
TESTS.append(Test("larger", nets.networks(max_inputs=4, max_outputs=4, max_links=9, max_storages=4, max_n=3, max_scen=2), t_optimal, 480, 1))
