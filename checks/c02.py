"""C02: reported flows obey bounds and conserve water through the network."""

import numpy as np

from harness import nets, compound
from harness.core import Test, Violation, require

TECHNIQUE = "random networks; invariants over every time-step: bounds, and existence of conserving connection flows (flow decomposition)"
RULE = ("random networks of elementary and compound nodes, solver, options, step length, values per step and scenario; "
        "non-trivial: a solved time-step with non-zero flow in the network")
NOTE = ("Every reported flow of every generated step lies in its bounds, and non-negative connection flows reproducing all of them exist; "
        "saved route flows sum to the node flows. Networks up to about 15 nodes.")


def run_steps(model, n, ev, each):
    model.setup()
    for t in range(n):
        try:
            model.step()
        except RuntimeError:
            ev.tag("infeasible")
            return
        each(t)


def check_bounds(spec, model, t, ev):
    for d in spec["nodes"]:
        if d["type"] in ("Input", "Output", "Link"):
            for s in range(spec["ns"]):
                f = float(model.nodes[d["name"]].flow[s])
                lo = nets.val(d.get("min", 0.0), t, s)
                hi = nets.val(d["max"], t, s) if "max" in d else nets.INF
                e = 1e-6 * (1 + abs(f))
                require(lo - e <= f <= hi + e, "step %d scenario %d: flow of %s is %r, outside [%r, %r]" % (t, s, d["name"], f, lo, hi))
                ev.nt(f > 1e-6)


PAIRS = [("get_min_flow", "get_all_min_flow"), ("get_max_flow", "get_all_max_flow"), ("get_cost", "get_all_cost"),
         ("get_min_volume", "get_all_min_volume"), ("get_max_volume", "get_all_max_volume")]


def check_asked(model, t):
    """limits and costs asked of any node of the model: one scenario or all of them, and the flows lie in these limits"""
    combs = model.scenarios.combinations
    for node in model.graph.nodes():
        asked = {}
        for one, every in PAIRS:
            try:
                a = [float(getattr(node, one)(c)) for c in combs]
                b = getattr(node, every)()
            except (AttributeError, NotImplementedError):
                continue
            out = np.full(len(combs), 7.5)
            getattr(node, every)(out)
            for how, x in (("", np.array(b)), (" into an array", out)):
                require(len(x) == len(a) and all(p == q for p, q in zip(a, x)),
                        "step %d: %s of %s is %r, %s%s gives %r" % (t, one, node.name, a, every, how, np.array(x).tolist()))
            asked[one] = a
        if "get_min_flow" in asked and "get_max_flow" in asked:
            for s, f in enumerate(np.array(node.flow).tolist()):
                e = 1e-6 * (1 + abs(f))
                lo, hi = asked["get_min_flow"][s], asked["get_max_flow"][s]
                require(lo - e <= f <= hi + e, "step %d scenario %d: flow of %s is %r, outside [%r, %r]" % (t, s, node.name, f, lo, hi))


def t_network(spec, ev):
    doc = nets.document(spec)
    routes = spec["solver"] != "glpk-edge"
    if routes:
        doc["solver"]["save_routes_flows"] = True
    model = nets.load(doc)
    problem = nets.Problem(spec["nodes"], spec["edges"])
    m = len(spec["edges"])
    ev.tag(spec["solver"])

    def each(t):
        check_bounds(spec, model, t, ev)
        check_asked(model, t)
        for s in range(spec["ns"]):
            vals = {x: float(nets.node_flow(model, problem, x, s)) for x in problem.vec}
            gap = nets.explain(list(problem.vec.values()), list(vals.values()), problem.balance, m)
            tot = sum(abs(v) for v in vals.values())
            require(gap <= 1e-6 * (1 + tot), "step %d scenario %d: no conserving flows give the reported ones %r (gap %r)" % (t, s, vals, gap))
        if routes:
            check_routes(spec, model, t, ev)
    run_steps(model, spec["n"], ev, each)


def check_routes(spec, model, t, ev):
    solver = model.solver
    flows = np.array(solver.routes_flows_array)
    routes = solver.routes
    require(flows.shape == (spec["ns"], len(routes)), "route flows have shape %r for %d routes" % (flows.shape, len(routes)))
    require((flows >= -1e-7 * (1 + np.abs(flows).max(initial=0))).all(), "negative route flow")
    total = {}
    for k, route in enumerate(routes):
        for node in {id(x): x for x in route}.values():
            total.setdefault(node, np.zeros(spec["ns"]))
            total[node] += flows[:, k]
        for a, b in zip(route[:-1], route[1:]):
            require(model.graph.has_edge(a, b), "route over a missing edge")
    for node in model.graph.nodes():
        if getattr(node, "inputs", None) is not None and hasattr(node, "volume"):
            continue
        want = total.get(node, np.zeros(spec["ns"]))
        got = np.array(node.flow)
        require(np.allclose(want, got, rtol=1e-6, atol=1e-6),
                "step %d: routes through %s carry %r, its flow is %r" % (t, node.name, want.tolist(), got.tolist()))


def leaf_conservation(model, s):
    """discrepancy of the reported flows of all elementary nodes of the graph"""
    from pywr.core import BaseInput, BaseOutput, BaseLink
    edges = [(a, b) for a, b in model.graph.edges() if a.domain is b.domain]
    m = len(edges)
    vectors, values = [], []
    for node in model.graph.nodes():
        ins, outs = np.zeros(m), np.zeros(m)
        for j, (a, b) in enumerate(edges):
            if a is node:
                outs[j] += 1
            if b is node:
                ins[j] += 1
        if not isinstance(node, (BaseInput, BaseOutput, BaseLink)):
            continue
        f = float(node.flow[s])
        if isinstance(node, BaseLink):
            vectors += [ins, outs]
            values += [f, f]
        elif isinstance(node, BaseInput):
            vectors.append(outs), values.append(f)
        else:
            vectors.append(ins), values.append(f)
    return nets.explain(vectors, values, [], m), sum(abs(v) for v in values)


def t_compound(spec, ev):
    model = nets.load(compound.document(spec))
    ev.tag(spec["solver"], *sorted({d["type"] for d in spec["nodes"]}))
    x = compound.Expanded(spec)

    def each(t):
        check_bounds(spec, model, t, ev)
        check_asked(model, t)
        for s in range(spec["ns"]):
            gap, tot = leaf_conservation(model, s)
            require(gap <= 1e-6 * (1 + tot), "step %d scenario %d: no conserving flows give the reported ones (gap %r)" % (t, s, gap))
            # across compound nodes: the reported flows of the visible nodes
            names = [k for k in x.reports if not hasattr(model.nodes[k], "volume")]
            vals = [float(model.nodes[k].flow[s]) for k in names]
            gap = nets.explain([x.reports[k] for k in names], vals, x.balance, len(x.edges))
            require(gap <= 1e-6 * (1 + sum(abs(v) for v in vals)),
                    "step %d scenario %d: the reported flows %r are not conserved" % (t, s, dict(zip(names, vals))))
            for d in spec["nodes"]:
                if d["type"] == "LossLink":
                    net = float(model.nodes[d["name"]].flow[s])
                    lo, hi = nets.val(d.get("min", 0.0), t, s), nets.val(d["max"], t, s) if "max" in d else nets.INF
                    require(lo - 1e-6 * (1 + net) <= net <= hi + 1e-6 * (1 + net), "net flow %r of %s outside its bounds" % (net, d["name"]))
    run_steps(model, spec["n"], ev, each)


TESTS = [Test("network", nets.networks(), t_network, 1200, 3),
         Test("compound", compound.compounds(), t_compound, 960, 3)]
