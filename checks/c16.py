"""C16: virtual storages account for and limit the flow of their nodes."""

import numpy as np
from hypothesis import strategies as st

from harness import nets, extras
from harness.core import Test, Violation, require, req_close
from checks import c01

TECHNIQUE = "random networks with virtual storages, differential against the LP with exactly the licence rows, and a volume model over the run"
RULE = ("random networks with one to three virtual storages (factors, limits that may vary, switched on and off between steps); "
        "non-trivial: a virtual storage's volume changed")
NOTE = ("Volume, limits and least cost with exactly the documented rows hold in every generated step; an inactive virtual storage neither "
        "constrains nor is charged.")


@st.composite
def licensed(draw):
    spec = draw(extras.with_extras(nets.networks(max_scen=3, max_n=5, max_links=3, max_storages=1), max_agg=0, max_vs=3))
    plain = [d["name"] for d in spec["nodes"] if d["type"] in ("Input", "Output", "Link")]
    if not spec["vs"]:
        mx = float(draw(st.integers(1, 40)))
        spec["vs"] = [{"name": "vs0", "type": "VirtualStorage", "nodes": [draw(st.sampled_from(plain))], "minv": 0.0, "maxv": mx, "init": mx}]
    n, ns = spec["n"], spec["ns"]
    for v in spec["vs"]:
        if "factors" in v and len(v["factors"]) > 1 and draw(st.integers(0, 2)) == 0:
            v["factors"][-1] = -v["factors"][-1]
        elif draw(st.integers(0, 4)) == 0:
            # filled by its nodes
            v["factors"] = [-c for c in v.get("factors", [1.0] * len(v["nodes"]))]
            v["init"] = max(v["minv"], v["maxv"] * draw(st.sampled_from([0.25, 0.5, 0.75, 0.875])))
        how = draw(st.integers(0, 5))
        if how == 0:
            v["active"] = [draw(st.booleans()) for _ in range(n)]
        elif how == 1 and v["maxv"] > 0 and spec["solver"] != "lpsolve":
            v["maxv"] = draw(nets.varying(st.integers(int(v["maxv"]), int(v["maxv"]) + 40).map(float), n, ns, ("t", "s", "ts")))
        elif how == 2 and v["minv"] > 0 and spec["solver"] != "lpsolve":
            v["minv"] = draw(nets.varying(st.integers(0, int(v["minv"])).map(float), n, ns, ("t", "s", "ts")))
        elif how == 3 and not isinstance(v["maxv"], dict):
            v["pc"] = draw(st.sampled_from([0.5, 1.0, 0.75]))
            v["init"] = v["pc"] * v["maxv"]
    return spec


def document(spec):
    doc = nets.document(spec)
    for v, d in zip(spec["vs"], extras.docs({"vs": spec["vs"]})):
        d["max_volume"], d["min_volume"] = nets.param_doc(v["maxv"]), nets.param_doc(v["minv"])
        if "pc" in v:
            del d["initial_volume"]
            d["initial_volume_pc"] = v["pc"]
        elif isinstance(v["maxv"], dict):
            d["initial_volume_pc"] = v["init"] / max(nets.all_vals(v["maxv"]))
        doc["nodes"].append(d)
    return doc


def t_licence(spec, ev):
    model = nets.load(document(spec))
    problem = nets.Problem(spec["nodes"], spec["edges"])
    by = {v["name"]: v for v in spec["vs"]}
    ns = spec["ns"]
    ev.tag(spec["solver"])
    model.setup()
    vol = {k: np.full(ns, v["init"]) for k, v in by.items()}
    used = {k: np.zeros(ns) for k in by}
    for t in range(spec["n"]):
        days = c01.step_days(spec, t)
        active = [k for k, v in by.items() if "active" not in v or v["active"][t]]
        for k, v in by.items():
            if "active" in v:
                model.nodes[k].active = v["active"][t]
                ev.tag("active" if v["active"][t] else "inactive")
            for s in range(ns):
                req_close("before step %d scenario %d: volume of %s" % (t, s, k), model.nodes[k].volume[s], vol[k][s], 1e-9, 1e-6)
        real = c01.volumes_now(model, spec)
        ref = []
        for s in range(ns):
            rows = extras.rows(problem, spec, t, s, {k: a[s] for k, a in vol.items()}, days, active)
            ref.append(problem.solve(t, s, {k: a[s] for k, a in real.items()}, days, rows))
        if any(r[0] in ("unknown", "unbounded") or (r[0] == "infeasible" and r[1] < 1e-2) for r in ref):
            ev.tag("undecided")
            return
        bad = any(r[0] == "infeasible" for r in ref)
        try:
            model.step()
        except RuntimeError as e:
            require(bad, "step %d: %s although a feasible allocation exists (cost %r)" % (t, e, [r[1] for r in ref]))
            ev.tag("infeasible refused")
            return
        require(not bad, "step %d: no error although the step is infeasible" % t)
        for s in range(ns):
            what = "step %d scenario %d: " % (t, s)
            flows = {x: float(model.nodes[x].flow[s]) for x in problem.nodes}
            tot = sum(map(abs, flows.values()))
            cost = sum(nets.val(d.get("cost", 0.0), t, s) * flows[x] for x, d in problem.nodes.items())
            req_close(what + "total cost (flows %r)" % flows, cost, ref[s][1], 0, c01.tol(problem, t, s, flows))
            for k, v in by.items():
                node = model.nodes[k]
                f = v.get("factors", [1.0] * len(v["nodes"]))
                use = sum(c * flows[x] for c, x in zip(f, v["nodes"]))
                e = 3e-6 * (1 + tot * days)
                if k in active:
                    req_close(what + "flow of %s" % k, node.flow[s], -use, 0, 1e-6 * (1 + tot))
                    vol[k][s] -= use * days
                    used[k][s] += use * days
                    mx, mn = nets.val(v["maxv"], t, s), nets.val(v["minv"], t, s)
                    require(min(mn, vol[k][s] + use * days) - e <= vol[k][s], what + "use takes %s to %r, below its minimum %r" % (k, vol[k][s], mn))
                    require(vol[k][s] <= max(mx, vol[k][s] + use * days) + e, what + "%s is at %r, above its maximum %r" % (k, vol[k][s], mx))
                    if not isinstance(v["minv"], dict):
                        require(used[k][s] <= v["init"] - mn + e * (t + 1), what + "%s: used %r of %r" % (k, used[k][s], v["init"] - mn))
                    if mx > 0:
                        req_close(what + "proportion of %s" % k, node.current_pc[s], float(node.volume[s]) / mx, 1e-9, 1e-9)
                    ev.nt(abs(use) > 1e-6)
                req_close(what + "volume of %s" % k, node.volume[s], vol[k][s], 0, e)
                vol[k][s] = float(node.volume[s])


TESTS = [Test("licence", licensed(), t_licence, 1200, 3)]


# ---------------------------------------------------------------------------------------------------------------
# the nodes of the licence can be inline abstractions and discharges on a longer river

@st.composite
def rivers(draw):
    n = draw(st.integers(1, 5))
    m = draw(st.integers(1, 4))
    q = st.integers(0, 20).map(float)
    return {"n": n, "head": draw(q), "inline": [draw(st.one_of(st.none(), q)) for _ in range(m)],
            "demands": [draw(q) for _ in range(m)], "costs": [draw(st.integers(1, 30)) * -1.0 for _ in range(m)],
            "on": draw(st.lists(st.integers(0, 2 * m), min_size=1, max_size=3, unique=True)),
            "factors": [draw(st.sampled_from([1.0, 2.0, 0.5])) for _ in range(3)], "max": float(draw(st.integers(0, 100))),
            "solver": draw(st.sampled_from(["glpk", "lpsolve"])), "step": draw(st.sampled_from([1, 3]))}


def t_river(spec, ev):
    """head -> c0 -> ... with a discharge joining inline at some points; each point has a demand"""
    import datetime as dt
    from pywr.model import Model
    from pywr.nodes import Input, Link, Output, VirtualStorage
    start = dt.date(2015, 1, 1)
    m = Model(solver=spec["solver"], start=start, end=start + dt.timedelta(days=spec["step"] * (spec["n"] - 1)), timestep=spec["step"])
    head = Input(m, "head", max_flow=spec["head"])
    prev = head
    inl, dem, nodes = [], [], [head]
    for k, q in enumerate(spec["inline"]):
        # an Input with an upstream neighbour is an inline discharge: water from upstream passes through it
        node = Link(m, "r%d" % k) if q is None else Input(m, "r%d" % k, max_flow=q)
        prev.connect(node)
        o = Output(m, "d%d" % k, max_flow=spec["demands"][k], cost=spec["costs"][k] - 0.01 * k * 2 ** 0.5)
        node.connect(o)
        inl.append(node), dem.append(o)
        prev = node
    end = Output(m, "end", cost=0.001)
    prev.connect(end)
    nodes += inl + dem
    members = [nodes[i] for i in spec["on"]]
    factors = spec["factors"][: len(members)]
    vs = VirtualStorage(m, "vs", members, factors=factors, max_volume=spec["max"], initial_volume=spec["max"])
    m.setup()
    vol = spec["max"]
    for t in range(spec["n"]):
        # reference: a flow into each demand; each inline input's own flow; flow along the river
        nv = 1 + 2 * len(inl) + 1
        col = {head.name: 0, "end": nv - 1}
        for k in range(len(inl)):
            col["r%d" % k] = 1 + k
            col["d%d" % k] = 1 + len(inl) + k
        A, lo, hi = [], [], []

        def row(terms, l, h):
            r = np.zeros(nv)
            for i, c in terms:
                r[i] += c
            A.append(r), lo.append(l), hi.append(h)

        def through(k):
            """what passes point k: all that entered above or there, less what left above"""
            ts_ = [(0, 1.0)]
            for j in range(k + 1):
                if spec["inline"][j] is not None:
                    ts_.append((col["r%d" % j], 1.0))
                if j < k:
                    ts_.append((col["d%d" % j], -1.0))
            return ts_
        c = np.zeros(nv)
        row([(0, 1)], 0, spec["head"])
        for k, q in enumerate(spec["inline"]):
            row([(col["r%d" % k], 1)], 0, q if q is not None else 0.0)
            row([(col["d%d" % k], 1)], 0, spec["demands"][k])
            c[col["d%d" % k]] = dem[k].cost
            row(through(k) + [(col["d%d" % k], -1)], 0, np.inf)
        row(through(len(inl) - 1) + [(col["d%d" % (len(inl) - 1)], -1), (nv - 1, -1)], 0, 0)
        c[nv - 1] = 0.001
        use = []
        for node, f in zip(members, factors):
            if isinstance(node, Link):
                use += [(i, x * f) for i, x in through(int(node.name[1:]))]
            else:
                use.append((col[node.name], f))
        row(use, -np.inf, vol / spec["step"] if spec["max"] else 0.0)
        st_, best, _ = nets.solve_lp(c, A, lo, hi)
        if st_ != "optimal":
            ev.tag("undecided")
            return
        m.step()
        flows = {x.name: float(x.flow[0]) for x in nodes + [end]}
        got = sum(dem[k].cost * flows["d%d" % k] for k in range(len(dem))) + 0.001 * flows["end"]
        req_close("step %d: total cost (flows %r, licence on %r has %r)" % (t, flows, [x.name for x in members], vol), got, best, 1e-6, 1e-5)
        out = sum(f * flows[x.name] for x, f in zip(members, factors)) * spec["step"]
        req_close("step %d: volume" % t, vs.volume[0], vol - out, 1e-7, 3e-6)
        ev.nt(out > 1e-6)
        vol = float(vs.volume[0])


TESTS.append(Test("river", rivers(), t_river, 600, 1))
