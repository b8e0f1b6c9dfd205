"""Random networks as JSON specs, pywr documents built from them, and the independent LP they stand for."""

import datetime as dt

import numpy as np
from hypothesis import strategies as st

INF = float("inf")

# ---------------------------------------------------------------------------------------------------------------
# values that vary: a number, or {"k": "p"|"t"|"s"|"ts", "v": [...]} (constant parameter, time, scenario, time x scenario)


class Dyn:
    """a value the reference computes during the run, per scenario"""

    def __init__(self):
        self.cur = {}


def val(v, t, s):
    if isinstance(v, Dyn):
        return v.cur[s]
    if isinstance(v, dict):
        if v["k"] == "t":
            return float(v["v"][t])
        if v["k"] == "s":
            return float(v["v"][s])
        if v["k"] == "p":
            return float(v["v"][0])
        return float(v["v"][t][s])
    return float(v)


def all_vals(v):
    if isinstance(v, dict):
        out = []
        for x in v["v"]:
            out.extend(x if isinstance(x, list) else [x])
        return out
    return [v]


@st.composite
def varying(draw, base, n, ns, kinds=("c", "c", "c", "p", "t", "s", "ts")):
    k = draw(st.sampled_from([k for k in kinds if ns > 1 or "s" not in k]))
    if k == "p":
        return {"k": "p", "v": [draw(base)]}
    if k == "t":
        return {"k": "t", "v": [draw(base) for _ in range(n)]}
    if k == "s":
        return {"k": "s", "v": [draw(base) for _ in range(ns)]}
    if k == "ts":
        return {"k": "ts", "v": [[draw(base) for _ in range(ns)] for _ in range(n)]}
    return draw(base)


def param_doc(v, scenario="S"):
    """the pywr document of a value"""
    if not isinstance(v, dict):
        return v
    if v["k"] == "p":
        x = float(v["v"][0])
        if x == round(x):
            return {"type": "constant", "value": x}
        return {"type": "constant", "value": x * 4.0, "scale": 0.25}
    if v["k"] == "t":
        return {"type": "arrayindexed", "values": list(v["v"])}
    if v["k"] == "s":
        return {"type": "constantscenario", "scenario": scenario, "values": list(v["v"])}
    return {"type": "veriftable", "table": [list(r) for r in v["v"]]}


_registered = []


def register():
    """a user-defined parameter holding a table [time-step][scenario combination]"""
    if _registered:
        return _registered[0]
    from pywr.parameters import Parameter, IndexParameter

    class VerifTableParameter(Parameter):
        def __init__(self, model, table, **kwargs):
            super().__init__(model, **kwargs)
            self.table = np.array(table, dtype=float)

        def value(self, ts, si):
            return self.table[ts.index, si.global_id]

        @classmethod
        def load(cls, model, data):
            return cls(model, data.pop("table"), **data)

    class VerifIndexParameter(IndexParameter):
        def __init__(self, model, table, **kwargs):
            super().__init__(model, **kwargs)
            self.table = np.array(table, dtype=int)

        def index(self, ts, si):
            return int(self.table[ts.index, si.global_id])

        @classmethod
        def load(cls, model, data):
            return cls(model, data.pop("table"), **data)

    VerifTableParameter.register()
    VerifIndexParameter.register()
    _registered.append(VerifTableParameter)
    return VerifTableParameter


# ---------------------------------------------------------------------------------------------------------------
# generator

quarter = st.integers(0, 80).map(lambda i: i / 4)
flows = st.one_of(st.integers(0, 20).map(float), quarter, st.integers(0, 20).map(float), quarter, st.sampled_from([2.0 ** -11, 2.0 ** -9, 3.0 * 2.0 ** -12, 2.0 ** -14, 1000.0]))
costs = st.one_of(st.just(0.0), st.integers(-12, 12).map(float), st.integers(-40, 40).map(lambda i: i / 8))

STEPS = {"d": (1, 1), "w": (7, 7), "x": (3, 3), "m": ("M", None)}


@st.composite
def networks(draw, max_inputs=3, max_outputs=3, max_links=5, max_storages=2, vary=True, min_flow=True, steps="ddwxm",
             max_n=4, max_scen=3, solvers=("glpk", "glpk-edge", "lpsolve"), vary_volume=True, options=True, unique=False,
             multi_slot=True):
    n = draw(st.integers(1, max_n))
    ns = draw(st.integers(1, max_scen)) if vary else 1
    kinds = ("c", "c", "c", "p", "t", "s", "ts") if vary else ("c",)
    solver = draw(st.sampled_from(solvers))
    nI, nO = draw(st.integers(1, max_inputs)), draw(st.integers(1, max_outputs))
    nL, nS = draw(st.integers(0, max_links)), draw(st.integers(0, max_storages))
    bounded = draw(st.sampled_from(["in", "out", "both"]))
    nodes, names = [], []

    def name(prefix):
        x = prefix + str(len(names))
        names.append(x)
        return x

    def bounds(d, finite):
        if finite or draw(st.booleans()):
            d["max"] = draw(varying(flows, n, ns, kinds))
        if min_flow and draw(st.integers(0, 5)) == 0:
            top = min(all_vals(d.get("max", 5.0)))
            part = st.sampled_from([0.5, 0.25, 1.0]).map(lambda f: min(round(f * top * 4) / 4, top) if top >= 0.25 else 0.0)
            d["min"] = draw(varying(part, n, ns, kinds))
            if draw(st.integers(0, 5)) == 0:
                d["max"] = d["min"]            # fixed flow
        d["cost"] = draw(varying(costs, n, ns, kinds))

    for _ in range(nI):
        d = {"name": name("i"), "type": "Input"}
        bounds(d, bounded in ("in", "both"))
        nodes.append(d)
    for _ in range(nO):
        d = {"name": name("o"), "type": "Output"}
        bounds(d, bounded in ("out", "both"))
        nodes.append(d)
    for _ in range(nL):
        d = {"name": name("l"), "type": "Link"}
        bounds(d, False)
        if min(all_vals(d["cost"])) < 0 and "max" not in d:
            d["max"] = draw(varying(flows, n, ns, kinds))
            if max(all_vals(d.get("min", 0.0))) > min(all_vals(d["max"])):
                d["min"] = min(all_vals(d["max"]))
        nodes.append(d)
    for _ in range(nS):
        d = {"name": name("s"), "type": "Storage"}
        d["nin"] = draw(st.sampled_from([1, 1, 1, 2])) if multi_slot else 1
        d["nout"] = draw(st.sampled_from([1, 1, 1, 2])) if multi_slot else 1
        if draw(st.integers(0, 5)) == 0:
            if draw(st.booleans()):
                d["nout"] = 0
            else:
                d["nin"] = 0
        mx = draw(st.one_of(st.integers(0, 100).map(float), st.integers(1, 30).map(float)))
        mn = draw(st.sampled_from([0.0, 0.0, 0.0, 0.25, 0.5, 1.0])) * mx
        mn = round(mn * 4) / 4
        f = draw(st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.75]))
        d["minv"], d["maxv"] = min(mn, mx), mx
        d["init"] = round((d["minv"] + f * (mx - d["minv"])) * 8) / 8
        d["init"] = min(max(d["init"], d["minv"]), mx)
        if vary and vary_volume and solver != "lpsolve" and mx > 0 and draw(st.integers(0, 3)) == 0:
            d["maxv"] = draw(varying(st.integers(int(d["minv"]) + 1, int(d["minv"]) + 100).map(float), n, ns, ("t", "s", "ts")))
        d["cost"] = draw(varying(costs, n, ns, kinds))
        nodes.append(d)

    by = {d["name"]: d for d in nodes}
    inputs = [x for x in names if x[0] == "i"]
    outputs = [x for x in names if x[0] == "o"]
    links = [x for x in names if x[0] == "l"]
    stores = [x for x in names if x[0] == "s"]
    src = [(x, None) for x in inputs] + [(x, k) for x in stores for k in range(by[x]["nin"])]
    dst = [(x, None) for x in outputs] + [(x, k) for x in stores for k in range(by[x]["nout"])]
    edges = set()

    def pick(pool, lo=1, hi=3):
        return draw(st.lists(st.sampled_from(pool), min_size=lo, max_size=hi, unique=True))

    def ok(a, b):
        return not (a[0] == b[0])
    for i, x in enumerate(links):
        up = src + [(y, None) for y in links[:i]]
        for a in pick(up):
            edges.add((a, (x, None)))
    for i, x in enumerate(links):
        down = dst + [(y, None) for y in links[i + 1:]]
        if not any(a == (x, None) for a, b in edges) or draw(st.booleans()):
            for b in pick(down, 1, 2):
                edges.add(((x, None), b))
    mid = [(y, None) for y in links]
    for a in src:
        if not any(e[0] == a for e in edges) or draw(st.integers(0, 3)) == 0:
            pool = [b for b in mid + dst if ok(a, b)]
            for b in pick(pool, 1, 2):
                edges.add((a, b))
    for b in dst:
        if not any(e[1] == b for e in edges) or draw(st.integers(0, 3)) == 0:
            pool = [a for a in mid + src if ok(a, b)]
            for a in pick(pool, 1, 2):
                edges.add((a, b))
    for x in stores:                    # a storage connected to nothing but itself is refused, so connect it
        def reach(start, i, j):
            seen, todo = set(), [e[j][0] for e in edges if e[i][0] == start]
            while todo:
                y = todo.pop()
                if y not in seen:
                    seen.add(y)
                    if y[0] == "l":
                        todo += [e[j][0] for e in edges if e[i][0] == y]
            return {y for y in seen if y[0] != "l"}
        if reach(x, 0, 1) | reach(x, 1, 0) <= {x}:
            edges.add(((x, 0), (outputs[0], None)) if by[x]["nin"] else ((inputs[0], None), (x, 0)))
    edges = [[a[0], b[0], a[1], b[1]] for a, b in sorted(edges, key=str)]
    order = draw(st.permutations(range(len(nodes))))
    eorder = draw(st.permutations(range(len(edges))))
    spec = {"solver": solver, "args": {}, "start": draw(st.sampled_from(["2015-01-01", "2016-02-27", "2017-12-30"])),
            "step": draw(st.sampled_from(steps)), "n": n, "ns": ns,
            "nodes": [nodes[i] for i in order], "edges": [edges[i] for i in eorder]}
    if options and solver != "lpsolve":
        spec["args"] = draw(solver_options())
    if draw(st.integers(0, 2)) == 0:
        spec["api"] = True      # made by hand, not loaded from a document
    return spec


_primes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113]


def shift(v, by):
    if isinstance(v, dict):
        if v["k"] == "ts":
            return {"k": "ts", "v": [[x + by for x in r] for r in v["v"]]}
        return {"k": v["k"], "v": [x + by for x in v["v"]]}
    return v + by


def perturb(spec):
    """adds rationally independent amounts to all costs, which makes the least-cost node flows unique"""
    for i, d in enumerate(sorted(spec["nodes"], key=lambda d: d["name"])):
        by = round((_primes[i % 30] ** 0.5) * (1 + i // 30) * 0.01, 9)
        if "cost" in d:
            d["cost"] = shift(d["cost"], by)
        if "costs" in d:
            d["costs"] = [shift(c, by * (1 + 0.37 * j)) for j, c in enumerate(d["costs"])]
        if "mrf_cost" in d:
            d["mrf_cost"] = shift(d["mrf_cost"], by * 0.37)
        if "above" in d:
            d["above"] += by
    return spec


@st.composite
def solver_options(draw):
    out = {}
    for k in ("use_presolve", "set_fixed_flows_once", "set_fixed_costs_once", "set_fixed_factors_once", "use_unsafe_api", "retry_solve"):
        if draw(st.integers(0, 3)) == 0:
            out[k] = True
    return out


# ---------------------------------------------------------------------------------------------------------------
# pywr document

def end_date(start, step, n):
    s = dt.datetime.fromisoformat(start)
    if STEPS[step][0] == "M":
        m = s.year * 12 + s.month - 1 + n - 1
        return "%04d-%02d-01" % (m // 12, m % 12 + 1) if n > 1 else start
    return (s + dt.timedelta(days=STEPS[step][1] * (n - 1))).strftime("%Y-%m-%d")


def tiny(x):
    """is there a number below the tolerance of GLPK's presolver (0.001) somewhere?"""
    if isinstance(x, dict):
        return any(tiny(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(tiny(v) for v in x)
    return isinstance(x, float) and 0 < x < 0.01


def header(spec):
    solver = dict(spec.get("args", {}))
    if tiny(spec["nodes"]):
        solver.pop("use_presolve", None)
    solver["name"] = spec["solver"]
    d = {
        "metadata": {"title": "t", "minimum_version": "0.1"},
        "timestepper": {"start": spec["start"], "end": end_date(spec["start"], spec["step"], spec["n"]), "timestep": STEPS[spec["step"]][0]},
        "solver": solver,
        "nodes": [], "edges": [],
    }
    if spec.get("api"):
        d["api"] = True
    if spec.get("ns", 1) > 1:
        d["scenarios"] = [{"name": "S", "size": spec["ns"]}]
    return d


def node_doc(d):
    out = {"name": d["name"], "type": d["type"]}
    if d["type"] == "Storage":
        out.update(inputs=d["nin"], outputs=d["nout"], min_volume=param_doc(d["minv"]), max_volume=param_doc(d["maxv"]),
                   initial_volume=d["init"])
        if isinstance(d["maxv"], dict):
            out["initial_volume_pc"] = d["init"] / max(all_vals(d["maxv"]))
    else:
        for k, kk in (("max", "max_flow"), ("min", "min_flow")):
            if k in d:
                out[kk] = param_doc(d[k])
    out["cost"] = param_doc(d["cost"])
    out.update(d.get("extra", {}))
    return out


def edge_doc(e):
    return [e[0], e[1]] if e[2] is None and e[3] is None else list(e)


def document(spec):
    doc = header(spec)
    doc["nodes"] = [node_doc(d) for d in spec["nodes"]]
    doc["edges"] = [edge_doc(e) for e in spec["edges"]]
    return doc


def disguise(doc):
    """adds scenarios that are sliced to one member, so that combination numbers differ from the members' numbers"""
    import hashlib
    import json
    h = hashlib.sha1(json.dumps(doc, sort_keys=True, default=str).encode()).digest()[0] % 4
    if h < 2 and "scenario_combinations" not in doc:
        sc = [{"name": "first dummy", "size": 3, "slice": [2, 3]}] + list(doc.get("scenarios", []))
        if h:
            sc.append({"name": "last dummy", "size": 2, "slice": [1, 2]})
        doc["scenarios"] = sc
    return doc


def load(doc, plain=False):
    import copy
    from pywr.model import Model
    register()
    doc = copy.deepcopy(doc)
    if doc.pop("api", False) and not doc.get("parameters") and not doc.get("recorders"):
        return build(doc)
    return Model.load(doc if plain else disguise(doc))


AGGREGATES = ("AggregatedNode", "AggregatedStorage", "VirtualStorage", "AnnualVirtualStorage", "MonthlyVirtualStorage", "SeasonalVirtualStorage",
              "RollingVirtualStorage")


def build(doc):
    """the model of a document made by hand (the Python interface)"""
    from pywr.model import Model
    from pywr.core import Scenario
    from pywr.nodes import NodeMeta
    from pywr.parameters import load_parameter
    options = dict(doc.get("solver", {}))
    name = options.pop("name", None)
    clock = doc["timestepper"]
    model = Model(solver=name, solver_args=options, start=clock["start"], end=clock["end"], timestep=clock["timestep"])
    for sc in doc.get("scenarios", []):
        Scenario(model, sc["name"], size=sc["size"])
    made = {}

    def value(k, v):
        if k in ("nodes", "storage_nodes"):
            return [made[x] for x in v]
        if isinstance(v, dict):
            return load_parameter(model, dict(v))
        if k == "control_curve":
            return load_parameter(model, {"type": "constant", "value": v})
        if isinstance(v, list):
            return [value(None, x) for x in v]
        return v
    for d in sorted(doc["nodes"], key=lambda d: d["type"] in AGGREGATES):
        d = dict(d)
        cls = NodeMeta.node_registry[d.pop("type").lower()]
        later = {k: d.pop(k) for k in ("factors", "max_flow", "min_flow") if cls.__name__ == "AggregatedNode" and k in d}
        made[d["name"]] = node = cls(model, **{k: value(k, v) for k, v in d.items()})
        for k, v in later.items():
            setattr(node, k, value(k, v))
    for e in doc["edges"]:
        a, b, i, j = (list(e) + [None, None])[:4]
        made[a].connect(made[b], from_slot=i, to_slot=j)
    return model


# ---------------------------------------------------------------------------------------------------------------
# the independent problem

class Problem:
    """min cost subject to node bounds, storage bounds and conservation, in terms of flows on the edges.

    rows: list of (coefficients per edge, lower, upper) is rebuilt for each time-step and scenario."""

    def __init__(self, nodes, edges):
        self.nodes = {d["name"]: d for d in nodes}
        self.edges = [tuple(e) for e in edges]
        m = len(self.edges)
        self.vec = {}       # port -> coefficients of its flow
        self.balance = []

        def port(x, slot, side):
            return (x, side, slot or 0) if self.nodes[x]["type"] == "Storage" else x
        into, out = {}, {}
        for j, (a, b, sa, sb) in enumerate(self.edges):
            pa, pb = port(a, sa, "i"), port(b, sb, "o")
            out.setdefault(pa, np.zeros(m))[j] += 1
            into.setdefault(pb, np.zeros(m))[j] += 1
        zero = np.zeros(m)
        for x, d in self.nodes.items():
            if d["type"] == "Input":
                self.vec[x] = out.get(x, zero)
            elif d["type"] == "Output":
                self.vec[x] = into.get(x, zero)
            elif d["type"] == "Link":
                self.vec[x] = out.get(x, zero)
                self.balance.append(into.get(x, zero) - out.get(x, zero))
            else:
                for k in range(d["nin"]):
                    self.vec[(x, "i", k)] = out.get((x, "i", k), zero)
                for k in range(d["nout"]):
                    self.vec[(x, "o", k)] = into.get((x, "o", k), zero)
                self.vec[x] = sum((self.vec[(x, "o", k)] for k in range(d["nout"])), zero) - \
                    sum((self.vec[(x, "i", k)] for k in range(d["nin"])), zero)

    def cost(self, t, s):
        c = np.zeros(len(self.edges))
        for x, d in self.nodes.items():
            c += val(d.get("cost", 0.0), t, s) * self.vec[x]
        return c

    def bounds_of(self, x, t, s):
        d = self.nodes[x]
        return val(d.get("min", 0.0), t, s), (val(d["max"], t, s) if "max" in d else INF)

    def rows(self, t, s, volumes, days):
        A, lo, hi = [], [], []
        for b in self.balance:
            A.append(b), lo.append(0.0), hi.append(0.0)
        for x, d in self.nodes.items():
            if d["type"] == "Storage":
                mn, mx = val(d["minv"], t, s), val(d["maxv"], t, s)
                v = volumes[x]
                A.append(self.vec[x])
                if mx == mn:
                    lo.append(0.0), hi.append(0.0)
                else:
                    lo.append(-max(v - mn, 0.0) / days), hi.append(max(mx - v, 0.0) / days)
            else:
                l, h = self.bounds_of(x, t, s)
                if l > 0 or h < INF:
                    A.append(self.vec[x]), lo.append(l), hi.append(h)
        return A, lo, hi

    def solve(self, t, s, volumes, days, extra=()):
        """('optimal', cost, flows) or ('infeasible', total violation, None) or ('unbounded', None, None)"""
        A, lo, hi = self.rows(t, s, volumes, days)
        for row, l, h in extra:
            A.append(row), lo.append(l), hi.append(h)
        return solve_lp(self.cost(t, s), A, lo, hi)


def solve_lp(c, A, lo, hi):
    from scipy.optimize import milp, LinearConstraint, Bounds
    m = len(c)
    kw = {}
    if A:
        kw["constraints"] = LinearConstraint(np.array(A), np.array(lo), np.array(hi))
    res = milp(c, bounds=Bounds(0, np.inf), **kw)
    if res.status == 0:
        return "optimal", float(res.fun), res.x
    if res.status == 3:
        return "unbounded", None, None
    # how infeasible is it? elastic rows
    k = len(A)
    if res.status == 2 or res.status == 4:
        E = np.hstack([np.array(A), np.eye(k), -np.eye(k)])
        r2 = milp(np.concatenate([np.zeros(m), np.ones(2 * k)]), constraints=LinearConstraint(E, np.array(lo), np.array(hi)),
                  bounds=Bounds(0, np.inf))
        if r2.status == 0:
            if r2.fun > 1e-9:
                return "infeasible", float(r2.fun), None
            return "unbounded", None, None
    return "unknown", None, None


def explain(vectors, values, balance, m):
    """the least total discrepancy of edge flows that reproduce the values: 0 if the flows are conserved"""
    A = [v for v in vectors] + list(balance)
    rhs = list(values) + [0.0] * len(balance)
    k = len(A)
    if not k:
        return 0.0
    from scipy.optimize import milp, LinearConstraint, Bounds
    E = np.hstack([np.array(A), np.eye(k), -np.eye(k)])
    r = milp(np.concatenate([np.zeros(m), np.ones(2 * k)]), constraints=LinearConstraint(E, np.array(rhs), np.array(rhs)),
             bounds=Bounds(0, np.inf))
    return float(r.fun) if r.status == 0 else INF


def node_flow(model, problem, x, s):
    """reported flow of a port or node"""
    if isinstance(x, tuple):
        st_ = model.nodes[x[0]]
        return (st_.inputs if x[1] == "i" else st_.outputs)[x[2]].flow[s]
    return model.nodes[x].flow[s]
