"""Networks with compound nodes: pywr documents, and the elementary arrangement (with extra rows) each stands for."""

import numpy as np
from hypothesis import strategies as st

from harness import nets

LINKS = ["Link", "PiecewiseLink", "MultiSplitLink", "RiverSplit", "RiverSplitWithGauge", "RiverGauge", "River", "LossLink",
         "BreakLink", "DelayNode"]
SPLITS = ("MultiSplitLink", "RiverSplit", "RiverSplitWithGauge")

pos_costs = st.one_of(st.just(0.0), st.integers(0, 12).map(float))


@st.composite
def compounds(draw, kinds=tuple(LINKS), **kw):
    """a nets.networks() spec in which links, inputs and storages may be compound"""
    args = dict(max_inputs=2, max_outputs=3, max_links=4, max_storages=1, max_n=4, max_scen=2, min_flow=False)
    args.update(kw)
    least = args.pop("least", True)
    spec = draw(nets.networks(**args))
    n, ns, lp = spec["n"], spec["ns"], spec["solver"] == "lpsolve"
    var = ("c", "c", "p", "t", "s", "ts") if args.get("vary", True) else ("c",)
    links = [d for d in spec["nodes"] if d["type"] == "Link"]
    if not links:
        # put a link between an input and an output
        i = next(d["name"] for d in spec["nodes"] if d["type"] == "Input")
        o = next(d["name"] for d in spec["nodes"] if d["type"] == "Output")
        links = [{"name": "lx", "type": "Link", "cost": 0.0}]
        spec["nodes"].append(links[0])
        spec["edges"] += [[i, "lx", None, None], ["lx", o, None, None]]

    def v(base):
        return draw(nets.varying(base, n, ns, var))
    for d in links:
        kind = draw(st.sampled_from(kinds))
        outs = [e for e in spec["edges"] if e[0] == d["name"]]
        d["type"] = kind
        mx, cost = d.get("max"), d.pop("cost")
        if kind in ("PiecewiseLink", "MultiSplitLink", "RiverSplit"):
            d.pop("max", None), d.pop("min", None)
            k = draw(st.sampled_from([1, 2, 3, 3])) if kind != "RiverSplit" else draw(st.integers(1, 2))
            d["costs"], d["maxes"] = [], []
            for j in range(k):
                if draw(st.integers(0, 2)) or j < k - 1:
                    d["maxes"].append(v(nets.flows))
                    d["costs"].append(v(nets.costs))
                else:
                    d["maxes"].append(None)
                    d["costs"].append(v(pos_costs))
        elif kind in ("RiverGauge", "RiverSplitWithGauge"):
            d.pop("max", None), d.pop("min", None)
            d["mrf"], d["mrf_cost"], d["cost"] = v(nets.flows), v(nets.costs), v(pos_costs)
        elif kind == "LossLink":
            d["lt"] = draw(st.sampled_from(["net", "gross"]))
            d["lf"] = draw(st.sampled_from([0.0, 0.1, 0.25, 0.5, 1.0, 0.9] + ([1.5, 2.0] if d["lt"] == "net" else [])))
            d["cost"] = cost
            if d["lf"] == 1.0 and d["lt"] == "gross":
                d.pop("min", None)
            if d["lt"] == "net" and not lp and draw(st.integers(0, 2)) == 0:
                d["lf"] = v(st.sampled_from([0.125, 0.25, 0.5, 1.0]))
        elif kind == "DelayNode":
            d.pop("max", None), d.pop("min", None)
            d["delay"] = draw(st.integers(1, 3))
            d["days"] = nets.STEPS[spec["step"]][1] is not None and draw(st.booleans())
            d["flow0"] = draw(st.sampled_from([0.0, 0.0, 1.0, 2.5]))
        else:
            d["cost"] = cost
        if kind in ("BreakLink", "River", "LossLink") and least and draw(st.integers(0, 2)) == 0 and d.get("lf") != 1.0:
            # a least flow, with water for it and a way out
            m = d["min"] = v(st.sampled_from([0.5, 1.0, 2.0, 3.0]))
            top = max(nets.all_vals(m))
            if "max" in d and min(nets.all_vals(d["max"])) < top:
                d["max"] = top + draw(st.sampled_from([0.0, 0.0, 1.5]))
            spec["nodes"] += [{"name": "m" + d["name"], "type": "Input", "max": 3.0 * top, "cost": draw(pos_costs)},
                              {"name": "n" + d["name"], "type": "Output", "cost": draw(pos_costs)}]
            spec["edges"] += [["m" + d["name"], d["name"], None, None], [d["name"], "n" + d["name"], None, None]]
        if kind in SPLITS:
            m = min(len(outs), 3)
            if m < 2:
                o = draw(st.sampled_from([e for e in spec["nodes"] if e["type"] == "Output"]))["name"]
                new = "x" + d["name"]
                if [d["name"], o] in [e[:2] for e in outs]:
                    spec["nodes"].append({"name": new, "type": "Output", "max": draw(nets.flows), "cost": draw(nets.costs)})
                    o = new
                e = [d["name"], o, None, None]
                spec["edges"].append(e)
                outs.append(e)
                m = 2
            extra = draw(st.integers(1, m - 1))
            d["slots"] = draw(st.sampled_from([list(range(extra + 1)), ["a", "b", "c"][: extra + 1]]))
            if kind == "MultiSplitLink" and d["slots"][0] == 0:
                d["default slots"] = draw(st.integers(0, 2))
            if kind == "MultiSplitLink" and draw(st.integers(0, 3)) == 0:
                d["factors"] = None
            else:
                f = [draw(st.sampled_from([1.0, 2.0, 0.5, 0.25, 3.0])) for _ in range(extra + 1)]
                if extra == 2 and draw(st.booleans()) and kind == "MultiSplitLink":
                    f[draw(st.integers(0, 2))] = None
                d["factors"] = f
            for j, e in enumerate(outs):
                e[2] = d["slots"][j if j <= extra else draw(st.integers(0, extra))]
    for d in spec["nodes"]:
        if d["type"] == "Input" and draw(st.integers(0, 2)) == 0:
            d["type"] = "Catchment"
            d["max"] = v(st.integers(0, 10).map(float))
            d.pop("min", None)
            # a catchment's water must be able to leave
            new = "c" + d["name"]
            spec["nodes"].append({"name": new, "type": "Output", "cost": draw(pos_costs)})
            spec["edges"].append([d["name"], new, None, None])
        elif d["type"] == "Storage" and draw(st.integers(0, 1)):
            d["type"] = "Reservoir"
            if draw(st.integers(0, 2)):
                d["above"] = draw(nets.costs)
                d["cost"] = draw(nets.costs)
                d["cc"] = draw(st.sampled_from([None, 0.5, 0.25, 0.75, 1.0, 0.0]))
    return spec


def gates(spec):
    """puts a plain link in front of every node with uncosted parts, so that nets.perturb makes its flow unique"""
    for d in [d for d in spec["nodes"] if d["type"] in SPLITS + ("DelayNode",)]:
        g = "g" + d["name"]
        spec["nodes"].append({"name": g, "type": "Link", "cost": 0.0})
        for e in spec["edges"]:
            if e[1] == d["name"]:
                e[1] = g
        spec["edges"].append([g, d["name"], None, None])
    return spec


def node_doc(d):
    t = d["type"]
    if t == "Reservoir":
        out = nets.node_doc(dict(d, type="Storage"))
        out["type"] = t
        if "above" in d:
            out["above_curve_cost"] = d["above"]
            if d["cc"] is not None:
                out["control_curve"] = d["cc"]
        return out
    if t == "Catchment":
        return {"name": d["name"], "type": t, "flow": nets.param_doc(d["max"]), "cost": nets.param_doc(d["cost"])}
    out = {"name": d["name"], "type": t}
    p = nets.param_doc
    if t == "PiecewiseLink":
        out.update(nsteps=len(d["costs"]), costs=[p(x) for x in d["costs"]], max_flows=[p(x) for x in d["maxes"]])
    elif t in ("MultiSplitLink", "RiverSplit"):
        out.update(costs=[p(x) for x in d["costs"]], max_flows=[p(x) for x in d["maxes"]], slot_names=d["slots"], nsteps=len(d["costs"]))
        if t == "MultiSplitLink":
            out["extra_slots"] = len(d["slots"]) - 1
            if d.get("default slots"):
                del out["slot_names"]
                if len(d["slots"]) == 2 and d["default slots"] == 2:
                    del out["extra_slots"]
        if d["factors"] is not None:
            out["factors"] = d["factors"]
    elif t == "RiverSplitWithGauge":
        out.update(mrf=p(d["mrf"]), mrf_cost=p(d["mrf_cost"]), cost=p(d["cost"]), factors=d["factors"], slot_names=d["slots"])
    elif t == "RiverGauge":
        out.update(mrf=p(d["mrf"]), mrf_cost=p(d["mrf_cost"]), cost=p(d["cost"]))
    elif t == "DelayNode":
        out["initial_flow"] = d["flow0"]
        if d["days"]:
            out["days"] = d["delay"] * d["step_days"]
        else:
            out["timesteps"] = d["delay"]
    else:
        out = nets.node_doc(d)
        if t == "LossLink":
            out.update(loss_factor=p(d["lf"]), loss_factor_type=d["lt"])
    return out


def document(spec):
    doc = nets.header(spec)
    for d in spec["nodes"]:
        doc["nodes"].append(node_doc(dict(d, step_days=nets.STEPS[spec["step"]][1])))
    doc["edges"] = [nets.edge_doc(e) for e in spec["edges"]]
    return doc


class Expanded(nets.Problem):
    """the elementary arrangement; self.reports: visible node -> coefficients of its reported flow"""

    def __init__(self, spec):
        self.spec = spec
        nodes, edges = [], []
        into, out = {}, {}      # (name, slot) -> elementary port
        rep, self.rowspec = {}, []
        self.dyn = {}

        def add(name, type_, **kw):
            nodes.append(dict(kw, name=name, type=type_))
            return name

        def join(a, b):
            edges.append([a, b, None, None])
        for d in spec["nodes"]:
            x, t = d["name"], d["type"]
            if t in ("Input", "Output", "Link", "Storage", "River", "BreakLink", "Catchment", "Reservoir"):
                e = dict(d)
                e["type"] = {"River": "Link", "BreakLink": "Link", "Catchment": "Input", "Reservoir": "Storage"}.get(t, t)
                if t == "Catchment":
                    e["min"] = e["max"]
                if t == "Reservoir" and "above" in d:
                    e["cost"] = self.dyn[x] = nets.Dyn()
                nodes.append(e)
                into[x] = out[x] = x
                rep[x] = [x]
            elif t == "LossLink":
                g, nt_, lo = x + ".gross", x + ".net", x + ".loss"
                add(g, "Link"), add(lo, "Output")
                kw = {k: d[k] for k in ("max", "min") if k in d}
                add(nt_, "Link", cost=d["cost"], **kw)
                join(g, nt_), join(g, lo)
                into[x], out[x] = g, nt_
                rep[x] = [nt_]
                self.rowspec.append(("loss", nt_, lo, d["lf"], d["lt"]))
            elif t == "DelayNode":
                a, b = x + ".in", x + ".out"
                add(a, "Output")
                self.dyn[x] = nets.Dyn()
                add(b, "Input", min=self.dyn[x], max=self.dyn[x])
                into[x], out[x] = a, b
                rep[x] = [b]
            else:
                a, b = x + ".in", x + ".out"
                add(a, "Link"), add(b, "Link")
                into[x], out[x] = a, b
                if t in ("RiverGauge", "RiverSplitWithGauge"):
                    costs, maxes = [d["mrf_cost"], d["cost"]], [d["mrf"], None]
                else:
                    costs, maxes = d["costs"], d["maxes"]
                subs = []
                for j, (c, m) in enumerate(zip(costs, maxes)):
                    kw = {} if m is None else {"max": m}
                    subs.append(add("%s.%d" % (x, j), "Link", cost=c, **kw))
                    join(a, subs[-1]), join(subs[-1], b)
                if t in SPLITS:
                    last = [subs[-1]]
                    out[(x, d["slots"][0])] = b
                    for j in range(1, len(d["slots"])):
                        sub, ex = "%s.e%d" % (x, j), "%s.x%d" % (x, j)
                        add(sub, "Link"), add(ex, "Link")
                        join(a, sub), join(sub, b), join(sub, ex)
                        out[(x, d["slots"][j])] = ex
                        subs.append(sub)
                        last.append(sub)
                    if d["factors"] is not None:
                        v = [(q, f) for q, f in zip(last, d["factors"]) if f is not None]
                        for q, f in v[1:]:
                            self.rowspec.append(("ratio", v[0][0], q, v[0][1], f))
                rep[x] = subs
        kinds = {d["name"]: d["type"] for d in spec["nodes"]}
        for a, b, sa, sb in spec["edges"]:
            if kinds[a] in SPLITS:
                edges.append([out[(a, sa)], into[b], None, sb])
            else:
                edges.append([out[a], into[b], sa, sb])
        super().__init__(nodes, edges)
        self.reports = {x: sum((self.vec[q] for q in qs), np.zeros(len(self.edges))) for x, qs in rep.items()}
        self.ports = {}
        for d in spec["nodes"]:
            if d["type"] == "DelayNode":
                self.ports[d["name"]] = self.vec[d["name"] + ".in"]

    def extra_rows(self, t, s):
        out = []
        for r in self.rowspec:
            if r[0] == "ratio":
                _, a, b, fa, fb = r
                out.append((self.vec[a] * fb - self.vec[b] * fa, 0.0, 0.0))
            else:
                _, net, lo, f, kind = r
                f = nets.val(f, t, s)
                if kind == "net":
                    out.append((self.vec[lo] - f * self.vec[net], 0.0, 0.0))
                else:
                    out.append(((1.0 - f) * self.vec[lo] - f * self.vec[net], 0.0, 0.0))
        return out

    def solve(self, t, s, volumes, days, extra=()):
        return super().solve(t, s, volumes, days, self.extra_rows(t, s) + list(extra))
