"""C20: compound nodes behave like the network they stand for."""

import numpy as np
from hypothesis import strategies as st

from harness import nets, compound
from harness.core import Test, Violation, require, req_close
from checks.c01 import step_days

TECHNIQUE = "random networks with compound nodes, differential against the LP of the documented elementary arrangement (HiGHS)"
RULE = ("networks of Input/Catchment, Link/PiecewiseLink/MultiSplitLink/RiverSplit(WithGauge)/RiverGauge/River/LossLink/BreakLink/"
        "DelayNode, Storage/Reservoir, Output with random parameters; non-trivial: a compound node carries flow")
NOTE = ("In every generated time-step the reported flows extend to a feasible, least-cost allocation of the elementary arrangement "
        "(shares, losses, delays, piece limits and costs included).")


def optimum_given(x, t, s, vols, days, names, values):
    """least cost of the arrangement with the visible nodes' flows as reported (within a tolerance)"""
    extra = []
    for k, v in zip(names, values):
        e = 1e-6 * (1 + abs(v))
        row = x.ports[k[:-3]] if k.endswith(" in") else x.reports[k]
        extra.append((row, v - e, v + e))
    return x.solve(t, s, vols, days, extra)


def t_arrangement(spec, ev):
    model = nets.load(compound.document(spec))
    x = compound.Expanded(spec)
    ns = spec["ns"]
    by = {d["name"]: d for d in spec["nodes"]}
    ev.tag(spec["solver"])
    storages = [k for k, d in by.items() if d["type"] in ("Storage", "Reservoir")]
    past = {k: [] for k, d in by.items() if d["type"] == "DelayNode"}
    model.setup()
    for t in range(spec["n"]):
        days = step_days(spec, t)
        vols = {k: np.array(model.nodes[k].volume) for k in storages}
        refs = []
        for s in range(ns):
            for k, d in by.items():
                if d["type"] == "Reservoir" and "above" in d:
                    mx = nets.val(d["maxv"], t - 1 if t else 0, s)
                    if mx == 0:
                        pc = None
                    elif t == 0 and isinstance(d["maxv"], dict):
                        pc = d["init"] / max(nets.all_vals(d["maxv"]))
                    else:
                        pc = vols[k][s] / mx
                    cc = 1.0 if d["cc"] is None else d["cc"]
                    if pc is None or abs(pc - cc) < 1e-7 and pc != cc:
                        ev.tag("undecided band")
                        return
                    x.dyn[k].cur[s] = d["above"] if pc >= cc else d["cost"]
                elif d["type"] == "DelayNode":
                    h = past[k]
                    f = float(h[t - d["delay"]][s]) if t >= d["delay"] else d["flow0"]
                    x.dyn[k].cur[s] = max(f, 0.0)
            refs.append(x.solve(t, s, {k: v[s] for k, v in vols.items()}, days))
        if any(r[0] in ("unknown", "unbounded") or (r[0] == "infeasible" and r[1] < 1e-2) for r in refs):
            ev.tag("undecided")
            return
        bad = [s for s in range(ns) if refs[s][0] == "infeasible"]
        try:
            model.step()
        except RuntimeError as e:
            require(bad, "step %d: %s although the arrangement is feasible" % (t, e))
            ev.tag("infeasible refused")
            return
        require(not bad, "step %d: no error although the arrangement is infeasible by %r" % (t, bad and refs[bad[0]][1]))
        for k in past:
            past[k].append(np.array(model.nodes[k].output.flow))
        for s in range(ns):
            names = [k for k in by if k not in storages]
            vals = [float(model.nodes[k].flow[s]) for k in names]
            names += [k + " in" for k in past]
            vals += [float(past[k][-1][s]) for k in past]
            v1 = {k: v[s] for k, v in vols.items()}
            for k in storages:
                names.append(k)
                vals.append(float(model.nodes[k].flow[s]))
            got = optimum_given(x, t, s, v1, days, names, vals)
            what = "step %d scenario %d, flows %r" % (t, s, dict(zip(names, vals)))
            if got[0] != "optimal":
                require(got[0] == "infeasible" and got[1] > 1e-5 or got[0] == "unknown", "undecided")
                raise Violation("%s: no flows of the documented arrangement report this (off by %r)" % (what, got[1]))
            scale = 1e-6 * (1 + sum(abs(nets.val(d.get("cost", 0.0), t, s)) for d in x.nodes.values()) * (1 + sum(map(abs, vals))))
            require(got[1] <= refs[s][1] + scale, "%s: cost %r, the least is %r" % (what, got[1], refs[s][1]))
            for k, d in by.items():
                f = float(model.nodes[k].flow[s])
                if d["type"] == "DelayNode":
                    req_close("step %d scenario %d: delayed flow of %s" % (t, s, k), f, x.dyn[k].cur[s], 1e-6, 1e-6)
                if d["type"] not in ("Input", "Output", "Link", "Storage") and abs(f) > 1e-6:
                    ev.nt()
                    ev.tag(d["type"])


@st.composite
def focus(draw):
    """one or two compound links are what limits the flow"""
    spec = draw(compound.compounds(max_inputs=1, max_links=2, max_outputs=2, max_storages=1, max_n=2))
    for d in spec["nodes"]:
        if d["type"] == "Input":
            d["max"] = 60.0
        elif d["type"] == "Output":
            d["max"], d["cost"] = 40.0, -8.0 * draw(st.integers(1, 4))
    return spec


TESTS = [Test("arrangement", compound.compounds(), t_arrangement, 1600, 3), Test("focus", focus(), t_arrangement, 900, 2)]
