"""C04: all solvers and solver options give the same answer."""

import os

import numpy as np
from hypothesis import strategies as st

from harness import nets, compound, extras
from harness.core import Test, Violation, req_equal
from checks.c01 import step_days

TECHNIQUE = "differential: the same random model under the three solvers and random solver options, with unique optima by construction"
RULE = ("random networks (elementary or compound nodes, aggregated nodes, virtual storages) with costs perturbed by rationally independent "
        "amounts, run under glpk, glpk-edge, lpsolve (where supported) and two random option sets; non-trivial: some flow in the run")
NOTE = ("Costs, flows and volumes agree in every step between all solvers and option sets on every generated model. Models whose "
        "feasibility hangs on less than 1e-2 are left out.")


@st.composite
def models(draw):
    kw = dict(solvers=("glpk", "glpk", "lpsolve"), options=False)
    if draw(st.booleans()):
        spec = draw(extras.with_extras(nets.networks(**kw)))
    else:
        spec = draw(compound.compounds(**kw))
    nets.perturb(compound.gates(spec))
    opts = []
    for _ in range(2):
        o = {}
        for k in ("use_presolve", "set_fixed_flows_once", "set_fixed_costs_once", "set_fixed_factors_once", "use_unsafe_api", "retry_solve",
                  "save_routes_flows"):
            if draw(st.integers(0, 2)) == 0:
                o[k] = True
        opts.append([draw(st.sampled_from(["glpk", "glpk-edge"])), o])
    spec["opts"] = opts
    spec["env"] = [draw(st.sampled_from([None, None, "1", "true", "True"])) for _ in opts]
    spec["select"] = draw(st.booleans())
    spec["rerun"] = draw(st.booleans())
    return spec


ENV = {"set_fixed_flows_once": "PYWR_SOLVER_GLPK_FIXED_FLOWS_ONCE", "set_fixed_costs_once": "PYWR_SOLVER_GLPK_FIXED_COSTS_ONCE",
       "set_fixed_factors_once": "PYWR_SOLVER_GLPK_FIXED_FACTORS_ONCE", "use_unsafe_api": "PYWR_SOLVER_GLPK_UNSAFE_API"}


def build(spec, solver, options, env=None, select=False):
    """env: how options are switched on by the environment (None: they are in the document)"""
    options = {k: v for k, v in options.items() if k != "save_routes_flows" or solver == "glpk"}
    if nets.tiny(spec["nodes"]):
        options.pop("use_presolve", None)
    outside = {k for k in options if env and k in ENV}
    s = dict(spec, solver=solver, args={k: v for k, v in options.items() if k not in outside})
    doc = compound.document(s)
    doc["nodes"] += extras.docs(spec)
    names = set(ENV.values()) | {"PYWR_SOLVER"}
    before = {k: os.environ.pop(k, None) for k in names}
    try:
        for k in outside:
            os.environ[ENV[k]] = env
        if env:     # what the document says counts more than the environment
            for k in set(s["args"]) & set(ENV):
                os.environ[ENV[k]] = "0"
        if select and not s["args"]:
            os.environ["PYWR_SOLVER"] = solver.upper()
            del doc["solver"]
        elif env:
            os.environ["PYWR_SOLVER"] = "lpsolve"
        model = nets.load(doc)
    finally:
        for k, v in before.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    req_equal("solver in use", model.solver.name, solver)
    for k, v in model.solver.settings.items():
        req_equal("option %s of solver %s in use" % (k, solver), bool(v), bool(options.get(k, False)))
    if solver != "lpsolve":
        req_equal("option use_unsafe_api of solver %s in use" % solver, bool(model.solver.use_unsafe_api), bool(options.get("use_unsafe_api", False)))
    return model


def trace(model, spec, names):
    """per step: {name: flows}, volumes; or 'error' as the last entry"""
    out = []
    for t in range(spec["n"]):
        vols = {x: np.array(model.nodes[x].volume) for x in names if hasattr(model.nodes[x], "volume")}
        try:
            model.step()
        except RuntimeError as e:
            out.append(("error", str(e), vols))
            return out
        out.append(({x: np.array(model.nodes[x].flow) for x in names}, {x: np.array(model.nodes[x].volume) for x in vols}, vols))
    return out


def margin(spec, t, vols):
    """how infeasible the step is for the reference problem (0 if feasible)"""
    x = compound.Expanded(spec)
    for d in spec["nodes"]:
        if d["type"] == "DelayNode":
            return None
    worst = 0.0
    days = step_days(spec, t)
    for s in range(spec["ns"]):
        for k in x.dyn:
            x.dyn[k].cur[s] = 0.0
        v = {k: a[s] for k, a in vols.items()}
        r = x.solve(t, s, v, days, extras.rows(x, spec, t, s, v, days))
        if r[0] == "infeasible":
            worst = max(worst, r[1])
        elif r[0] != "optimal":
            return None
    return worst


def t_agree(spec, ev):
    names = [d["name"] for d in spec["nodes"] + spec.get("agg", []) + spec.get("vs", [])]
    variants = [("glpk", {}, None), ("glpk-edge", {}, None)] + [(s, o, e) for (s, o), e in zip(spec["opts"], spec["env"])]
    if spec["solver"] == "lpsolve":
        variants.append(("lpsolve", {}, None))
    first = None
    for solver, options, env in variants:
        model = build(spec, solver, options, env, spec["select"])
        if env:
            ev.tag("options from the environment")
        model.setup()
        got = trace(model, spec, names)
        runs = [got]
        if spec["rerun"] and options and got[-1][0] != "error":
            model.reset()
            runs.append(trace(model, spec, names))
        ev.tag(solver, *options)
        for got in runs:
            if first is None:
                first = got
                continue
            for t, (a, b) in enumerate(zip(first, got)):
                what = "step %d, glpk against %s %s: " % (t, solver, options)
                if a[0] == "error" or b[0] == "error":
                    if a[0] == b[0]:
                        ev.tag("infeasible")
                        continue
                    if "singular" in (a[1] if a[0] == "error" else b[1]):
                        ev.tag("singular basis without retry_solve")
                        return
                    gap = margin(spec, t, first[t][2])
                    if gap is None or 0 < gap < 1e-2:
                        ev.tag("undecided")
                        return
                    raise Violation(what + "%s raises %s, the other does not (reference: infeasible by %r)" % (
                        "glpk" if a[0] == "error" else solver, a[1] if a[0] == "error" else b[1], gap))
                for x in names:
                    fa, fb = a[0][x], b[0][x]
                    if not np.allclose(fa, fb, rtol=1e-5, atol=1e-5):
                        raise Violation(what + "flow of %s %r and %r" % (x, fa.tolist(), fb.tolist()))
                    ev.nt(bool((np.abs(fa) > 1e-6).any()))
                for x in a[1]:
                    if not np.allclose(a[1][x], b[1][x], rtol=1e-5, atol=1e-4):
                        raise Violation(what + "volume of %s %r and %r" % (x, a[1][x].tolist(), b[1][x].tolist()))


TESTS = [Test("agree", models(), t_agree, 1200, 3)]
