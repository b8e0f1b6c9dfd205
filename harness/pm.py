"""Small models around parameters: a clock, scenarios, a trivial network, and the values of every parameter in every step."""

import datetime as dt
import itertools

import numpy as np
from hypothesis import strategies as st

from harness import cal, nets


@st.composite
def clocks(draw, maxn=20, kinds="DDDDDDWMQ", lo=1800, hi=2150, hard=True):
    s = draw(cal.step_specs(kinds))
    if s["kind"] == "D":
        s["form"] = draw(st.sampled_from(["int", "str"]))
    return {"step": s, "start": draw(cal.dates(lo, hi)), "n": draw(st.integers(1, maxn))}


def steps(clock):
    """[(start, end, date whose fields pywr reports)]"""
    step, _ = cal.make_step(clock["step"])
    a = cal.parse(clock["start"])
    return [(x, y, step.label(x)) for x, y in step.periods(a, a, extra=clock["n"] - 1)]


def timestepper(clock):
    _, delta = cal.make_step(clock["step"])
    return {"start": clock["start"], "end": steps(clock)[-1][0].strftime("%Y-%m-%d"), "timestep": delta}


def combos(sizes):
    return list(itertools.product(*[range(n) for n in sizes])) if sizes else [()]


def document(clock, sizes=(), params=None, solver="glpk"):
    doc = {"metadata": {"title": "p", "minimum_version": "0.1"}, "timestepper": timestepper(clock), "solver": {"name": solver},
           "nodes": [{"name": "in", "type": "Input", "max_flow": 5.0}, {"name": "out", "type": "Output", "max_flow": 5.0, "cost": -1.0}],
           "edges": [["in", "out"]], "parameters": dict(params or {})}
    if sizes:
        doc["scenarios"] = [{"name": "S%d" % i, "size": n} for i, n in enumerate(sizes)]
    return doc


def values(model, names, runs=1):
    """{name: array (runs*steps, combinations)}; the model's own clock decides the number of steps"""
    out = {k: [] for k in names}
    model.setup()
    n = len(model.timestepper)
    for run in range(runs):
        if run:
            model.reset()
        for _ in range(n):
            model.step()
            for k in names:
                out[k].append(np.array(model.parameters[k].get_all_values()))
    return {k: np.array(v) for k, v in out.items()}
