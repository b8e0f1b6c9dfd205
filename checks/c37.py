"""C37: user-defined parts are called as documented, and errors end a run in an orderly way."""

import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks import c06
from harness import pm, rich
from harness.core import Ev, HarnessError, Test, Violation, req_arrays, req_close, req_equal, require

TECHNIQUE = ("model-based stateful testing: random graphs of user-defined nodes, parameters, index parameters and recorders that log their calls, driven through random "
             "histories with injected errors, against the documented protocol; fault injection into random whole models that write files")
RULE = ("calls: graphs of two to seven user-defined components over one to three user-defined nodes, histories of one to five operations; faults: whole models with an error at a random "
        "place; non-trivial: a component depends on another one and a step was made, or the error strikes")
NOTE = ("Each method is called once per phase (and `value` once per scenario) in every step, nodes before components, a component after those it depends on; an injected error is the "
        "error that the caller sees, every part is finished after it, files hold the steps before it, and the next run is as if nothing had happened.")


class Boom(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------------
# calls

def classes():
    from pywr.nodes import Input, Link, Output
    from pywr.parameters import IndexParameter, Parameter
    from pywr.recorders import Recorder

    def note(self, phase, t=None, s=None):
        log = self.model.verif
        log["calls"].append((phase, self.key, t, s))
        if log["fault"] == [self.key, phase, t, s]:
            log["error"] = Boom(self.key)
            raise log["error"]

    def nodes(base):
        class Logged(base):
            def setup(self, model):
                super().setup(model)
                note(self, "setup")

            def reset(self):
                super().reset()
                note(self, "reset")

            def before(self, ts):
                super().before(ts)
                require(ts is self.model.timestepper.current or ts == self.model.timestepper.current, "before() of a node got another time-step")
                note(self, "before", ts.index)

            def after(self, ts):
                super().after(ts)
                note(self, "after", ts.index)

            def finish(self):
                super().finish()
                note(self, "finish")
        return Logged

    def comps(base):
        class Logged(base):
            def setup(self):
                super().setup()
                note(self, "setup")

            def reset(self):
                super().reset()
                note(self, "reset")

            def before(self):
                super().before()
                note(self, "before", self.model.timestepper.current.index)

            def after(self):
                super().after()
                note(self, "after", self.model.timestepper.current.index)

            def finish(self):
                super().finish()
                note(self, "finish")
        return Logged

    class P(comps(Parameter)):
        def value(self, ts, si):
            note(self, "value", ts.index, si.global_id)
            return self.number + ts.index + 10.0 * si.global_id + sum(c.get_value(si) for c in self.uses)

    class I(comps(IndexParameter)):
        def index(self, ts, si):
            note(self, "value", ts.index, si.global_id)
            return int(self.number + ts.index + 10 * si.global_id + sum(c.get_value(si) for c in self.uses))

    class R(comps(Recorder)):
        pass
    return {"Input": nodes(Input), "Link": nodes(Link), "Output": nodes(Output), "P": P, "I": I, "R": R}


@st.composite
def graphs(draw):
    n, ns = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    k = draw(st.integers(2, 7))
    comps = []
    for i in range(k):
        kind = draw(st.sampled_from("PPPIR"))
        # recorders depend on anything, parameters on parameters
        pool = [j for j in range(i) if kind == "R" or comps[j]["kind"] != "R"]
        uses = draw(st.lists(st.sampled_from(pool), max_size=3)) if pool else []
        comps.append({"kind": kind, "uses": uses, "how": [draw(st.sampled_from(["children", "parents"])) for _ in uses]})
    sp = {"n": n, "ns": ns, "comps": comps, "order": draw(st.permutations(range(k))), "links": draw(st.integers(0, 2)), "inner": draw(st.lists(st.booleans(), min_size=2, max_size=2)), "step": draw(st.sampled_from([1, 1, 7, "M"])),
          "solver": draw(st.sampled_from(["glpk", "glpk", "glpk-edge", "lpsolve"])), "ops": []}
    keys = ["c%d" % i for i in range(k)] + ["n%d" % i for i in range(sp["links"] + 2)]
    late = 0
    for _ in range(draw(st.integers(1, 5))):
        op = [draw(st.sampled_from(["run", "run", "step", "step", "reset", "setup", "fault", "fault", "fault", "period", "late", "depend"]))]
        if op[0] == "step":
            op.append(draw(st.integers(1, n)))
        elif op[0] == "period":
            op.append(draw(st.integers(1, 4)))
        elif op[0] == "fault":
            key = draw(st.sampled_from(keys))
            isp = key[0] == "c" and comps[int(key[1:])]["kind"] != "R"
            phase = draw(st.sampled_from(["setup", "reset", "before", "after", "value", "value"] if isp else ["setup", "reset", "before", "after"]))
            op += [key, phase, draw(st.integers(0, n - 1)) if phase in ("before", "after", "value") else None, draw(st.integers(0, ns - 1)) if phase == "value" else None,
                   draw(st.booleans())]
        elif op[0] == "late":
            op.append("l%d" % late)
            late += 1
        elif op[0] == "depend":
            a, b = draw(st.integers(0, k - 1)), draw(st.integers(0, k - 1))
            a, b = max(a, b), min(a, b)
            if a == b or (comps[b]["kind"] == "R" and comps[a]["kind"] != "R"):
                op = ["run"]
            else:
                op += [a, b]
        sp["ops"].append(op)
    return sp


def t_calls(sp, ev):
    import pandas as pd
    from pywr.model import Model
    from pywr.core import Scenario
    cls = classes()
    freq = {1: "D", 7: "7D", "M": "MS"}[sp["step"]]
    days = [d.strftime("%Y-%m-%d") for d in pd.date_range("2015-01-01", periods=8, freq=freq)]
    model = Model(start=days[0], end=days[sp["n"] - 1], timestep=sp["step"], solver=sp["solver"])
    log = model.verif = {"calls": [], "fault": None, "error": None}
    if sp["ns"] > 1:
        Scenario(model, "S", size=sp["ns"])
    chain = []
    for i in range(sp["links"] + 2):
        kind = "Input" if i == 0 else "Output" if i == sp["links"] + 1 else "Link"
        x = cls[kind](model, "n%d" % i, **({"max_flow": 5.0} if i == 0 else {"cost": -1.0} if kind == "Output" else {"parent": chain[0]} if sp["inner"][i - 1] else {}))     # parts of another node too
        x.key = "n%d" % i
        if chain:
            chain[-1].connect(x)
        chain.append(x)
    comps = {}

    def make(key, kind):
        c = comps[key] = cls[kind](model, name=key)
        c.key, c.number, c.uses = key, float(len(comps)), []
        return c
    for i in sp["order"]:
        make("c%d" % i, sp["comps"][i]["kind"])
    deps = set()        # (before, after)

    def use(a, b, how):
        """b uses a"""
        if how == "children":
            comps[b].children.add(comps[a])
        else:
            comps[a].parents.add(comps[b])
        deps.add((a, b))
        if sp["comps"][int(a[1:])]["kind"] != "R":
            comps[b].uses.append(comps[a])
    for i, c in enumerate(sp["comps"]):
        for j, how in zip(c["uses"], c["how"]):
            use("c%d" % j, "c%d" % i, how)

    state = {"n": sp["n"], "at": None, "dirty": True}      # at: next step to be made

    def members():
        ns = [x.key for x in chain]
        return ns, list(comps)

    def plan(phases):
        """the expected calls, as groups within which the order is free except for dependencies: (phase, step, keys, scenarios)"""
        ns, cs = members()
        ps = [c for c in cs if not isinstance(comps[c], cls["R"])]
        out = []
        for ph, t in phases:
            if ph == "step":
                out += [("before", t, ns, None), ("before", t, cs, None), ("value", t, ps, list(range(sp["ns"]))), ("after", t, ns, None), ("after", t, cs, None)]
            else:
                out += [(ph, None, ns, None), (ph, None, cs, None)]
        return out

    def judge(what, groups, failed=None, then=()):
        """failed: the fault [key, phase, t, s] that ended it; then: groups after that"""
        calls, log["calls"] = log["calls"], []
        pos = 0
        for queue in (groups, then):
            for ph, t, keys, ss in queue:
                want = {(ph, k, t, s) for k in keys for s in (ss or [None])}
                got = []
                stop = False
                while pos < len(calls) and calls[pos] in want:
                    c = calls[pos]
                    if isinstance(comps.get(c[1]), cls["I"]) and ph == "value" and c in got:
                        pos += 1        # the index may be asked for once more
                        continue
                    require(c not in got, "%s: %r is called twice" % (what, c))
                    got.append(c)
                    pos += 1
                    if queue is groups and failed and list(c[1:2]) + [c[0]] + list(c[2:]) == failed:
                        stop = True
                        break
                seen = []
                for c in got:
                    for a, b in deps:
                        if a == c[1]:
                            require(b not in seen, "%s: %s of %s is called before that of %s, on which it depends" % (what, ph, b, a))
                    if c[1] not in seen:
                        seen.append(c[1])
                if ss:
                    for k in keys:
                        order = [c[3] for c in got if c[1] == k]
                        req_equal("%s: scenarios of the calls of %s" % (what, k), order, ss[:len(order)])
                if stop:
                    break
                if set(got) != want:
                    raise Violation("%s: expected %s of %r in step %r, got %r, then %r" % (
                        what, ph, sorted(keys), t, sorted({c[1] for c in got}), calls[pos] if pos < len(calls) else None))
            else:
                if queue is groups and failed:
                    raise HarnessError("the fault %r was not met" % (failed,))
        require(pos == len(calls), "%s: unexpected call %r" % (what, calls[pos] if pos < len(calls) else None))

    def values(t):
        for s in range(sp["ns"]):
            memo = {}

            def val(c):
                if c.key not in memo:
                    memo[c.key] = c.number + t + 10.0 * s + sum(val(x) for x in c.uses)
                return memo[c.key]
            for k, c in comps.items():
                if not isinstance(c, cls["R"]):
                    req_close("value of %s in step %d, scenario %d" % (k, t, s), c.get_all_values()[s] if not isinstance(c, cls["I"]) else c.get_all_indices()[s], val(c))

    def begin():
        """what comes first in a run"""
        return [("setup", None), ("reset", None)] if state["dirty"] else [("reset", None)]

    log["calls"].clear()
    for o, op in enumerate(sp["ops"] + [["run"]]):
        k = op[0]
        what = "operation %d, %r" % (o, op)
        if k == "run":
            model.run()
            judge(what, plan(begin() + [("step", t) for t in range(state["n"])] + [("finish", None)]))
            state.update(dirty=False, at=state["n"])
            values(state["n"] - 1)
            ev.nt(bool(deps))
        elif k == "step":
            for _ in range(op[1]):
                first = [("setup", None), ("reset", None)] if state["dirty"] else []
                if first:
                    state["at"] = 0
                if state["at"] >= state["n"]:
                    break
                model.step()
                judge(what, plan(first + [("step", state["at"])]))
                values(state["at"])
                state["at"] += 1
                state["dirty"] = False
                ev.nt(bool(deps))
        elif k == "reset":
            if not state["dirty"]:
                model.reset()
                judge(what, plan([("reset", None)]))
                state["at"] = 0
        elif k == "setup":
            model.setup()
            judge(what, plan([("setup", None), ("reset", None)]))
            state.update(dirty=False, at=0)
        elif k == "period":
            if op[1] != state["n"]:
                model.timestepper.end = days[op[1] - 1]
                state.update(n=op[1], dirty=True)
        elif k == "late":
            make(op[1], "P")
            log["calls"].clear()
            state["dirty"] = True
        elif k == "depend":
            use("c%d" % op[2], "c%d" % op[1], "children")
            model.dirty = True
            state["dirty"] = True
        elif k == "fault":
            key, phase, t, s, whole = op[1:]
            if t is not None and t >= state["n"]:
                continue
            if phase == "setup" and not state["dirty"]:
                continue
            if not whole and (phase in ("setup", "reset")):
                continue
            fault = [key, phase, t, s]
            log["fault"] = fault
            try:
                if whole:
                    model.run()
                else:
                    if not state["dirty"]:
                        model.reset()
                    for _ in range(t + 1):
                        model.step()
                raise Violation(what + ": the error is lost")
            except Boom as e:
                require(e is log["error"], "%s: another error is raised: %r" % (what, e))
            except (Violation, HarnessError):
                raise
            except Exception as e:
                raise Violation("%s: the error became %r" % (what, e))
            log["fault"] = None
            ev.tag("fault in %s of a %s" % (phase, "node" if key[0] == "n" else sp["comps"][int(key[1:])]["kind"]))
            ev.nt()
            steps = [] if t is None else [("step", x) for x in range(t + 1)]
            if phase == "setup":        # there may be nothing to finish yet
                log["calls"][:] = [c for c in log["calls"] if c[0] != "finish"]
            judge(what, plan(begin() + steps), fault, plan([("finish", None)]) if whole and phase != "setup" else [])
            if phase not in ("setup", "reset"):
                state["dirty"] = False
            elif phase == "reset" and state["dirty"]:
                pass        # the set-up was not completed
            state["at"] = state["n"] if t is None else t + 1
            if phase == "reset" and not state["dirty"]:
                # whatever the state is now: begin again
                model.reset()
                log["calls"].clear()
                state["at"] = 0
        ev.tag(k)


# ---------------------------------------------------------------------------------------------------------------
# faults

@st.composite
def faults(draw):
    sp = draw(rich.models(maxn=6, recs=6))
    sp["where"] = draw(st.sampled_from(["setup", "setup", "reset", "before", "value", "after", "after"]))
    sp["who"] = draw(st.sampled_from(["parameter", "recorder", "node"]))
    if sp["where"] == "value":
        sp["who"] = "parameter"
    sp["at"] = draw(st.integers(0, sp["clock"]["n"] - 1))
    sp["first"] = draw(st.booleans())       # the faulty part is made before or after everything else
    sp["files"] = draw(st.sampled_from(["h5", "csv", "both"]))
    sp["ran"] = sp["where"] != "setup" and draw(st.booleans())
    return sp


def bomb(model, sp, kind):
    """a part of the model that raises an error when its switch is on"""
    from pywr.nodes import Input, Output
    from pywr.parameters import Parameter
    from pywr.recorders import Recorder
    switch = {"on": False, "error": None}

    def hit(phase):
        if switch["on"] and sp["where"] == phase and (phase in ("setup", "reset") or model.timestepper.current.index == sp["at"]):
            switch["error"] = Boom(phase)
            raise switch["error"]

    class Mixin:
        def setup(self, *a):
            super().setup(*a)
            hit("setup")

        def reset(self):
            super().reset()
            hit("reset")

        def before(self, *a):
            super().before(*a)
            hit("before")

        def after(self, *a):
            super().after(*a)
            hit("after")
    if kind == "parameter":
        class Bomb(Mixin, Parameter):
            def value(self, ts, si):
                hit("value")
                return 0.0
        Bomb(model, name="verif bomb")
    elif kind == "recorder":
        class Bomb(Mixin, Recorder):
            pass
        Bomb(model, name="verif bomb")
    else:
        class Bomb(Mixin, Input):
            pass
        Bomb(model, "verif bomb", max_flow=1.0).connect(Output(model, "verif bomb end"))
    return switch


def build(sp, folder):
    from pywr._core import AbstractStorage
    from pywr.recorders import CSVRecorder, TablesRecorder
    model = rich.load(rich.document(sp))
    switch = bomb(model, sp, sp["who"]) if sp["first"] else None
    names = sorted(n.name for n in model.nodes if not isinstance(n, AbstractStorage) and not n.name.startswith("verif"))
    if sp["files"] != "csv":
        TablesRecorder(model, os.path.join(folder, "out.h5"), nodes=names, name="verif tables")
    if sp["files"] != "h5":
        CSVRecorder(model, os.path.join(folder, "out.csv"), nodes=names, name="verif csv")
    watch = rich.watcher(model)
    if switch is None:
        switch = bomb(model, sp, sp["who"])
    return model, watch, switch, names


def clean(x):
    return {k: v for k, v in x.items() if "verif" not in k}


def files(what, sp, folder, names, want, done, more):
    """done: full steps; more: steps that may be there as well"""
    import csv
    import tables
    if sp["files"] != "csv":
        path = os.path.join(folder, "out.h5")
        require(not [f for f in tables.file._open_files.filenames if os.path.samefile(f, path)], what + ": the HDF5 file is left open")
        with tables.open_file(path) as f:
            for x in names:
                a = f.get_node("/", x).read()
                req_arrays("%s: flow of %s in the file" % (what, x), a.reshape(len(a), -1)[:done], want["flow of %s" % x][:done], 1e-6, 1e-6)
    if sp["files"] != "h5":
        with open(os.path.join(folder, "out.csv"), newline="") as f:
            rows = list(csv.reader(f))
        require(done <= len(rows) - 1 <= done + more, "%s: %d rows in the CSV file after %d steps" % (what, len(rows) - 1, done))
        for t, r in enumerate(rows[1:done + 1]):
            req_arrays("%s: row %d of the CSV file" % (what, t), [float(x) for x in r[1:]], [want["flow of %s" % x][t][0] for x in rows[0][1:]], 1e-6, 1e-6)


def t_faults(sp, ev):
    folder = tempfile.mkdtemp(prefix="verif-c37-")
    try:
        fresh, watch, _, names = build(sp, folder)
        fresh.run()
        want = rich.results(fresh, watch)
        n = sp["clock"]["n"]
        files("a run without errors", sp, folder, names, want, n, 0)

        model, watch, switch, _ = build(sp, folder)
        if sp["ran"]:
            model.run()
        switch["on"] = True
        what = "error in %s of a %s" % (sp["where"], sp["who"])
        try:
            model.run()
            raise Violation(what + " is lost")
        except Boom as e:
            require(e is switch["error"], what + ": another error is raised")
        except Violation:
            raise
        except Exception as e:
            raise Violation("%s became %r" % (what, e))
        switch["on"] = False
        if sp["where"] not in ("setup", "reset"):
            files(what, sp, folder, names, want, sp["at"], sp["where"] == "after")
        model.run()
        rich.compare("after an " + what, clean(rich.results(model, watch)), clean(want))
        files("the next run after an " + what, sp, folder, names, want, n, 0)
        ev.tag(what, "%s file" % sp["files"])
        ev.nt()
    finally:
        shutil.rmtree(folder)


TESTS = [Test("calls", graphs(), t_calls, 1500, 1), Test("faults", faults(), t_faults, 500, 2)]
