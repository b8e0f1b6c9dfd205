"""C06: re-running a model reproduces the same results."""

import numpy as np
from hypothesis import strategies as st

from harness import pm, rich
from harness.core import HarnessError, Test, req_equal

TECHNIQUE = "stateful random testing: random histories of run, step, reset, finish, failures and changes of the period on random whole models, differential against one run of a fresh model"
RULE = ("whole models from 75 kinds of parameters, 35 of recorders and 20 of nodes, after histories of one to four operations; non-trivial: the history makes at "
        "least one step before the run that is judged and some result changes over time")
NOTE = "Every flow, volume, parameter value, index, recorder value, series and table after the history equals that of a single run of a fresh model."


@st.composite
def histories(draw):
    sp = draw(rich.models())
    n = sp["clock"]["n"]
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["run", "run", "step", "step", "step", "reset", "finish", "restart", "fail", "fail", "period", "other", "setup"]))
        op = [k]
        if k in ("step", "restart", "fail", "period"):
            op.append(draw(st.integers(0 if k in ("restart", "fail") else 1, n - 1 if k in ("restart", "fail") else n)))
        if k == "fail":
            op.append(draw(st.sampled_from(["before", "value", "after"])))
        ops.append(op)
    sp["ops"] = ops
    sp["last"] = draw(st.sampled_from(["run", "run", "steps", "steps"]))
    return sp


def bomb(model):
    from pywr.parameters import Parameter
    from pywr.recorders import Recorder

    class Boom(Exception):
        pass

    class Bomb(Recorder):
        at = None

        def before(self):
            if self.at and self.at[1] == "before" and self.model.timestepper.current.index == self.at[0]:
                raise Boom()

        def after(self):
            if self.at and self.at[1] == "after" and self.model.timestepper.current.index == self.at[0]:
                raise Boom()

    class BombP(Parameter):
        def value(self, ts, si):
            if b.at and b.at[1] == "value" and ts.index == b.at[0]:
                raise Boom()
            return 0.0
    b = Bomb(model, name="verif bomb")
    BombP(model, name="verif bomb parameter")
    return b, Boom


def build(sp):
    model = rich.load(rich.document(sp))
    b, boom = bomb(model)
    return model, rich.watcher(model), b, boom


def steps(model, k):
    done = 0
    for _ in range(k):
        try:
            model.step()
        except StopIteration:
            break
        done += 1
    return done


def t_histories(sp, ev):
    import pandas as pd
    fresh, watch, _, _ = build(sp)
    fresh.run()
    want = rich.results(fresh, watch)

    model, watch, b, boom = build(sp)
    n = sp["clock"]["n"]
    ends = [x.strftime("%Y-%m-%d") for x, _, _ in pm.steps(sp["clock"])]
    made, open_ = 0, False      # open_: steps were made since the last reset, and not finished
    for op in sp["ops"]:
        k = op[0]
        was, open_ = open_, False
        if k == "run":
            model.run()
            made += n
        elif k == "step":
            made += steps(model, op[1])
            open_ = True
        elif k == "reset":
            if not model.dirty:
                model.reset()
        elif k == "setup":
            model.setup()
        elif k == "finish":
            if was:
                model.finish()
        elif k == "restart":
            if not model.dirty and not model.timestepper.dirty:
                model.reset(start=pd.Timestamp(ends[op[1]]))
                made += steps(model, 1)
                open_ = True
        elif k == "fail":
            b.at = (op[1], op[2])
            try:
                model.run()
                raise HarnessError("the failure was not injected")
            except boom:
                pass
            b.at = None
            made += op[1]
        elif k == "period":
            end = model.timestepper.end
            model.timestepper.end = ends[op[1] - 1]
            model.run()
            model.timestepper.end = end
            made += op[1]
        elif k == "other":
            other, _, _, _ = build(sp)
            steps(other, 1)
            open_ = was
    if sp["last"] == "run":
        model.run()
    else:
        if model.dirty or model.timestepper.dirty:
            model.setup()
        else:
            model.reset()
        req_equal("number of steps that can be made", steps(model, n + 3), n)
        model.finish()
    rich.compare("after %r, %s" % (sp["ops"], sp["last"]), rich.results(model, watch), want)
    rich.tags(sp, want, ev)
    ev.tag(*[op[0] for op in sp["ops"]])
    ev.nt(made > 0 and rich.lively(want))


TESTS = [Test("histories", histories(), t_histories, 3200)]
