"""C08: time-steps tile the simulation period with correct calendar attributes."""

import datetime as dt

from hypothesis import strategies as st

from harness import cal
from harness.core import Test, require, req_close, req_equal, raises

TECHNIQUE = "generated calendars against a reference calendar (datetime arithmetic); model-based histories of timestepper changes"
RULE = ("start date, number of steps and step length are generated (dates 1700-2199, biased to year ends and February); "
        "non-trivial: the run has at least two steps and crosses a year end, contains 28 Feb-1 Mar, or changes the timestepper")
ASSUMPTIONS = ["For week, month, quarter and year periods the date fields are those of pandas.Period (its last day), as Timestep documents."]


def offset_end(step, start, n, extra):
    """an end date inside the n-th period"""
    a, b = step.periods(start, start, extra=n)[-1]
    hours = int((b - a).total_seconds() // 3600)
    return max(a + dt.timedelta(hours=(extra * hours) // 100), start)


@st.composite
def timestepper(draw, maxn=60):
    s = draw(cal.step_specs())
    start = draw(cal.dates(1700, 2150))
    n = draw(st.one_of(st.integers(0, 5), st.integers(0, maxn if s["kind"] != "Y" else 30)))
    if s["kind"] == "D" and draw(st.integers(0, 7)) == 0:
        n = max(n, 366 * 4 // s["n"]) if s["n"] > 10 else n
    hour = draw(st.integers(0, 23)) if s["kind"] == "h" else 0
    return {"step": s, "start": start + ("T%02d:00:00" % hour if hour else ""), "n": n, "into": draw(st.integers(0, 99)),
            "day_end": draw(st.booleans()), "as_str": draw(st.booleans())}


def resolve(spec):
    step, delta = cal.make_step(spec["step"])
    start = cal.parse(spec["start"])
    end = offset_end(step, start, spec["n"], spec["into"])
    if spec["step"]["kind"] != "h" or spec["day_end"]:
        end = max(dt.datetime(end.year, end.month, end.day), start)
    return step, delta, start, end


def check_attributes(ts, i, a, b, step, ev):
    req_equal("index", ts.index, i)
    days = (b - a).total_seconds() / 86400.0
    what = "step %d (%s, %s) " % (i, a, step.freq)
    req_close(what + "days", ts.days, days, 0, 1e-9)
    req_equal(what + "datetime", ts.datetime.to_pydatetime(), a)
    req_equal(what + "period start", ts.period.start_time.to_pydatetime(), a)
    req_equal(what + "period end", ts.period.end_time.to_pydatetime().replace(microsecond=0), b - dt.timedelta(seconds=1))
    f = step.label(a)
    req_equal(what + "year", ts.year, f.year)
    req_equal(what + "month", ts.month, f.month)
    req_equal(what + "day", ts.day, f.day)
    req_equal(what + "dayofyear", ts.dayofyear, f.timetuple().tm_yday)
    req_equal(what + "dayofyear_index", ts.dayofyear_index, cal.profile_day(f))
    req_equal(what + "week_index", ts.week_index, cal.week(f))
    req_equal(what + "leap", bool(ts.is_leap_year), cal.leap(f.year))
    if (a.year == f.year or ev is None) and (b - cal.DAY).year <= a.year + 1:
        # (for periods labelled by a later year than they start in: a known finding)
        y = f.year
        req_close(what + "days in current year", ts.days_in_current_year(),
                  cal.day_span(a, b, dt.datetime(y, 1, 1), dt.datetime(y + 1, 1, 1)), 0, 1e-6)
        req_close(what + "days in next year", ts.days_in_next_year(),
                  cal.day_span(a, b, dt.datetime(y + 1, 1, 1), dt.datetime(y + 2, 1, 1)), 0, 1e-6)
        if ev and (b - dt.timedelta(seconds=1)).year != a.year:
            ev.tag("crosses year")
    if ev and a.month == 2 and a.day == 29:
        ev.tag("29 Feb")


def interesting(periods):
    a, b = periods[0][0], periods[-1][1]
    if len(periods) < 2:
        return False
    if (b - dt.timedelta(seconds=1)).year != a.year:
        return True
    return a <= dt.datetime(a.year, 2, 28) and b > dt.datetime(a.year, 3, 1)


def walk(stepper, periods, step, ev):
    from pywr.timestepper import Timestepper  # noqa
    req_equal("length", len(stepper), len(periods))
    seen = []
    last_end = None
    for i, ts in enumerate(stepper):
        require(i < len(periods), "more time-steps than periods")
        a, b = periods[i]
        check_attributes(ts, i, a, b, step, ev)
        cur = stepper.current
        req_equal("current", (cur.index, cur.datetime.to_pydatetime()), (i, a))
        if last_end is not None:
            req_equal("tiling", ts.datetime.to_pydatetime(), last_end)
        last_end = b
        seen.append(ts)
    req_equal("number of steps", len(seen), len(periods))


def t_calendar(spec, ev):
    from pywr.timestepper import Timestepper
    step, delta, start, end = resolve(spec)
    periods = step.periods(start, end)
    if spec["as_str"]:
        stepper = Timestepper(str(start), str(end), delta)
    else:
        import pandas
        stepper = Timestepper(pandas.Timestamp(start), pandas.Timestamp(end), delta)
    ev.nt(interesting(periods))
    ev.tag(spec["step"]["kind"], "n=%s" % ("1" if len(periods) == 1 else "2-9" if len(periods) < 10 else "10+"))
    walk(stepper, periods, step, ev)
    # the step after the last one is described too
    nxt = stepper.current
    a, b = step.periods(start, end, extra=1)[-1]
    req_equal("current after the end", (nxt.index, nxt.datetime.to_pydatetime()), (len(periods), a))
    req_close("days after the end", nxt.days, (b - a).total_seconds() / 86400.0, 0, 1e-9)
    idx = stepper.datetime_index
    req_equal("datetime_index", [t.to_pydatetime() for t in idx.to_timestamp()], [p[0] for p in periods])
    # again, from the start
    req_equal("length change reported by reset", bool(stepper.reset()), False)
    walk(stepper, periods, step, ev)


@st.composite
def changes(draw):
    n = draw(st.integers(1, 4))
    ops = []
    for _ in range(n):
        t = draw(timestepper(20))
        what = draw(st.sets(st.sampled_from(["start", "end", "delta"]), min_size=1))
        ops.append({"to": t, "what": sorted(what), "partial": draw(st.integers(0, 3)), "how": draw(st.sampled_from(["run", "step"]))})
    return {"first": draw(timestepper(20)), "ops": ops, "json": draw(st.booleans())}


def _model(spec):
    from pywr.model import Model
    from pywr.nodes import Input, Output
    from pywr.recorders import NumpyArrayNodeRecorder
    step, delta, start, end = resolve(spec["first"])
    if spec["json"] and not isinstance(delta, dt.timedelta):
        m = Model.load({
            "metadata": {"minimum_version": "0.1"},
            "timestepper": {"start": str(start), "end": str(end), "timestep": delta},
            "nodes": [{"name": "in", "type": "Input", "max_flow": 3}, {"name": "out", "type": "Output", "cost": -1, "max_flow": 5}],
            "edges": [["in", "out"]],
            "recorders": {"rec": {"type": "NumpyArrayNodeRecorder", "node": "in"}},
        })
        return m, m.recorders["rec"]
    m = Model(start=start, end=end, timestep=delta)
    a, b = Input(m, "in", max_flow=3), Output(m, "out", cost=-1, max_flow=5)
    a.connect(b)
    return m, NumpyArrayNodeRecorder(m, a)


def t_change(spec, ev):
    """changed start, end or step apply to the next run of a model"""
    m, rec = _model(spec)
    cur = dict(zip(("delta", "start", "end"), resolve(spec["first"])[1:]))
    steps = {"delta": resolve(spec["first"])[0]}
    ev.nt()

    def run(how):
        step, start, end = steps["delta"], cur["start"], cur["end"]
        periods = step.periods(start, end)
        if len(periods) > 400:
            return
        if how == "run":
            res = m.run()
            req_equal("timesteps", res.timesteps, len(periods))
            req_equal("result timestep index", res.timestep.index, len(periods) - 1)
        else:
            m.reset()
            n = 0
            while True:
                try:
                    m.step()
                except StopIteration:
                    break
                n += 1
            req_equal("steps", n, len(periods))
        df = rec.to_dataframe()
        req_equal("recorded dates", [t.to_pydatetime() for t in df.index.to_timestamp()], [p[0] for p in periods])
        require((df.values == 3.0).all(), "recorded flow is not 3 in every time-step")
    run("run")
    for op in spec["ops"]:
        step, delta, start, end = resolve(op["to"])
        new = dict(cur)
        if "start" in op["what"]:
            new["start"] = start
        if "end" in op["what"]:
            new["end"] = end
        if "delta" in op["what"]:
            new["delta"] = delta
        if new["end"] < new["start"] or (new["end"] - new["start"]).days > 6000:
            continue
        if "delta" in op["what"]:
            steps["delta"] = step
        for k in op["what"]:
            setattr(m.timestepper, k, new[k])
        ev.tag("changed " + "+".join(op["what"]))
        cur = new
        if op["partial"] and len(steps["delta"].periods(cur["start"], cur["end"])) > op["partial"]:
            for _ in range(op["partial"]):
                m.step()
        run(op["how"])


@st.composite
def restart(draw):
    t = draw(timestepper(30))
    return {"t": t, "at": draw(st.integers(0, 200)), "sec": draw(st.integers(0, 86399))}


def t_restart(spec, ev):
    """reset(start) continues from the period which contains the given time, and refuses others"""
    from pywr.timestepper import Timestepper
    import pandas
    step, delta, start, end = resolve(spec["t"])
    periods = step.periods(start, end)
    s = Timestepper(start, end, delta)
    k = spec["at"]
    if k < len(periods):
        a, b = periods[k]
        when = a + dt.timedelta(seconds=spec["sec"] % int((b - a).total_seconds()))
        s.reset(start=pandas.Timestamp(when))
        got = [t.index for t in s]
        req_equal("indices after a restart at %s" % when, got, list(range(k, len(periods))))
        ev.nt(0 < k)
        ev.tag("inside")
    else:
        when = periods[-1][1] + dt.timedelta(seconds=spec["sec"])
        if k % 2:
            when = periods[0][0] - dt.timedelta(seconds=spec["sec"] + 1)
        raises(ValueError, lambda: s.reset(start=pandas.Timestamp(when)), "restart outside the run")
        ev.tag("outside")
        ev.nt()


def t_days(spec, ev):
    """known-finding probe: attributes without exclusion"""
    step, delta, start, end = resolve(spec)
    from pywr.timestepper import Timestepper
    for i, (ts, (a, b)) in enumerate(zip(Timestepper(start, end, delta), step.periods(start, end))):
        check_attributes(ts, i, a, b, step, None)


TESTS = [
    Test("calendar", timestepper(), t_calendar, 1600, 3),
    Test("change", changes(), t_change, 400, 2),
    Test("restart", restart(), t_restart, 400, 1),
]
PROBES = {"days": t_days}
