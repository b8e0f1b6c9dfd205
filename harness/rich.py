"""Whole models with many kinds of nodes, parameters and recorders, for relations between runs (no oracle is needed).

Every number carries its own irrational offset, so that no two quantities coincide by chance: least-cost solutions are
unique and no threshold is met exactly."""

import copy

import numpy as np
from hypothesis import strategies as st

from harness import nets, pm, scen

MONTHLY = 12


class Ctx:
    def __init__(self, draw, clock, sc):
        self.draw, self.clock, self.sc = draw, clock, sc
        self.n = clock["n"]
        self.k = 0
        self.params, self.index, self.recs = {}, [], {}       # documents; names of index parameters
        self.hot = []                                           # parameters that differ between scenarios
        self.consts = []                                        # parameters that do not depend on the state
        self.nodes, self.edges = [], []
        self.flow, self.ins, self.stores, self.vols, self.fixed = [], [], [], [], []    # names
        self.groups = []                                        # names of aggregated nodes
        self.daily = clock["step"]["kind"] == "D" and clock["step"]["form"] == "int"

    def i(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def pick(self, xs):
        return self.draw(st.sampled_from(list(xs)))

    def flip(self, n=2):
        return self.i(0, n - 1) == 0

    def odd(self, x):
        self.k += 1
        p = nets._primes[self.k % 30]
        return round(x + (p ** 0.5 % 1.0) * 0.09 + 1e-4 * (self.k // 30), 9)

    def num(self, lo=0, hi=24):
        return self.odd(self.i(4 * lo, 4 * hi) / 4.0)

    def vals(self, m, lo=0, hi=24):
        """m numbers from a short drawn pattern"""
        pat = [self.num(lo, hi) for _ in range(min(m, self.i(1, 6)))]
        w = self.num(0, 2)
        return [round(pat[j % len(pat)] + w * (j % 29) / 29.0, 9) for j in range(m)]

    def up(self, m, top=1.0):
        """m increasing numbers in (0, top)"""
        base = [(j + 1 + 0.25 * self.i(-1, 1)) / (m + 1.0) for j in range(m)]
        return [round(b * top + (self.odd(0) - 0.05) * 0.2 * top / (m + 1), 9) for b in base]

    # references
    def ref(self):
        if self.hot and self.flip(3):
            return self.pick(self.hot)
        if self.params and not self.flip(6):
            return self.pick(self.params)
        return self.inline()

    def inline(self):
        return {"type": "constant", "value": self.num(-6, 12)}

    def const(self):
        return self.pick(self.consts) if self.consts and self.flip() else self.inline()

    def iref(self):
        return self.pick(self.index)

    def anode(self):
        return self.pick(self.flow)

    def astore(self):
        return self.pick(self.vols)

    def clamp(self, x, lo=0.0, hi=20.0):
        """a number or the name of a parameter limited to a range"""
        if isinstance(x, float):
            return x
        name = "c%d" % len(self.params)
        self.params[name] = {"type": "aggregated", "agg_func": "max", "parameters": [
            {"type": "aggregated", "agg_func": "min", "parameters": [x, {"type": "constant", "value": hi}]}, {"type": "constant", "value": lo}]}
        return name

    def rate(self):
        """something to use as a flow limit: a number, or a placeholder filled in when the parameters exist"""
        x = self.num(1, 12)
        return x if self.flip(3) else {"fill": x}

    def scenario(self):
        return self.pick([s for s in self.sc["scen"]])


# ---------------------------------------------------------------------------------------------------------------
# nodes

LINKS = ("Link", "Link", "BreakLink", "River", "RiverGauge", "PiecewiseLink", "LossLink", "DelayNode", "none")


def b_supply(c, k):
    kind = c.pick(LINKS)
    i, o, l = "in%d" % k, "out%d" % k, "link%d" % k
    a = {"name": i, "type": "Input", "max_flow": c.rate(), "cost": c.num(0, 4)}
    z = {"name": o, "type": "Output", "max_flow": c.rate(), "cost": -c.num(10, 20)}
    m = {"name": l, "type": kind}
    if kind == "RiverGauge":
        m.update(mrf=c.rate(), mrf_cost=-c.num(10, 30), cost=c.num(0, 3))
    elif kind == "PiecewiseLink":
        m.update(nsteps=2, costs=[-c.num(0, 3), c.num(0, 3)], max_flows=[c.rate(), c.num(1, 5)])
    elif kind == "LossLink":
        m.update(loss_factor=c.pick([0.13, 0.29]), cost=c.num(0, 1), loss_factor_type=c.pick(["net", "gross"]))
        if c.flip():
            m["max_flow"] = c.rate()
    elif kind == "DelayNode":
        a["cost"] = -c.num(1, 4)
        z["cost"] = c.num(0, 1)
        z.pop("max_flow")
        m["initial_flow"] = c.pick([0.0, c.num(0, 3)])
        if c.daily and c.flip():
            m["days"] = c.clock["step"]["n"] * c.i(1, 3)
        else:
            m["timesteps"] = c.i(1, 3)
    elif kind != "none":
        m["cost"] = c.num(0, 2)
        if c.flip():
            m["max_flow"] = c.rate()
    c.nodes += [a, z] + ([m] if kind != "none" else [])
    c.edges += [[i, l], [l, o]] if kind != "none" else [[i, o]]
    c.flow += [i, o] + ([l] if kind not in ("none", "DelayNode") else [])
    c.ins.append(i)


def b_split(c, k):
    i, m, o1, o2 = "in%d" % k, "split%d" % k, "out%d" % k, "side%d" % k
    kind = c.pick(["RiverSplitWithGauge", "MultiSplitLink", "RiverSplit"])
    a = {"name": i, "type": "Input", "max_flow": c.rate(), "cost": c.num(0, 2)}
    d = {"name": m, "type": kind, "factors": [c.pick([1.0, 3.0]), c.pick([1.0, 2.0])], "slot_names": ["river", "abs"]}
    if kind == "RiverSplitWithGauge":
        d.update(mrf=c.rate(), mrf_cost=-c.num(15, 30), cost=c.num(0, 3))
    else:
        d.update(costs=[c.num(0, 2)], max_flows=[c.num(4, 20)], nsteps=1)
        if kind == "MultiSplitLink":
            d["extra_slots"] = 1
    c.nodes += [a, d, {"name": o1, "type": "Output", "cost": -c.num(4, 10)},
                {"name": o2, "type": "Output", "max_flow": c.rate(), "cost": -c.num(4, 10)}]
    c.edges += [[i, m], [m, o1, "river", None], [m, o2, "abs", None]]
    c.flow += [i, o1, o2]
    c.ins.append(i)


def b_store(c, k):
    s, cat, l, dem, spill = "store%d" % k, "cat%d" % k, "rel%d" % k, "dem%d" % k, "spill%d" % k
    days = (pm.steps(c.clock)[0][1] - pm.steps(c.clock)[0][0]).days
    top = c.num(4, 60) * days
    d = {"name": s, "type": c.pick(["Storage", "Storage", "Reservoir"]), "max_volume": top, "min_volume": c.pick([0.0, round(0.1173 * top, 6)]),
         "initial_volume": round(top * c.pick([1.0, 0.5127, 0.8031]), 9), "cost": -c.num(0, 2)}
    if d["type"] == "Reservoir" and c.flip():
        d.update(above_curve_cost=c.num(0, 1), cost=-c.num(1, 2), control_curve=c.up(1)[0])
    if c.flip(3):
        d["max_volume"] = {"type": "monthlyprofile", "values": [round(top * (1.0 + 0.02 * ((j * 5) % 7)), 6) for j in range(12)]}
        d["initial_volume_pc"] = round(d["initial_volume"] / (top * 1.13), 9)
    for x in ("level", "area"):
        if c.flip():
            d[x] = c.pick([c.num(1, 20), {"type": "interpolatedvolume", "node": s, "volumes": [0.0, top, 3 * top], "values": [1.1, 9.7, 12.3],
                                           "interp_kwargs": {"kind": "linear", "bounds_error": False, "fill_value": 5.0}}])
    if c.flip(4):
        d["cost"] = {"type": "controlcurve", "storage_node": s, "control_curves": c.up(1), "values": [-0.103, -c.num(1, 3)]}
    if c.flip(4):
        d["outputs"], d["inputs"] = 1, 2
    catd = {"name": cat, "type": "Catchment", "flow": c.rate()}
    c.nodes += [d, catd, {"name": l, "type": "Link", "max_flow": c.rate()}, {"name": dem, "type": "Output", "cost": -c.num(10, 20)},
                {"name": spill, "type": "Output", "cost": c.num(50, 60)}]
    two = d.get("inputs") == 2
    c.edges += [[cat, s], [s, l, 0, None] if two else [s, l], [l, dem], [s, spill, 1, None] if two else [s, spill]]
    c.flow += [cat, l, dem, spill]
    c.stores.append(s)
    c.vols.append(s)
    if c.flip(3):       # evaporation through a node that depends on the storage
        e = "evap%d" % k
        c.nodes.append({"name": e, "type": "Output", "max_flow": c.rate(), "cost": -c.num(21, 25)})
        c.edges.append([s, e, 0, None] if two else [s, e])
        c.flow.append(e)


VS = ("VirtualStorage", "AnnualVirtualStorage", "MonthlyVirtualStorage", "SeasonalVirtualStorage", "RollingVirtualStorage")


def b_virtual(c, k):
    kind = c.pick(VS)
    days = (pm.steps(c.clock)[0][1] - pm.steps(c.clock)[0][0]).days
    top = c.num(2, 50) * days
    d = {"name": "vs%d" % k, "type": kind, "nodes": c.draw(st.lists(st.sampled_from(c.ins), min_size=1, max_size=2, unique=True)),
         "min_volume": 0.0, "max_volume": top, "initial_volume": round(top * c.pick([1.0, 0.6131]), 9)}
    if c.flip():
        d["factors"] = [c.pick([1.0, 0.5, 2.0]) for _ in d["nodes"]]
    if kind == "RollingVirtualStorage":
        d["initial_volume"] = top
        if c.daily and c.flip():
            d["days"] = c.clock["step"]["n"] * c.i(2, 4)
        else:
            d["timesteps"] = c.i(2, 4)
    if kind in ("AnnualVirtualStorage", "SeasonalVirtualStorage"):
        d.update(reset_day=c.i(1, 28), reset_month=c.i(1, 12))
    if kind == "SeasonalVirtualStorage":
        d.update(end_day=c.i(1, 28), end_month=c.i(1, 12))
    if kind == "MonthlyVirtualStorage":
        d.update(months=c.i(1, 3), initial_months=0)
    if kind in ("AnnualVirtualStorage", "MonthlyVirtualStorage", "SeasonalVirtualStorage"):
        d["reset_to_initial_volume"] = c.flip()
    c.nodes.append(d)
    c.vols.append(d["name"])


def b_group(c, k):
    if c.flip() and c.stores:
        c.nodes.append({"name": "aggs%d" % k, "type": "AggregatedStorage", "storage_nodes": c.draw(st.lists(st.sampled_from(c.stores), min_size=1, max_size=3, unique=True))})
        c.vols.append("aggs%d" % k)
        return
    d = {"name": "agg%d" % k, "type": "AggregatedNode", "nodes": c.draw(st.lists(st.sampled_from(c.ins), min_size=1, max_size=3, unique=True))}
    if c.flip():
        d["max_flow"] = c.rate()
    if c.flip():
        d["flow_weights"] = [c.pick([1.0, 0.5, 2.0]) for _ in d["nodes"]]
    c.nodes.append(d)
    c.groups.append(d["name"])


# ---------------------------------------------------------------------------------------------------------------
# parameters: functions of the context that return a document; those of the first dictionary do not depend on the state

def ops(c):
    return c.pick(["LT", "GT", "LE", "GE"])


def P(kind, f):
    return lambda c: dict({"type": kind}, **f(c))


def weighted(c):
    xs = [d["name"] for d in c.nodes if isinstance(d.get("max_volume"), float) and d["type"] in ("Storage", "Reservoir")]
    return {"storages": xs, "profiles": [c.pick([c.inline(), {"type": "monthlyprofile", "values": c.vals(12)}]) for _ in xs]} if xs else None


STATIC = {
    "constant": lambda c: {"value": c.num(-6, 12)},
    "arrayindexed": lambda c: {"values": c.vals(c.n)},
    "dailyprofile": lambda c: {"values": c.vals(366)},
    "weeklyprofile": lambda c: {"values": c.vals(52)},
    "monthlyprofile": lambda c: dict({"values": c.vals(12)}, **c.pick([{}, {"interp_day": "first"}, {"interp_day": "last"}])),
    "uniformdrawdownprofile": lambda c: {"reset_day": c.i(1, 28), "reset_month": c.i(1, 12)},
    "rbfprofile": lambda c: {"days_of_year": [1, c.i(60, 120), c.i(150, 200), c.i(240, 300)], "values": [c.num(0, 9) for _ in range(4)]},
    "annualharmonicseries": lambda c: {"mean": c.num(5, 10), "amplitudes": [c.num(0, 2), c.num(0, 1)], "phases": [c.num(0, 3), c.num(0, 3)]},
    "discountfactor": lambda c: {"rate": 0.037, "base_year": 2015},
    "constantscenario": lambda c: (lambda s: {"scenario": s["name"], "values": c.vals(s["size"])})(c.scenario()),
    "arrayindexedscenario": lambda c: (lambda s: {"scenario": s["name"], "values": [c.vals(s["size"]) for _ in range(c.n)]})(c.scenario()),
    "arrayindexedscenariomonthlyfactors": lambda c: (lambda s: {"scenario": s["name"], "values": c.vals(c.n), "factors": [c.vals(12, 0, 2) for _ in range(s["size"])]})(c.scenario()),
    "scenariomonthlyprofile": lambda c: (lambda s: {"scenario": s["name"], "values": [c.vals(12) for _ in range(s["size"])]})(c.scenario()),
    "scenarioweeklyprofile": lambda c: (lambda s: {"scenario": s["name"], "values": [c.vals(52) for _ in range(s["size"])]})(c.scenario()),
    "scenariodailyprofile": lambda c: (lambda s: {"scenario": s["name"], "values": [c.vals(366) for _ in range(s["size"])]})(c.scenario()),
    "scenariowrapper": lambda c: (lambda s: {"scenario": s["name"], "parameters": [c.const() for _ in range(s["size"])]})(c.scenario()),
}
SINDEX = {
    "constantscenarioindex": lambda c: (lambda s: {"scenario": s["name"], "values": [c.i(0, 2) for _ in range(s["size"])]})(c.scenario()),
    "currentyearthreshold": lambda c: {"threshold": 2000, "predicate": ops(c), "values": c.vals(2)},
    "currentordinaldaythreshold": lambda c: {"threshold": 730000, "predicate": ops(c), "values": c.vals(2)},
}
STATE = {
    "aggregated": lambda c: {"agg_func": c.pick(["sum", "mean", "min", "max", "median"]), "parameters": [c.ref() for _ in range(c.i(1, 3))]},
    "negative": lambda c: {"parameter": c.ref()},
    "max": lambda c: {"parameter": c.ref(), "threshold": c.num(0, 8)},
    "min": lambda c: {"parameter": c.ref(), "threshold": c.num(0, 8)},
    "negativemax": lambda c: {"parameter": c.ref(), "threshold": c.num(0, 8)},
    "negativemin": lambda c: {"parameter": c.ref(), "threshold": -c.num(0, 8)},
    "division": lambda c: {"numerator": c.ref(), "denominator": {"type": "offset", "offset": 1.3717, "parameter": {"type": "max", "parameter": c.ref(), "threshold": 0.0}}},
    "offset": lambda c: {"parameter": c.ref(), "offset": c.num(-3, 3)},
    "scaledprofile": lambda c: {"scale": c.num(0, 2), "profile": c.ref()},
    "interpolated": lambda c: {"parameter": c.clamp(c.ref()), "x": [-1.0, c.num(1, 9), 21.0], "y": c.vals(3)},
    "interpolatedflow": lambda c: {"node": c.anode(), "flows": [-100.0, c.num(0, 9), 1e5], "values": c.vals(3)},
    "interpolatedvolume": lambda c: {"node": c.astore(), "volumes": [-1e6, 10.0, 1e6], "values": c.vals(3)},
    "interpolatedquadrature": lambda c: {"upper_parameter": c.clamp(c.ref()), "x": [-1.0, c.num(1, 9), 21.0], "y": c.vals(3, 0, 2)},
    "logistic": lambda c: {"growth_rate": c.num(0, 2), "max_output": c.num(1, 9)},
    "flow": lambda c: {"node": c.anode(), "initial_value": c.num(0, 5)},
    "flowdelay": lambda c: dict({"node": c.anode(), "initial_flow": c.num(0, 5)}, **({"days": c.clock["step"]["n"] * c.i(1, 4)} if c.daily and c.flip() else {"timesteps": c.i(1, 4)})),
    "rollingmeanflownode": lambda c: dict({"node": c.anode(), "initial_flow": c.num(0, 5)}, **({"days": c.clock["step"]["n"] * c.i(1, 4)} if c.daily and c.flip() else {"timesteps": c.i(1, 4)})),
    "storage": lambda c: {"storage_node": c.astore(), "use_proportional_volume": c.flip()},
    "deficit": lambda c: {"node": c.pick(c.fixed)} if c.fixed else None,
    "polynomial1d": lambda c: dict({"coefficients": [c.num(0, 3), 0.0131, 0.00017]}, **c.pick([{"node": c.anode()}, {"storage_node": c.astore(), "use_proportional_volume": True},
                                                                                                {"parameter": c.clamp(c.ref())}])),
    "polynomial2dstorage": lambda c: {"coefficients": [[c.num(0, 3), 0.013], [0.021, 0.0017]], "storage_node": c.astore(), "parameter": c.clamp(c.ref()), "use_proportional_volume": True},
    "controlcurve": lambda c: (lambda m: dict({"storage_node": c.astore(), "control_curves": c.up(m)[::-1]},
                                              **c.pick([{"values": c.vals(m + 1)}, {"parameters": [c.ref() for _ in range(m + 1)]}])))(c.i(1, 2)),
    "controlcurveinterpolated": lambda c: (lambda m: {"storage_node": c.astore(), "control_curves": c.up(m)[::-1], "values": c.vals(m + 2)})(c.i(1, 2)),
    "controlcurvepiecewiseinterpolated": lambda c: (lambda m: {"storage_node": c.astore(), "control_curves": c.up(m)[::-1], "values": [c.vals(2) for _ in range(m + 1)], "minimum": 0.0})(c.i(1, 2)),
    "weightedaverageprofile": weighted,
    "piecewiseintegral": lambda c: {"parameter": c.clamp(c.ref()), "x": [c.num(1, 5), c.num(6, 25)], "y": c.vals(2, 0, 2)},
    "indexedarray": lambda c: {"index_parameter": c.iref(), c.pick(["params", "parameters"]): [c.ref() for _ in range(4)]} if c.index else None,
    "annuallicense": lambda c: {"node": c.pick(c.ins), "amount": c.num(10, 400)},
    "annualexponentiallicense": lambda c: {"node": c.pick(c.ins), "amount": c.num(100, 4000), "max_value": c.num(2, 9), "k": 0.53},
    "annualhyperbolalicense": lambda c: {"node": c.pick(c.ins), "amount": c.num(100, 4000), "value": c.num(2, 9)},
}
INDEX = {
    "controlcurveindex": lambda c: {"storage_node": c.astore(), "control_curves": c.up(c.i(1, 2))[::-1]},
    "storagethreshold": lambda c: {"storage_node": c.astore(), "threshold": c.num(0, 80), "predicate": ops(c), "values": c.vals(2), "ratchet": c.flip()},
    "nodethreshold": lambda c: {"node": c.anode(), "threshold": c.num(0, 10), "predicate": ops(c), "values": c.vals(2), "ratchet": c.flip()},
    "parameterthreshold": lambda c: {"parameter": c.ref(), "threshold": c.num(0, 10), "predicate": ops(c), "values": c.vals(2), "ratchet": c.flip()},
    "multiplethresholdindex": lambda c: {"node": c.anode(), "thresholds": c.up(2, 12.0)[::-1]},
    "multiplethresholdparameterindex": lambda c: {"parameter": c.ref(), "thresholds": c.up(2, 12.0)[::-1]},
    "aggregatedindex": lambda c: {"agg_func": c.pick(["max", "min", "any", "all", "any_on"][:4]), "parameters": [c.iref() for _ in range(c.i(1, 3))]} if c.index else None,
}
KINDS = {}
for _d in (STATIC, SINDEX, STATE, INDEX):
    for _k, _f in _d.items():
        KINDS[_k] = _f
INDEXED = set(SINDEX) | set(INDEX)
SCENARIO = {k for k in KINDS if "scenario" in k}


def add_param(c, kind):
    if kind in SCENARIO and not c.sc["scen"]:
        return
    d = KINDS[kind](c)
    if d is None:
        return
    if kind in SCENARIO and c.flip(4):
        pass
    name = "%s%d" % ("i" if kind in INDEXED else "p", len(c.params))
    c.params[name] = dict({"type": kind}, **d)
    if kind in INDEXED:
        c.index.append(name)
    if kind in STATIC:
        c.consts.append(name)
        if kind in SCENARIO:
            c.hot.append(name)


# ---------------------------------------------------------------------------------------------------------------
# recorders

SMOOTH = ("sum", "mean", "min", "max", "median")


def rp(c):
    return c.pick(sorted(c.params))


REC = {
    "numpyarraynode": lambda c: {"node": c.anode(), "factor": c.num(0, 3)},
    "numpyarraynodecost": lambda c: {"node": c.anode()},
    "numpyarraynodedeficit": lambda c: {"node": c.pick(c.ins)},
    "numpyarraynodesuppliedratio": lambda c: {"node": c.pick(c.ins)},
    "numpyarraynodecurtailmentratio": lambda c: {"node": c.pick(c.ins)},
    "numpyarraystorage": lambda c: {"node": c.astore(), "proportional": c.flip()},
    "numpyarraynormalisedstorage": lambda c: {"node": c.pick(c.stores), "parameter": {"type": "constant", "value": c.up(1)[0]}},
    "numpyarraylevel": lambda c: (lambda xs: {"node": c.pick(xs)} if xs else None)([d["name"] for d in c.nodes if "level" in d]),
    "numpyarrayarea": lambda c: (lambda xs: {"node": c.pick(xs)} if xs else None)([d["name"] for d in c.nodes if "area" in d]),
    "numpyarrayparameter": lambda c: {"parameter": rp(c)},
    "numpyarrayindexparameter": lambda c: {"parameter": c.iref()} if c.index else None,
    "numpyarraydailyprofileparameter": lambda c: {"parameter": rp(c)},
    "flowdurationcurve": lambda c: {"node": c.anode(), "percentiles": [0, 17, 50, 100]},
    "storagedurationcurve": lambda c: {"node": c.astore(), "percentiles": [0, 17, 50, 100]},
    "seasonalflowdurationcurve": lambda c: {"node": c.anode(), "percentiles": [0, 17, 50, 100], "months": list(range(1, 13))},
    "flowdurationcurvedeviation": lambda c: {"node": c.anode(), "percentiles": [0.0, 50.0, 100.0], "lower_target_fdc": c.vals(3, 1, 9), "upper_target_fdc": c.vals(3, 10, 20)},
    "meanflownode": lambda c: {"node": c.anode()},
    "rollingmeanflownode": lambda c: {"node": c.anode(), "timesteps": c.i(1, 4)},
    "totaldeficitnode": lambda c: {"node": c.pick(c.ins)},
    "deficitfrequencynode": lambda c: {"node": c.pick(c.ins)},
    "totalflownode": lambda c: {"node": c.anode(), "factor": c.num(0, 3)},
    "minimumvolumestorage": lambda c: {"node": c.astore()},
    "minimumthresholdvolumestorage": lambda c: {"node": c.astore(), "threshold": c.num(0, 60)},
    "timestepcountindexparameter": lambda c: {"parameter": c.iref(), "threshold": c.i(0, 2)} if c.index else None,
    "annualcountindexparameter": lambda c: {"parameter": c.iref(), "threshold": c.i(0, 2)} if c.index else None,
    "annualcountindexthreshold": lambda c: {"parameters": [c.iref(), c.iref()], "threshold": c.i(0, 2)} if c.index else None,
    "annualtotalflow": lambda c: {"nodes": [c.anode()]},
    "totalparameter": lambda c: {"parameter": rp(c), "integrate": c.flip()},
    "meanparameter": lambda c: {"parameter": rp(c)},
    "rollingwindowparameter": lambda c: {"parameter": rp(c), "window": c.i(1, 4), "temporal_agg_func": c.pick(SMOOTH)},
    "aggregated": lambda c: (lambda xs: {"recorders": c.draw(st.lists(st.sampled_from(xs), min_size=1, max_size=3, unique=True)), "recorder_agg_func": c.pick(SMOOTH)} if xs else None)(
        sorted(x for x, d in c.recs.items() if d["type"] not in ("rollingwindowparameter", "rollingmeanflownode"))),
    "event": lambda c: {"threshold": c.iref(), "tracked_parameter": rp(c), "event_agg_func": c.pick(SMOOTH), "minimum_event_length": c.i(1, 2)} if c.index else None,
    "eventduration": lambda c: (lambda xs: {"event_recorder": c.pick(xs), "recorder_agg_func": c.pick(SMOOTH)} if xs else None)(sorted(x for x, d in c.recs.items() if d["type"] == "event")),
    "eventstatistic": lambda c: (lambda xs: {"event_recorder": c.pick(xs), "recorder_agg_func": c.pick(SMOOTH)} if xs else None)(sorted(x for x, d in c.recs.items() if d["type"] == "event")),
    "hydropower": lambda c: {"node": c.anode(), "water_elevation_parameter": rp(c), "turbine_elevation": c.num(0, 2), "efficiency": 0.83},
    "totalhydroenergy": lambda c: {"node": c.anode(), "water_elevation_parameter": rp(c), "turbine_elevation": c.num(0, 2), "efficiency": 0.83},
}
NOAGG = ("rollingmeanflownode",)
NEED_MONTHS = ("seasonalflowdurationcurve",)


def add_rec(c, kind):
    if kind in ("numpyarraynormalisedstorage",) and not c.stores:
        return
    if kind in ("numpyarraystorage", "storagedurationcurve", "minimumvolumestorage", "minimumthresholdvolumestorage") and not c.vols:
        return
    if kind.startswith("annual") and c.clock["step"]["kind"] in "WQY":     # steps across the turn of the year: see C08, C24
        return
    d = REC[kind](c)
    if d is None:
        return
    d = dict({"type": kind}, **d)
    if kind not in NOAGG and c.flip():
        d["agg_func"] = c.pick(SMOOTH)
    if kind.startswith("numpyarray") and c.flip():
        d["temporal_agg_func"] = c.pick(SMOOTH)
    if kind not in NOAGG and c.flip(5):
        d["is_objective"] = c.pick(["min", "max"])
    c.recs["r%d" % len(c.recs)] = d


# ---------------------------------------------------------------------------------------------------------------

@st.composite
def models(draw, maxn=8, kinds="DDDDDDWMQ", max_scen=2, max_size=3, max_combos=6, solvers=("glpk", "glpk", "glpk-edge", "lpsolve"), blocks=3, params=8, recs=6, lo=1990, hi=2030, hot=1,
           clock=None, sc=None):
    clock = clock or draw(pm.clocks(maxn, kinds, lo, hi))
    sc = sc or draw(scen.sets(max_scen=max_scen, max_size=max_size, max_combos=max_combos, user=False, slices=False))
    c = Ctx(draw, clock, sc)
    nb = draw(st.integers(1, blocks))
    b_supply(c, 0)
    for k in range(1, nb + 1):
        c.pick([b_supply, b_store, b_store, b_store, b_split])(c, k)
    for k in range(draw(st.integers(0, 2))):
        c.pick([b_virtual, b_virtual, b_group])(c, k)
    if not c.vols:
        b_store(c, 9)
    c.fixed = [d["name"] for d in c.nodes if isinstance(d.get("max_flow"), float) and d["type"] in ("Input", "Output")]
    # parameters
    for k in range(hot):
        add_param(c, c.pick(sorted(SCENARIO & set(STATIC))))
    for k in range(draw(st.integers(2, params))):
        group = c.pick([STATIC, STATE, STATE, STATE, INDEX, SINDEX])
        add_param(c, c.pick(sorted(group)))
    solver = draw(st.sampled_from(solvers))
    fill(c, solver == "lpsolve")
    for k in range(draw(st.integers(1, recs))):
        add_rec(c, c.pick(sorted(REC)))
    # GLPK's presolver takes bounds that differ by less than 0.001 for equal, which these numbers may do
    options = draw(nets.solver_options()) if solver != "lpsolve" and draw(st.booleans()) else {}
    options.pop("use_presolve", None)
    doc = {"metadata": {"title": "rich", "minimum_version": "0.1"}, "timestepper": pm.timestepper(clock),
           "solver": dict(options, name=solver), "nodes": c.nodes, "edges": c.edges, "parameters": c.params, "recorders": c.recs}
    return {"clock": clock, "scen": sc, "doc": doc}


def fill(c, lp):
    """puts parameters or numbers in the places left for them"""
    names = sorted(c.params)
    users = {"deficit"}

    def rec(x, top):
        if isinstance(x, dict):
            if set(x) == {"fill"}:
                if lp and top in ("AggregatedNode",):
                    return x["fill"]
                if not names:
                    return x["fill"]
                return c.clamp(c.pick(c.hot if c.hot and c.flip() else names))
            return {k: rec(v, top) for k, v in x.items()}
        if isinstance(x, list):
            return [rec(v, top) for v in x]
        return x
    c.nodes[:] = [rec(d, d["type"]) for d in c.nodes]


def document(spec, use=None):
    """use: a scenario set to run instead (same scenarios, with slices or combinations)"""
    doc = copy.deepcopy(spec["doc"])
    sc = use or spec["scen"]
    if sc["scen"]:
        scen.put(doc, sc)
    return doc


def load(doc):
    return nets.load(doc, plain=True)


# ---------------------------------------------------------------------------------------------------------------
# everything that can be seen of a run

def watcher(model):
    """a recorder that keeps what happened in every step"""
    from pywr.recorders import Recorder

    class Watch(Recorder):
        def reset(self):
            self.log = {}
            self.dates = []

        def add(self, key, v):
            self.log.setdefault(key, []).append(np.array(v, dtype=float, copy=True))

        def after(self):
            ts = self.model.timestepper.current
            self.dates.append((ts.index, ts.datetime.isoformat() if hasattr(ts.datetime, "isoformat") else str(ts.datetime)))
            for n in sorted(self.model.nodes, key=lambda n: n.name):
                if hasattr(n, "flow"):
                    self.add("flow of %s" % n.name, n.flow)
                if hasattr(n, "prev_flow"):
                    self.add("previous flow of %s" % n.name, n.prev_flow)
                if hasattr(n, "volume"):
                    self.add("volume of %s" % n.name, n.volume)
                if hasattr(n, "current_pc"):
                    self.add("proportional volume of %s" % n.name, n.current_pc)
            for p in self.model.parameters:
                if p.name is None:
                    continue
                self.add("parameter %s" % p.name, p.get_all_values())
                if hasattr(p, "get_all_indices"):
                    self.add("index of %s" % p.name, p.get_all_indices())
    w = Watch(model, name="verif watch")
    for p in model.parameters:      # some parameters change after the step: always look after that
        w.children.add(p)
    return w


def results(model, watch):
    """{what: array}: time series have shape (steps, combinations)"""
    out = {k: np.array(v) for k, v in watch.log.items()}
    out["number of steps"] = np.array(float(len(watch.dates)))
    for r in model.recorders:
        if r is watch or r.name is None:
            continue
        for key, f in (("values", lambda: r.values()), ("aggregated value", lambda: r.aggregated_value())):
            try:
                v = np.array(f(), dtype=float)
            except NotImplementedError:
                continue
            out["%s of recorder %s" % (key, r.name)] = v
        try:
            data = r.data
        except AttributeError:
            data = None
        if data is not None:
            out["data of recorder %s" % r.name] = np.array(data, dtype=float)
        out["frame of recorder %s" % r.name] = frame(r)
    return {k: v for k, v in out.items() if v is not None}


def frame(r):
    try:
        df = r.to_dataframe()
    except (AttributeError, NotImplementedError):
        return None
    return df


def compare(what, got, want, rtol=1e-6, atol=1e-6, skip=()):
    from harness.core import Violation, req_arrays, req_equal
    if set(got) != set(want):
        raise Violation("%s: results %r are missing and %r are additional" % (what, sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]))
    for k in sorted(want):
        g, w = got[k], want[k]
        if k.startswith("frame"):
            same_frame("%s: %s" % (what, k), g, w, rtol, atol)
        else:
            req_arrays("%s: %s" % (what, k), g, w, rtol, atol)


def same_frame(what, g, w, rtol, atol):
    from harness.core import req_arrays, req_equal
    req_equal(what + ": index", [str(x) for x in g.index], [str(x) for x in w.index])
    req_equal(what + ": columns", [str(x) for x in g.columns], [str(x) for x in w.columns])
    if len(w) and all(t.kind in "fiub" for t in w.dtypes):
        req_arrays(what, g.values, w.values, rtol, atol)


def lively(res):
    """some flow or volume changes over time"""
    return any(k.startswith(("flow", "volume")) and len(v) > 1 and np.abs(v - v[0]).max() > 1e-6 for k, v in res.items())


def tags(spec, res, ev):
    doc = spec["doc"]
    ev.tag("solver " + doc["solver"]["name"], "step " + spec["clock"]["step"]["kind"])
    for d in list(doc["parameters"].values()) + list(doc["recorders"].values()):
        ev.tag(d["type"])
    for d in doc["nodes"]:
        ev.tag(d["type"])
    for k, v in res.items():
        if k.startswith("flow of") and v.shape[1] > 1 and np.abs(v - v[:, :1]).max() > 1e-6:
            ev.tag("flows differ between scenarios")
