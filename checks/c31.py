"""C31: editing the network keeps its structure consistent (random programs of edits, against a simple model)."""

import networkx as nx
import numpy as np
from hypothesis import strategies as st

from harness.core import Test, Violation, require, req_close, req_equal

TECHNIQUE = "stateful property-based testing: random programs of edits, queries and runs, against a simple model of the network; the edited model is run against a freshly built one"
RULE = ("5 to 30 operations (add, rename, connect, disconnect, delete, query, run, attribute edits) on networks with every kind of node; "
        "non-trivial: at least one removal, disconnection or rename happened and at least one run succeeded or a refusal was seen")
NOTE = "Look-ups, iteration, membership, edges, routes and check_graph agree with the model after every operation; refused operations leave no trace; runs equal those of a fresh model."

NAMES = ["A", "B", "C", "D", "E", "F", "G", "H"]
KINDS = ["input", "input", "output", "output", "link", "link", "river", "catchment", "storage", "storage", "reservoir2", "piecewise", "gauge", "split", "loss", "break", "delay", "virtual", "aggregated"]
SLOTS = {"split": ["main", "side"]}
UNCONNECTED = ("virtual", "aggregated")


def num(op, k=0, lo=1, hi=20):
    # a number with many digits, so that optima are unique
    h = (op["n"] * 7919 + k * 104729 + 12345) % 100003
    return round(lo + (hi - lo) * h / 100003.0, 6)


class Net:
    """The simple model: what nodes, edges, parameters and recorders there should be."""

    def __init__(self, spec):
        self.spec = spec
        self.nodes = []     # dicts: kind, name, op, refs (other dicts), attrs
        self.edges = []     # (dict, slot, dict, slot)
        self.params = []    # dicts: name, value
        self.recs = []      # dicts: name, node


def new_model(spec):
    from pywr.core import Model, Scenario
    m = Model(solver=spec["solver"], start="2015-01-30", end="2015-02-02")
    if spec["scen"] > 1:
        Scenario(m, "scen", size=spec["scen"])
    return m


def make(model, kind, name, op, refs):
    from pywr import nodes as N
    if kind == "input":
        return N.Input(model, name, max_flow=num(op), cost=num(op, 1, 0.1, 3))
    if kind == "output":
        return N.Output(model, name, max_flow=num(op), cost=-num(op, 1, 20, 60))
    if kind == "link":
        return N.Link(model, name, max_flow=num(op, 0, 5, 30), cost=num(op, 1, 0.1, 2))
    if kind == "river":
        return N.River(model, name, cost=num(op, 1, 0.1, 2))
    if kind == "catchment":
        return N.Catchment(model, name, flow=num(op, 0, 1, 9))
    if kind in ("storage", "reservoir2"):
        kw = {"outputs": 1 + op["n"] % 3, "inputs": 1 + op["n"] // 3 % 3} if kind == "reservoir2" else {}
        top = num(op, 0, 10, 90)
        return N.Storage(model, name, max_volume=top, initial_volume=round(top * 0.37, 6), cost=-num(op, 1, 0.01, 6), **kw)
    if kind == "piecewise":
        return N.PiecewiseLink(model, nsteps=2, name=name, max_flows=[num(op), num(op, 2)], costs=[num(op, 1, 0.1, 2), num(op, 3, 2, 4)])
    if kind == "gauge":
        return N.RiverGauge(model, name=name, mrf=num(op, 0, 1, 5), mrf_cost=-num(op, 1, 70, 90), cost=num(op, 2, 0.1, 1))
    if kind == "split":
        return N.RiverSplit(model, name=name, factors=[2.0, 1.0 + op["n"] % 3], costs=[num(op, 4, 0.1, 2)], slot_names=SLOTS["split"])
    if kind == "loss":
        return N.LossLink(model, name, loss_factor=num(op, 0, 0.05, 0.4), cost=num(op, 1, 0.1, 2))
    if kind == "break":
        return N.BreakLink(model, name, max_flow=num(op, 0, 5, 30), cost=num(op, 1, 0.1, 2))
    if kind == "delay":
        return N.DelayNode(model, name, timesteps=1 + op["n"] % 2, initial_flow=num(op, 0, 0, 2))
    if kind == "virtual":
        return N.VirtualStorage(model, name, refs, factors=[1.0] * len(refs), max_volume=num(op, 0, 10, 60), initial_volume=num(op, 1, 1, 10), cost=0.0)
    if kind == "aggregated":
        agg = N.AggregatedNode(model, name, refs)
        agg.max_flow = num(op, 0, 3, 30)
        return agg
    raise KeyError(kind)


def slots(n):
    """The ways in and out of a node: lists of slot names."""
    kind, op = n["kind"], n["op"]
    if kind == "reservoir2":
        return list(range(1 + op["n"] // 3 % 3)), list(range(1 + op["n"] % 3))
    if kind == "split":
        return SLOTS["split"], [None]
    return [None], [None]


def graph_of(net, objs, model):
    """The graph of the model with sub-nodes merged into their top nodes, as a sorted list of edges with slots; and the set of orphans."""
    top, port = {}, {}
    for n in net.nodes:
        obj = objs[n["name"]]
        port[obj] = n
    alive = list(model.graph.nodes())
    where = {}
    for node in alive:
        t = node
        while t.parent is not None:
            t = t.parent
        where[node] = port.get(t)
        require(where[node] is not None, "the graph has a left-over node: %s", node)
    edges = []
    for u, v in model.graph.edges():
        a, b = where[u], where[v]
        if a is b and not (a["kind"] in ("storage", "reservoir2") or port.get(u) is port.get(v) is not None):
            continue
        if a["kind"] not in ("storage", "reservoir2") and a is b and not a["kind"] in ("input", "output", "link", "river", "catchment"):
            continue
        edges.append((a["name"], side(a, objs[a["name"]], u, True), b["name"], side(b, objs[b["name"]], v, False)))
    return sorted(edges, key=repr)


def side(n, obj, node, out):
    """Which slot of its top node a sub-node is."""
    kind = n["kind"]
    if kind in ("storage", "reservoir2"):
        group = obj.inputs if out else obj.outputs
        require(any(node is x for x in group), "%s of %s is on the wrong side", node, n["name"])
        i = [k for k, x in enumerate(group) if x is node][0]
        return i if kind == "reservoir2" and len(group) > 1 else None
    if kind == "split" and out:
        return "main" if node is obj.input else ("side" if node is obj._extra_inputs[0] else "?")
    ends = {"piecewise": ("input", "output"), "gauge": ("input", "output"), "split": ("input", "output"), "delay": ("input", "output"), "loss": ("net", "gross")}
    if kind in ends:
        return None if node is getattr(obj, ends[kind][0 if out else 1]) else "?"
    if kind == "break":
        return None if node is (obj.link if out else obj.storage.outputs[0]) else "?"
    return None if node is obj else "?"


def norm_slot(n, slot, out):
    """A slot as graph_of shows it."""
    s = slots(n)[0 if out else 1]
    if n["kind"] == "reservoir2":
        return (slot if len(s) > 1 else None)
    return slot


def check(net, objs, pobj, robj, model):
    """Everything that must hold after every operation."""
    want = sorted(n["name"] for n in net.nodes)
    req_equal("names of the nodes", sorted(model.nodes.keys()), want)
    req_equal("number of nodes", len(model.nodes), len(want))
    req_equal("nodes iterated", sorted(n.name for n in model.nodes), want)
    req_equal("values", sorted(n.name for n in model.nodes.values()), want)
    req_equal("items", sorted((k, v.name) for k, v in model.nodes.items()), [(w, w) for w in want])
    for name in NAMES:
        there = name in want
        req_equal("membership of %s" % name, name in model.nodes, there)
        if there:
            require(model.nodes[name] is objs[name], "look-up of %s returns another node", name)
            require(objs[name] in model.nodes, "%s itself is not found", name)
        else:
            try:
                model.nodes[name]
            except KeyError:
                pass
            else:
                raise Violation("look-up of %s, which is not there, succeeded" % name)
    edges = sorted(((a["name"], norm_slot(a, s, True), b["name"], norm_slot(b, t, False)) for a, s, b, t in net.edges), key=repr)
    edges = [e for i, e in enumerate(edges) if not i or edges[i - 1] != e]
    req_equal("connections", graph_of(net, objs, model), edges)
    pnames = sorted(p["name"] for p in net.params)
    req_equal("names of the parameters", sorted(x for x in model.parameters.keys() if x is not None and " - delay parameter" not in x), pnames)
    for p in net.params:
        require(p["name"] in model.parameters and model.parameters[p["name"]] is pobj[id(p)], "look-up of parameter %s", p["name"])
        require(model.components[p["name"]] is pobj[id(p)], "look-up of component %s", p["name"])
        require(p["name"] not in model.recorders, "parameter %s is listed with the recorders", p["name"])
    req_equal("names of the recorders", sorted(model.recorders.keys()), sorted(r["name"] for r in net.recs))
    req_equal("number of recorders", len(model.recorders), len(net.recs))
    for r in net.recs:
        require(r["name"] in model.recorders and model.recorders[r["name"]] is robj[id(r)], "look-up of recorder %s", r["name"])
        require(r["name"] not in model.parameters, "recorder %s is listed with the parameters", r["name"])


def brute_routes(model, sources, targets, valid, max_length, match):
    succ = {}
    for u, v in model.graph.edges():
        succ.setdefault(u, []).append(v)
    out = []

    def walk(path, goal):
        if path[-1] is goal:
            if len(path) > 1:
                out.append(list(path))
            return
        for v in succ.get(path[-1], []):
            if not any(v is x for x in path):
                path.append(v)
                walk(path, goal)
                path.pop()

    for s in sources:
        for t in targets:
            if s is not t:
                walk([s], t)
    ok = []
    for r in out:
        if valid is not None and any(not isinstance(x, valid) for x in r[1:-1]):
            continue
        if max_length is not None and len(r) > max_length:
            continue
        doms = [x.domain for x in r]
        if match == "strict" and any(d != doms[0] for d in doms):
            continue
        if match == "different" and all(d == doms[0] for d in doms):
            continue
        ok.append(r)
    return ok


def ident(routes):
    return sorted(tuple(id(x) for x in r) for r in routes)


def refuse(what, fn, kinds):
    try:
        fn()
    except kinds:
        return
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, e))
    raise Violation("%s was not refused" % what)


def fresh(net):
    """The same network built from nothing."""
    from pywr.parameters import ConstantParameter, MonthlyProfileParameter
    from pywr.recorders import NumpyArrayNodeRecorder, NumpyArrayStorageRecorder
    m = new_model(net.spec)
    objs, pobj, robj = {}, {}, {}
    for p in net.params:
        pobj[id(p)] = param(m, p)
    for n in net.nodes:
        objs[n["name"]] = make(m, n["kind"], n["name"], n["op"], [objs[r["name"]] for r in n["refs"]])
    for a, s, b, t in net.edges:
        objs[a["name"]].connect(objs[b["name"]], from_slot=s, to_slot=t)
    for n in net.nodes:
        for k, v in n["attrs"].items():
            setattr(objs[n["name"]], k, pobj[id(v)] if isinstance(v, dict) else v)
    for r in net.recs:
        robj[id(r)] = recorder(m, r, objs[r["node"]["name"]])
    return m, objs, pobj, robj


def param(m, p):
    from pywr.parameters import ConstantParameter, DailyProfileParameter, MonthlyProfileParameter
    v = p["value"]
    if p["kind"] == "constant":
        return ConstantParameter(m, v, name=p["name"])
    if p["kind"] == "monthly":
        return MonthlyProfileParameter(m, [v + 0.31 * k for k in range(12)], name=p["name"])
    return DailyProfileParameter(m, [v + 0.13 * (k % 5) for k in range(366)], name=p["name"])


def recorder(m, r, obj):
    from pywr.recorders import NumpyArrayNodeRecorder, NumpyArrayStorageRecorder
    cls = NumpyArrayStorageRecorder if r["node"]["kind"] in ("storage", "reservoir2", "virtual") else NumpyArrayNodeRecorder
    return cls(m, obj, name=r["name"])


def run(net, m, objs, robj):
    """Runs a model: what came out, or how it failed."""
    try:
        m.run()
    except Exception as e:
        return type(e).__name__, str(e)[:200]
    out = {}
    for n in net.nodes:
        o = objs[n["name"]]
        if n["kind"] in ("storage", "reservoir2", "virtual"):
            out[n["name"]] = [float(x) for x in o.volume]
        elif n["kind"] != "aggregated":
            out[n["name"]] = [float(x) for x in o.flow]
    for r in net.recs:
        out["recorder " + r["name"]] = [float(x) for x in np.asarray(robj[id(r)].data).ravel()]
    return "ok", out


def editing(spec, ev):
    from pywr.core import BaseInput, BaseLink, BaseOutput, Input, Link, Output, Storage
    from pywr._model import ModelStructureError
    net = Net(spec)
    model = new_model(spec)
    other = new_model(spec)
    from pywr import nodes as N
    foreign = N.Link(other, "A")
    objs, pobj, robj = {}, {}, {}
    refused = edited = False
    ran = 0
    for k, op in enumerate(spec["ops"]):
        do = op["op"]
        names = {n["name"] for n in net.nodes}
        pick = lambda i: net.nodes[i % len(net.nodes)] if net.nodes else None
        what = "operation %d (%s)" % (k, do)
        try:
            if do == "add":
                kind, name = op["kind"], op["name"]
                linked = [n for n in net.nodes if n["kind"] not in ("storage", "reservoir2", "virtual", "aggregated", "split", "delay", "loss", "break", "piecewise", "gauge")]
                refs = []
                if kind in UNCONNECTED:
                    refs = [linked[(op["n"] + 3 * j) % len(linked)] for j in range(2)] if linked else []
                    refs = [r for j, r in enumerate(refs) if r not in refs[:j]]
                    if not refs:
                        continue
                if name in names:
                    refused = True
                    refuse("adding a second %s" % name, lambda: make(model, kind, name, op, [objs[r["name"]] for r in refs]), (ValueError, AssertionError))
                    ev.tag("duplicate name " + kind)
                elif kind == "delay" and (name + " - delay parameter") in model.parameters:
                    # that of a delay node which has been renamed since
                    require(any(n["kind"] == "delay" for n in net.nodes), "%s - delay parameter is still there, without its node", name)
                    continue
                else:
                    objs[name] = make(model, kind, name, op, [objs[r["name"]] for r in refs])
                    net.nodes.append({"kind": kind, "name": name, "op": op, "refs": refs, "attrs": {}})
                    ev.tag("add " + kind)
            elif do == "rename":
                n = pick(op["a"])
                if n is None or op["name"] == n["name"]:
                    continue
                obj = objs[n["name"]]
                if op["name"] in names:
                    refused = True
                    refuse("renaming to a name in use", lambda: setattr(obj, "name", op["name"]), ValueError)
                elif n["kind"] == "delay" and (op["name"] + " - delay parameter") in model.parameters:
                    continue
                else:
                    obj.name = op["name"]
                    objs[op["name"]] = objs.pop(n["name"])
                    n["name"] = op["name"]
                    edited = True
                    ev.tag("rename")
            elif do == "connect":
                a, b = pick(op["a"]), pick(op["b"])
                if a is None:
                    continue
                x, y = objs[a["name"]], objs[b["name"]]
                mode = op["mode"]
                if a["kind"] in UNCONNECTED:
                    refused = True
                    refuse("connecting from a %s" % a["kind"], lambda: x.connect(y), (AttributeError, TypeError))
                elif mode == "foreign":
                    refused = True
                    s = slots(a)[0][0]
                    refuse("connecting to another model", lambda: x.connect(foreign, from_slot=s), RuntimeError)
                elif b["kind"] in UNCONNECTED:
                    refused = True
                    refuse("connecting to a %s" % b["kind"], lambda: x.connect(y), TypeError)
                else:
                    s, t = slots(a)[0], slots(b)[1]
                    s, t = s[op["n"] % len(s)], t[op["n"] // 3 % len(t)]
                    if mode == "noslot" and a["kind"] == "reservoir2" and len(slots(a)[0]) > 1:
                        refused = True
                        refuse("connecting without a slot", lambda: x.connect(y, to_slot=t), ValueError)
                    elif mode == "noslot" and b["kind"] == "reservoir2" and len(slots(b)[1]) > 1:
                        refused = True
                        refuse("connecting without a slot", lambda: x.connect(y, from_slot=s), ValueError)
                    elif mode == "badslot" and a["kind"] in ("reservoir2", "split"):
                        refused = True
                        refuse("connecting from a slot it does not have", lambda: x.connect(y, from_slot=7 if a["kind"] == "reservoir2" else "none", to_slot=t), (IndexError, ValueError))
                    elif mode == "badslot" and b["kind"] in ("reservoir2",):
                        refused = True
                        refuse("connecting to a slot it does not have", lambda: x.connect(y, from_slot=s, to_slot=7), (IndexError, ValueError))
                    elif mode == "badslot" and a["kind"] in ("input", "link", "river"):
                        refused = True
                        refuse("connecting from a slot it does not have", lambda: x.connect(y, from_slot=1, to_slot=t), ValueError)
                    else:
                        if a is b and a["kind"] not in ("storage", "reservoir2"):
                            continue
                        if a is b:
                            continue
                        x.connect(y, from_slot=s, to_slot=t)
                        net.edges.append((a, s, b, t))
                        ev.tag("connect slots" if s is not None or t is not None else "connect")
            elif do == "wire":
                # connects what has no way in or no way out, so that the network can be run
                ends = [n for n in net.nodes if n["kind"] not in UNCONNECTED]
                heads, tails = [n for n in ends if n["kind"] in ("input", "catchment")], [n for n in ends if n["kind"] == "output"]
                for i, n in enumerate(ends):
                    if heads and n["kind"] not in ("input", "catchment"):
                        for t in slots(n)[1]:
                            if not any(e[2] is n and e[3] == t for e in net.edges):
                                a = heads[(op["n"] + i) % len(heads)]
                                objs[a["name"]].connect(objs[n["name"]], to_slot=t)
                                net.edges.append((a, None, n, t))
                    if tails and n["kind"] != "output":
                        for s in slots(n)[0]:
                            if not any(e[0] is n and e[1] == s for e in net.edges):
                                b = tails[(op["n"] + i) % len(tails)]
                                objs[n["name"]].connect(objs[b["name"]], from_slot=s)
                                net.edges.append((n, s, b, None))
            elif do == "disconnect":
                linkable = [n for n in net.nodes if n["kind"] not in UNCONNECTED]
                if not linkable:
                    continue
                made = [e for e in net.edges]
                if made and op["mode"] != "any":
                    a, s, b, t = made[op["a"] % len(made)]
                else:
                    a, b = linkable[op["a"] % len(linkable)], linkable[op["b"] % len(linkable)]
                    t = slots(b)[1][0]
                x, y = objs[a["name"]], objs[b["name"]]
                if op["mode"] == "all":
                    x.disconnect()
                    net.edges = [e for e in net.edges if e[0] is not a]
                    edited = True
                    ev.tag("disconnect all")
                elif op["mode"] == "slot" and b["kind"] == "reservoir2":
                    t = slots(b)[1][op["n"] % len(slots(b)[1])]
                    gone = [e for e in net.edges if e[0] is a and e[2] is b and e[3] == t]
                    if gone:
                        x.disconnect(y, slot_name=t)
                        net.edges = [e for e in net.edges if e not in gone]
                        edited = True
                        ev.tag("disconnect slot")
                    else:
                        refused = True
                        refuse("disconnecting a slot which is not connected", lambda: x.disconnect(y, slot_name=t), nx.exception.NetworkXError)
                else:
                    gone = [e for e in net.edges if e[0] is a and e[2] is b]
                    if gone:
                        x.disconnect(y)
                        net.edges = [e for e in net.edges if e not in gone]
                        edited = True
                        ev.tag("disconnect")
                    else:
                        refused = True
                        refuse("disconnecting what is not connected", lambda: x.disconnect(y), nx.exception.NetworkXError)
            elif do == "delete":
                n = pick(op["a"])
                if op["mode"] == "missing" and op["name"] not in names:
                    refused = True

                    def gone():
                        del model.nodes[op["name"]]
                    refuse("deleting a node which is not there", gone, KeyError)
                    continue
                if n is None or any(n in o["refs"] for o in net.nodes) or any(r["node"] is n for r in net.recs):
                    continue
                if op["mode"] == "object":
                    del model.nodes[objs[n["name"]]]
                else:
                    del model.nodes[n["name"]]
                net.nodes.remove(n)
                net.edges = [e for e in net.edges if e[0] is not n and e[2] is not n]
                del objs[n["name"]]
                edited = True
                ev.tag("delete " + n["kind"])
            elif do == "param":
                used = {p["name"] for p in net.params} | {r["name"] for r in net.recs}
                p = {"name": "p" + op["name"], "kind": op["pkind"], "value": num(op, 5, 1, 9)}
                if p["name"] in used:
                    refused = True
                    refuse("adding a second component %s" % p["name"], lambda: param(model, p), ValueError)
                else:
                    net.params.append(p)
                    pobj[id(p)] = param(model, p)
            elif do == "recorder":
                n = pick(op["a"])
                if n is None or n["kind"] == "aggregated":
                    continue
                used = {p["name"] for p in net.params} | {r["name"] for r in net.recs}
                r = {"name": "p" + op["name"], "node": n}
                if r["name"] in used:
                    refused = True
                    refuse("adding a second component %s" % r["name"], lambda: recorder(model, r, objs[n["name"]]), ValueError)
                else:
                    net.recs.append(r)
                    robj[id(r)] = recorder(model, r, objs[n["name"]])
                    model.dirty = True      # without this it would not be set up (a known finding)
            elif do == "renamecomp":
                comps = net.params + net.recs
                if not comps:
                    continue
                c = comps[op["a"] % len(comps)]
                obj = pobj.get(id(c)) or robj.get(id(c))
                new = "p" + op["name"]
                if new == c["name"]:
                    continue
                if new in {x["name"] for x in comps}:
                    refused = True
                    refuse("renaming a component to a name in use", lambda: setattr(obj, "name", new), ValueError)
                else:
                    obj.name = new
                    c["name"] = new
                    edited = True
            elif do == "attr":
                n = pick(op["a"])
                if n is None or n["kind"] not in ("input", "output", "link", "catchment"):
                    continue
                attr = "flow" if n["kind"] == "catchment" else ("max_flow" if op["n"] % 3 else "cost")
                sign = -1.0 if attr == "cost" and n["kind"] == "output" else 1.0
                if net.params and op["mode"] == "any" and sign > 0:
                    p = net.params[op["b"] % len(net.params)]
                    setattr(objs[n["name"]], attr, pobj[id(p)])
                    n["attrs"][attr] = p
                    ev.tag("attribute: parameter")
                else:
                    v = sign * (num(op, 9, 0.1, 3) if sign > 0 and attr == "cost" else num(op, 9, 1, 30))
                    setattr(objs[n["name"]], attr, v)
                    n["attrs"][attr] = v
                    ev.tag("attribute: number")
            elif do == "routes":
                if not net.nodes:
                    continue
                alive = sorted(model.graph.nodes(), key=lambda x: (x.fully_qualified_name, x.name))
                classes = [(BaseInput, BaseOutput), (Input, Output), (N.Storage, BaseOutput), (Input, N.Link), (BaseInput, BaseLink), (N.River, BaseOutput)]
                which = op["n"] % (len(classes) + 2)
                if which < len(classes):
                    t1, t2 = classes[which]
                    src, dst = [x for x in alive if isinstance(x, t1)], [x for x in alive if isinstance(x, t2)]
                else:
                    t1, t2 = alive[op["a"] % len(alive)], alive[op["b"] % len(alive)]
                    src, dst = [t1], [t2]
                    if t1 is t2:
                        continue
                valid = [None, (BaseLink,), (BaseLink, BaseInput, BaseOutput), (N.River,)][op["a"] % 4]
                length = [None, None, 2, 3, 5][op["b"] % 5]
                match = ["strict", "any", "different"][op["n"] // 3 % 3]
                got = model.find_all_routes(t1, t2, valid=valid, max_length=length, domain_match=match)
                got = [r for r in got if len(r) > 1]
                exp = brute_routes(model, src, dst, valid, length, match)
                if ident(got) != ident(exp):
                    show = lambda rs: sorted([x.fully_qualified_name for x in r] for r in rs)
                    raise Violation("routes (%s to %s, valid %s, max_length %s, %s): got %s, expected %s" % (t1, t2, valid, length, match, show(got), show(exp)))
                ev.tag("routes: %s" % (match if exp else "none"))
            elif do == "check":
                alive = list(model.graph.nodes())
                exp = brute_routes(model, [x for x in alive if isinstance(x, BaseInput)], [x for x in alive if isinstance(x, BaseOutput)],
                                   (BaseLink, BaseInput, BaseOutput), None, "strict")
                on = {id(x) for r in exp for x in r}
                lost = [x.name for x in alive if id(x) not in on and not x.allow_isolated]
                try:
                    model.check_graph()
                    bad = False
                except ModelStructureError:
                    bad = True
                req_equal("check_graph complains (nodes on no route: %s)" % lost, bad, bool(lost))
                ev.tag("check_graph: %s" % ("isolated" if lost else "fine"))
            elif do == "run":
                got = run(net, model, objs, robj)
                m2, o2, p2, r2 = fresh(net)
                want = run(net, m2, o2, r2)
                req_equal("the run of the edited model ends as that of a fresh one (%s, %s)" % (got[1] if got[0] != "ok" else "", want[1] if want[0] != "ok" else ""), got[0], want[0])
                if got[0] == "ok":
                    for key in want[1]:
                        g, w = got[1][key], want[1][key]
                        req_equal("%s: number of values" % key, len(g), len(w))
                        for i in range(len(w)):
                            req_close("run of the edited model, %s[%d], against a fresh one" % (key, i), g[i], w[i], 1e-5, 1e-5)
                    ran += 1
                    ev.tag("run", "run again" if ran > 1 else "first run", "run: %d nodes" % len(net.nodes))
                else:
                    ev.tag("run: " + got[0])
                    model.dirty = True      # a failed run leaves the solver in an undefined state
            check(net, objs, pobj, robj, model)
        except Violation as e:
            raise Violation("%s: %s" % (what, e))
    ev.tag("%d runs" % min(ran, 3))
    ev.nt(edited and (ran > 0 or refused))


MODES = {"connect": ["any", "any", "any", "any", "foreign", "noslot", "badslot"], "disconnect": ["made", "made", "all", "slot", "any"], "delete": ["name", "object", "missing"],
         "attr": ["any", "number"]}
OPS = ["wire"] * 3 + ["add"] * 6 + ["connect"] * 8 + ["disconnect"] * 3 + ["delete"] * 3 + ["rename"] * 2 + ["run"] * 4 + ["routes"] * 3 + ["check", "param", "recorder", "recorder", "renamecomp", "attr", "attr"]


@st.composite
def programs(draw):
    ops = []
    # a beginning which can be run
    if draw(st.booleans()):
        for name, kind in (("A", draw(st.sampled_from(["input", "catchment"]))), ("B", draw(st.sampled_from(["link", "river", "piecewise", "loss", "delay", "break", "gauge", "storage"]))), ("C", "output")):
            ops.append({"op": "add", "kind": kind, "name": name, "n": draw(st.integers(0, 999))})
        for a, b in ((0, 1), (1, 2)):
            ops.append({"op": "connect", "a": a, "b": b, "mode": "any", "n": 0})
        ops.append({"op": "run"})
    for _ in range(draw(st.integers(5, 25))):
        do = draw(st.sampled_from(OPS))
        op = {"op": do}
        if do != "run" and do != "check":
            op["n"] = draw(st.integers(0, 999))
        if do == "add":
            op["kind"] = draw(st.sampled_from(KINDS))
        if do in ("add", "rename", "param", "recorder", "renamecomp", "delete"):
            op["name"] = draw(st.sampled_from(NAMES))
        if do == "param":
            op["pkind"] = draw(st.sampled_from(["constant", "monthly", "daily"]))
        if do in ("rename", "connect", "disconnect", "delete", "recorder", "renamecomp", "attr", "routes"):
            op["a"] = draw(st.integers(0, 20))
        if do in ("connect", "disconnect", "attr", "routes"):
            op["b"] = draw(st.integers(0, 20))
        if do in MODES:
            op["mode"] = draw(st.sampled_from(MODES[do]))
        ops.append(op)
        if do == "wire":
            ops.append({"op": "run"})
    if draw(st.booleans()):
        ops.append({"op": "wire", "n": draw(st.integers(0, 99))})
    ops.append({"op": "run"})
    return {"solver": draw(st.sampled_from(["glpk", "glpk", "glpk-edge", "lpsolve"])), "scen": draw(st.sampled_from([1, 1, 2])), "ops": ops}


# -- routes of a fixed network with several domains ----------------------------------------------------------------------------

@st.composite
def mixed(draw):
    n = draw(st.integers(2, 7))
    kinds = ["Input"] + [draw(st.sampled_from(["Link", "Link", "Link", "River", "PiecewiseLink", "Storage", "Input", "Output"])) for _ in range(n - 2)] + ["Output"]
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n) if kinds[i] != "Output" and kinds[j] != "Input"]
    edges = draw(st.lists(st.sampled_from(pairs), min_size=1, max_size=12, unique=True))
    if draw(st.integers(0, 3)) == 0:
        edges += [(j, i) for i, j in edges[:2] if kinds[i] in ("Link", "River") and kinds[j] in ("Link", "River")]     # a circle
    return {"kinds": kinds, "domains": [draw(st.sampled_from([0, 0, 1, 2])) for _ in kinds], "edges": [list(e) for e in edges]}


def t_routes(spec, ev):
    from pywr.model import Model
    from pywr.core import BaseInput, BaseLink, BaseOutput, Domain
    from pywr import nodes as N
    m = Model()
    doms = [None, Domain("one"), Domain("two")]
    made = []
    for i, (k, d) in enumerate(zip(spec["kinds"], spec["domains"])):
        kw = {} if doms[d] is None or k in ("Storage", "PiecewiseLink") else {"domain": doms[d]}
        if k == "PiecewiseLink":
            kw.update(nsteps=2, costs=[1.0, 2.0], max_flows=[1.0, 2.0])
        made.append(getattr(N, k)(m, name="n%d" % (9 - i), **kw))
    for i, j in spec["edges"]:
        made[i].connect(made[j])
    alive = list(m.graph.nodes())
    queries = [(N.Input, N.Output), (BaseInput, BaseOutput), (N.Input, N.Link), (made[0], made[-1]), (N.River, BaseOutput), (made[0], N.Output), (N.Input, made[-1])]
    for t1, t2 in queries:
        src = [x for x in alive if isinstance(x, t1)] if isinstance(t1, type) else [t1]
        dst = [x for x in alive if isinstance(x, t2)] if isinstance(t2, type) else [t2]
        for match in ("strict", "any", "different"):
            for valid in (None, (BaseLink,), (BaseLink, BaseInput, BaseOutput), (N.River,)):
                for length in (None, 2, 3, 4, 7):
                    got = m.find_all_routes(t1, t2, valid=valid, max_length=length, domain_match=match)
                    exp = brute_routes(m, src, dst, valid, length, match)
                    names = [tuple(x.fully_qualified_name for x in r) for r in got]
                    if ident(got) != ident(exp):
                        raise Violation("routes (%s to %s, valid %s, max_length %s, %s): got %s, expected %s" % (
                            t1, t2, valid, length, match, names, sorted(tuple(x.fully_qualified_name for x in r) for r in exp)))
                    require(names == sorted(names), "routes are not in order: %s" % names)
                    if exp:
                        ev.tag(match)
                        ev.nt(len(exp) > 1)


TESTS = [Test("editing", programs(), editing, 1600, 3), Test("routes", mixed(), t_routes, 480, 1)]


def t_late(spec, ev):
    """known-finding probe: a recorder added after the model has been set up takes part in the next run"""
    from pywr.recorders import NumpyArrayNodeRecorder
    m = new_model({"solver": "glpk", "scen": 1})
    op = {"n": 0}
    a, b = make(m, "input", "A", op, []), make(m, "output", "B", op, [])
    a.connect(b)
    m.run()
    rec = NumpyArrayNodeRecorder(m, b, name="r")
    m.run()
    got = [float(x) for x in np.asarray(rec.data).ravel()] if rec.data is not None else []
    req_equal("values recorded by a recorder added between two runs", len(got), 4)


PROBES = {"late": t_late}
