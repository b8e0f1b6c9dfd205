"""C07: a JSON document's meaning does not depend on its layout."""

import copy
import io
import json
import os
import pathlib
import random
import shutil
import tempfile

from hypothesis import strategies as st

from harness import rich
from harness.core import Test, req_equal, require

TECHNIQUE = "random whole models in random equivalent layouts (order of components, keys and edges, inline or named, file, text or dictionary, include files), metamorphic relation between their runs"
RULE = ("whole models from 75 kinds of parameters, 35 of recorders and 20 of nodes; two layouts each; non-trivial: a layout differs from the first by at least two "
        "of order, inlining, naming, includes and source, and some result changes over time")
NOTE = "Every flow, volume, parameter, recorder value, series and table of the document in another layout equals that of the original layout."

SECTIONS = ("nodes", "edges", "parameters", "recorders", "scenarios", "tables", "scenario_combinations")
MODES = ("file", "path", "bytes", "open", "loads", "dict", "load")


@st.composite
def layouts(draw):
    sp = draw(rich.models())
    sp["tables"] = draw(st.booleans())
    out = []
    for _ in range(2):
        v = {"seed": draw(st.integers(0, 2 ** 20)), "mode": draw(st.sampled_from(MODES))}
        for k in ("order", "keys", "edges", "outline", "inline", "drop", "table", "spell"):
            v[k] = draw(st.booleans())
        v["parts"] = draw(st.integers(0, 3))
        v["whole"] = draw(st.lists(st.sampled_from(["timestepper", "solver", "metadata"] + list(SECTIONS)), max_size=2, unique=True))
        v["sub"] = draw(st.booleans())
        v["py"] = draw(st.integers(0, 3)) == 0
        out.append(v)
    sp["layouts"] = out
    return sp


def references(x, names, under=None):
    """places in x that refer to a parameter by name: (container, key)"""
    out = []
    for k, v in (x.items() if isinstance(x, dict) else enumerate(x)):
        if isinstance(v, str):
            if v in names and k not in ("name", "type", "agg_func"):
                out.append((x, k))
        elif isinstance(v, (dict, list)):
            out += references(v, names)
    return out


def inline_places(x, depth=0):
    """places below a component that hold the document of another: (container, key)"""
    out = []
    for k, v in (x.items() if isinstance(x, dict) else enumerate(x)):
        if isinstance(v, dict) and "type" in v:
            out.append((x, k))
        if isinstance(v, (dict, list)):
            out += inline_places(v, depth + 1)
    return out


def shuffled_keys(x, rng):
    if isinstance(x, dict):
        ks = list(x)
        rng.shuffle(ks)
        return {k: shuffled_keys(x[k], rng) for k in ks}
    if isinstance(x, list):
        return [shuffled_keys(v, rng) for v in x]
    return x


def size(x):
    return len(json.dumps(x))


def transform(doc, v):
    """the same document in another layout, and the names of parameters and recorders that are gone"""
    rng = random.Random(v["seed"])
    doc = copy.deepcopy(doc)
    gone, n = set(), 0
    if v["inline"]:
        for section in ("parameters", "recorders"):
            comps = doc[section]
            for name in sorted(comps):
                if rng.random() < 0.5 or size(doc) > 60000:
                    continue
                users = [d for d in doc["nodes"]] + [d for s in ("parameters", "recorders") for n, d in doc[s].items() if n != name]
                refs = [r for d in users for r in references(d, {name})]
                if section == "recorders":
                    refs = [r for d in doc["recorders"].values() for r in references(d, {name})]
                keep = [r for r in refs if rng.random() < 0.4]
                if len(refs) * size(comps[name]) > 20000:
                    continue
                body = {k: x for k, x in comps[name].items()}
                for cont, key in refs:
                    if (cont, key) not in keep:
                        cont[key] = copy.deepcopy(body)
                        if section == "recorders":      # recorders need names of their own
                            n += 1
                            cont[key]["name"] = "qr%d" % n
                if refs and not keep and v["drop"]:
                    del comps[name]
                    gone.add(name)
    if v["outline"]:
        places = [p for d in doc["nodes"] for p in inline_places(d)] + [p for d in doc["parameters"].values() for p in inline_places(d)] + \
            [p for d in doc["recorders"].values() for p in inline_places(d)]
        k = 0
        for cont, key in places:
            if rng.random() < 0.6 and not isinstance(cont[key], str):
                body = cont[key]
                section = "recorders" if body["type"] in rich.REC and body["type"] not in rich.KINDS or (key == "event_recorder" or _in_recorders(doc, cont)) else "parameters"
                if section == "recorders":
                    continue
                name = "q%d" % k
                k += 1
                doc["parameters"][name] = body
                cont[key] = name
    if v["table"] and "tables" in doc:
        for d in doc["parameters"].values():
            if d.get("table") == "prof":
                del d["table"]
                d.update(copy.deepcopy(doc["tables"]["prof"]))
    if v["spell"]:      # types are not case sensitive, and may be given with or without "parameter" or "recorder"
        for d in doc["nodes"]:
            d["type"] = rng.choice([d["type"], d["type"].lower(), d["type"].upper()])
        for section, suffix in (("parameters", "Parameter"), ("recorders", "Recorder")):
            for d in doc[section].values():
                d["type"] = rng.choice([d["type"], d["type"].upper(), d["type"] + suffix, d["type"].upper() + suffix])
    if v["order"]:
        rng.shuffle(doc["nodes"])
        for section in ("parameters", "recorders", "tables"):
            if section in doc:
                ks = list(doc[section])
                rng.shuffle(ks)
                doc[section] = {k: doc[section][k] for k in ks}
    if v["edges"]:
        rng.shuffle(doc["edges"])
    if v["keys"]:
        doc = shuffled_keys(doc, rng)
    return doc, gone


def _in_recorders(doc, cont):
    return any(d.get("recorders") is cont for d in doc["recorders"].values())


def split(doc, v, folder):
    """moves parts of the document to include files"""
    rng = random.Random(v["seed"] + 1)
    doc = copy.deepcopy(doc)
    names = []
    sub = "parts" if v["sub"] else ""
    if sub:
        os.makedirs(os.path.join(folder, sub), exist_ok=True)
    parts = [{} for _ in range(v["parts"])]
    if parts:
        for s in v["whole"]:
            if s in doc:
                parts[rng.randrange(len(parts))][s] = doc.pop(s)
        for s in SECTIONS:
            if s not in doc or s in ("scenarios", "scenario_combinations"):      # the order of these has a meaning
                continue
            if isinstance(doc[s], list):
                items, doc[s] = doc[s], []
                for x in items:
                    rng.choice([doc] + parts).setdefault(s, []).append(x)
            else:
                items, doc[s] = doc[s], {}
                for k, x in items.items():
                    rng.choice([doc] + parts).setdefault(s, {})[k] = x
    for k, p in enumerate(parts):
        name = os.path.join(sub, "part%d.%s" % (k, "JSON" if k == 2 else "json"))
        with open(os.path.join(folder, name), "w") as f:
            json.dump(p, f)
        names.append(name)
    if v["py"]:
        name = os.path.join(sub, "custom.py")
        with open(os.path.join(folder, name), "w") as f:
            f.write("with open(%r, 'a') as f:\n    f.write('x')\n" % os.path.join(folder, "count"))
        names.append(name)
    if names:
        rng.shuffle(names)
        doc["includes"] = names
    return doc


def read(doc, mode, folder):
    from pywr.model import Model
    path = os.path.join(folder, "model.json")
    text = json.dumps(doc)
    with open(path, "w") as f:
        f.write(text)
    if mode in ("file", "path", "bytes", "open"):
        if mode == "open":
            with open(path) as f:
                return Model.load(f, path=path)
        return Model.load({"file": path, "path": pathlib.Path(path), "bytes": os.fsencode(path)}[mode])
    if mode == "loads":
        return Model.loads(text, path=path)
    before = copy.deepcopy(doc)
    model = (Model.load if mode == "load" else Model.load_from_dict)(doc, path=path)
    require(doc == before and json.dumps(doc) == text, "loading a model from a dictionary changes the dictionary")
    return model


def measure(doc, mode, folder):
    model = read(doc, mode, folder)
    watch = rich.watcher(model)
    model.run()
    return model, rich.results(model, watch)


def t_layouts(sp, ev):
    folder = tempfile.mkdtemp(prefix="verif-c07-")
    try:
        doc = rich.document(sp)
        if sp["tables"]:
            with open(os.path.join(folder, "profiles.csv"), "w") as f:
                f.write("name," + ",".join(str(k) for k in range(1, 13)) + "\n")
                for r in range(3):
                    f.write("row%d," % r + ",".join(str(round(1.37 * (r + 1) + 0.173 * ((k * 5) % 7), 6)) for k in range(12)) + "\n")
            doc["tables"] = {"prof": {"url": "profiles.csv", "index_col": "name"}, "unused": {"url": "profiles.csv", "index_col": "name"}}
            for k in range(3):
                doc["parameters"]["tab%d" % k] = {"type": "monthlyprofile", "table": "prof", "index": "row%d" % k}
            doc["parameters"]["tab3"] = {"type": "constant", "table": "prof", "index": "row1", "column": "7"}
            doc["nodes"][0]["max_flow"] = "tab1"
        model, want = measure(doc, "load", folder)
        for v in sp["layouts"]:
            other, gone = transform(doc, v)
            other = split(other, v, folder)
            count = os.path.join(folder, "count")
            if os.path.exists(count):
                os.remove(count)
            m, got = measure(other, v["mode"], folder)
            what = "layout %s" % ", ".join(k for k in v if v[k] and k != "seed")
            req_equal(what + ": names of the nodes", sorted(n.name for n in m.nodes), sorted(n.name for n in model.nodes))
            req_equal(what + ": connections", sorted((a.name, b.name) for a, b in m.edges()), sorted((a.name, b.name) for a, b in model.edges()))
            req_equal(what + ": names of the parameters", sorted(p.name for p in m.parameters if p.name and p.name[0] != "q"),
                      sorted(p.name for p in model.parameters if p.name and p.name not in gone))
            req_equal(what + ": names of the recorders", sorted(r.name for r in m.recorders if r.name and r.name[0] != "q"), sorted(r.name for r in model.recorders if r.name and r.name not in gone))
            req_equal(what + ": scenarios", [(s.name, s.size, list(s.ensemble_names)) for s in m.scenarios.scenarios],
                      [(s.name, s.size, list(s.ensemble_names)) for s in model.scenarios.scenarios])
            req_equal(what + ": title", m.metadata.get("title"), model.metadata.get("title"))
            if v["py"]:
                req_equal(what + ": executions of an included Python file", os.path.getsize(count), 1)
            names = lambda k: k.split(" ")[-1]
            rich.compare(what, {k: x for k, x in got.items() if names(k)[0] != "q"}, {k: x for k, x in want.items() if names(k) not in gone})
            changes = sum(bool(v[k]) for k in ("order", "inline", "outline", "spell", "parts")) + (v["mode"] not in ("load", "dict"))
            ev.tag(v["mode"], *[k for k in ("order", "keys", "edges", "outline", "inline", "drop", "spell", "parts", "py") if v[k]])
            ev.nt(changes >= 2 and rich.lively(want))
        rich.tags(sp, want, ev)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


TESTS = [Test("layouts", layouts(), t_layouts, 2400)]
