"""C30: data files are accepted exactly when their checksum matches."""

import hashlib
import io
import json
import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from harness import nets
from harness.core import Test, Violation, req_arrays, req_close, req_equal

TECHNIQUE = "property-based testing: random contents, algorithms, corruptions and sequences of checks sharing a cache, against digests computed at once from the content; fault injection into the data files of random documents"
RULE = "random files and digests, right or wrong in ten ways; non-trivial: a wrong digest that differs in a single digit or stands for a content that differs in a single byte, or a right one accepted"
NOTE = "Accepted if and only if every digest is right; the error names the file; the values read are those of the file."

ALGOS = sorted(a for a in hashlib.algorithms_guaranteed if not a.startswith("shake"))
WRONG = ["right", "right", "right", "right", "upper", "mixed", "digit", "byte", "truncated", "longer", "prefix", "extended", "empty", "other", "zeros"]


def digest(algo, data):
    h = hashlib.new(algo)
    h.update(data)
    return h.hexdigest()


@st.composite
def claims(draw, weird=True):
    """how a digest is given, and the random choices needed for it"""
    return {"algo": draw(st.sampled_from(ALGOS + ["md5", "sha256", "sha1"])), "kind": draw(st.sampled_from(WRONG)), "pos": draw(st.integers(0, 10 ** 6)), "by": draw(st.integers(1, 15))}


def claim(c, data):
    """(digest given, whether it is right)"""
    good = digest(c["algo"], data)
    k = c["kind"]
    if k == "right":
        return good, True
    if k == "upper":
        return good.upper(), True
    if k == "mixed":
        return "".join(x.upper() if (c["pos"] >> (i % 20)) & 1 else x for i, x in enumerate(good)), True
    if k == "digit":
        i = c["pos"] % len(good)
        return good[:i] + "0123456789abcdef"[(int(good[i], 16) + c["by"]) % 16] + good[i + 1:], False
    if k == "byte" and data:
        i = c["pos"] % len(data)
        return digest(c["algo"], data[:i] + bytes([data[i] ^ c["by"]]) + data[i + 1:]), False
    if k == "truncated" and data:
        return digest(c["algo"], data[:-1]), False
    if k == "longer" or k in ("byte", "truncated"):
        return digest(c["algo"], data + b"\n"), False
    if k == "prefix":
        return good[:-c["by"]], False
    if k == "extended":
        return good + "0" * c["by"], False
    if k == "empty":
        return "", False
    if k == "other":
        return digest("md5" if c["algo"] != "md5" else "sha1", data), False
    return "0" * len(good), False


@st.composite
def contents(draw):
    size = draw(st.one_of(st.integers(0, 40), st.sampled_from([8191, 8192, 8193, 16384, 20000, 65536])))
    return {"size": size, "seed": draw(st.integers(0, 255))}


def content(c):
    return bytes((c["seed"] * (i + 1) + (i >> 8) + i * i) % 256 for i in range(c["size"]))


@st.composite
def sequences(draw):
    files = draw(st.lists(contents(), min_size=1, max_size=3))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        o = draw(claims())
        o["file"] = draw(st.integers(0, len(files)))            # the last one does not exist
        o["name"] = draw(st.sampled_from(["str", "str", "path"]))
        if draw(st.integers(0, 9)) == 0:
            o["unknown"] = draw(st.sampled_from(["md6", "", "sha", "crc"]))
        o["chunk"] = draw(st.sampled_from([None, None, 1, 7, 4096]))
        ops.append(o)
    return {"files": files, "ops": ops, "by": draw(st.sampled_from(["model", "model", "cache", "none"]))}


def t_direct(sp, ev):
    from pywr import hashes
    from pywr.model import Model
    with tempfile.TemporaryDirectory() as folder:
        data, names = [], []
        for i, c in enumerate(sp["files"]):
            data.append(content(c))
            names.append(os.path.join(folder, "file %d.dat" % i))
            with open(names[-1], "wb") as f:
                f.write(data[-1])
        names.append(os.path.join(folder, "missing.csv"))
        model, cache = Model(), {}
        for o in sp["ops"]:
            kw = {}
            n = names[o["file"]]
            missing = o["file"] == len(data)
            algo = o.get("unknown", o["algo"])
            small = missing or len(data[o["file"]]) < 100
            if o["chunk"] and (small or o["chunk"] > 1000):
                kw["chunk_size"] = o["chunk"]
            given, right = claim(o, b"" if missing else data[o["file"]])
            name = Path(n) if o["name"] == "path" else n
            what = "check of %r with %s digest %r (%s)" % (os.path.basename(n), algo, given, o["kind"])
            try:
                if sp["by"] == "model":
                    model.check_hash(name, given, algorithm=algo, **kw)
                else:
                    hashes.check_hash(name, given, cache=cache if sp["by"] == "cache" else None, algorithm=algo, **kw)
                got = True
            except hashes.HashMismatchError as e:
                got = False
                if not missing and "unknown" not in o and os.path.basename(n) not in str(e):
                    raise Violation("%s: the error %r does not name the file" % (what, str(e)))
                if missing or "unknown" in o:
                    raise Violation("%s: reported as a mismatch" % what)
            except Exception as e:
                if not (missing and isinstance(e, OSError) or "unknown" in o and isinstance(e, ValueError)):
                    raise
                ev.tag("refused: " + ("missing" if missing else "unknown algorithm"))
                continue
            if missing or "unknown" in o:
                raise Violation("%s: accepted, though %s" % (what, "the file does not exist" if missing else "the algorithm does not"))
            if got != right:
                raise Violation("%s: %s" % (what, "accepted" if got else "refused"))
            if not missing and sp["by"] == "none" and "unknown" not in o:
                req_equal("compute_hash", hashes.compute_hash(name, algorithm=algo, **kw), digest(algo, data[o["file"]]))
            ev.tag(o["kind"], algo)
            ev.nt(o["kind"] in ("digit", "byte", "right"))
    ev.tag("through " + sp["by"])


# ---------------------------------------------------------------------------------------------------------------
# documents

@st.composite
def documents(draw):
    n = draw(st.integers(1, 4))
    sp = {"files": [], "use": [], "order": draw(st.sampled_from(["file", "dict"])), "later": draw(st.sampled_from(["same", "same", "changed"])), "at": draw(st.integers(0, 10 ** 6))}
    for _ in range(draw(st.integers(1, 2))):
        sp["files"].append({"kind": draw(st.sampled_from(["csv", "csv", "gz", "h5"])), "vals": draw(st.lists(st.integers(0, 40), min_size=12, max_size=12))})
    for _ in range(n):
        f = draw(st.integers(0, len(sp["files"]) - 1))
        kind = sp["files"][f]["kind"]
        how = draw(st.sampled_from(["dataframe", "table", "monthlyprofile", "constant", "arrayindexed"] if kind != "h5" else ["tablesarray", "dataframe", "table"]))
        sp["use"].append({"file": f, "how": how, "sums": draw(st.lists(claims(), min_size=0, max_size=3, unique_by=lambda c: c["algo"])), "row": draw(st.integers(0, 11))})
    return sp


def write(folder, k, d, vals):
    import gzip
    import pandas as pd
    name = "data%d.%s" % (k, {"csv": "csv", "gz": "csv.gz", "h5": "h5"}[d["kind"]])
    p = os.path.join(folder, name)
    index = pd.date_range("2015-01-01", periods=12, freq="D", name="date")
    df = pd.DataFrame({"v": np.array(vals) / 4.0 + 0.125}, index=index)
    if d["kind"] == "csv":
        df.to_csv(p)
    elif d["kind"] == "gz":
        with open(p, "wb") as f:
            f.write(gzip.compress(df.to_csv().encode(), mtime=1))
    else:
        import tables
        df.to_hdf(p, key="df", mode="w")
        with tables.open_file(p, "a") as h5:
            h5.create_array("/", "arr", df.values.astype(float))
    return p


def t_documents(sp, ev):
    from pywr.hashes import HashMismatchError
    from pywr.model import Model
    nets.register()
    with tempfile.TemporaryDirectory() as folder:
        paths = [write(folder, k, d, d["vals"]) for k, d in enumerate(sp["files"])]

        def run(raw):
            doc = {"metadata": {"title": "b", "minimum_version": "0.1"}, "timestepper": {"start": "2015-01-01", "end": "2015-01-12", "timestep": 1},
                   "nodes": [{"name": "in", "type": "Input", "max_flow": 5.0}, {"name": "out", "type": "Output", "max_flow": 3.0, "cost": -1.0}], "edges": [["in", "out"]],
                   "parameters": {}, "tables": {}}
            bad = set()
            for j, u in enumerate(sp["use"]):
                d = sp["files"][u["file"]]
                e = {"url": os.path.basename(paths[u["file"]])}
                if d["kind"] == "h5":
                    if u["how"] != "tablesarray":
                        e["key"] = "df"
                else:
                    e.update(index_col="date", parse_dates=True)
                sums = {}
                for c in u["sums"]:
                    sums[c["algo"]], ok = claim(c, sp_raw[u["file"]])
                    if not ok or raw[u["file"]] != sp_raw[u["file"]]:
                        bad.add(u["file"])
                if sums:
                    e["checksum"] = sums
                p = "p%d" % j
                if u["how"] == "table":
                    doc["tables"]["t%d" % j] = e
                    doc["parameters"][p] = {"type": "dataframe", "table": "t%d" % j, "column": "v"}
                elif u["how"] == "dataframe":
                    doc["parameters"][p] = dict(e, type="dataframe", column="v")
                elif u["how"] == "tablesarray":
                    doc["parameters"][p] = dict(e, type="tablesarray", node="arr")
                elif u["how"] == "constant":
                    doc["parameters"][p] = dict(e, type="constant", column="v", index="2015-01-%02d" % (u["row"] + 1))
                else:
                    doc["parameters"][p] = dict(e, type=u["how"], column="v")
            if sp["order"] == "file":
                with open(os.path.join(folder, "m.json"), "w") as f:
                    json.dump(doc, f)
                load = lambda: Model.load(os.path.join(folder, "m.json"))
            else:
                load = lambda: Model.load(doc, path=folder)
            try:
                model = load()
            except HashMismatchError as e:
                if not any(os.path.basename(paths[f]) in str(e) for f in bad):
                    raise Violation("refused (%s), the files with wrong digests are %r" % (e, sorted(bad)))
                return False
            if bad:
                raise Violation("the document was loaded although digests of the files %r are wrong" % sorted(bad))
            model.setup()
            for t in range(12):
                model.step()
                for j, u in enumerate(sp["use"]):
                    vals = np.array(sp["files"][u["file"]]["vals"]) / 4.0 + 0.125
                    exp = vals[u["row"]] if u["how"] == "constant" else vals[0] if u["how"] == "monthlyprofile" else vals[t]
                    req_close("value of %s from a file with right digests" % u["how"], model.parameters["p%d" % j].get_all_values()[0], exp)
            return True
        sp_raw = [open(p, "rb").read() for p in paths]
        ok = run(sp_raw)
        ev.tag("accepted" if ok else "refused", *[u["how"] for u in sp["use"]])
        ev.nt(any(u["sums"] for u in sp["use"]))
        if sp["later"] == "changed" and all(d["kind"] != "h5" for d in sp["files"]):
            # another model looks at the content there is then
            k = sp["at"] % len(paths)
            raw = bytearray(sp_raw[k])
            if sp["files"][k]["kind"] == "csv":
                raw += b"\n"
            else:
                raw[4] ^= 1         # time stamp in the header
            with open(paths[k], "wb") as f:
                f.write(bytes(raw))
            now = list(sp_raw)
            now[k] = bytes(raw)
            again = run(now)
            ev.tag("changed later: " + ("accepted" if again else "refused"))


TESTS = [Test("direct", sequences(), t_direct, 1500), Test("documents", documents(), t_documents, 500, weight=1.5)]
