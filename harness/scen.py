"""Random scenario sets: sizes, slices, ensemble names, user combinations; and the combinations they stand for."""

import itertools

from hypothesis import strategies as st


@st.composite
def sets(draw, max_scen=3, max_size=4, max_combos=24, user=True, slices=True):
    k = draw(st.integers(1, max_scen))
    out = {"scen": [], "user": None}
    for i in range(k):
        size = draw(st.integers(1, max_size))
        s = {"name": draw(st.sampled_from(["S%d", "climate %d", "%d"])) % i, "size": size, "slice": None, "names": None}
        if draw(st.integers(0, 3)) == 0:
            s["names"] = ["m%d" % (size - j) for j in range(size)]
        if slices and draw(st.integers(0, 2)) == 0:
            lo, hi = draw(st.one_of(st.none(), st.integers(-size, size - 1))), draw(st.one_of(st.none(), st.integers(-size, size + 1)))
            sl = [lo, hi, draw(st.sampled_from([None, 1, 2]))]
            if range(size)[slice(*sl)]:
                s["slice"] = sl
        out["scen"].append(s)
    if user and draw(st.integers(0, 2)) == 0:
        m = draw(st.integers(1, min(5, max_combos)))
        out["user"] = [[draw(st.integers(0, s["size"] - 1)) for s in out["scen"]] for _ in range(m)]
    while len(combos(out)) > max_combos:
        out["scen"].pop()
        if out["user"]:
            out["user"] = [c[:-1] for c in out["user"]]
    return out


def combos(sp, use=True):
    """the combinations that are run"""
    if use and sp["user"] is not None:
        return [tuple(c) for c in sp["user"]]
    return list(itertools.product(*[range(s["size"])[slice(*s["slice"])] if use and s["slice"] else range(s["size"]) for s in sp["scen"]]))


def put(doc, sp, use=True):
    doc["scenarios"] = []
    for s in sp["scen"]:
        d = {"name": s["name"], "size": s["size"]}
        if use and s["slice"]:
            d["slice"] = list(s["slice"])
        if s["names"]:
            d["ensemble_names"] = list(s["names"])
        doc["scenarios"].append(d)
    if use and sp["user"] is not None:
        doc["scenario_combinations"] = [list(c) for c in sp["user"]]
    return doc


def labels(sp, use=True):
    return [tuple((s["names"][i] if s["names"] else i) for s, i in zip(sp["scen"], c)) for c in combos(sp, use)]
