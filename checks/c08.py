import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ASAPy import XsecSampler as xs
from lib.core import Sub, require, expect_raises
from lib import gens as g
from lib import covstore


@st.composite
def case(draw):
    G = draw(st.integers(1, 9))
    b = draw(covstore.bounds(G))
    vals = draw(st.lists(g.nice_float(0, 3), min_size=G, max_size=G))
    pts = draw(st.lists(st.tuples(st.sampled_from(["bound", "above", "below", "mid", "free"]), st.integers(-1, G + 1), g.nice_float(0, 1)), min_size=1, max_size=25))
    return {"b": b, "vals": vals, "pts": pts, "outside": draw(st.sampled_from([1, 1, 1.0, 0, 2.5, -1.0])),
            "max": draw(st.sampled_from([None, None, 1.0, 1.0000001, 1.5, 100.0])), "min": draw(st.sampled_from(["given", "given", "none"])),
            "sort": draw(st.booleans()), "list": draw(st.booleans())}


def energies(c, edges):
    out = []
    for kind, i, f in c["pts"]:
        if i < 0 or i >= len(edges) or (kind in ("mid", "free") and i + 1 >= len(edges)):
            e = edges[0] * (0.5 - 0.4 * f) if i < 0 else edges[-1] * (1.5 + 3 * f)
        elif kind == "bound":
            e = edges[i]
        elif kind == "above":
            e = np.nextafter(edges[i], np.inf)
        elif kind == "below":
            e = np.nextafter(edges[i], 0)
        else:
            e = edges[i] + (0.5 if kind == "mid" else f) * (edges[i + 1] - edges[i])
        out.append(float(e))
    return sorted(out) if c["sort"] else out


def reference(e, highs, low, vals, max_e, outside):
    """highs, vals in group order (decreasing energies)"""
    if e < low or e > max_e:
        return outside
    for gi in range(len(highs) - 1, -1, -1):
        if e <= highs[gi]:
            return vals[gi]
    return vals[0]


def check(c, ctx):
    c["vals"] = [float(v) for v in c["vals"]]
    b = c["b"]
    G = len(b) - 1
    highs = np.array(b[:-1])
    low = b[-1] if c["min"] == "given" else highs[-1] / 10
    max_e = highs[0] if c["max"] is None else highs[0] * c["max"]
    edges = sorted(set(list(highs) + [low, float(max_e)]))
    es = energies(c, edges)
    hs = pd.Series(highs, index=range(1, G + 1))
    vs = pd.Series(c["vals"], index=range(1, G + 1))
    kw = {}
    if c["max"] is not None:
        kw["max_e"] = max_e
    if c["min"] == "given":
        kw["min_e"] = low
    if c["outside"] != 1 or c["list"]:
        kw["value_outside_of_range"] = c["outside"]
    arg = list(es) if c["list"] else np.array(es)
    got = np.asarray(xs.map_groups_to_continuous(arg, hs, vs, **kw))
    want = np.array([reference(e, highs, low, c["vals"], max_e, c["outside"]) for e in es], float)
    require(got.shape == want.shape and np.array_equal(got, want), "energies {}\n groups (high) {} low {} max {}\n values {}\n gives {}\n instead of {}",
            es, highs.tolist(), low, max_e, c["vals"], got.tolist(), want.tolist())
    require(np.array_equal(hs.values, highs) and np.array_equal(vs.values, np.array(c["vals"])) and np.array_equal(np.array(arg), np.array(es)), "inputs were modified")
    inside = [e for e in es if low <= e <= max_e]
    ctx.nontrivial(G > 1 and len(set(want)) > 1)
    if any(e in edges for e in es):
        ctx.label("energy on a bound")
    if len(inside) < len(es):
        ctx.label("energy outside")
    ctx.label("max given" if c["max"] else "max default", "min " + c["min"])


@st.composite
def case_bad(draw):
    G = draw(st.integers(1, 6))
    return {"b": draw(covstore.bounds(G)), "how": draw(st.sampled_from(["min", "max"])), "f": draw(st.sampled_from([0.999999, 0.9, 0.1]))}


def check_bad(c, ctx):
    highs = np.array(c["b"][:-1])
    G = len(highs)
    hs = pd.Series(highs, index=range(1, G + 1))
    vs = pd.Series(np.arange(1.0, G + 1), index=range(1, G + 1))
    kw = {"min_e": highs[-1]} if c["how"] == "min" else {"min_e": c["b"][-1], "max_e": highs[0] * c["f"]}
    expect_raises(lambda: xs.map_groups_to_continuous(np.array([highs[0]]), hs, vs, **kw), "groups {} with {}".format(c["b"], kw))
    ctx.label(c["how"])
    ctx.nontrivial()


SUBS = [Sub("mapping", case(), check, 4000, 300000, "two or more groups and results that are not all equal"),
        Sub("refused", case_bad(), check_bad, 300, 5000, "always")]
