import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ASAPy import AsapyCovStorage as acs, XsecSampler as xs
from lib.core import Sub, require, expect_raises
from lib import gens as g
from lib import covstore

KEYS = [[92235, 102, 92235, 102], [92235, 102, 92235, 18], [92235, 18, 92235, 102], [92235, 2, 1001, 2], [1001, 2, 1001, 2], [92238, 452, 92238, 452]]
BAD_STD = ["low order", "high order", "equal low", "equal high", "increasing", "nan"]
BAD_CORR = ["extra row", "extra column", "labels", "permuted labels"]


@st.composite
def op(draw, keys):
    k = draw(st.sampled_from(["std", "corr", "bad std", "bad corr", "load", "load", "reopen"]))
    o = {"op": k, "key": draw(st.sampled_from(keys)), "str": draw(st.booleans())}
    return fill(draw, o)


@st.composite
def pair(draw, keys):
    """both tables of one key"""
    key = draw(st.sampled_from(keys))
    return [fill(draw, {"op": k, "key": key, "str": draw(st.booleans())}) for k in draw(st.sampled_from([["std", "corr"], ["corr", "std"]]))]


def fill(draw, o):
    k = o["op"]
    if k != "reopen":
        o["e"] = draw(covstore.entry(min_groups=2 if k.startswith("bad") else 1, max_groups=5))
    if k == "std":
        o["swapped"] = draw(st.booleans())
        o["via"] = draw(st.booleans())
    if k == "corr":
        o["scale"] = draw(st.sampled_from([1.0, 1000.0, 0.25]))
        o["diag"] = draw(st.lists(st.sampled_from([1.0, 1.0, 0.5, 0.0]), min_size=5, max_size=5))
    if k == "load":
        o["fill"] = draw(st.booleans())
        o["short"] = draw(st.booleans())
    if k == "bad std":
        o["how"] = draw(st.sampled_from(BAD_STD))
        o["at"] = draw(st.integers(0, 20))
    if k == "bad corr":
        o["how"] = draw(st.sampled_from(BAD_CORR))
    return o


@st.composite
def case(draw):
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique_by=str))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        if draw(st.integers(0, 2)) == 0:
            ops += draw(pair(keys))
        else:
            ops.append(draw(op(keys)))
    return {"ops": ops}


def same(got, want, what):
    require(list(got.index) == list(want.index), "{}: groups {} instead of {}", what, list(got.index), list(want.index))
    require(list(got.columns) == list(want.columns), "{}: columns {} instead of {}", what, list(got.columns), list(want.columns))
    require(np.array_equal(got.values.astype(float), want.values.astype(float), equal_nan=True), "{}: values {} instead of {}", what, got.values.tolist(), want.values.tolist())


def check(c, ctx):
    path = os.path.join(ctx.dir(), "s.h5")
    h = pd.HDFStore(path, "w")
    model = {}

    def verify(where):
        keys = {k.lstrip("/") for k in h.keys()}
        require(keys == {"{}/{}/{}/{}/{}".format(*k, t) for k, t in model}, "{}: store holds {}", where, sorted(keys))
        for (k, t), want in model.items():
            same(h["{}/{}/{}/{}/{}".format(*k, t)], want, "{}: {} {}".format(where, k, t))
    try:
        nputs = 0
        for o in c["ops"]:
            key = tuple(o["key"])
            args = [str(x) for x in key] if o["str"] else list(key)
            kind = o["op"]
            ctx.label(kind)
            if kind in ("std", "bad std"):
                sd, _ = covstore.frames(o["e"])
                G = len(sd)
                if kind == "std":
                    if o["swapped"]:
                        sd = sd.rename(columns={"e low": "e high", "e high": "e low"})[covstore.COLS]
                    df = sd
                    if o["via"]:
                        df = acs.create_stddev_df(G)
                        require(list(df.columns) == covstore.COLS and list(df.index) == list(range(1, G + 1)), "template {} {}", list(df.index), list(df.columns))
                        for col in covstore.COLS:
                            df[col] = sd[col].values
                    acs.add_stddev_to_store(h, df, *args)
                    nputs += (key, "std_dev") in model
                    model[key, "std_dev"] = sd
                else:
                    i = o["at"] % (G - 1)   # position of the offending pair
                    col = "e low" if o["how"] in ("low order", "equal low") else "e high"
                    v = sd[col].values.copy()
                    if o["how"].endswith("order"):
                        v[i], v[i + 1] = v[i + 1], v[i]
                        sd[col] = v
                    elif o["how"].startswith("equal"):
                        v[i + 1] = v[i]
                        sd[col] = v
                    elif o["how"] == "nan":
                        v[i] = np.nan
                        sd[col] = v
                    else:
                        lo, hi = sd["e low"].values[::-1].copy(), sd["e high"].values[::-1].copy()
                        sd["e low"], sd["e high"] = lo, hi
                    expect_raises(lambda: acs.add_stddev_to_store(h, sd, *args), o["how"] + " in " + str(sd[["e low", "e high"]].values.tolist()))
            elif kind in ("corr", "bad corr"):
                _, co = covstore.frames(o["e"])
                G = len(co)
                if kind == "corr":
                    for i in range(G):
                        co.iloc[i, i] = o["diag"][i]
                    co.iloc[0, 0] = 1.0
                    co = co * o["scale"]
                    df = acs.create_corr_df(G)
                    require(list(df.columns) == list(range(1, G + 1)) and list(df.index) == list(range(1, G + 1)), "template {} {}", list(df.index), list(df.columns))
                    df.loc[:, :] = co.values
                    acs.add_corr_to_store(h, df, *args)
                    nputs += (key, "corr") in model
                    model[key, "corr"] = co
                else:
                    if o["how"] == "extra row":
                        bad = co.iloc[:, :-1]
                    elif o["how"] == "extra column":
                        bad = co.iloc[:-1, :]
                    elif o["how"] == "labels":
                        bad = co.copy()
                        bad.columns = [x + 1 for x in bad.columns]
                    else:
                        bad = co.copy()
                        bad.columns = list(bad.columns[:-2]) + [bad.columns[-1], bad.columns[-2]]
                    expect_raises(lambda: acs.add_corr_to_store(h, bad, *args), o["how"])
            elif kind == "reopen":
                h.close()
                h = pd.HDFStore(path, "a")
            else:
                if (key, "corr") not in model or (key, "std_dev") not in model:
                    ctx.label("load of missing")
                    expect_raises(lambda: xs.XsecSampler.load_zaid_mt(h, *args), "loading {} which is not complete in the store".format(key))
                else:
                    kw = {"fill_corr_diag": True} if o["fill"] else {}
                    a = args[:2] if o["short"] and key[:2] == key[2:] else args
                    sd, co = xs.XsecSampler.load_zaid_mt(h, *a, **kw)
                    wc = model[key, "corr"].copy()
                    m = np.diag(wc.values).max()
                    if o["fill"]:
                        for i in range(len(wc)):
                            wc.iloc[i, i] = m
                    require(list(co.index) == list(wc.index) and list(co.columns) == list(wc.columns), "loaded labels")
                    require(np.allclose(co.values, wc.values / m, rtol=1e-14, atol=0), "loaded correlations {} instead of {}", co.values.tolist(), (wc / m).values.tolist())
                    ws = model[key, "std_dev"].copy()
                    if ws["e low"].iloc[0] > ws["e high"].iloc[0]:
                        ws = ws.rename(columns={"e low": "e high", "e high": "e low"})[covstore.COLS]
                        ctx.label("loaded swapped")
                    same(sd, ws, "loaded deviations")
                    ctx.label("loaded")
            verify("after " + kind)
        ctx.nontrivial(nputs > 0 or len({k for k, _ in model}) > 1)
    finally:
        h.close()


SUBS = [Sub("history", case(), check, 640, 16000, "some entry is overwritten or two reaction pairs are stored")]
