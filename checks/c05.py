import numpy as np
from hypothesis import strategies as st
from ASAPy import XsecSampler as xs
from lib.core import Sub, require
from lib import gens as g
from lib import covstore


@st.composite
def case(draw):
    c = draw(covstore.entry(min_groups=1, max_groups=9))
    G = len(c["mean"])
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 1000.0, 0.5]))
    c["nodata"] = draw(st.lists(st.sampled_from([False, False, False, True]), min_size=G, max_size=G)) if draw(st.booleans()) else [False] * G
    if draw(st.integers(0, 9)) == 5:
        c["nodata"] = [True] * G
    if all(c["nodata"]):
        c["scale"] = 1.0
    c["singular"] = draw(st.booleans()) and G > 2
    c["repair"] = draw(st.sampled_from([True, True, True, False]))
    c["zaid"] = draw(st.sampled_from([92235, "92235", 1001]))
    c["mt"] = draw(st.sampled_from([102, "102", 2, 452]))
    c["keep_rows"] = draw(st.booleans())
    c["swapped"] = draw(st.integers(0, 4)) == 2
    c["second"] = draw(st.sampled_from([None, None, "nuclide", "reaction", "both"]))
    return c


def check(c, ctx):
    G = len(c["mean"])
    corr = np.array(c["corr"], float)
    if c["singular"]:
        # last two data groups fully correlated with each other: an exactly singular block
        corr[:, -1] = corr[:, -2]
        corr[-1, :] = corr[-2, :]
        corr[-1, -1] = 1.0
    nodata = np.array(c["nodata"])
    for i in np.nonzero(nodata)[0]:
        if not c["keep_rows"]:
            corr[i, :] = corr[:, i] = 0
        corr[i, i] = 0
    e = dict(c, corr=corr.tolist())
    with covstore.build(ctx.dir(), {(c["zaid"], c["mt"]): e}) as h:
        args, kw = [c["zaid"], c["mt"]], {} if c["repair"] else {"remove_negative_eig": False}
        z2, m2 = (8016 if c["second"] in ("nuclide", "both") else None), (16 if c["second"] in ("reaction", "both") else None)
        if c["second"]:
            # the covariance with another reaction is asked for; the reaction's own data are different
            covstore.put(h, c["zaid"], c["mt"], e, z2, m2)
            covstore.put(h, c["zaid"], c["mt"], {"bounds": [x * 1.3 for x in c["bounds"]], "mean": [x * 2 for x in c["mean"]], "std": [x * 3 for x in c["std"]], "corr": np.eye(G).tolist()})
            if z2 is not None:
                kw["zaid_2"] = z2
            if m2 is not None:
                kw["mt_2"] = m2
        s = xs.XsecSampler(h, *args, **kw)
        got = s.corr_df
        std = s.std_dev_df
        _, raw = covstore.frames(e)
        key = '{0}/{1}/{2}/{3}/corr'.format(c["zaid"], c["mt"], z2 if z2 is not None else c["zaid"], m2 if m2 is not None else c["mt"])
        require(np.array_equal(h[key].values, raw.values), "loading changed the store")
    require(list(got.index) == list(range(1, G + 1)) and list(got.columns) == list(range(1, G + 1)), "group labels {} {}", list(got.index), list(got.columns))
    got = got.values
    require(np.array_equal(std['x-sec(1)'].values, np.array(c["mean"])) and np.array_equal(std['s.d.(1)'].values, np.array(c["std"])), "cross sections or deviations changed")
    require(np.array_equal(std['e high'].values, np.array(c["bounds"][:-1])) and np.array_equal(std['e low'].values, np.array(c["bounds"][1:])), "energy bounds changed")
    ok = np.nonzero(~nodata)[0]
    no = np.nonzero(nodata)[0]
    require(np.allclose(got[no, :], corr[no, :], rtol=1e-14, atol=0) and np.allclose(got[:, no], corr[:, no], rtol=1e-14, atol=0),
            "rows and columns of groups without data changed:\n{}\nstored (scaled)\n{}", got.tolist(), corr.tolist())
    blk, want = got[np.ix_(ok, ok)], corr[np.ix_(ok, ok)]
    if not c["repair"] or len(ok) == 0:
        require(np.allclose(blk, want, rtol=1e-14, atol=0), "matrix {} instead of {}", blk.tolist(), want.tolist())
        ctx.label("no repair" if len(ok) else "no data at all")
        ctx.nontrivial(len(ok) > 1)
        return
    lam, V = np.linalg.eigh(want)
    if abs(lam.min() - 1e-8) < 1e-12:
        ctx.label("borderline eigenvalue")
        return
    require(np.allclose(blk, blk.T, rtol=0, atol=1e-12), "not symmetric: {}", blk.tolist())
    if lam.min() > 1e-8:
        require(np.allclose(blk, want, rtol=1e-13, atol=0), "positive definite matrix was changed: {} instead of {}", blk.tolist(), want.tolist())
        ctx.label("definite")
    else:
        lam2, _ = np.linalg.eigh((blk + blk.T) / 2)
        require(lam2.min() > 0, "not positive definite: eigenvalues {} (stored {})", lam2.tolist(), lam.tolist())
        require(lam2.min() <= 1.2e-8, "smallest eigenvalue raised to {}", lam2.min())
        fixed = np.where(lam <= 1e-8, 0.0, lam)
        ref = (V * fixed) @ V.T
        require(np.abs(blk - ref).max() <= 1e-7, "repaired matrix {}\n instead of {}", blk.tolist(), ref.tolist())
        ctx.label("singular" if abs(lam.min()) < 1e-8 else "indefinite")
        ctx.nontrivial()
    if len(no):
        ctx.label("groups without data")
    if c["second"]:
        ctx.label("two reactions")
    if c["scale"] != 1:
        ctx.label("scaled")


SUBS = [Sub("load", case(), check, 1200, 40000, "the stored matrix needs repair, or repair is off for two or more groups")]
