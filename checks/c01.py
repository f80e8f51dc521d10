import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st
from ASAPy import CovManipulation as cm
from lib.core import Sub, require, expect_raises
from lib import gens as g

ASSUMPTIONS = ["the Latin hypercube source never returns exactly 0 or 1"]


def stratified(col, cdf, slack, what):
    """exactly one value in each of the n equal-probability strata"""
    n = len(col)
    require(np.all(np.isfinite(col)), "{}: not finite: {}", what, col.tolist())
    u = np.sort(cdf(np.asarray(col, float)))
    lo, hi = np.arange(n) / n, (np.arange(n) + 1) / n
    eps = 1e-8 + slack
    bad = np.nonzero((u < lo - eps) | (u > hi + eps))[0]
    require(bad.size == 0, "{}: sorted probabilities {} leave their strata of width 1/{} at positions {}",
            what, u.tolist(), n, bad.tolist())


def cdf_for(distro, mean, std):
    if distro == "normal":
        return lambda x: ss.norm.cdf((x - mean) / std)
    if distro == "uniform":
        return lambda x: (x - (mean - 3 ** 0.5 * std)) / (2 * 3 ** 0.5 * std)
    s2 = np.log1p((std / mean) ** 2)
    mu = np.log(mean) - s2 / 2
    return lambda x: ss.norm.cdf((np.log(x) - mu) / np.sqrt(s2))


@st.composite
def case_corr(draw):
    distro = draw(st.sampled_from(["normal", "lognormal", "uniform"]))
    k = draw(st.integers(1, 6))
    n = draw(st.one_of(st.integers(2, 12), st.integers(2, 12), st.integers(13, 80), st.sampled_from([101, 128, 201, 256, 300])))
    mean, std = [], []
    for _ in range(k):
        m = draw(g.log_float(-4, 5))
        if distro != "lognormal" and draw(st.integers(0, 3)) == 0:
            m = -m
        mean.append(m)
        std.append(float("%.4g" % (abs(m) * draw(g.log_float(-5, 0 if distro == "lognormal" else 1)))))
    corr = draw(g.any_corr(k))
    kind = {}
    for i in range(k):
        w = draw(st.sampled_from([""] * 6 + ["s", "c", "m", "sc", "sm", "cm", "scm"]))
        if "s" in w:
            kind[i] = "zero-std"
            std[i] = draw(st.sampled_from([0.0, 1e-31, 1e-30]))
        if "c" in w:
            kind[i] = "no-corr"
            for j in range(k):
                corr[i][j] = corr[j][i] = 0.0
        if "m" in w:
            kind[i] = "zero-mean"
            mean[i] = 0.0
            if "s" not in w and (std[i] == 0 or abs(std[i]) < 1e-20):
                std[i] = 0.5
        if len(w) > 1:
            kind[i] = "several reasons"
    return {"distro": distro, "n": n, "mean": mean, "std": std, "corr": corr, "kind": {str(i): v for i, v in kind.items()},
            "seed": draw(g.seeds), "mt": draw(st.sampled_from([None, 2, 18, 102, 452, 1018]))}


def check_corr(c, ctx):
    mean, std, corr = np.array(c["mean"], float), np.array(c["std"], float), np.array(c["corr"], float)
    k, n, distro = len(mean), c["n"], c["distro"]
    fixed = (std <= 1e-30) | (np.diag(corr) == 0)
    if distro == "lognormal":
        fixed |= mean == 0
    np.random.seed(c["seed"])
    keep = mean.copy(), std.copy(), corr.copy()
    kw = {} if c["mt"] is None else {"mt": c["mt"]}
    out = cm.sample_with_corr(mean, std, corr, n, distro=distro, **kw)
    for a, b, what in zip(keep, (mean, std, corr), ("means", "deviations", "correlations")):
        require(np.array_equal(a, b), "sampling modified its input {}", what)
    out = np.asarray(out)
    require(out.shape == (n, k), "shape {} instead of {}", out.shape, (n, k))
    ctx.label(distro, "k=1" if k == 1 else "k>1", "n<=k" if n <= k else "n>k")
    for i in range(k):
        if fixed[i]:
            require(np.all(out[:, i] == mean[i]), "unsampled variable {} (mean {}) has values {}", i, mean[i], out[:, i].tolist())
        else:
            slack = 20 * np.spacing(abs(mean[i]) + 5 * std[i]) / std[i]
            stratified(out[:, i], cdf_for(distro, mean[i], std[i]), slack, "%s variable %d (mean %r std %r)" % (distro, i, mean[i], std[i]))
    for v in set(c["kind"].values()):
        ctx.label(v)
    if fixed.any() and not fixed.all():
        ctx.label("mixed")
    ctx.nontrivial((~fixed).sum() >= 2 or (fixed.any() and not fixed.all()))


@st.composite
def case_lhs(draw):
    k = draw(st.integers(1, 8))
    return {"n": draw(st.integers(1, 200)), "seed": draw(g.seeds),
            "mean": draw(st.lists(g.nice_float(-1e3, 1e3), min_size=k, max_size=k)),
            "std": draw(st.lists(g.log_float(-3, 3), min_size=k, max_size=k))}


def check_lhs(c, ctx):
    n, k = c["n"], len(c["mean"])
    np.random.seed(c["seed"])
    u = np.asarray(cm.lhs_uniform_sample(k, n))
    require(u.shape == (n, k), "unit sample has shape {}, expected {}", u.shape, (n, k))
    for i in range(k):
        stratified(u[:, i], lambda x: x, 0, "unit column %d" % i)
        require(u[:, i].min() >= 0 and u[:, i].max() <= 1, "unit sample outside [0,1]")
    m, s = np.array(c["mean"]), np.array(c["std"])
    x = np.asarray(cm.lhs_normal_sample(n, m, s))
    require(x.shape == (n, k), "normal sample has shape {}, expected {}", x.shape, (n, k))
    for i in range(k):
        stratified(x[:, i], cdf_for("normal", m[i], s[i]), 20 * np.spacing(abs(m[i]) + 5 * s[i]) / s[i], "normal column %d" % i)
    ctx.nontrivial(n > 1)


case_unknown = st.fixed_dictionaries({"distro": st.text("abcdefghijklmnopqrstuvwxyz_", min_size=1, max_size=12)
                                      .filter(lambda s: s not in ("normal", "lognormal", "uniform")),
                                      "n": st.integers(2, 10), "k": st.integers(1, 3)})


def check_unknown(c, ctx):
    k = c["k"]
    expect_raises(lambda: cm.sample_with_corr(np.ones(k), np.ones(k) * .1, np.eye(k), c["n"], distro=c["distro"]),
                  "distribution " + c["distro"])
    ctx.nontrivial()


SUBS = [
    Sub("marginals", case_corr(), check_corr, 2400, 200000, "at least two sampled variables, or sampled and unsampled ones mixed"),
    Sub("lhs", case_lhs(), check_lhs, 400, 20000, "more than one sample"),
    Sub("unknown", case_unknown, check_unknown, 80, 2000, "every case"),
]
