import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ASAPy import CovManipulation as cm, AsapyCovStorage as acs, XsecSampler as xs
from lib.core import Sub, require
from lib import gens as g
from lib import covstore


@st.composite
def case(draw):
    n = draw(st.integers(1, 9))
    return {"corr": draw(g.any_corr(n)), "std": draw(st.one_of(st.lists(g.log_float(-10, 10), min_size=n, max_size=n), st.lists(g.log_float(-10, 10), min_size=n, max_size=n), st.lists(st.integers(1, 50), min_size=n, max_size=n)))}


def check(c, ctx):
    corr, std = np.array(c["corr"]), np.array(c["std"])
    n = len(std)
    k1, k2 = corr.copy(), std.copy()
    cov = np.asarray(cm.correlation_to_cov(std, corr))
    require(np.array_equal(corr, k1) and np.array_equal(std, k2), "inputs were modified")
    ref = np.array([[std[i] ** 2 if i == j else corr[i, j] * std[i] * std[j] for j in range(n)] for i in range(n)])
    require(cov.shape == (n, n), "shape {}", cov.shape)
    require(np.allclose(cov, ref, rtol=1e-12, atol=0), "covariance {} instead of {}", cov.tolist(), ref.tolist())
    require(np.allclose(cov, cov.T, rtol=1e-13, atol=1e-300), "covariance is not symmetric")
    k3 = cov.copy()
    back = np.asarray(cm.cov_to_correlation(cov))
    require(np.array_equal(cov, k3), "covariance was modified")
    require(np.allclose(back, corr, rtol=1e-12, atol=1e-15), "correlation {} after the round trip of {}", back.tolist(), corr.tolist())
    require(np.allclose(np.diag(back), 1.0, rtol=0, atol=1e-13), "diagonal {}", np.diag(back).tolist())
    ctx.nontrivial(n > 1 and np.abs(corr - np.eye(n)).max() > 0)


@st.composite
def case_cov(draw):
    n = draw(st.integers(1, 8))
    up = draw(st.lists(g.nice_float(-1e3, 1e3), min_size=n * (n + 1) // 2, max_size=n * (n + 1) // 2))
    dg = draw(st.lists(g.log_float(-8, 8), min_size=n, max_size=n))
    return {"n": n, "up": up, "diag": dg}


def check_cov(c, ctx):
    n = c["n"]
    A = np.zeros((n, n))
    A[np.triu_indices(n)] = c["up"]
    A = A + A.T
    np.fill_diagonal(A, c["diag"])
    keep = A.copy()
    corr = np.asarray(cm.cov_to_correlation(A))
    require(np.array_equal(A, keep), "covariance was modified")
    ref = np.array([[1.0 if i == j else A[i, j] / np.sqrt(A[i, i]) / np.sqrt(A[j, j]) for j in range(n)] for i in range(n)])
    require(np.allclose(corr, ref, rtol=1e-12, atol=1e-300), "correlation {} instead of {}", corr.tolist(), ref.tolist())
    require(np.allclose(corr, corr.T, rtol=1e-13, atol=1e-300), "correlation is not symmetric")
    cov = np.asarray(cm.correlation_to_cov(np.sqrt(np.diag(A)), corr))
    require(np.allclose(cov, A, rtol=1e-11, atol=1e-300), "covariance {} after the round trip of {}", cov.tolist(), A.tolist())
    ctx.nontrivial(n > 1)


def check_store(c, ctx):
    d = ctx.dir()
    with covstore.build(d, {(92235, 102): c}) as h:
        x = xs.XsecSampler(h, 92235, 102, remove_negative_eig=False)
        got = x.calc_cov()
        G = len(c["mean"])
        std = np.array(c["std"])
        corr = np.array(c["corr"])
        ref = corr * np.outer(std, std)
        np.fill_diagonal(ref, std ** 2)
        require(list(got.index) == list(range(1, G + 1)) and list(got.columns) == list(range(1, G + 1)), "labels {} {}", list(got.index), list(got.columns))
        require(np.allclose(got.values, ref, rtol=1e-12, atol=0), "sampler covariance {} instead of {}", got.values.tolist(), ref.tolist())
        require(np.allclose(x.corr_df.values, corr, rtol=1e-14, atol=0), "calc_cov changed the stored correlations")
    ctx.nontrivial(np.abs(corr - np.eye(G)).max() > 0)


SUBS = [
    Sub("corr-to-cov", case(), check, 1600, 200000, "two or more variables, some correlation"),
    Sub("cov-to-corr", case_cov(), check_cov, 1200, 200000, "two or more variables"),
    Sub("sampler-cov", covstore.entry(), check_store, 160, 6000, "some correlation"),
]
