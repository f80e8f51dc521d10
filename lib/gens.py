"""Strategies for plain JSON cases and the numpy views of them."""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)


def quarter(lo, hi):
    return st.integers(int(lo * 4), int(hi * 4)).map(lambda i: i / 4)


def nice_float(lo, hi, digits=4):
    """floats in [lo, hi] that print shortly (so that cases stay readable)"""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda x: float(min(hi, max(lo, float(f"%.{digits}g" % x)))))


def log_float(lo_exp, hi_exp, digits=4):
    """positive floats spread over decades"""
    return st.tuples(st.integers(1000, 9999), st.integers(lo_exp, hi_exp)).map(lambda t: float("%de%d" % (t[0], t[1] - 3)))


@st.composite
def pd_corr(draw, n):
    """well conditioned positive definite correlation matrix (nested lists)"""
    r = draw(st.integers(1, 3))
    B = np.array(draw(st.lists(st.lists(quarter(-3, 3), min_size=r, max_size=r), min_size=n, max_size=n)))
    w = draw(st.sampled_from([0.05, 0.25, 1.0, 3.0]))
    A = B @ B.T + w * np.eye(n)
    d = np.sqrt(np.diag(A))
    C = A / np.outer(d, d)
    C = np.round((C + C.T) / 2, 6)
    np.fill_diagonal(C, 1.0)
    return C.tolist()


@st.composite
def sym_corr(draw, n, lo=-20, hi=20, scale=20.0):
    """any symmetric unit-diagonal matrix with entries in [-1, 1]; often indefinite"""
    C = np.eye(n)
    for i in range(n):
        for j in range(i):
            C[i, j] = C[j, i] = draw(st.integers(lo, hi)) / scale
    return C.tolist()


def any_corr(n):
    return st.one_of(pd_corr(n), sym_corr(n))


def normal_scores_corr(x):
    import scipy.stats as ss
    x = np.asarray(x, float)
    n = len(x)
    r = np.empty_like(x)
    for j in range(x.shape[1]):
        r[:, j] = ss.rankdata(x[:, j], method="ordinal")
    z = ss.norm.ppf(r / (n + 1))
    return np.atleast_2d(np.corrcoef(z.T))
