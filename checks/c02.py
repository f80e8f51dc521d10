import numpy as np
from hypothesis import strategies as st
from ASAPy import CovManipulation as cm
from lib.core import Sub, require
from lib import gens as g

ASSUMPTIONS = ["statistical: with n samples the method's own error is below 5/n (measured), the check allows 20/n + 0.01"]


def lognormal_corr(mean, std, corr):
    """Zerovnik et al.: correlation of exp(X) for X jointly normal with correlation corr"""
    v = np.log1p((std / mean) ** 2)
    num = np.expm1(corr * np.sqrt(np.outer(v, v)))
    return num / np.sqrt(np.outer(np.expm1(v), np.expm1(v)))


def repaired(A):
    P, L, e = cm.gmw_cholesky(A.copy())
    M = P @ L
    A = M @ M.T
    d = np.sqrt(np.diag(A))
    return A / np.outer(d, d)


@st.composite
def case(draw):
    distro = draw(st.sampled_from(["normal", "normal", "lognormal", "uniform"]))
    k = draw(st.integers(2, 6))
    indefinite = draw(st.integers(0, 2)) == 0
    corr = draw(g.sym_corr(k) if indefinite else g.pd_corr(k))
    mean = draw(st.lists(g.log_float(-3, 4), min_size=k, max_size=k))
    rel = draw(st.lists(g.log_float(-3, -1) if distro == "normal" else st.sampled_from([0.05, 0.2, 0.5, 0.9, 1.5]), min_size=k, max_size=k))
    fixed = draw(st.lists(st.sampled_from(["", "", "", "", "std", "corr", "mean"]), min_size=k, max_size=k))
    return {"distro": distro, "n": draw(st.integers(300, 500)), "corr": corr, "mean": mean, "rel": rel, "fixed": fixed, "seed": draw(g.seeds), "style": draw(st.sampled_from(["lower", "lower", "upper", "title"]))}


def check(c, ctx):
    mean = np.array(c["mean"])
    std = mean * np.array(c["rel"])
    corr = np.array(c["corr"])
    n, k, distro = c["n"], len(mean), c["distro"]
    free = np.ones(k, bool)
    for i, f in enumerate(c["fixed"]):
        if f == "std":
            std[i] = 0
            free[i] = False
        elif f == "corr":
            corr[i, :] = corr[:, i] = 0
            free[i] = False
        elif f == "mean" and distro == "lognormal":
            mean[i] = 0
            free[i] = False
    idx = np.nonzero(free)[0]
    if len(idx) < 2:
        ctx.label("fewer than two sampled variables")
        return
    want = corr[np.ix_(idx, idx)]
    if distro == "lognormal":
        want = lognormal_corr(mean[idx], std[idx], want)
    lam = np.linalg.eigvalsh(want).min()
    if -1e-6 < lam < 1e-6:
        ctx.label("borderline definite")
        return
    alternatives = []
    if lam < 0:
        # the repaired matrix: diagonal shift by the modified Cholesky decomposition (its identities are property C04)
        want_r = repaired(want)
        # independent of the repair: it only shrinks off-diagonal entries, by a factor per pair of variables
        off = ~np.eye(len(idx), dtype=bool)
        require(np.all(np.abs(want_r[off]) <= np.abs(want[off]) + 1e-9) and np.all(want_r[off] * want[off] >= -1e-12),
                "the repair of {} changes more than the diagonal: {}", want.tolist(), want_r.tolist())
        if distro == "lognormal":
            # the transformed diagonal is 1 up to rounding, so which of the equal pivots comes first is open
            alternatives, want = want, want_r
        else:
            want = want_r
    np.random.seed(c["seed"])
    out = np.asarray(cm.sample_with_corr(mean, std, corr, n, distro=getattr(distro, c["style"])()))
    require(out.shape == (n, k), "shape {}", out.shape)
    got = g.normal_scores_corr(out[:, idx])
    tol = 20.0 / n + 0.01
    err = np.abs(got - want).max()
    if err > tol and len(alternatives):
        rng = np.random.RandomState(0)
        for _ in range(400):
            noise = rng.uniform(-1, 1, want.shape) * 1e-13
            err = min(err, np.abs(got - repaired(alternatives + noise + noise.T)).max())
    require(err <= tol, "{} samples: correlation of sampled variables {}\n is {}\n instead of {}\n (largest error {:.3f}, allowed {:.3f})",
            distro, idx.tolist(), np.round(got, 3).tolist(), np.round(want, 3).tolist(), err, tol)
    ctx.label(distro, "indefinite" if lam < 0 else "definite", "all sampled" if free.all() else "some unsampled")
    ctx.nontrivial(np.abs(want - np.eye(len(idx))).max() > 0.2)


@st.composite
def case_mvn(draw):
    k = draw(st.integers(2, 5))
    return {"corr": draw(g.pd_corr(k)), "mean": draw(st.lists(g.nice_float(-100, 100), min_size=k, max_size=k)),
            "std": draw(st.lists(g.log_float(-1, 0), min_size=k, max_size=k)), "seed": draw(g.seeds), "n": 4000,
            "singular": draw(st.booleans()), "copy": draw(st.booleans())}


def check_mvn(c, ctx):
    corr, std, mean = np.array(c["corr"]), np.array(c["std"]), np.array(c["mean"])
    if c["singular"] and c["copy"]:
        # the last variable is a copy of the first
        corr[-1, :] = corr[0, :]
        corr[:, -1] = corr[:, 0]
        corr[-1, -1] = 1.0
    n = c["n"]
    cov = corr * np.outer(std, std)
    np.random.seed(c["seed"])
    x = np.asarray(cm.normal_sample_corr(mean, cov, n, allow_singular=c["singular"]))
    require(x.shape == (n, len(mean)), "shape {}", x.shape)
    z = (x.mean(axis=0) - mean) / (std / np.sqrt(n))
    require(np.abs(z).max() < 7, "means {} for {}", x.mean(axis=0).tolist(), mean.tolist())
    got = np.cov(x.T)
    se = np.sqrt((1 + corr ** 2) / n) * np.outer(std, std)
    require((np.abs(got - cov) / se).max() < 7, "covariance {} for {}", got.tolist(), cov.tolist())
    ctx.nontrivial(np.abs(corr - np.eye(len(mean))).max() > 0.2)


SUBS = [
    Sub("correlation", case(), check, 1200, 80000, "two or more sampled variables with a target correlation above 0.2"),
    Sub("multinormal", case_mvn(), check_mvn, 200, 8000, "a target correlation above 0.2"),
]
