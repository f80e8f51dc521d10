import numpy as np
from hypothesis import strategies as st
from ASAPy import CovManipulation as cm
from lib.core import Sub, require
from lib import gens as g


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["corr", "pd", "any", "psd", "dup"]))
    n = draw(st.integers(1, 8))
    if kind == "corr":
        A = np.array(draw(g.sym_corr(n)))
    elif kind == "pd":
        A = np.array(draw(g.pd_corr(n))) * draw(g.log_float(-3, 3))
    elif kind == "psd":
        r = draw(st.integers(0, n))
        B = np.array(draw(st.lists(st.lists(st.integers(-3, 3), min_size=r, max_size=r), min_size=n, max_size=n)), float).reshape(n, r)
        A = B @ B.T
    else:
        vals = st.integers(-3, 3).map(float) if kind == "dup" else g.nice_float(-100, 100)
        A = np.zeros((n, n))
        A[np.triu_indices(n)] = draw(st.lists(vals, min_size=n * (n + 1) // 2, max_size=n * (n + 1) // 2))
        A = A + np.triu(A, 1).T
    scale = draw(st.sampled_from([1.0, 1.0, 1e-6, 1e6, 1e-12, 1e12]))
    return {"kind": kind, "A": (A * scale).tolist()}


def check(c, ctx):
    A = np.array(c["A"], float)
    n = len(A)
    keep = A.copy()
    P, L, e = (np.asarray(x) for x in cm.gmw_cholesky(A))
    require(np.array_equal(A, keep), "the matrix was modified")
    require(P.shape == (n, n) and L.shape == (n, n) and e.shape == (n,), "shapes {} {} {}", P.shape, L.shape, e.shape)
    require(np.all((P == 0) | (P == 1)) and np.all(P.sum(0) == 1) and np.all(P.sum(1) == 1), "P is not a permutation: {}", P.tolist())
    require(np.all(np.triu(L, 1) == 0), "L is not lower triangular: {}", L.tolist())
    require(np.all(np.diag(L) > 0), "diagonal of L {}", np.diag(L).tolist())
    scale = max(np.abs(A).max(), np.abs(e).max(), 1e-300)
    tol = 1e-11 * n * scale
    require(np.all(e >= -tol), "negative shift {}", e.tolist())
    M = P @ L
    ref = A + np.diag(P @ e)
    err = np.abs(M @ M.T - ref).max()
    require(err <= tol, "(PL)(PL)^T = {}\n instead of A + shift = {}", (M @ M.T).tolist(), ref.tolist())
    # the cited algorithm (Nocedal and Wright, 6.5): the pivot is the largest remaining diagonal entry, and is raised just as far as the bound on L requires
    gamma = np.abs(np.diag(A)).max()
    xi = np.abs(A - np.diag(np.diag(A))).max()
    eps = np.finfo(float).eps
    beta = np.sqrt(max(gamma, xi / np.sqrt(max(n ** 2 - 1.0, 1.0)), eps))
    delta = eps * max(gamma + xi, 1.0)
    require(n == 1 or np.abs(np.tril(L, -1)).max() <= beta * (1 + 1e-9), "entries of L up to {}, above the bound {}", np.abs(np.tril(L, -1)).max() if n > 1 else 0, beta)
    S = P.T @ A @ P
    for j in range(n):
        rest = S[j:, j:] - L[j:, :j] @ L[j:, :j].T
        small = 1e-9 * max(np.abs(A).max(), beta ** 2)
        d, diag = L[j, j] ** 2, np.abs(np.diag(rest))
        theta = np.abs(rest[1:, 0]).max() if j < n - 1 else 0.0
        require(diag[0] >= diag.max() - small, "step {}: pivot {} while {} remain", j, diag[0], diag.tolist())
        want = max(diag[0], (theta / beta) ** 2, delta)
        require(abs(d - want) <= small + 1e-9 * want, "step {}: the pivot {} becomes {} instead of {}", j, diag[0], d, want)
    lam = np.linalg.eigvalsh(A)
    mx = max(np.abs(A).max(), 1e-300)
    if lam.min() > 1e-4 * mx and lam.min() > 1e-12:
        require(np.all(np.abs(e) <= 1e-9 * mx), "positive definite matrix was shifted by {}", e.tolist())
        ctx.label("definite")
    elif lam.min() < -1e-6 * mx:
        ctx.label("indefinite")
        require(e.max() > 0, "no shift for an indefinite matrix")
    else:
        ctx.label("singular")
    ctx.label("pivoted" if not np.array_equal(P, np.eye(n)) else "not pivoted", c["kind"])
    ctx.nontrivial(n > 1 and np.abs(A - np.diag(np.diag(A))).max() > 0)


SUBS = [Sub("identities", case(), check, 4000, 400000, "a non-diagonal matrix of order two or more")]
