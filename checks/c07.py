import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ASAPy import XsecSampler as xs
from lib.core import Sub, Violation, require, expect_raises
from lib import gens as g
from lib import covstore
from checks.c01 import stratified, cdf_for

TYPES = ["normal", "lognormal", "uniform", "uncorrelated", "loguncorrelated"]


@st.composite
def case(draw):
    c = draw(covstore.entry(min_groups=1, max_groups=6, rel=st.one_of(g.log_float(-3, -1), g.log_float(-1, 0)), zero_mean=True))
    if draw(st.integers(0, 11)) == 11:
        # all data without uncertainty
        c["std"] = [0.0] * len(c["std"])
    return {"e": c, "type": draw(st.sampled_from(TYPES)), "n": draw(st.integers(2, 24)), "seed": draw(g.seeds),
            "upper": draw(st.booleans()), "set_zero": draw(st.booleans()), "mt": draw(st.sampled_from([2, 18, 102, 452, 1018]))}


def run(sampler, c, **kw):
    np.random.seed(c["seed"])
    t = c["type"].upper() if c["upper"] else c["type"]
    return sampler.sample(t, c["n"], **kw)


def shape_ok(df, G, what, m=None):
    require(isinstance(df, pd.DataFrame), "{}: not a DataFrame", what)
    require(list(df.index) == list(range(1, G + 1)), "{}: rows {} instead of groups 1..{}", what, list(df.index), G)
    require(list(df.columns) == list(range(df.shape[1])), "{}: sample numbers {}", what, list(df.columns))
    if m is not None:
        require(df.shape[1] == m, "{}: {} samples instead of {}", what, df.shape[1], m)
    require(np.isfinite(df.values).all(), "{}: values that are not finite: {}", what, df.values.tolist())


def check(c, ctx):
    e = c["e"]
    mean, std = np.array(e["mean"]), np.array(e["std"])
    G, n, mt = len(mean), c["n"], c["mt"]
    div = np.where(mean == 0, 1.0, mean)[:, None]
    with covstore.build(ctx.dir(), {(92235, mt): e}) as h:
        s = xs.XsecSampler(h, 92235, mt)
        full = run(s, c, return_relative=False, remove_neg=False)
        shape_ok(full, G, "full values", n)
        again = run(s, c, return_relative=False, remove_neg=False)
        F = full.values
        log = c["type"].startswith("log")
        distro = {"uncorrelated": "normal", "loguncorrelated": "lognormal"}.get(c["type"], c["type"])
        for i in range(G):
            if std[i] <= 1e-30 or (log and mean[i] == 0):
                require(np.all(F[i] == mean[i]), "group {} without uncertainty has samples {}", i + 1, F[i].tolist())
            else:
                slack = 20 * np.spacing(abs(mean[i]) + 5 * std[i]) / std[i]
                stratified(F[i], cdf_for(distro, mean[i], std[i]), slack, "%s samples of group %d (mean %r std %r)" % (c["type"], i + 1, mean[i], std[i]))
        ctx.label(c["type"])
        if not np.array_equal(again.values, F):
            ctx.label("draws are not reproducible from numpy's seed")
            return
        rel = run(s, c, remove_neg=False)
        shape_ok(rel, G, "relative values", n)
        require(np.allclose(rel.values, F / div, rtol=1e-12, atol=0), "relative {} instead of {}", rel.values.tolist(), (F / div).tolist())
        keep = [j for j in range(n) if not (F[:, j] < 0).any()]
        lost = n - len(keep)
        for name, kw, want in (("full", {"return_relative": False}, F), ("relative", {}, F / div)):
            pos = run(s, c, remove_neg=True, **kw)
            shape_ok(pos, G, name + " without negative samples", len(keep))
            require(np.allclose(pos.values, want[:, keep], rtol=1e-12, atol=0), "{} without negative samples: {} instead of {}", name, pos.values.tolist(), want[:, keep].tolist())
            dflt = run(s, c, **kw)
            require(dflt.shape == pos.shape and np.array_equal(dflt.values, pos.values), "negative samples are not removed by default")
            zero = run(s, c, remove_neg=False, set_neg_to_zero=True, **kw)
            shape_ok(zero, G, name + " with negatives set to zero", n)
            require(np.allclose(zero.values, np.where(want < 0, 0.0, want), rtol=1e-12, atol=0), "{} with negatives set to zero: {} from {}", name, zero.values.tolist(), want.tolist())
            if lost:
                expect_raises(lambda: run(s, c, remove_neg=True, raise_on_bad_sample=True, **kw), "%d of %d samples were lost" % (lost, n))
            else:
                require(run(s, c, remove_neg=True, raise_on_bad_sample=True, **kw).shape[1] == n, "samples lost")
            require(run(s, c, remove_neg=False, raise_on_bad_sample=True, **kw).shape[1] == n, "samples lost although none are removed")
        # the function used by the command line
        for rn, cols in ((False, list(range(n))), (True, keep)):
            np.random.seed(c["seed"])
            r, f = xs.sample_xsec(h, mt, 92235, n, sample_type=c["type"], remove_neg=rn)
            shape_ok(f, G, "sample_xsec full", len(cols))
            shape_ok(r, G, "sample_xsec relative", len(cols))
            if np.array_equal(f.values, F[:, cols]):
                ctx.label("sample_xsec draws the same")
            fv = f.values
            require(np.allclose(r.values, fv / div, rtol=1e-12, atol=0), "sample_xsec: relative {} of full {} and means {}", r.values.tolist(), fv.tolist(), mean.tolist())
            if rn:
                require(not (fv < 0).any(), "sample_xsec left negative samples")
        if lost:
            np.random.seed(c["seed"])
            expect_raises(lambda: xs.sample_xsec(h, mt, 92235, n, sample_type=c["type"], remove_neg=True, raise_on_bad_sample=True), "sample_xsec lost samples")
    if c["type"].endswith("uncorrelated"):
        ident = dict(e, corr=np.eye(G).tolist())
        with covstore.build(ctx.dir(), {(92235, mt): ident}) as h:
            s2 = xs.XsecSampler(h, 92235, mt)
            a = run(s2, c, return_relative=False, remove_neg=False)
            near = 1e-9 * (np.abs(F) + std[:, None])
            require(a.shape == F.shape and bool(np.all(np.abs(a.values - F) <= near)), "uncorrelated samples depend on the stored correlations")
            c2 = dict(c, type=distro)
            b = run(s2, c2, return_relative=False, remove_neg=False)
            require(b.shape == F.shape and bool(np.all(np.abs(b.values - F) <= near)), "uncorrelated samples differ from {} samples of uncorrelated data", distro)
    ctx.label("negative samples" if lost else "no negative samples")
    if (mean == 0).any():
        ctx.label("zero mean")
    ctx.nontrivial(bool(lost) and len(keep) > 0)


case_unknown = st.fixed_dictionaries({"type": st.text("abcdeglnoprtu-", min_size=0, max_size=10).filter(lambda s: s not in TYPES), "e": covstore.entry(min_groups=1, max_groups=2)})


def check_unknown(c, ctx):
    with covstore.build(ctx.dir(), {(92235, 2): c["e"]}) as h:
        s = xs.XsecSampler(h, 92235, 2)
        expect_raises(lambda: s.sample(c["type"], 3), "sampling type %r" % c["type"])
    ctx.nontrivial()


@st.composite
def case_over(draw):
    n = draw(st.integers(2, 30))
    e = draw(covstore.entry(min_groups=1, max_groups=3, rel=st.just(0.1)))
    return {"e": e, "n": n, "make": n + draw(st.integers(0, 40)), "rel": draw(st.sampled_from([0.01, 0.4, 0.8, 1.5, 3.0])), "group": draw(st.integers(0, 2)), "type": draw(st.sampled_from(["normal", "uniform", "lognormal", "uncorrelated", "loguncorrelated"])),
            "seed": draw(g.seeds), "str": draw(st.booleans())}


def check_over(c, ctx):
    """one group with uncertainty: its negative samples are those of the strata below zero, so their number is known"""
    e = dict(c["e"])
    G, n, M = len(e["mean"]), c["n"], c["make"]
    k = c["group"] % G
    e["std"] = [e["mean"][i] * c["rel"] if i == k else 0.0 for i in range(G)]
    e["corr"] = np.eye(G).tolist()
    p = 0.0 if c["type"].startswith("log") else float(cdf_for({"uncorrelated": "normal"}.get(c["type"], c["type"]), e["mean"][k], e["std"][k])(0.0))
    with covstore.build(ctx.dir(), {(92235, 2): e}) as h:
        np.random.seed(c["seed"])
        r, f = xs.sample_xsec(h, 2, 92235, n, sample_type=c["type"], remove_neg=True, num_samples_to_make=M)
        lo, hi = min(n, M - int(np.ceil(M * p + 1e-9))), min(n, M - int(np.floor(M * p - 1e-9)))
        shape_ok(f, G, "full values")
        shape_ok(r, G, "relative values", f.shape[1])
        require(lo <= f.shape[1] <= hi, "{} samples left of {} made and {} asked for, of which a fraction {:.3f} is negative", f.shape[1], M, n, p)
        require(not (f.values < 0).any() and np.allclose(r.values * np.array(e["mean"])[:, None], f.values, rtol=1e-12, atol=0), "samples {} {}", f.values.tolist(), r.values.tolist())
        _, f = xs.sample_xsec(h, 2, 92235, n, sample_type=c["type"], remove_neg=False, num_samples_to_make=M)
        shape_ok(f, G, "all values", n)
    ctx.label("made up by oversampling" if hi == n and p * n > 1 else "negative samples lost" if hi < n else "no negative samples")
    ctx.nontrivial(M > n and p * n > 1)


SUBS = [Sub("oversampled", case_over(), check_over, 160, 6000, "more samples made than asked for, and some negative"), Sub("options", case(), check, 400, 16000, "some samples are lost to negative values and some are kept"),
        Sub("unknown", case_unknown, check_unknown, 48, 400, "always")]
