import os, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy.data.endf import Evaluation
from ASAPy.data.neutron import IncidentNeutron
from ASAPy.data.resonance import Resonances
from ASAPy.data.resonance_covariance import ResonanceCovariances
from lib.core import Sub, require
from lib import endfgen as eg, resgen
from checks.c27 import eq
from checks.c28 import material

warnings.simplefilter("ignore")
ASSUMPTIONS = ["File 32 lists the resonances of File 2 (in any order) with distinct energies, the same number of parameters for each, and uncertainties that are not zero in the compact form",
               "no long-range covariances; covariances of the unresolved range and of the scattering radius are passed over",
               "statistical: n samples, entries of the whitened covariance within 8/sqrt(n), means within 7/sqrt(n)"]


@st.composite
def rrange(draw, last, small):
    s = st.sampled_from
    if last and draw(st.integers(0, 5)) == 3:
        return {"type": "urr", "nro": 0, "naps": 0, "lrf": 1, "njs": draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)), "ne": 2}
    t = draw(s(["bw", "rm"]))
    r = {"type": t, "nro": draw(s([0, 0, 0, 1])), "naps": draw(s([0, 1])), "distinct": True, "lrf": 3 if t == "rm" else draw(s([1, 2])), "ls": draw(st.lists(s([1, 2, 3] if small else [1, 2, 3, 6]), min_size=1, max_size=2 if small else 3)),
         "l0": draw(s([0, 0, 1])), "lx": draw(st.booleans()), "fission": draw(st.booleans()), "apl": draw(st.booleans()), "bound": False}
    r["lcomp"] = draw(s([1, 2] if t == "rm" else [0, 1, 2]))
    r["mpar"] = draw(s([3, 4, 5])) if t == "rm" or r["lcomp"] == 1 else draw(s([3, 4]))
    r["shuffle"] = draw(st.booleans())
    r["blocks"] = draw(st.lists(st.integers(1, 3), min_size=1, max_size=2 if sum(r["ls"]) > 1 else 1))
    r["digits"] = draw(st.integers(2, 6))
    r["isr"] = draw(s([0, 0, 1]))
    return r


@st.composite
def case(draw, small=False):
    s = st.sampled_from
    niso = draw(s([1, 1, 1, 2, 3]))
    isos = []
    for k in range(niso):
        n = draw(s([1, 1, 2]))
        isos.append({"lfw": draw(s([0, 1])), "ranges": [draw(rrange(j == n - 1 and niso * n > 1, small)) for j in range(n)]})
    return {"seed": draw(st.integers(0, 10 ** 6)), "awr": 233.0248, "isotopes": isos, "whole": draw(st.booleans()),
            "cut": [draw(st.floats(0, 1)), draw(st.floats(0, 1))], "by": draw(s(["energy", "captureWidth", "neutronWidth", "J", "L"])), "twice": draw(st.booleans())}


def load(c, ctx):
    m = material(c)
    lines, facts = resgen.mf2(m, c["isotopes"], [c["seed"], 61])
    eg.set_body(m, 2, 151, lines)
    lines, covs = resgen.mf32(m, c["isotopes"], facts, [c["seed"], 62])
    eg.set_body(m, 32, 151, lines)
    path = os.path.join(ctx.dir(), "tape")
    open(path, "w").write(eg.tape([m])[0])
    if c["whole"]:
        data = IncidentNeutron.from_endf(path, covariance=True)
        got = data.resonance_covariance
    else:
        ev = Evaluation(path)
        got = ResonanceCovariances.from_endf(ev, Resonances.from_endf(ev))
    ranges = list(got.ranges)
    require(len(ranges) == len(covs), "{} ranges with covariances instead of {}", len(ranges), len(covs))
    return ranges, covs


def cov_of(g):
    """the full matrix that the upper triangle stands for"""
    c = np.array(g.covariance, float)
    low = np.tril(c, -1)
    u = np.triu(c)
    require(not low.any() or np.allclose(low, np.triu(c, 1).T, rtol=1e-12, atol=0), "the covariance is neither upper triangular nor symmetric")
    return u + u.T - np.diag(np.diag(u))


def table(df, rows, kind, what):
    cols = resgen.COLS[kind]
    require(sorted(df.columns) == sorted(cols), "{}: columns {}", what, list(df.columns))
    a = df[cols].values.astype(float)
    b = np.array(rows, float).reshape(len(rows), len(cols))
    require(a.shape == b.shape, "{}: {} resonances instead of {}", what, len(a), len(b))
    tol = 1e-12 * np.abs(b)
    if kind == "bw":
        tol[:, -1] = 1e-12 * b[:, 3]
    require(bool(np.all(np.abs(a - b) <= tol)), "{}: {} instead of {}", what, a.tolist(), b.tolist())


def matrix(g, want, what):
    got = cov_of(g)
    require(got.shape == want.shape, "{}: covariance of shape {} instead of {}", what, got.shape, want.shape)
    bad = np.argwhere(np.abs(got - want) > 1e-12 * np.abs(want))
    require(not len(bad), "{}: covariance {} is {!r} instead of {!r}", what, *((bad[0].tolist(), got[tuple(bad[0])], want[tuple(bad[0])]) if len(bad) else (0, 0, 0)))


def snapshot(g):
    return g.parameters.copy(), np.array(g.covariance), g.file2res.parameters.copy()


def same(a, b, what):
    require(a[0].equals(b[0]) and np.array_equal(a[1], b[1]) and a[2].equals(b[2]), "{} changed the range it was taken from", what)


def read(c, ctx):
    ranges, covs = load(c, ctx)
    for k, (g, d) in enumerate(zip(ranges, covs)):
        what = "range %d (%s, LCOMP %d)" % (k, d["kind"], d["lcomp"])
        require((g.energy_min, g.energy_max) == (d["lo"], d["hi"]), "{}: {}-{} eV", what, g.energy_min, g.energy_max)
        require(g.mpar == d["mpar"] and g.lcomp == d["lcomp"], "{}: {} parameters per resonance, LCOMP {}", what, g.mpar, g.lcomp)
        table(g.parameters, d["rows"], d["kind"], what + " parameters")
        matrix(g, d["cov"], what)
        # subset
        before = snapshot(g)
        col = resgen.COLS[d["kind"]].index(c["by"])
        rows, keep, h = d["rows"], np.arange(len(d["rows"])), g
        for n in range(2 if c["twice"] else 1):
            vals = sorted(rows[i][col] for i in keep)
            if not vals:
                break
            a, b = sorted(c["cut"])
            if n:
                a = 0.0
            lo, hi = vals[int(round(a * (len(vals) - 1)))], vals[int(round(b * (len(vals) - 1)))]
            mid = snapshot(h)
            new = h.subset(c["by"], [lo, hi])
            same(mid, snapshot(h), what + ": subset")
            h = new
            keep = np.array([i for i in keep if lo <= rows[i][col] <= hi], int)
            idx = np.array([[i * d["mpar"] + j for j in range(d["mpar"])] for i in keep], int).ravel()
            w2 = "%s, %d of %d resonances by %s" % (what, len(keep), len(rows), c["by"])
            # the order of the resonances in a subset is its own: parameters and covariance must agree
            e = list(h.parameters["energy"])
            require(sorted(e) == sorted(rows[i][0] for i in keep), "{}: energies {} instead of {}", w2, e, [rows[i][0] for i in keep])
            order = [[rows[i][0] for i in keep].index(x) for x in e]
            table(h.parameters, [rows[keep[i]] for i in order], d["kind"], w2 + " parameters")
            pick = np.array([[i * d["mpar"] + j for j in range(d["mpar"])] for i in keep[order]], int).ravel()
            matrix(h, d["cov"][np.ix_(pick, pick)], w2)
            f2 = h.file2res.parameters
            require(sorted(f2["energy"]) == sorted(e), "{}: File 2 resonances at {} instead of {}", w2, sorted(f2["energy"]), sorted(e))
            rows_e = {rows[i][0]: rows[i] for i in keep}
            table(f2, [rows_e[x] for x in f2["energy"]], d["kind"], w2 + " File 2 parameters")
            ctx.nontrivial(0 < len(keep) < len(rows))
        same(before, snapshot(g), what + ": subset")
        ctx.label("%s LCOMP %d" % (d["kind"], d["lcomp"]), "%d parameters" % d["mpar"])


def sample(c, ctx):
    ranges, covs = load(c, ctx)
    if not ranges:
        return
    k = c["seed"] % len(ranges)
    g, d = ranges[k], covs[k]
    rows, idx = d["rows"], list(range(len(d["rows"])))
    if c["twice"]:
        col = resgen.COLS[d["kind"]].index(c["by"])
        v = sorted(q[col] for q in rows)[len(rows) // 2]
        g = g.subset(c["by"], [v, np.inf])
        e = list(g.parameters["energy"])
        idx = [[q[0] for q in rows].index(x) for x in e]
        rows = [rows[i] for i in idx]
    mpar = d["mpar"]
    pick = np.array([[i * mpar + j for j in range(mpar)] for i in idx], int).ravel()
    cov = d["cov"][np.ix_(pick, pick)]
    what = "range %d (%s, LCOMP %d, %d parameters)" % (k, d["kind"], d["lcomp"], mpar)
    before = snapshot(g)
    n = c["n"]
    np.random.seed(c["seed"] % 2 ** 31)
    got = g.sample(n)
    same(before, snapshot(g), what + ": sampling")
    require(len(got) == n, "{}: {} samples instead of {}", what, len(got), n)
    cols, pars = resgen.COLS[d["kind"]], resgen.PARS[d["kind"]]
    x = []
    fixed = ["L", "J"] + pars[mpar:]
    base = np.array(rows, float)
    for s in got:
        require(type(s) is type(g.file2res) and (s.energy_min, s.energy_max, s.target_spin) == (g.file2res.energy_min, g.file2res.energy_max, g.file2res.target_spin), "{}: a sample is another kind of range: {}", what, s)
        p = s.parameters
        require(sorted(p.columns) == sorted(cols) and len(p) == len(rows), "{}: a sample has columns {} and {} resonances", what, list(p.columns), len(p))
        a = p[cols].values.astype(float)
        for name in fixed:
            q = cols.index(name)
            require(bool(np.all(np.abs(a[:, q] - base[:, q]) <= 1e-12 * np.abs(base[:, 3]))), "{}: {} {} of a sample instead of {}", what, name, a[:, q], base[:, q])
        if d["kind"] == "bw":
            tot = a[:, 4:8].sum(axis=1)
            require(bool(np.allclose(a[:, 3], tot, rtol=1e-10, atol=1e-12 * np.abs(a[:, 4:8]).max())), "{}: total width {} of a sample instead of {}", what, a[:, 3], tot)
        x.append(a[:, [cols.index(q) for q in pars[:mpar]]].ravel())
    x = np.array(x) - base[:, [cols.index(q) for q in pars[:mpar]]].ravel()
    sd = np.sqrt(np.diag(cov))
    dead = sd == 0
    require(bool(np.all(np.abs(x[:, dead]) <= 1e-6 * sd.max())), "{}: a parameter without uncertainty varies", what)
    live = ~dead
    z = x[:, live] / sd[live]
    corr = cov[np.ix_(live, live)] / np.outer(sd[live], sd[live])
    w = np.linalg.solve(np.linalg.cholesky(corr), z.T)
    m = np.abs(w.mean(axis=1)).max() * np.sqrt(n)
    require(m <= 7, "{}: the mean of the samples is {:.1f} standard errors from the evaluated parameters", what, m)
    dev = np.abs(w @ w.T / n - np.eye(len(w))).max() * np.sqrt(n)
    require(dev <= 10, "{}: the covariance of {} samples differs from the evaluated one (whitened: {:.1f}/sqrt(n)); correlations {} instead of {}", what, n, dev, np.round(np.corrcoef(z.T), 2).tolist(), np.round(corr, 2).tolist())
    ctx.label("%s LCOMP %d" % (d["kind"], d["lcomp"]), "%d parameters" % mpar, "subset" if c["twice"] else "all")
    ctx.nontrivial(bool(np.abs(corr - np.eye(len(corr))).max() > 0.2))


def with_n(draw_case):
    return st.builds(lambda c, n: dict(c, n=n), draw_case, st.sampled_from([400, 600]))


SUBS = [Sub("read", case(), read, 1600, 60000, "a subset with some but not all resonances"),
        Sub("sample", with_n(case(True)), sample, 240, 8000, "some correlation above 0.2")]
