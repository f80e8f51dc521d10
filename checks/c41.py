import os, re, subprocess, sys, warnings
os.environ.setdefault("MPLBACKEND", "Agg")
import matplotlib
matplotlib.use("Agg")
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from matplotlib.figure import Figure
from matplotlib.backend_bases import FigureCanvasBase
from matplotlib import pyplot as plt
from ASAPy import XsecSampler as xs
from lib.core import Sub, require
from lib import acegen, covstore, gens as g
from checks.c15 import State
from checks.c18 import table, choices, edges_of, groups, cli_case, command, verify_run

warnings.simplefilter("ignore")
ASSUMPTIONS = ["the drawn lines and meshes are inspected when a figure is saved; rendering itself is left to matplotlib",
               "an energy on the bound between two groups may be shown with the factor of either"]


KINDS = ("sampled_cov", "few_sampled_xsec", "sampled_corr_compare", "base_xsec_with_std")


@st.composite
def case(draw):
    return {"spec": draw(table(7)), "style": draw(st.sampled_from(["old", "new"])), "seed": draw(st.integers(0, 10 ** 6)), "focus": draw(st.sampled_from([None, None, 452, 1018, 18])), "pick": draw(st.integers(0, 30)),
            "groups": draw(st.integers(1, 6)), "n": draw(st.integers(1, 14)), "swapped": draw(st.integers(0, 4)) == 3, "second": draw(st.sampled_from([None, None, None, "nuclide", "reaction", "both"])), "rel": draw(st.sampled_from(["small", "small", "wide", "zero"])), "nodata": draw(st.integers(0, 4)) == 2, "reldiff": draw(st.booleans()), "maxrange": draw(st.booleans()),
            "zero_low": draw(st.integers(0, 4)) == 3, "low_usual": draw(st.integers(0, 3)) == 2, "logx": draw(st.booleans()), "logy": draw(st.booleans()), "logstd": draw(st.booleans()), "sub": draw(st.booleans()), "pad": draw(st.booleans())}


def setup(c, d):
    t = acegen.build(c["spec"])
    open(os.path.join(d, "base.ace"), "w").write(acegen.ascii_text(t, c["style"]))
    s = State(t)
    avail = choices(s, t)
    mt = c["focus"] if c["focus"] in avail else avail[c["pick"] % len(avail)]
    G = c["groups"]
    rs = np.random.RandomState([c["seed"], 41])
    b = groups(c["seed"], G, t, edges_of(s, mt))
    if c["zero_low"]:
        b[-1] = 0.0
    elif c["low_usual"] and b[-2] > 2e-5:
        b[-1] = 1e-5
    rel = 10.0 ** rs.uniform(-4, -0.5, G) if c["rel"] == "wide" else rs.uniform(0.01, 0.2, G)
    if c["rel"] == "zero":
        rel[rs.randint(G)] = 0.0
    mean = rs.uniform(0.1, 5, G)
    a = rs.uniform(-0.9, 0.9, G)
    corr = np.outer(a, a)
    np.fill_diagonal(corr, 1.0)
    nodata = None
    if c["nodata"]:
        nodata = int(rs.randint(G))
        corr[nodata, :] = corr[:, nodata] = 0.0
    e = {"bounds": b, "mean": mean.tolist(), "std": (mean * rel).tolist(), "corr": corr.tolist(), "swapped": c["swapped"]}
    f = np.abs(1 + rs.normal(size=(G, c["n"])) * np.maximum(rel, 0)[:, None])
    if nodata is not None:
        f[nodata, :] = 1.0
    return t, s, mt, e, f, nodata


def base_data(s, mt):
    """energies and values of the base file"""
    if mt == 452:
        return np.array(s.nu_e), np.array(s.nu)
    if mt == 1018:
        return np.array(s.chi_x[0]), np.array(s.chi[0][0])
    return np.array(s.m.energy[mt]), np.array(s.m.now[mt])


left = []


def capture(f):
    """what the figures hold when they are saved"""
    seen = {}

    def save(self, name, *a, **k):
        out = []
        for ax in self.axes:
            lines = [(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), l.get_drawstyle(), l.get_label()) for l in ax.get_lines()]
            meshes = [(m.get_coordinates() if hasattr(m, "get_coordinates") else m._coordinates, np.ma.filled(np.ma.asarray(m.get_array(), float), np.nan), m.get_clim()) for m in ax.collections if type(m).__name__ == "QuadMesh"]
            out.append({"lines": lines, "meshes": meshes, "xscale": ax.get_xscale(), "yscale": ax.get_yscale()})
        require(name not in seen, "{} is written twice", name)
        seen[name] = out
    keep = Figure.savefig, Figure.tight_layout, FigureCanvasBase.draw_idle
    Figure.savefig = save
    Figure.tight_layout = FigureCanvasBase.draw_idle = lambda self, *a, **k: None     # only the layout on the page
    try:
        f()
    finally:
        Figure.savefig, Figure.tight_layout, FigureCanvasBase.draw_idle = keep
        left[:] = plt.get_fignums()
        plt.close("all")
    return seen


def step_at(line, x):
    """value that a drawn step curve shows at x"""
    xs_, ys, style, _ = line
    for i in range(len(xs_) - 1):
        if min(xs_[i], xs_[i + 1]) < x < max(xs_[i], xs_[i + 1]):
            return ys[i] if style == "steps-post" else ys[i + 1] if style == "steps-pre" else None
    return None


def inside(b, i):
    """an energy inside group i (the lowest bound may be zero)"""
    hi, lo = b[i], max(b[i + 1], b[i] / 2) if i == len(b) - 2 else b[i + 1]
    return 0.5 * (hi + lo)


def close(a, b, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= rtol * np.abs(b) + 1e-300) | (np.isnan(a) & np.isnan(b))))


def steps(line, b, want, what):
    for i in range(len(b) - 1):
        v = step_at(line, inside(b, i))
        require(v is not None and close(v, want[i]), "{}: {} is shown for group {} instead of {}", what, v, i + 1, want[i])


def curve(lines, e, y, what, alts=None):
    """some drawn line runs through these points"""
    for x, v, style, _ in lines:
        if style == "default" and close(x, e) and v.shape == y.shape and all(close(p, q) or (alts is not None and any(close(p, z) for z in alts[k])) for k, (p, q) in enumerate(zip(v, y))):
            return
    require(False, "{}: no line shows {} at {}", what, y.tolist(), e.tolist())


def check(c, ctx):
    d = ctx.dir()
    os.chdir(d)
    t, s, mt, e, f, nodata = setup(c, d)
    zaid, G, n, b = c["spec"]["zaid"], c["groups"], c["n"], e["bounds"]
    mean, std, corr = np.array(e["mean"]), np.array(e["std"]), np.array(e["corr"])
    rel = pd.DataFrame(f, index=range(1, G + 1))
    full = pd.DataFrame(f * mean[:, None], index=range(1, G + 1))
    out = "plots" if c["sub"] else "."
    kw = {}
    if c["second"] in ("nuclide", "both"):
        kw["zaid_2"] = 8017
    if c["second"] in ("reaction", "both"):
        kw["mt_2"] = 204
    own = e
    with covstore.build(d, {(zaid, mt): e}) as h:
        if kw:
            # the covariances with another reaction are shown, and the reaction's own deviations
            covstore.put(h, zaid, mt, e, kw.get("zaid_2"), kw.get("mt_2"))
            own = dict(e, std=[x * 1.7 for x in e["std"]], corr=np.eye(G).tolist())
            covstore.put(h, zaid, mt, own)
        seen = capture(lambda: xs.plot_sampled_info("base.ace", h, zaid, mt, rel, full, output_base=out, log_x=c["logx"], log_y=c["logy"], log_y_stddev=c["logstd"], corr_rel_diff=c["reldiff"],
                                                    use_max_range_for_correlation_plot=c["maxrange"], **kw))
        e_base, y_base = xs.get_mt_from_ace("base.ace", mt)
    if mt == 1018:
        e_base, y_base = e_base[0], y_base[0]
    ref_e, ref_y = base_data(s, mt)
    require(close(e_base, ref_e, 1e-12) and close(y_base, ref_y, 1e-12), "MT{} of the base file is {} at {} instead of {} at {}", mt, y_base, e_base, ref_y, ref_e)
    require(not left, "figures {} stay open", left)
    names = {k: os.path.normpath(os.path.join(out, "%s_%s_%s.png" % (zaid, mt, k))) for k in KINDS}
    seen = {os.path.normpath(k): v for k, v in seen.items()}
    require(set(seen) == set(names.values()), "files {} instead of {}", sorted(seen), sorted(names.values()))
    # variances
    lines = seen[names["sampled_cov"]][0]["lines"]
    require(len(lines) == 2, "{} curves of variances", len(lines))
    lines = sorted(lines, key=lambda l: "ENDF" not in l[3])
    steps(lines[0], b, std ** 2, "evaluated variance")
    steps(lines[1], b, np.var(full.values, axis=1, ddof=1), "sampled variance")
    require("ENDF" in lines[0][3] and "ampled" in lines[1][3], "labels {}", [l[3] for l in lines])
    # cross sections
    lines = seen[names["few_sampled_xsec"]][0]["lines"]
    curve(lines, ref_e, ref_y, "base cross section")
    k = min(n, 10)
    require(len(lines) in (k + 1, k + 2), "{} lines for {} of {} samples", len(lines), k, n)
    for j in range(k):
        y, alts = [], []
        for x, v in zip(ref_e, ref_y):
            near = {1.0} if x <= b[-1] or x >= b[0] else set()
            near |= {f[i, j] for i in range(G) if b[i + 1] <= x <= b[i]}
            best = [f[i, j] for i in range(G) if b[i + 1] < x <= b[i]]
            y.append((best[0] if best else f[G - 1, j] if x == b[-1] else 1.0) * v)
            alts.append([z * v for z in near] if any(close(x, q, 1e-9) for q in b) else [])
        curve(lines, ref_e, np.array(y), "sample %d" % j, alts)
    # correlations
    axes = [a for a in seen[names["sampled_corr_compare"]] if a["meshes"]]
    require(len(axes) >= 2, "{} correlation matrices", len(axes))
    with np.errstate(all="ignore"):
        got = np.atleast_2d(np.corrcoef(full.values))
    if c["reldiff"]:
        second = np.abs(got - corr)
    else:
        second = np.where(np.isnan(got), 0.0, got)
        if nodata is not None:
            second[nodata, :] = second[:, nodata] = 0.0
    shown = []
    for a, want, what in ((axes[0], corr, "evaluated"), (axes[1], second, "sampled")):
        coord, arr, clim = a["meshes"][0]
        arr = np.reshape(arr, (coord.shape[0] - 1, coord.shape[1] - 1))
        X, Y = coord[0, :, 0], coord[:, 0, 1]
        for q in (X, Y):
            require(b[-1] == 0 or (close(min(q), b[-1]) and close(max(q), b[0])), "{} correlations are shown from {} to {} instead of {} to {} eV", what, min(q), max(q), b[-1], b[0])
        for i in range(G):
            for j in range(G):
                p, q = inside(b, i), inside(b, j)
                col = [k for k in range(len(X) - 1) if min(X[k], X[k + 1]) < p < max(X[k], X[k + 1])]
                row = [k for k in range(len(Y) - 1) if min(Y[k], Y[k + 1]) < q < max(Y[k], Y[k + 1])]
                require(len(col) == 1 and len(row) == 1, "group {} is not on the axes {} {}", i + 1, X, Y)
                v = arr[row[0], col[0]]
                w = want[j, i]
                require(close(v, w, 1e-6) or abs(v - w) < 1e-9 or (np.isnan(w) and (np.isnan(v) or v == 0)), "{} correlation of groups {} and {} is shown as {} instead of {}", what, i + 1, j + 1, v, w)
        finite = want[np.isfinite(want)]
        if not np.isnan(second).any():
            require(clim[0] <= finite.min() + 1e-12 and clim[1] >= finite.max() - 1e-12, "colours from {} to {} for {} correlations from {} to {}", clim[0], clim[1], what, finite.min(), finite.max())
            if c["maxrange"]:
                require(clim[0] <= -1 and clim[1] >= 1, "colours from {} to {}", *clim)
        shown.append(clim)
    require(shown[0] == shown[1] or np.isnan(shown).any(), "the two matrices have different colours: {}", shown)
    # base data and deviations
    axes = seen[names["base_xsec_with_std"]]
    curve(axes[0]["lines"], ref_e, ref_y, "base cross section")
    line = axes[1]["lines"][0]
    relstd = np.array(covstore.frames(own)[0]["rel.s.d.(1)"]) * 100
    for i in range(G):
        if i < G - 1:
            v = step_at(line, inside(b, i))
        else:
            # the lowest group reaches down to the lowest energy of the data
            lo = max(b[-1], ref_e[0]) if ref_e[0] < b[-2] else None
            v = step_at(line, 0.5 * (lo + b[-2])) if lo is not None else relstd[i]
        require(v is not None and close(v, relstd[i]), "{} % are shown for group {} instead of {}", v, i + 1, relstd[i])
    require(not c["logstd"] or axes[1]["yscale"] == "log", "deviations on a {} axis", axes[1]["yscale"])
    a = seen[names["sampled_cov"]][0]
    require(a["xscale"] == ("log" if c["logx"] else "linear") and a["yscale"] == ("log" if c["logy"] else "linear"), "scales {} {} of the variances", a["xscale"], a["yscale"])
    a = seen[names["few_sampled_xsec"]][0]
    require(a["xscale"] == ("log" if c["logx"] else "linear"), "scale {} of the cross sections", a["xscale"])
    # the same figure on its own
    with covstore.build(d, {(zaid, mt): own}) as h:
        alone = capture(lambda: xs.plot_xsec("base.ace", h, zaid, mt, out, c["pad"], c["logx"], c["logy"], c["logstd"]))
    require([os.path.normpath(k) for k in alone] == [names["base_xsec_with_std"]], "files {}", list(alone))
    (again,) = alone.values()
    curve(again[0]["lines"], ref_e, ref_y, "base cross section")
    require(close(again[1]["lines"][0][0], line[0]) and close(again[1]["lines"][0][1], line[1]), "the deviations differ: {} and {}", again[1]["lines"][0], line)
    require(again[0]["xscale"] == ("log" if c["logx"] else "linear") and again[0]["yscale"] == ("log" if c["logy"] else "linear"), "scales {} {}", again[0]["xscale"], again[0]["yscale"])
    ctx.label(c["rel"], "no data" if nodata is not None else "all data", *([str(mt)] if mt in (452, 1018) else []))
    ctx.nontrivial(G > 2 and n > 2)


# ------------------------------------------------------------------ the command line
@st.composite
def cli(draw):
    c = draw(cli_case())
    c.update(none=False, picks=c["picks"][:1], groups=[draw(st.integers(1, 3))] * 4, spread="small", focus=draw(st.sampled_from([None, 452, 1018])), only=draw(st.booleans()))
    return c


def run_cli(c, ctx):
    d = ctx.dir()
    t, text, entries, cmd, mts = command(c, d)
    before = set(os.listdir(d))
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "ASAPy.XsecSampler"] + cmd + ["--plot-only" if c["only"] else "--make_plots"], cwd=d, capture_output=True, text=True, timeout=300,
                       env=dict(os.environ, MPLBACKEND="Agg"))
    require(r.returncode == 0, "the command failed (status {}): {}", r.returncode, r.stderr[-1500:])
    have = set(os.listdir(d)) - before
    png = {f for f in have if f.endswith(".png")}
    want = {"%s_%s_%s.png" % (c["spec"]["zaid"], mt, k) for mt in mts for k in KINDS}
    require(png == want, "figures {} instead of {}", sorted(png), sorted(want))
    for f in png:
        b = open(os.path.join(d, f), "rb").read()
        require(b[:8] == b"\x89PNG\r\n\x1a\n" and b"IEND" in b[-12:], "{} is not an image", f)
    if c["only"]:
        require(have == png, "files {} with --plot-only", sorted(have - png))
        require(open(os.path.join(d, "base.ace")).read() == text, "the base file was modified")
    else:
        verify_run(c, ctx, d, t, text, entries, mts, r, before | png)
    ctx.label("--plot-only" if c["only"] else "--make_plots")
    ctx.nontrivial(png)


SUBS = [Sub("figures", case(), check, 280, 9000, "three or more groups and samples"),
        Sub("command", cli(), run_cli, 16, 400, "figures were written")]
