import os
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ASAPy import EndfToCov as ec
from lib.core import Sub, require, Violation
from lib import gens as g
from lib import covstore

ASSUMPTIONS = ["the decompressed text layout is the program's FORMAT statements (four blank lines, 80-column header, 1P8E10.3 data)"]
E = "%10.3E"


def r4(x):
    return float(E % x)


@st.composite
def blocks(draw, any_sign=False, max_groups=20):
    G = draw(st.integers(1, max_groups))
    lo = draw(st.sampled_from([1e-5, 1.0, 3e-3]))
    step = draw(st.lists(st.sampled_from([1.01, 1.3, 2.0, 9.0]), min_size=G, max_size=G))
    b = [lo]
    for s in step:
        b.append(r4(max(b[-1] * s, b[-1] * 1.002)))
    val = st.one_of(g.log_float(-9, 9), g.log_float(-2, 1), st.just(0.0))
    if any_sign:
        val = st.one_of(val, val.map(lambda x: -x), g.log_float(-37, 37))
    xs = [r4(v) for v in draw(st.lists(val, min_size=G, max_size=G))]
    rel = [r4(v) for v in draw(st.lists(st.one_of(g.log_float(-5, 0), st.just(0.0)), min_size=G, max_size=G))]
    d = {"bounds": b[::-1], "xsec": xs, "rel": rel}
    if any_sign:
        up = draw(st.lists(val, min_size=G * G, max_size=min(G * G, 40) if G * G < 40 else 40)) if G * G <= 40 else draw(st.lists(val, min_size=40, max_size=40))
        d["cov"] = [[r4(up[(i * G + j) % len(up)]) for j in range(G)] for i in range(G)]
    else:
        C = np.array(draw(g.any_corr(min(G, 8))))
        n = len(C)
        R = np.array(rel)
        d["cov"] = [[r4((C[i % n, j % n] if i // n == j // n else 0.0) * R[i] * R[j]) for j in range(G)] for i in range(G)]
        for i in range(G):                               # the products may round differently either side of the diagonal
            for j in range(i):
                d["cov"][i][j] = d["cov"][j][i]
        if G > 1 and draw(st.integers(0, 3)) == 2:       # entries that no correlation matrix can have
            for _ in range(draw(st.integers(1, 3))):
                i, j, f = draw(st.integers(0, G - 2)), draw(st.integers(1, G - 1)), draw(st.sampled_from([1.01, -1.01, 1.5, -3.0, 2.0, 50.0, 0.5]))
                if i != j:
                    d["cov"][i][j] = d["cov"][j][i] = r4(f * R[i] * R[j])
    return d


def text(d, mat, mt):
    G = len(d["xsec"])
    out = []

    def header(itype, nrow, ncol):
        return "\n\n\n\n" + "%1d%-35s%5d%4d%5d%4d%4d%3d%4d%3d%4d%4d%4d\n" % (itype, d.get("title", " corr  -a-238"), mat, mt, mat, mt, nrow, 10, nrow, 3, 0, nrow, ncol)

    def rows(vals):
        return "".join("".join(E % v for v in vals[k:k + 8]) + "\n" for k in range(0, len(vals), 8))
    out.append(header(0, G + 1, 1) + rows(d["bounds"]))
    out.append(header(1, G, 1) + rows(d["xsec"]))
    out.append(header(2, G, 1) + rows(d["rel"]))
    out.append(header(3, G, 0) + "".join(rows(r) for r in d["cov"]))
    return "".join(out)


@st.composite
def case_read(draw):
    d = draw(blocks(any_sign=True, max_groups=draw(st.sampled_from([4, 9, 40]))))
    return {"d": d, "mat": draw(st.sampled_from([1, 125, 9228])), "mt": draw(st.sampled_from([1, 2, 102, 452]))}


def check_read(c, ctx):
    p = os.path.join(ctx.dir(), "m.txt")
    open(p, "w").write(text(c["d"], c["mat"], c["mt"]))
    b, x, s, C = ec.read_boxer_out_matrix(p).get_block_data()
    d = c["d"]
    for got, want, what in ((b, d["bounds"], "group bounds"), (x, d["xsec"], "cross sections"), (C, d["cov"], "covariances")):
        want = np.array(want, float)
        require(np.shape(got) == want.shape and np.array_equal(got, want), "{}: {}\n instead of {}", what, np.asarray(got).tolist(), want.tolist())
    want = np.array(d["rel"]) * np.array(d["xsec"])
    require(np.shape(s) == want.shape and np.allclose(s, want, rtol=1e-14, atol=0), "deviations {} instead of {}", np.asarray(s).tolist(), want.tolist())
    G = len(d["xsec"])
    ctx.label("G=1" if G == 1 else "G<8" if G < 8 else "G=8,16.." if G % 8 == 0 else "G>8")
    ctx.nontrivial(G > 1)


@st.composite
def case_store(draw):
    steps = []
    shared = draw(st.integers(1, 6))
    for _ in range(draw(st.integers(1, 4))):
        s = {"zaid": draw(st.sampled_from([92235, 1001])), "mt": draw(st.sampled_from([2, 102, 452, 1018, 851])), "error": draw(st.sampled_from([False, False, False, True]))}
        s["d"] = draw(blocks(max_groups=draw(st.sampled_from([shared, shared, 10]))))
        steps.append(s)
    return {"steps": steps, "fmt": draw(st.sampled_from(["s_{0}g.h5", "u235_{0}g_cov.h5"])), "name": draw(st.sampled_from(["covr_300.txt_{mt}_matrix.txt", "m{mt}.txt"]))}


def expected(d):
    G = len(d["xsec"])
    x, rel = np.array(d["xsec"], float), np.array(d["rel"], float)
    zero = x == 0
    b = np.array(d["bounds"])
    sd = pd.DataFrame(index=range(1, G + 1), columns=covstore.COLS, dtype=float)
    sd['e high'], sd['e low'] = b[:-1], b[1:]
    sd['x-sec(1)'] = sd['x-sec(2)'] = x
    sd['s.d.(1)'] = sd['s.d(2)'] = np.where(zero, 1e-7, rel * x)
    sd['rel.s.d.(1)'] = sd['rel.s.d(2)'] = np.where(zero, 1e-7, rel)
    cov = np.array(d["cov"])
    v = np.diag(cov)
    corr = np.full((G, G), np.nan)     # nan: any value in [-1, 1] will do
    for i in range(G):
        for j in range(G):
            if v[i] > 0 and v[j] > 0:
                corr[i, j] = 1.0 if i == j else min(1.0, max(-1.0, cov[i, j] / np.sqrt(v[i] * v[j])))
            elif i != j and cov[i, j] == 0:
                corr[i, j] = 0.0
    return sd, corr, cov


def check_store(c, ctx):
    d = ctx.dir()
    model = {}
    over = False
    for s in c["steps"]:
        before = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d) if f.endswith(".h5")}
        t = text(s["d"], 125, s["mt"] if s["mt"] != 1018 else 18)
        if s["error"]:
            k = t.find("\n\n\n\n2 ")
            t = t[:k] + "\n ***ERROR IN BOXR***CANNOT FIND ITYPE,MAT,MT,MAT1,MT1 =    2  125    2  125    2\n"
        open(os.path.join(d, c["name"].format(mt=s["mt"])), "w").write(t)
        ec.process_cov_to_h5(d, s["zaid"], s["mt"], boxer_matrix_name=c["name"], output_h5_format=c["fmt"])
        if s["error"]:
            after = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d) if f.endswith(".h5")}
            require(after == before, "a file with an error message changed the store")
            ctx.label("error file")
            continue
        G = len(s["d"]["xsec"])
        over |= (G, s["zaid"], s["mt"]) in model
        model[G, s["zaid"], s["mt"]] = s["d"]
        files = {f for f in os.listdir(d) if f.endswith(".h5")}
        require(files == {c["fmt"].format(k[0]) for k in model}, "stores {}", sorted(files))
    for G in {k[0] for k in model}:
        with pd.HDFStore(os.path.join(d, c["fmt"].format(G)), "r") as h:
            want_keys = {"/%s/%s/%s/%s/%s" % (z, m, z, m, t) for (gg, z, m) in model if gg == G for t in ("corr", "std_dev")}
            require(set(h.keys()) == want_keys, "keys {} instead of {}", sorted(h.keys()), sorted(want_keys))
            for (gg, z, m), blk in model.items():
                if gg != G:
                    continue
                sd, corr, cov = expected(blk)
                got = h["%s/%s/%s/%s/std_dev" % (z, m, z, m)]
                require(list(got.index) == list(range(1, G + 1)) and list(got.columns) == covstore.COLS, "labels {} {}", list(got.index), list(got.columns))
                require(np.allclose(got.values, sd.values, rtol=1e-13, atol=0), "entry {}/{}:\n{}\ninstead of\n{}", z, m, got.values.tolist(), sd.values.tolist())
                gc = h["%s/%s/%s/%s/corr" % (z, m, z, m)]
                require(list(gc.index) == list(range(1, G + 1)) and list(gc.columns) == list(range(1, G + 1)), "labels {} {}", list(gc.index), list(gc.columns))
                gc = gc.values
                require(np.isfinite(gc).all() and np.abs(gc).max() <= 1, "correlations missing or outside [-1, 1]: {}", gc.tolist())
                known = ~np.isnan(corr)
                v = np.sqrt(np.diag(cov))
                with np.errstate(all="ignore"):
                    if (np.abs(cov) / np.outer(v, v) > 1.005).any():
                        ctx.label("impossible correlations limited")
                require(np.allclose(gc[known], corr[known], rtol=1e-12, atol=1e-15), "correlations {}\n instead of {}\n from {}", gc.tolist(), corr.tolist(), cov.tolist())
                if (np.array(blk["xsec"]) == 0).any():
                    ctx.label("zero cross section")
    if over:
        ctx.label("overwritten")
    ctx.nontrivial(len(model) > 1 or over)


SUBS = [Sub("read", case_read(), check_read, 800, 40000, "more than one group"),
        Sub("store", case_store(), check_store, 400, 12000, "several conversions into the stores")]
