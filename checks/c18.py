import os, re, subprocess, sys, warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ASAPy import XsecSampler as xs
from lib.core import Sub, require, REPO
from lib import acegen, covstore, sums, sampled as S
from checks.c15 import State

warnings.simplefilter("ignore")
ASSUMPTIONS = ["reactions, nu-bar and spectra of the base file are not entirely zero and no two of them are textually identical, except capture and absorption; a spectrum whose numbers occur twice in the file (two-point spectra, say) is not sampled, because the files are made by find and replace"]


@st.composite
def table(draw, max_nes=8):
    extra = draw(st.lists(st.sampled_from([4, 51, 52, 102, 103, 107, 16, 600, 650, 18]), max_size=3, unique=True))
    s = draw(acegen.spec(simple=True, fissile=draw(st.sampled_from([True, True, False])), extra_mts=extra, max_nes=max_nes, levels=draw(st.booleans())))
    for r in s["reactions"]:
        if r.get("zeros"):
            r["zeros"] = [z for z in r["zeros"] if z != 1]       # never entirely zero
    if s["reactions"] and draw(st.integers(0, 4)) == 2:
        draw(st.sampled_from(s["reactions"]))["tiny"] = draw(st.lists(st.integers(0, 4), min_size=1, max_size=2, unique=True))
    s["only_capture"] = draw(st.booleans())
    s["longer"] = draw(st.sampled_from([3, 2, 1, 0]))
    return s


def groups(seed, G, t, edges):
    """G+1 decreasing bounds; some of them on energies of the file"""
    rs = np.random.RandomState([seed, 21])
    e = np.array(sorted(set(edges)))
    cand = set(np.sqrt(e[1:] * e[:-1]).tolist()) | {e[0] * 0.5, e[-1] * 2, 1e-5, 1e3, 2e7}
    if rs.randint(2):
        cand |= set(e.tolist())
    cand = np.array(sorted(cand))
    if len(cand) < G + 1:
        cand = np.array(sorted(set(cand.tolist()) | set((10.0 ** rs.uniform(-5, 7, G)).tolist())))
    return sorted([float(v) for v in rs.choice(cand, G + 1, replace=False)], reverse=True)


def factors(seed, G, kind):
    rs = np.random.RandomState([seed, 22])
    if kind == "one":
        return [1.0] * G
    f = 10.0 ** rs.uniform(-1, 1, G) if kind == "wide" else rs.uniform(0.6, 1.5, G)
    if kind == "zero":
        f[rs.randint(G)] = 0.0
    return [float(v) for v in f]


@st.composite
def direct_case(draw):
    return {"spec": draw(table()), "style": draw(st.sampled_from(["old", "new"])), "seed": draw(st.integers(0, 10 ** 6)),
            "focus": draw(st.sampled_from([None, 452, 1018, 18])), "picks": draw(st.lists(st.sampled_from(range(31)), min_size=1, max_size=5)), "samples": draw(st.lists(st.integers(1, 4), min_size=5, max_size=5)),
            "groups": draw(st.lists(st.integers(1, 6), min_size=5, max_size=5)), "kind": draw(st.sampled_from(["near", "near", "wide", "zero", "one"])),
            "swapped": draw(st.integers(0, 5)) == 3, "second": draw(st.sampled_from([None, None, None, "nuclide", "reaction", "both"])), "out": draw(st.sampled_from(["xsec_sampled_{0}", "./U235_{0}", "sub/a_{0}.ace"])), "strzaid": draw(st.booleans())}


def edges_of(s, mt):
    if mt == 452:
        return s.nu_e.tolist()
    if mt == 1018:
        return np.concatenate(s.chi_x).tolist()
    return s.m.energy[mt].tolist()


def unique(t, arrays):
    """the numbers of each array occur once in the file: the files are made by find and replace"""
    v = [float(x) for x in t.xss]
    return all(sum(v[k:k + len(a)] == a for k in range(len(v))) == 1 for a in arrays)


def choices(s, t):
    """reactions to sample; a sum that the file does not list and that has a single part is textually that part"""
    out = [m for m in s.mts() if m not in s.made or len([x for x in s.m.base if x in sums.PARTS[m]]) > 1]
    if 1018 in out and not unique(t, [list(map(float, a)) for o in t.facts["rx"]["18"]["dist"][0]["out"] for a in (o["p"], o["c"])]):
        out.remove(1018)
    return out


def direct(c, ctx):
    d = ctx.dir()
    os.chdir(d)
    os.makedirs("sub")
    t = acegen.build(c["spec"])
    text = acegen.ascii_text(t, c["style"])
    open("base.ace", "w").write(text)
    zaid = c["spec"]["zaid"]
    s = State(t)
    avail = choices(s, t)
    mts = [c["focus"]] if c["focus"] in avail else []
    for p in c["picks"][len(mts):]:
        if avail[p % len(avail)] not in mts:
            mts.append(avail[p % len(avail)])
    entries, dfs, fac = {}, [], []
    for k, mt in enumerate(mts):
        G = c["groups"][k]
        rs = np.random.RandomState([c["seed"], k, 23])
        b = groups(c["seed"] + k, G, t, edges_of(s, mt))
        e = {"bounds": b, "mean": rs.uniform(0.1, 5, G).tolist(), "std": rs.uniform(0.01, 0.2, G).tolist(), "corr": np.eye(G).tolist(), "swapped": c["swapped"]}
        entries[(zaid, mt)] = e
        cols = []
        for n in range(c["samples"][k]):
            f = factors(c["seed"] + 100 * k + n, G, c["kind"])
            while mt == 1018 and S.chi_norm(s, b, f) < 0.3:
                f = [1 + (v - 1) / 2 for v in f]
            cols.append(f)
        fac.append(cols)
        dfs.append(pd.DataFrame(np.array(cols).T, index=range(1, G + 1)))
    with covstore.build(d, entries) as h:
        kw = {}
        if c["second"] in ("nuclide", "both"):
            kw["zaid_2"] = 8017
        if c["second"] in ("reaction", "both"):
            kw["mt_2"] = 204
        if kw:
            # the groups are those of the covariances with another reaction
            for (z, mt), e in entries.items():
                covstore.put(h, z, mt, e, kw.get("zaid_2"), kw.get("mt_2"))
                covstore.put(h, z, mt, dict(e, bounds=[x * 1.3 for x in e["bounds"]], mean=[x * 2 for x in e["mean"]]))
        xs.write_sampled_data(h, "base.ace", str(zaid) if c["strzaid"] else zaid, mts, dfs, output_formatter=c["out"], **kw)
    n = min(len(x) for x in fac)
    want = {os.path.normpath(c["out"].format(k)) for k in range(n)} | {os.path.normpath(c["out"].format(mt) + "_samples.csv") for mt in mts} | {"base.ace", "store.h5"}
    have = {os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs}
    require(have == want, "files {} instead of {}", sorted(have), sorted(want))
    require(open("base.ace").read() == text, "the base file was modified")
    changed = 0
    for k in range(n):
        sam = [(mt, entries[(zaid, mt)]["bounds"], fac[i][k]) for i, mt in enumerate(mts)]
        S.verify_head(c["out"].format(k), text)
        r = S.verify_file(c["out"].format(k), t, sam, "sample %d" % k)
        changed += any(not np.array_equal(r.m.now[m], r.m.base[m]) for m in r.m.adjusted) or bool(r.extra)
    for i, mt in enumerate(mts):
        got = S.read_csv(c["out"].format(mt) + "_samples.csv", entries[(zaid, mt)], "CSV of MT%d" % mt)
        for k in range(n):
            require(k in got and np.allclose(got[k], fac[i][k], rtol=1e-13, atol=0), "CSV of MT{}: factors of sample {} are {} instead of {}", mt, k, got.get(k), fac[i][k])
    if c["second"]:
        ctx.label("groups of a pair of reactions")
    ctx.label(c["kind"], "%d reactions" % min(len(mts), 3), *[str(m) for m in mts if m in (452, 1018, 1, 4, 18, 101)])
    if len(set(len(x) for x in fac)) > 1:
        ctx.label("unequal numbers of samples")
    ctx.nontrivial(changed and n)


# ------------------------------------------------------------------ the command line
@st.composite
def cli_case(draw, mpi=False):
    c = {"spec": draw(table(6)), "style": draw(st.sampled_from(["old", "new"])), "seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.integers(8, 13) if not mpi else st.integers(4, 13)),
         "focus": draw(st.sampled_from([None, 452, 1018, 18])), "picks": draw(st.lists(st.sampled_from(range(31)), min_size=1, max_size=4)), "groups": draw(st.lists(st.integers(1, 3), min_size=4, max_size=4)),
         "dist": draw(st.sampled_from(["normal", "lognormal", "uncorrelated", "uniform", "loguncorrelated", None])), "spread": draw(st.sampled_from(["small", "small", "large"])),
         "mts": draw(st.sampled_from(["all", "all", "given", "subset", "extra", "twice"])), "others": draw(st.lists(st.sampled_from(["nuclide", "cross", "absent mt"]), unique=True, max_size=3)),
         "over": draw(st.integers(0, 5)) == 2, "none": draw(st.integers(0, 7)) == 5}
    if mpi:
        c["ranks"] = draw(st.sampled_from([2, 3, 3, 4, 5, 7]))
        if c["n"] < 8:
            c["groups"] = [1] * 4
        c["none"] = False
    return c


def command(c, d):
    """builds base file and store; returns (table, text, entries, command, expected reactions)"""
    os.chdir(d)
    t = acegen.build(c["spec"])
    text = acegen.ascii_text(t, c["style"])
    open("base.ace", "w").write(text)
    zaid = c["spec"]["zaid"]
    s = State(t)
    avail = choices(s, t)
    absent = [m for m in (11, 41, 203, 456, 5) if m not in s.mts()]
    mts = [] if c["none"] else sorted({avail[p % len(avail)] for p in c["picks"]} | ({c["focus"]} & set(avail)))
    entries = {}

    def make(mt, k):
        G = c["groups"][k % 4]
        rs = np.random.RandomState([c["seed"], k, 24])
        b = groups(c["seed"] + k, G, t, edges_of(s, mt) if mt in avail else s.m.energy[1].tolist())
        mean = rs.uniform(0.5, 5, G)
        rel = rs.uniform(0.2, 0.5, G) if c["spread"] == "large" and mt != 1018 else rs.uniform(1e-3, 5e-3, G)
        a = rs.uniform(0, 0.3)
        return {"bounds": b, "mean": mean.tolist(), "std": (mean * rel).tolist(), "corr": ((1 - a) * np.eye(G) + a).tolist()}

    for k, mt in enumerate(mts):
        entries[(zaid, mt)] = make(mt, k)
    with covstore.build(d, entries) as h:
        rs = np.random.RandomState([c["seed"], 25])
        if "absent mt" in c["others"] or c["none"]:
            covstore.put(h, zaid, absent[0], make(absent[0], 7))
        if "nuclide" in c["others"]:
            for m in rs.choice(avail, 2).tolist():
                covstore.put(h, 95241, m, make(m, 8))
        if "cross" in c["others"]:
            m = [x for x in avail if x not in mts][:1] or avail[:1]
            covstore.put(h, zaid, m[0], make(m[0], 9), zaid, absent[0])
    cmd = ["base.ace", "store.h5", str(c["n"])]
    how = c["mts"] if mts else "all"
    if how == "given":
        cmd += ["-mts"] + [str(m) for m in mts]
    elif how == "subset":
        mts = mts[::2][::-1]
        cmd += ["-mts"] + [str(m) for m in mts]
    elif how == "extra":
        cmd += ["-mts", str(absent[0])] + [str(m) for m in mts]
    elif how == "twice":
        cmd += ["-mts"] + [str(m) for m in mts + mts[:2]]
    if c["dist"]:
        cmd += ["-distribution", c["dist"]]
    if c["over"]:
        cmd += ["-num_oversamples", str(c["n"] + 2)]
    return t, text, entries, cmd, mts


def verify_run(c, ctx, d, t, text, entries, mts, r, before):
    log = r.stdout[-500:] + r.stderr[-1500:]
    require(r.returncode == 0, "the command failed (status {}): {}", r.returncode, log)
    zaid = c["spec"]["zaid"]
    name = {92235: "U235", 92238: "U238", 1001: "H1", 26056: "Fe56", 94239: "Pu239", 8016: "O16", 13027: "Al27"}[zaid] + "_"
    have = {os.path.relpath(os.path.join(q, f), d) for q, _, fs in os.walk(d) for f in fs} - before
    require(open("base.ace").read() == text, "the base file was modified")
    csv = {"%s%d_samples.csv" % (name, mt) for mt in mts}
    require({f for f in have if f.endswith(".csv")} == csv, "CSV files {} instead of {}; {}", sorted(f for f in have if f.endswith(".csv")), sorted(csv), log)
    fac = {mt: S.read_csv("%s%d_samples.csv" % (name, mt), entries[(zaid, mt)], "CSV of MT%d" % mt) for mt in mts}
    for mt in mts:
        k = len(fac[mt])
        require(sorted(fac[mt]) == list(range(k)) and k <= c["n"], "CSV of MT{}: samples {} of {} asked for", mt, sorted(fac[mt]), c["n"])
        sure = c["spread"] == "small" or mt == 1018 or (c["dist"] or "").startswith("log")
        require(k == c["n"] or not sure, "CSV of MT{}: {} samples instead of {}", mt, k, c["n"])
        if c["n"] > 1 and k > 1:
            require(any(not np.array_equal(fac[mt][0], fac[mt][j]) for j in range(1, k)), "CSV of MT{}: all samples are the same", mt)
    n = min([len(f) for f in fac.values()] or [0])
    files = have - csv
    want = {"%s%d" % (name, k) for k in range(n)}
    require(files == want, "files {} instead of {}; {}", sorted(files), sorted(want), log)
    for k in range(n):
        sam = [(mt, entries[(zaid, mt)]["bounds"], fac[mt][k].tolist()) for mt in mts]
        S.verify_head("%s%d" % (name, k), text)
        S.verify_file("%s%d" % (name, k), t, sam, "sample %d" % k)
    ctx.label(c["dist"] or "default distribution", "-mts " + c["mts"], *["other " + o for o in c["others"]])
    if any(len(f) < c["n"] for f in fac.values()):
        ctx.label("negative samples dropped")
    return n


def run_cli(c, ctx):
    d = ctx.dir()
    t, text, entries, cmd, mts = command(c, d)
    before = set(os.listdir(d))
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "ASAPy.XsecSampler"] + cmd, cwd=d, capture_output=True, text=True, timeout=300)
    n = verify_run(c, ctx, d, t, text, entries, mts, r, before)
    ctx.label("nothing to sample" if not mts else "sampled")
    ctx.nontrivial(n > 0)


SUBS = [Sub("files", direct_case(), direct, 640, 20000, "at least one file whose values differ from the base"),
        Sub("command", cli_case(), run_cli, 32, 1200, "the command wrote at least one file")]
