import contextlib, hashlib, io, json, os, re, subprocess, sys
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from ASAPy import EndfToCov as ec
from ASAPy import njoy
from ASAPy.data.data import ATOMIC_SYMBOL
from lib.groups import BOUNDS
from lib.core import Sub, require, Violation, REPO, expect_raises
from lib import gens as g
from lib import endfgen, standin
from lib import boxer as bx
from lib import covstore
from checks import c10

ASSUMPTIONS = ["NJOY is replaced by a stand-in that reads the deck and writes BOXER tapes of generated data; boxer2mat is compiled from the tree"]
MTS = [1, 2, 4, 16, 18, 51, 102, 103, 107, 851]


def r4(x):
    return float("%10.3E" % x)


def data_for(seed, mf, ti, mt, bounds):
    """the group data 'NJOY' produces for one tape and reaction"""
    G = len(bounds) - 1
    rs = np.random.RandomState([seed % 2 ** 31, mf, ti, mt])
    xs = [r4(v) for v in 10.0 ** rs.uniform(-4, 3, G)]
    rel = [r4(v) for v in 10.0 ** rs.uniform(-3, -0.5, G)]
    A = rs.normal(size=(G, G))
    C = A @ A.T
    s = np.sqrt(np.diag(C))
    C = C / s / s[:, None]
    cov = [[r4(rel[i] * rel[i]) if i == j else r4(C[min(i, j), max(i, j)] * rel[i] * rel[j]) for j in range(G)] for i in range(G)]
    return {"bounds": [r4(b) for b in bounds], "xsec": xs, "rel": rel, "cov": cov}


def tape_text(mat, per_mt, seed, bounds):
    """BOXER tape, low to high energy"""
    rs = np.random.RandomState([seed % 2 ** 31, 7])
    lines = []

    def sec(itype, mt, mt1, data, sym):
        s = {"itype": itype, "mat": mat, "mt": mt, "mat1": mat, "mt1": mt1, "nvf": int(rs.choice([10, 11, 12])), "ncf": int(rs.choice([3, 4, 5])), "nrow": len(data),
             "ncolh": 0 if sym else len(data[0]), "title": " stand-in", "pages": bool(rs.randint(2))}
        return bx.encode(s, data, [int(x) for x in rs.randint(0, 60, 20)])
    lines += sec(0, 0, 0, [[r4(v)] for v in bounds], False)
    for mt, d in per_mt.items():
        lines += sec(1, mt, mt, [[v] for v in d["xsec"]], False)
        lines += sec(2, mt, mt, [[v] for v in d["rel"]], False)
        lines += sec(3, mt, mt, d["cov"], True)
        other = [[r4(v * 0.5 + 1e-6 * mt) for v in r] for r in d["cov"]]
        lines += sec(4, mt, 0, other, False) if rs.randint(3) == 0 else []
    return "\n".join(lines) + "\n"


@st.composite
def chain_case(draw, cli=False):
    c = {"seed": draw(st.integers(0, 10 ** 6))}
    bins = draw(st.sampled_from(["SCALE_3"] * 12 + ["SCALE_44", "SCALE_44", "SCALE_56", "SCALE_56", "SCALE_238", "SCALE_252", "default"])) if cli else None
    avail = draw(st.lists(st.sampled_from(MTS), min_size=0 if cli and draw(st.integers(0, 9)) == 7 else 1, max_size=5 if bins in (None, "SCALE_3", "SCALE_44") else 2, unique=True))
    fiss = draw(st.sampled_from([0, 1]))
    c["material"] = draw(endfgen.material(neutron=True, mf33=avail, fissionable=fiss))
    avail = [s[1] for s in c["material"]["sections"] if s[0] == 33]
    c["avail"] = avail
    c["produced"] = [m for m in avail if draw(st.integers(0, 9)) != 3]
    req = draw(st.one_of(st.none(), st.lists(st.sampled_from(avail), min_size=1, unique=True))) if avail else None
    if cli:
        c["mts"] = req
        if draw(st.integers(0, 9)) == 5:
            c["mts"] = (req or []) + [draw(st.sampled_from([5, 17, 900]))]
        c["bins"] = bins
        c["temps"] = [draw(st.sampled_from([300, 300, 600, 1]))]
        c["nu"] = c["chi"] = bool(fiss)
        c["store"] = draw(st.one_of(st.none(), st.sampled_from(["store_", "x"])))
        c["temp_given"] = c["temps"] != [300] or draw(st.booleans())
        c["iwt"] = draw(st.one_of(st.none(), st.sampled_from([2, 6, 9, 12])))
        c["prior"] = draw(st.booleans())
    else:
        c["mts"] = req or list(avail)
        c["single"] = len(c["mts"]) == 1 and draw(st.booleans())
        ts = draw(st.lists(st.sampled_from([300, 293.6, 600, 1200.5]), min_size=1, max_size=3, unique=True))
        c["temps"] = ts
        c["nu"], c["chi"] = draw(st.booleans()), draw(st.booleans())
        e = [1e-5]
        for _ in range(draw(st.integers(1, 5))):
            e.append(r4(e[-1] * draw(st.sampled_from([2.0, 33.0, 1234.0]))))
        c["bounds"] = e
        c["use_temp"] = draw(st.booleans())
        c["iwt"] = draw(st.sampled_from([9, 3, 1]))
        c["flux"] = [1e-5, 1.0, 1.0, 2.0, 2e7, 0.5]
    c["chatter"] = draw(st.sampled_from([0, 0, 5, 3000]))
    k = draw(st.integers(0, 9))
    c["fault"] = None
    if k in (4, 5):
        c["fault"] = ["njoy", draw(st.sampled_from([1, 2, 77, 255, "signal"]))]
    elif k in (6, 7):
        c["fault"] = ["boxer", draw(st.integers(0, 6)), draw(st.sampled_from([1, 2, 139]))]
    return c


def setup(c, bounds, ctx):
    d = ctx.dir()
    for x in ("data", "out", "log", "cwd"):
        os.mkdir(os.path.join(d, x))
    text, _ = endfgen.tape([c["material"]])
    endf = os.path.join(d, "eval.endf")
    with open(endf, "w") as f:
        f.write(text)
    mat = c["material"]["mat"]
    tapes = {}
    for ti, T in enumerate(c["temps"]):
        per = {mt: data_for(c["seed"], 33, ti, mt, bounds) for mt in sorted(c["produced"])}
        tapes["covr_%s.txt" % T] = (33, T, per)
    T = c["temps"][-1]
    if c["nu"]:
        tapes["covr_nu_%s.txt" % T] = (31, T, {452: data_for(c["seed"], 31, 0, 452, bounds)})
    if c["chi"]:
        tapes["covr_chi_%s.txt" % T] = (35, T, {18: data_for(c["seed"], 35, 0, 18, bounds)})
    texts = {}
    for name, (mf, T, per) in tapes.items():
        texts[name] = tape_text(mat, per, c["seed"], bounds)
        if mf != 33:
            for T2 in c["temps"]:
                with open(os.path.join(d, "data", "%d_%g.boxer" % (mf, T2)), "w") as f:
                    f.write(texts[name])
        else:
            with open(os.path.join(d, "data", "%d_%g.boxer" % (mf, T)), "w") as f:
                f.write(texts[name])
    fault = c["fault"] or [None]
    nj = standin.write_njoy(os.path.join(d, "njoy"), os.path.join(d, "log", "njoy"), os.path.join(d, "data"), {20: "endf"},
                            {20: hashlib.sha256(text.encode()).hexdigest()}, fail=fault[1] if fault[0] == "njoy" else 0, message="MARK-njoy", chatter=c["chatter"])
    if fault[0] == "boxer":
        bex = standin.write_boxer(os.path.join(d, "boxer"), os.path.join(d, "log", "boxer"), bx.EXE, fault[1], fault[2], "MARK-boxer")
    else:
        bex = bx.EXE
    return d, endf, tapes, texts, nj, bex


def check_matrix(path, mat, tape_mt, d, what):
    got = bx.read_out(path)
    if d is None:
        require(got and got[-1][0] == "error", "{} has no data on its tape, but the file holds {}", what, [x[1] for x in got])
        return
    require([x[0] for x in got] == ["data"] * 4, "{}: {}", what, [x[:2] for x in got])
    for x, itype, vals in zip(got, range(4), (d["bounds"][::-1], d["xsec"][::-1], d["rel"][::-1], [v for r in d["cov"][::-1] for v in r[::-1]])):
        h = x[1]
        ids = [int(h[0]), int(h[36:41]), int(h[41:45]), int(h[45:50]), int(h[50:54])]
        require(ids[0] == itype and (itype == 0 or ids == [itype, mat, tape_mt, mat, tape_mt]), "{}: block {} is {}", what, itype, ids)
        flat = [v for row in x[2] for v in row]
        require(len(flat) == len(vals) and all(bx.close(a, b) for a, b in zip(flat, vals)), "{}: block {} holds {}\n instead of {}", what, itype, flat, vals)


def expected_calls(c, tapes, mts):
    return len(tapes) * len(mts)


def f_chain(c, ctx):
    bounds = [float(x) for x in c["bounds"]]
    d, endf, tapes, texts, nj, bex = setup(c, bounds, ctx)
    os.chdir(os.path.join(d, "cwd"))
    out = os.path.join(d, "out")
    mts = list(c["mts"])
    arg = mts[0] if c["single"] else mts
    temps = list(c["temps"])
    full = list(mts)
    if c["chi"] and 18 not in full:
        full.append(18)
    if c["nu"]:
        full.append(452)
    if c["chi"]:
        full.append(1018)
    fault = c["fault"]
    if fault and fault[0] == "boxer" and fault[1] >= len(tapes) * len(full):
        fault = None
    err = None
    devnull = open(os.devnull, "w")
    so, sys.stdout = sys.stdout, devnull
    try:
        ec.run_cover_chain(endf, arg, temps if len(temps) > 1 or c["use_temp"] else temps[0], output_dir=out, cov_energy_groups=list(bounds), iwt_fluxweight=c["iwt"],
                           user_flux_weight_vals=c["flux"], nu=c["nu"], chi=c["chi"], use_temp_folder=c["use_temp"], njoy_exec=nj, boxer_exec=bex)
    except subprocess.CalledProcessError as e:
        err = e
    finally:
        sys.stdout = so
        devnull.close()
    ctx.label("fault " + fault[0] if fault else "no fault", "temps%d" % len(temps), "nu" if c["nu"] else "-", "chi" if c["chi"] else "-", "chatter" if c["chatter"] > 100 else "quiet")
    require(arg == (c["mts"][0] if c["single"] else c["mts"]), "the caller's reaction list was changed to {}", arg)
    if fault:
        require(err is not None, "{} failed but the chain went on", fault[0])
        code = -9 if fault[-1] == "signal" else fault[-1]
        require(err.returncode == code, "status {} reported instead of {}", err.returncode, code)
        text = err.output if err.output is not None else ""
        if fault[-1] != "signal":
            require("MARK-" + fault[0] in text, "the program's output is missing from the error: {!r}", text[-200:])
        if fault[0] == "njoy":
            require(not [f for f in os.listdir(out) if f.endswith("_matrix.txt")], "matrix files although NJOY failed")
        else:
            require(len(os.listdir(os.path.join(d, "log", "boxer"))) == fault[1] + 1, "boxer ran on after its failure")
        ctx.nontrivial()
        return
    require(err is None, "the chain failed: {} {}", err, (err.output or "")[-300:] if err else "")
    mat = c["material"]["mat"]
    want = set()
    for name, (mf, T, per) in tapes.items():
        for mt in full:
            f = "%s_%d_matrix.txt" % (name, mt)
            want.add(f)
            p = os.path.join(out, f)
            require(os.path.exists(p), "no matrix file for tape {} and reaction {}; files: {}", name, mt, sorted(os.listdir(out)))
            tmt = 18 if mt == 1018 else mt
            check_matrix(p, mat, tmt, per.get(tmt), "%s reaction %d" % (name, mt))
        p = os.path.join(out, name)
        require(os.path.exists(p) and open(p).read() == texts[name], "covariance library {} was not collected", name)
    got = {f for f in os.listdir(out) if f.endswith("_matrix.txt")}
    require(got == want, "matrix files {} instead of {}", sorted(got), sorted(want))
    p = os.path.join(out, "njoy_output.txt")
    require(os.path.exists(p) and open(p).read() == "njoy listing\n", "NJOY's listing was not collected")
    if c["use_temp"]:
        left = [f for f in os.listdir(out) if re.match(r"(tape|fort\.)\d+$", f)]
        require(not left, "intermediate files {} with a temporary folder", left)
    decks = sorted(os.listdir(os.path.join(d, "log", "njoy")))
    require(len(decks) == 1, "NJOY ran {} times", len(decks))
    ctx.nontrivial(len(want) > 1)


def f_cli(c, ctx):
    G = int(c["bins"].split("_")[1]) if c["bins"] != "default" else 252
    bounds = [r4(x) for x in BOUNDS[G]]
    d, endf, tapes, texts, nj, bex = setup(c, bounds, ctx)
    out = os.path.join(d, "out")
    m = c["material"]
    zaid = int("%d%03d" % (m["Z"], m["A"]))
    name = (c["store"] + "%dg.h5" % G) if c["store"] else "%s%d_%dg.h5" % (ATOMIC_SYMBOL[m["Z"]], m["A"], G)
    prior = None
    if c["prior"]:
        prior = {"bounds": [float(x) for x in bounds[::-1]], "mean": [1.0 + k for k in range(G)], "std": [0.1] * G, "corr": np.eye(G).tolist()}
        with covstore.build(out, {(99999, 2): prior}, name):
            pass
    args = [sys.executable, "-m", "ASAPy.EndfToCov", endf] + (["-energy_bin_structure", c["bins"]] if c["bins"] != "default" else []) + ["-output_path", out, "-njoy_exec", nj, "-boxer_exec", bex]
    if c["mts"]:
        args += ["-mts"] + [str(x) for x in c["mts"]]
    if c["temp_given"]:
        args += ["-temperature", str(c["temps"][0])]
    if c["store"]:
        args += ["-output_store", c["store"]]
    if c["iwt"]:
        args += ["-njoy_spectrum_weighting", str(c["iwt"])]
    p = subprocess.run(args, cwd=os.path.join(d, "cwd"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, stdin=subprocess.DEVNULL, timeout=300)
    req = c["mts"] if c["mts"] else c["avail"]
    full = list(req) + ([18] if c["chi"] and 18 not in req else []) + ([452] if c["nu"] else []) + ([1018] if c["chi"] else [])
    fault = c["fault"]
    if fault and fault[0] == "boxer" and fault[1] >= len(tapes) * len(full):
        fault = None
    refused = not c["avail"] or not set(req) <= set(c["avail"])
    store = os.path.join(out, name)
    if refused or fault:
        ctx.label("refused" if refused else "fault " + fault[0])
        require(p.returncode != 0, "{} but the command succeeded", "no such covariance data" if refused else fault)
        if refused:
            require(not os.path.isdir(os.path.join(d, "log", "njoy")) or not os.listdir(os.path.join(d, "log", "njoy")), "NJOY ran for refused reactions")
        keys = set()
        if os.path.exists(store):
            with pd.HDFStore(store, "r") as h:
                keys = {k for k in h.keys() if not k.startswith("/99999")}
        require(not keys, "the store got {} although the run failed", sorted(keys))
        ctx.nontrivial()
        return
    require(p.returncode == 0, "the command failed: {}\n{}", p.stderr[-800:], p.stdout[-300:])
    entries = {}
    for mt in req:
        if mt in tapes["covr_%s.txt" % c["temps"][0]][2]:
            entries[mt] = tapes["covr_%s.txt" % c["temps"][0]][2][mt]
    if c["nu"]:
        entries[452] = tapes["covr_nu_%s.txt" % c["temps"][0]][2][452]
    if c["chi"]:
        entries[1018] = tapes["covr_chi_%s.txt" % c["temps"][0]][2][18]
    want = {"/%d/%d/%d/%d/%s" % (z, a, z, a, t) for z, a in [(zaid, x) for x in entries] + ([(99999, 2)] if c["prior"] else []) for t in ("corr", "std_dev")}
    if not want:
        ctx.label("nothing produced")
        return
    require(os.path.exists(store), "store {} was not written: {}", name, [f for f in os.listdir(out) if f.endswith("h5")])
    with pd.HDFStore(store, "r") as h:
        require(set(h.keys()) == want, "keys {} instead of {}", sorted(h.keys()), sorted(want))
        for mt, e in entries.items():
            e = {"bounds": e["bounds"][::-1], "xsec": e["xsec"][::-1], "rel": e["rel"][::-1], "cov": [r[::-1] for r in e["cov"][::-1]]}
            sd, corr, cov = c10.expected(e)
            got = h["%s/%s/%s/%s/std_dev" % (zaid, mt, zaid, mt)]
            require(np.allclose(got[covstore.COLS].values, sd.values, rtol=1e-12, atol=0), "reaction {}: {}\n instead of {}", mt, got.values.tolist(), sd.values.tolist())
            gc = h["%s/%s/%s/%s/corr" % (zaid, mt, zaid, mt)].values
            require(np.allclose(gc, corr, rtol=1e-10, atol=1e-12), "reaction {}: correlations {}\n instead of {}", mt, gc.tolist(), corr.tolist())
        if c["prior"]:
            sd, corr = covstore.frames(prior)
            require(np.array_equal(h["99999/2/99999/2/std_dev"].values, sd.values) and np.array_equal(h["99999/2/99999/2/corr"].values, corr.values), "another nuclide's data changed")
    deck = open(os.path.join(d, "log", "njoy", "deck0")).read()
    from lib import njoydeck
    for mod in njoydeck.parse(deck):
        if mod["module"] in ("groupr", "errorr"):
            require(mod["iwt"] == (c["iwt"] or 6), "weight option {} instead of {}", mod["iwt"], c["iwt"] or 6)
            require(mod["ngroups"] == G, "{} groups", mod["ngroups"])
            require(all(abs(x - y) <= 1e-5 * y for x, y in zip(mod["bounds"], BOUNDS[G])), "group bounds {} instead of {}", mod["bounds"], BOUNDS[G])
    ctx.label("groups %d" % G, "fissionable" if c["nu"] else "not fissionable", "all available" if not c["mts"] else "requested")
    ctx.nontrivial(len(entries) > 0)


@st.composite
def prog_case(draw):
    return {"n_in": draw(st.sampled_from([1, 3, 50, 2000, 20000])), "n_out": draw(st.sampled_from([0, 1, 30, 500, 5000])), "blank": draw(st.sampled_from([0, 1, 2, 7])), "code": draw(st.sampled_from([0, 0, 1, 42])),
            "stderr": draw(st.booleans()), "log": draw(st.booleans()), "prior": draw(st.booleans()), "nl": draw(st.booleans()), "show": draw(st.booleans())}


PROG = r'''#!{py} -SE
import sys
n = 0
data = []
for line in sys.stdin:
    data.append(line)
    if line.strip() == "END":
        break
open("received", "w").write("".join(data))
f = sys.stderr if {err!r} else sys.stdout
for k in range({n_out}):
    f.write("line %d of output\n" % k + ("\n" if {blank} and k % {blank} == 0 else ""))
if not {nl}:
    f.write("last")
f.flush()
sys.exit({code})
'''


def f_prog(c, ctx):
    d = ctx.dir()
    os.mkdir(os.path.join(d, "run"))
    exe = standin.executable(os.path.join(d, "prog"), PROG.format(py=sys.executable, err=c["stderr"], n_out=c["n_out"], code=c["code"], nl=c["nl"], blank=c["blank"]))
    commands = "".join("card %d /\n" % k for k in range(c["n_in"])) + "END\n"
    log = os.path.join(d, "inp.txt") if c["log"] else None
    if log and c["prior"]:
        open(log, "w").write("earlier\n")
    err = None
    try:
        with contextlib.redirect_stdout(io.StringIO()) as shown:
            ec.run_program(commands, exe, c["show"], os.path.join(d, "run"), log)
    except subprocess.CalledProcessError as e:
        err = e
    rec = open(os.path.join(d, "run", "received")).read()
    require(rec == commands, "the program received {} of {} characters", len(rec), len(commands))
    want = "".join("line %d of output\n" % k + ("\n" if c["blank"] and k % c["blank"] == 0 else "") for k in range(c["n_out"])) + ("" if c["nl"] else "last")
    if c["code"]:
        require(err is not None and err.returncode == c["code"], "status {} not reported: {}", c["code"], err)
        require(err.output == want, "output collected: {!r}... instead of {!r}", (err.output or "")[-80:], want[-80:])
    else:
        require(err is None, "error reported for a program that succeeded: {}", err)
    require(shown.getvalue() == (want if c["show"] else ""), "shown: {!r}... instead of {!r}", shown.getvalue()[-80:], want[-80:] if c["show"] else "")
    if log:
        t = open(log).read()
        require(t.startswith("earlier\n" if c["prior"] else "") and commands in t, "input log does not hold the commands")
    ctx.label("code%d" % c["code"])
    ctx.nontrivial(c["n_in"] > 100 or c["code"] != 0)


SUBS = [
    Sub("chain", chain_case(), f_chain, 320, 8000, "several matrix files, or an injected fault"),
    Sub("cli", chain_case(cli=True), f_cli, 72, 1600, "entries stored, or refusal/fault observed"),
    Sub("program", prog_case(), f_prog, 120, 2000, "long input or failing program"),
]
