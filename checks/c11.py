import os
import numpy as np
from hypothesis import strategies as st
from ASAPy import njoy
from lib.core import Sub, require, Violation, expect_raises
from lib import gens as g
from lib import endfgen, njoydeck

ASSUMPTIONS = ["NJOY is not available: decks are judged by an own reader of the NJOY2016 input descriptions and a model of the tapes"]
BUILTIN = {3: "energy_groups_3", 44: "energy_groups_44", 56: "energy_groups_56", 238: "energy_groups_238", 252: "energy_groups_252"}


@st.composite
def temperature(draw):
    k = draw(st.sampled_from(["int", "half", "any"]))
    i = draw(st.integers(1, 3000))
    return i if k == "int" else i + 0.5 if k == "half" else i + draw(st.integers(0, 9)) / 10


@st.composite
def bounds(draw, lo=1, hi=8):
    n = draw(st.integers(lo, hi))
    e = [draw(st.sampled_from([1e-5, 1.0, 0.0253, 12.5]))]
    for _ in range(n):
        e.append(e[-1] * draw(st.sampled_from([1.0001234, 1.5, 2.0, 10.0, 37.123456])) + draw(st.sampled_from([0.0, 1.0])))
    return e


@st.composite
def options(draw):
    c = {"material": draw(endfgen.material(neutron=True)), "error": draw(st.sampled_from([0.001, 0.01, 0.005, 1e-4]))}
    n = draw(st.integers(1, 4))
    ts = []
    for _ in range(n):
        t = draw(temperature())
        if all(abs(t - u) > 0.2 for u in ts):
            ts.append(t)
    c["temps"] = ts if draw(st.integers(0, 9)) != 5 else None
    for k in ("broadr", "heatr", "purr", "acer"):
        c[k] = draw(st.integers(0, 9)) not in (4, 7, 9)
    c["errorr"] = draw(st.integers(0, 9)) not in (4, 5)
    c["groups"] = draw(st.one_of(bounds(), bounds(), st.sampled_from(sorted(BUILTIN))))
    c["as_numpy"] = draw(st.booleans())
    c["nu"], c["chi"] = draw(st.booleans()), draw(st.booleans())
    c["mts"] = draw(st.one_of(st.none(), st.just([]), st.lists(st.sampled_from([1, 2, 4, 16, 18, 51, 102, 103, 107, 452]), min_size=1, max_size=4, unique=True)))
    c["iwt"] = draw(st.sampled_from([9, 6, 3, 2, 4, 5, 7, 8, 10, 11, 12, 1, 1, 1]))
    k = draw(st.integers(2, 6))
    e = draw(st.lists(st.integers(1, 10 ** 7), min_size=k, max_size=k, unique=True))
    c["flux"] = [x for p in zip(sorted(float(v) * 1.000001 for v in e), [draw(g.log_float(-3, 3)) for _ in e]) for x in p]
    c["pendf"] = draw(st.one_of(st.none(), st.sampled_from(["pendf", "out.pendf"])))
    return c


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-6 * abs(y) + 1e-300 for x, y in zip(a, b))


def f_deck(c, ctx):
    d = ctx.dir()
    os.chdir(d)
    text, _ = endfgen.tape([c["material"]])
    with open("eval.endf", "w") as f:
        f.write(text)
    groups = list(getattr(njoy, BUILTIN[c["groups"]])) if isinstance(c["groups"], int) else [float(x) for x in c["groups"]]
    if c["as_numpy"]:
        gp = np.array(groups)
    else:
        gp = groups
    given = [float(x) for x in groups]
    kw = dict(temperatures=c["temps"], error=c["error"], broadr=c["broadr"], heatr=c["heatr"], purr=c["purr"], acer=c["acer"], errorr=c["errorr"], cov_energy_groups=gp,
              nu=c["nu"], chi=c["chi"], covr_plot_mts=c["mts"], iwt_fluxweight=c["iwt"], user_flux_weight_vals=c["flux"], pendf=c["pendf"])
    if c["temps"] is None:
        del kw["temperatures"]
    commands, tapein, tapeout = njoy.make_njoy_run("eval.endf", **kw)
    ctx.label("temps%d" % len(c["temps"] or [1]), *[k for k in ("broadr", "heatr", "purr", "acer", "errorr", "nu", "chi") if c[k]])
    ctx.nontrivial(c["errorr"] or c["acer"])
    check_deck(c, commands, tapein, tapeout, given, "eval.endf")
    require(open("njoy_in.txt").read().split() == commands.split(), "the written deck is not the returned one")
    require([float(x) for x in gp] == given, "the group bounds handed in were modified")
    if not c["as_numpy"] and isinstance(c["groups"], int):
        require(list(getattr(njoy, BUILTIN[c["groups"]])) == given, "the built-in groups were modified")


def check_deck(c, commands, tapein, tapeout, groups, filename):
    temps = [float(t) for t in (c["temps"] or [293.6])]
    mat = c["material"]["mat"]
    require({int(k): str(v) for k, v in tapein.items()} == {20: filename} or len(tapein) == 1 and str(list(tapein.values())[0]) == filename,
            "input tapes {}", tapein)
    nendf = list(tapein)[0]
    try:
        mods = njoydeck.parse(commands)
        tapes = njoydeck.dataflow(mods, {nendf: "endf"})
    except njoydeck.DeckError as e:
        raise Violation("the deck is not valid: %s\n%s" % (e, commands))
    except (ValueError, IndexError) as e:
        raise Violation("the deck cannot be read: %s\n%s" % (e, commands))
    names = [m["module"] for m in mods]

    def count(n):
        return names.count(n)
    require(count("reconr") == 1, "reconr runs {} times", count("reconr"))
    for k in ("broadr", "heatr", "purr"):
        require(count(k) == (1 if c[k] else 0), "{} is {} but runs {} times", k, c[k], count(k))
    for i, m in enumerate(mods):
        w = "%s (module %d)" % (m["module"], i + 1)
        if m["module"] != "viewr":
            require(m["mat"] == mat, "{}: material {} instead of {}", w, m["mat"], mat)
        if "temps" in m:
            require(close(m["temps"], temps), "{}: temperatures {} instead of {}", w, m["temps"], temps)
        if "err" in m:
            require(abs(m["err"] - c["error"]) < 1e-12, "{}: tolerance {} instead of {}", w, m["err"], c["error"])
        if m["module"] in ("groupr", "errorr"):
            require(m["ign"] == 1, "{}: group option {}", w, m["ign"])
            require(m["ngroups"] == len(groups) - 1 and close(m["bounds"], groups), "{}: group bounds {} instead of {}", w, m.get("bounds"), groups)
            require(m["iwt"] == c["iwt"], "{}: weight option {} instead of {}", w, m["iwt"], c["iwt"])
            if c["iwt"] == 1:
                require(m["flux"]["int"] == 2 and close(m["flux"]["xy"], [float(x) for x in c["flux"]]), "{}: weight function {}", w, m["flux"])
        # what the module works on
        if m["module"] in ("groupr", "errorr", "heatr", "purr", "acer"):
            for kind, t in m["reads"]:
                if kind == "pendf":
                    h = [x["module"] for x in tapes[t]["history"]]
                    if c["broadr"]:
                        require("broadr" in h, "{} reads tape {}, which is not broadened", w, t)
                    if m["module"] in ("purr", "acer") and c["heatr"]:
                        require("heatr" in h, "{} reads tape {}, which has no heating", w, t)
                    if m["module"] == "acer" and c["purr"]:
                        require("purr" in h, "{} reads tape {}, which has no probability tables", w, t)
    if c["heatr"]:
        require(sorted([m for m in mods if m["module"] == "heatr"][0]["mtk"]) == [302, 318, 402], "heatr partials")
    # outputs
    outs = {}
    for t, f in tapeout.items():
        require(t in tapes and tapes[t]["by"] is not None, "output tape {} ({}) is not written by any module", t, f)
        outs.setdefault(tapes[t]["kind"], []).append((t, str(f)))
    require(len(set(map(str, tapeout.values()))) == len(tapeout), "two tapes go to one file: {}", tapeout)
    nt = len(temps)
    want = {}
    if c["acer"]:
        want["ace"] = want["xsdir"] = nt
        got = sorted(tapes[t]["by"]["temp"] for t, f in outs.get("ace", []))
        require(close(got, sorted(temps)), "ACE files for temperatures {} instead of {}", got, temps)
        require(len({m["suffix"] for m in mods if m["module"] == "acer"}) == nt, "ACE tables share a suffix")
        for kind in ("ace", "xsdir"):
            for t, f in outs[kind]:
                require(f.startswith(kind) and ("%.1f" % tapes[t]["by"]["temp"]) in f, "{} file of temperature {} is called {}", kind, tapes[t]["by"]["temp"], f)
    if c["pendf"]:
        want["pendf"] = 1
        require([f for t, f in outs.get("pendf", [])] == [c["pendf"]], "pendf file {}", outs.get("pendf"))
    covs = []
    if c["errorr"]:
        covs = [(33.0, t) for t in temps] + ([(31.0, None)] if c["nu"] else []) + ([(35.0, None)] if c["chi"] else [])
        want["boxer"] = len(covs)
        eps = len(temps) if c["mts"] else 0
        want["eps"] = eps + int(c["nu"]) + int(c["chi"])
        got = []
        for t, f in outs.get("boxer", []):
            m = tapes[t]["by"]
            require(m["matype"] == 3, "the library is not a covariance library (matype {})", m["matype"])
            require(m["cases"] == [[mat, 0, 0, 0]], "covr cases {}", m["cases"])
            e = [x for x in tapes[t]["history"] if x["module"] == "errorr"]
            require(len(e) == 1, "covariance tape {} does not come from one errorr run", t)
            e = e[0]
            if e["mfcov"] == 33:
                require(f.startswith("covr") and "nu" not in f and "chi" not in f and any(str(x) in f for x in (c["temps"] or [293.6]) if abs(float(x) - e["temp"]) < 1e-6), "covariances at {} K go to {}", e["temp"], f)
                got.append((33.0, e["temp"]))
            else:
                require({31: "nu", 35: "chi"}.get(e["mfcov"], "?") in f, "MF{} covariances go to {}", e["mfcov"], f)
                require(any(abs(e["temp"] - x) < 1e-6 for x in temps), "MF{} covariances at {} K", e["mfcov"], e["temp"])
                gr = [x for x in tapes[t]["history"] if x["module"] == "groupr"]
                for r in gr[0]["rxn"]:
                    need = {(3, 452), (3, 18), (5, 18)} if e["mfcov"] == 35 else {(3, 452)}
                    require(need <= set(r), "group data for MF{} lacks {}: {}", e["mfcov"], need, r)
                got.append((float(e["mfcov"]), None))
        require(sorted(got, key=str) == sorted(covs, key=str), "covariance outputs {} instead of {}", got, covs)
        for m in mods:
            if m["module"] == "errorr" and m["mfcov"] == 33:
                gr = [x for kind, t in m["reads"] if kind == "gendf" for x in tapes[t]["history"] if x["module"] == "groupr"]
                require(len(gr) == 1 and all((3, None) in r for r in gr[0]["rxn"]), "cross section covariances without all group cross sections")
        if c["mts"]:
            plots = [m for m in mods if m["module"] == "covr" and any(k == "plot" for k, _ in m["writes"])]
            xs = [m for m in plots if [x for x in tapes[m["writes"][0][1]]["history"] if x["module"] == "errorr"][0]["mfcov"] == 33]
            require(len(xs) == nt and all(m["cases"] == [[mat, x, mat, x] for x in c["mts"]] for m in xs), "plotted reactions are not the requested ones")
    else:
        require("errorr" not in names and "covr" not in names, "covariance modules although not requested")
    for k in set(want) | set(outs):
        require(len(outs.get(k, [])) == want.get(k, 0), "{} output files of kind {} instead of {}: {}", len(outs.get(k, [])), k, want.get(k, 0), tapeout)


@st.composite
def case_groups(draw):
    return {"n": draw(st.sampled_from(sorted(BUILTIN)))}


def f_groups(c, ctx):
    e = [float(x) for x in getattr(njoy, BUILTIN[c["n"]])]
    require(len(e) == c["n"] + 1, "{} has {} groups", BUILTIN[c["n"]], len(e) - 1)
    require(all(a < b for a, b in zip(e, e[1:])), "{} is not strictly increasing", BUILTIN[c["n"]])
    require(abs(e[0] - 1e-5) < 1e-9 and abs(e[-1] - 2e7) < 1, "{} spans {} to {} eV", BUILTIN[c["n"]], e[0], e[-1])
    ctx.nontrivial()


@st.composite
def case_refuse(draw):
    return {"what": draw(st.sampled_from(["groups", "flux"])), "material": draw(endfgen.material(neutron=True)), "acer": draw(st.booleans()), "nu": draw(st.booleans())}


def f_refuse(c, ctx):
    os.chdir(ctx.dir())
    with open("e", "w") as f:
        f.write(endfgen.tape([c["material"]])[0])
    ctx.nontrivial()
    if c["what"] == "groups":
        expect_raises(lambda: njoy.make_njoy_run("e", errorr=True, acer=c["acer"], nu=c["nu"]), "covariances without a group structure")
    else:
        expect_raises(lambda: njoy.make_njoy_run("e", errorr=True, acer=c["acer"], nu=c["nu"], cov_energy_groups=[1.0, 2.0, 3.0], iwt_fluxweight=1), "user weighting without a spectrum")


SUBS = [
    Sub("deck", options(), f_deck, 2400, 60000, "covariances or ACE files are made"),
    Sub("groups", case_groups(), f_groups, 40, 40, "always"),
    Sub("refuse", case_refuse(), f_refuse, 80, 400, "always"),
]
