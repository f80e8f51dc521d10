import os, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy.data.decay import Decay, DecayMode, FissionProductYields, get_decay_modes
from ASAPy.data.endf import Evaluation
from uncertainties import ufloat
from lib.core import Sub, require, expect_raises
from lib import endfgen as eg
from lib.endfdata import Writer, head, cont

warnings.simplefilter("ignore")
ASSUMPTIONS = ["decay types 1-7 and sequences of them, and 10 (unknown origin), as ENDF-102 allows in MT457 (0, 8 and 9 are radiation types only)",
               "the daughter of spontaneous fission and of a decay of unknown kind is not defined"]
KIND = {1: "beta-", 2: "ec/beta+", 3: "IT", 4: "alpha", 5: "n", 6: "sf", 7: "p"}
CHANGE = {1: (0, 1), 2: (0, -1), 3: (0, 0), 4: (-4, -2), 5: (-1, 0), 7: (-1, -1)}
RAD = {0: "gamma", 1: "beta-", 2: "ec/beta+", 4: "alpha", 5: "n", 6: "sf", 7: "p", 8: "e-", 9: "xray"}
DISC = {0: None, 1: "allowed", 2: "first-forbidden", 3: "second-forbidden"}
SYM = ("n H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho "
       "Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn").split()
ENERGIES = ["light", "electromagnetic", "heavy", "beta-", "beta+", "auger", "conversion", "gamma", "xray", "Bremsstrahlung", "annihilation", "alpha", "recoil", "SF", "neutron", "proton", "neutrino"]
seq = st.one_of(st.just([10]), st.lists(st.integers(1, 7), min_size=1, max_size=1), st.lists(st.integers(1, 7), min_size=1, max_size=1), st.lists(st.integers(1, 7), min_size=2, max_size=4),
                st.tuples(st.sampled_from([1, 2]), st.lists(st.sampled_from([4, 5, 7]), min_size=1, max_size=5)).map(lambda t: [t[0]] + t[1]))


def rtyp(s):
    return 10.0 if s == [10] else float("%d.%s" % (s[0], "".join(map(str, s[1:])) or "0"))


def names(s):
    return ["unknown"] if s == [10] else [KIND[k] for k in s]


@st.composite
def spectrum(draw):
    lcon = draw(st.sampled_from([0, 0, 1, 2]))
    return {"lcon": lcon, "ner": draw(st.sampled_from([1, 2, 3, 5])) if lcon != 1 else 0, "nt": draw(st.sampled_from([6, 8, 12])), "lcov": draw(st.sampled_from([0, 1])), "npp": draw(st.integers(1, 5)), "from": draw(st.lists(seq, min_size=6, max_size=6))}


@st.composite
def decay_case(draw):
    Z = draw(st.integers(3, 104))
    return {"seed": draw(st.integers(0, 10 ** 6)), "Z": Z, "A": draw(st.integers(max(2 * Z, 8), 3 * Z + 4)), "liso": draw(st.sampled_from([0, 0, 1, 2])), "lis": draw(st.integers(0, 5)),
            "stable": draw(st.sampled_from([False, False, False, True])), "full": draw(st.booleans()), "spin": draw(st.sampled_from([0.0, 0.5, 1.5, 3.0, -77.777])), "parity": draw(st.sampled_from([-1.0, 0.0, 1.0])),
            "modes": draw(st.lists(st.tuples(seq, st.sampled_from([0, 0, 1, 2])), min_size=1, max_size=5)), "spectra": draw(st.dictionaries(st.sampled_from(sorted(RAD)).map(str), spectrum(), max_size=4)),
            "byname": draw(st.booleans()), "second": draw(st.integers(0, 3)) == 2}


def material(c, **kw):
    m = {"mat": 3025, "Z": c["Z"], "A": c["A"], "awr": eg.val(c["A"] * 0.99), "lrp": -1, "lfi": 0, "nlib": 0, "nmod": 1, "elis": 0.0, "sta": 1, "lis": c["lis"], "liso": c["liso"],
         "awi": 0.0, "emax": 0.0, "lrel": 0, "nsub": 4, "nver": 8, "temp": 0.0, "ldrv": 0, "text": [" " * 66] * 5, "sections": []}
    m.update(kw)
    return m


def nuc(Z, A, m):
    return "%s%d%s" % (SYM[Z], A, "_m%d" % m if m else "")


def uf(got, want, what):
    require(hasattr(got, "nominal_value"), "{}: no uncertainty in {}", what, got)
    require(got.nominal_value == want[0] and got.std_dev == want[1], "{}: {}+-{} instead of {}+-{}", what, got.nominal_value, got.std_dev, *want)


def write(c, m):
    w = Writer([c["seed"], 81])
    u = lambda lo=-3, hi=3: [w.one(lo, hi), w.one(lo - 2, hi - 2)]
    nsp = len(c["spectra"])
    lines = [cont(c["Z"] * 1000.0 + c["A"], m["awr"], c["lis"], c["liso"], int(c["stable"]), nsp if not c["stable"] else 0)]
    x = {}
    if c["stable"]:
        lines += w.list([0.0] * 6, 0.0, 0.0) + w.list([0.0] * 6, c["spin"], c["parity"])
        eg.set_body(m, 8, 457, lines)
        return x
    x["half"] = u(-6, 15)
    x["energies"] = [u(2, 7) for _ in range(17 if c["full"] else 3)]
    lines += w.list([v for p in x["energies"] for v in p], x["half"][0], x["half"][1])
    x["modes"] = [[s, rfs, u(3, 7), u(-4, 0)] for s, rfs in c["modes"]]
    lines += w.list([v for s, rfs, e, b in x["modes"] for v in [rtyp(s), float(rfs)] + e + b], c["spin"], c["parity"], 0, 0, len(x["modes"]))
    x["spectra"] = {}
    for k, s in c["spectra"].items():
        k = int(k)
        y = {"disc": u(-3, 1), "avg": u(2, 6), "cont": u(-3, 0), "lines": []}
        lines += w.list(y["disc"] + y["avg"] + y["cont"], 0.0, float(k), s["lcon"], 0, s["ner"])
        for j in range(s["ner"]):
            nt = s["nt"] if k == 0 else 6
            e, v = u(2, 6), [u(-4, 2) for _ in range((nt - 2) // 2)]
            d = int(w.rs.randint(0, 4))
            lines += w.list([rtyp(s["from"][j]), float(d)] + [q for p in v for q in p], e[0], e[1])
            y["lines"].append((e, s["from"][j], d, v))
        if s["lcon"]:
            n = int(w.rs.randint(2, 9))
            l, y["tab"] = w.tab1(w.increasing(n, 1.0, 1e6), w.pos(n, -8, -4), int(w.rs.randint(1, 3)), rtyp(s["from"][5]), 0.0, 0, s["lcov"])
            lines += l
            if s["lcov"]:
                y["cov"] = list(zip(w.increasing(max(2, s["npp"]), 1.0, 1e6), w.pos(max(2, s["npp"]), -3, 0)))
                lines += w.list([v for p in y["cov"] for v in p], 0.0, 0.0, 0, 2, len(y["cov"]))
        x["spectra"][k] = y
    eg.set_body(m, 8, 457, lines)
    return x


def run_decay(c, ctx):
    m = material(c)
    x = write(c, m)
    path = os.path.join(ctx.dir(), "decay")
    other = material(c, mat=3099, Z=2, A=6)
    o = dict(c, Z=2, A=6, seed=c["seed"] + 1)
    write(o, other)
    open(path, "w").write(eg.tape([m, other] if c["second"] else [m])[0])
    d = Decay.from_endf(path) if c["byname"] else Decay(Evaluation(path))
    n = d.nuclide
    require((n["atomic_number"], n["mass_number"], n["isomeric_state"]) == (c["Z"], c["A"], c["liso"]), "nuclide {}", n)
    require(n["name"] == nuc(c["Z"], c["A"], c["liso"]) and n["mass"] == m["awr"] and n["excited_state"] == c["lis"] and bool(n["stable"]) == c["stable"], "nuclide {}", n)
    require(n["spin"] == (None if c["spin"] == -77.777 else c["spin"]) and n["parity"] == c["parity"], "spin/parity {}", n)
    lam = d.decay_constant
    if c["stable"]:
        require(d.half_life.nominal_value == float("inf") and lam.nominal_value == 0.0 and not d.modes and not d.spectra, "stable nuclide decays: {}", d.half_life)
        ctx.label("stable")
        return
    uf(d.half_life, x["half"], "half-life")
    require(np.isclose(lam.nominal_value, np.log(2) / x["half"][0], rtol=1e-12, atol=0) and np.isclose(lam.std_dev, np.log(2) / x["half"][0] ** 2 * x["half"][1], rtol=1e-12, atol=0), "decay constant {}", lam)
    require(set(d.average_energies) == set(ENERGIES[:len(x["energies"])]), "average energies {}", sorted(d.average_energies))
    for k, v in zip(ENERGIES, x["energies"]):
        uf(d.average_energies[k], v, "average energy of " + k)
    require(len(d.modes) == len(x["modes"]), "{} modes", len(d.modes))
    for got, (s, rfs, e, b) in zip(d.modes, x["modes"]):
        require(list(got.modes) == names(s), "mode {} read as {}", rtyp(s), got.modes)
        uf(got.energy, e, "decay energy")
        uf(got.branching_ratio, b, "branching ratio")
        require(got.parent == n["name"], "parent {}", got.parent)
        if all(k in CHANGE for k in s):
            Z, A = c["Z"] + sum(CHANGE[k][1] for k in s), c["A"] + sum(CHANGE[k][0] for k in s)
            if Z >= 1 and A >= 1:
                require(got.daughter == nuc(Z, A, rfs), "{} of {} gives {}", got.modes, got.parent, got.daughter)
    require(set(d.spectra) == {RAD[k] for k in x["spectra"]}, "spectra {}", sorted(d.spectra))
    for k, y in x["spectra"].items():
        s, g = c["spectra"][str(k)], d.spectra[RAD[k]]
        require(g["type"] == RAD[k] and g["continuous_flag"] == {0: "discrete", 1: "continuous", 2: "both"}[s["lcon"]], "spectrum {}", g["continuous_flag"])
        uf(g["discrete_normalization"], y["disc"], "discrete normalisation")
        uf(g["energy_average"], y["avg"], "average energy")
        uf(g["continuous_normalization"], y["cont"], "continuous normalisation")
        require(("discrete" in g) == (s["lcon"] != 1) and ("continuous" in g) == (s["lcon"] != 0), "parts of the spectrum {}", sorted(g))
        if "discrete" in g:
            require(len(g["discrete"]) == len(y["lines"]), "{} lines", len(g["discrete"]))
            for q, (e, fr, t, v) in zip(g["discrete"], y["lines"]):
                uf(q["energy"], e, "line energy")
                uf(q["intensity"], v[0], "line intensity")
                require(list(q["from_mode"]) == names(fr) and q["type"] == DISC[t], "line {}", q)
                more = {2: ["positron_intensity"], 0: ["internal_pair", "total_internal_conversion", "k_shell_conversion", "l_shell_conversion"]}.get(k, [])[:len(v) - 1]
                if k == 0 and len(v) == 3:
                    more = more[:2]
                require(set(q) == {"energy", "intensity", "from_mode", "type"} | set(more), "line of {} has {}", RAD[k], sorted(q))
                for name, p in zip(more, v[1:]):
                    uf(q[name], p, name)
        if "continuous" in g:
            f, t = g["continuous"]["probability"], y["tab"]
            require(list(f.x) == t["x"] and list(f.y) == t["y"] and list(f.breakpoints) == t["bp"] and list(f.interpolation) == t["it"], "continuous spectrum {}", f)
            require(list(g["continuous"]["type"]) == names(s["from"][5]), "continuous spectrum from {}", g["continuous"]["type"])
            if s["lcov"]:
                for again in range(2):
                    require([tuple(p) for p in g["continuous"]["covariance"]] == y["cov"], "covariance of the spectrum (read {})", again)
                require(g["continuous"]["covariance_lb"] == 2, "LB")
    ctx.label("modes %d" % max(len(s) for s, *_ in x["modes"]), "spectra %d" % len(x["spectra"]), *(["both"] if any(s["lcon"] == 2 for s in c["spectra"].values()) else []))
    ctx.nontrivial(len(x["spectra"]) > 0 and max(len(s) for s, *_ in x["modes"]) > 1)


@st.composite
def fpy_case(draw):
    ne = draw(st.integers(1, 4))
    prods = st.lists(st.tuples(st.integers(1, 72), st.integers(1, 172), st.sampled_from([0, 0, 0, 1, 2])), min_size=1, max_size=12, unique=True)
    return {"seed": draw(st.integers(0, 10 ** 6)), "Z": draw(st.integers(90, 100)), "A": draw(st.integers(225, 256)), "liso": draw(st.sampled_from([0, 0, 1])), "lis": 0, "ind": [draw(prods) for _ in range(ne)],
            "cum": [draw(prods) for _ in range(ne)], "nsub": draw(st.sampled_from([11, 5])), "which": draw(st.sampled_from(["both", "both", "both", "454", "459"])), "byname": draw(st.booleans())}


def run_fpy(c, ctx):
    m = material(c, nsub=c["nsub"])
    w = Writer([c["seed"], 82])
    ne = len(c["ind"])
    energies = w.increasing(ne, 0.0253, 1.4e7) if ne > 1 else [0.0 if c["nsub"] == 5 else 0.0253]
    want = {}
    for mt, key, attr in ((454, "ind", "independent"), (459, "cum", "cumulative")):
        if c["which"] not in ("both", str(mt)):
            continue
        lines = [head(m, ne)]
        want[attr] = []
        for k, ps in enumerate(c[key]):
            y = {tuple(p): (w.one(-12, 0), w.one(-14, -2)) for p in map(tuple, ps)}
            lines += w.list([v for (z, a, s), p in y.items() for v in [z * 1000.0 + a, float(s)] + list(p)], energies[k], 0.0, 2 if k else ne - 1, 0, len(ps))
            want[attr].append({nuc(*p): v for p, v in y.items()})
        eg.set_body(m, 8, mt, lines)
    path = os.path.join(ctx.dir(), "fpy")
    open(path, "w").write(eg.tape([m])[0])
    f = FissionProductYields.from_endf(path) if c["byname"] else FissionProductYields(Evaluation(path))
    require(list(f.energies) == energies, "energies {} instead of {}", f.energies, energies)
    require(f.nuclide == {"name": nuc(c["Z"], c["A"], c["liso"]), "atomic_number": c["Z"], "mass_number": c["A"], "isomeric_state": c["liso"]}, "nuclide {}", f.nuclide)
    for attr, ys in want.items():
        got = getattr(f, attr)
        require(len(got) == len(ys), "{}: {} energies", attr, len(got))
        for g, y in zip(got, ys):
            require(set(g) == set(y), "{} of {}", attr, sorted(set(g) ^ set(y)))
            for k in y:
                uf(g[k], y[k], "%s yield of %s" % (attr, k))
    ctx.label("energies %d" % ne, c["which"])
    ctx.nontrivial(ne > 1)


def run_mode(c, ctx):
    s = c["s"]
    require(list(get_decay_modes(rtyp(s))) == names(s), "{} read as {}", rtyp(s), get_decay_modes(rtyp(s)))
    Z, A = c["Z"], c["A"]
    make = lambda e=(1e6, 1e3), b=(0.5, 0.1): DecayMode(nuc(Z, A, c["m"]), names(s), c["rfs"], ufloat(*e), ufloat(*b))
    d = make()
    if all(k in CHANGE for k in s):
        Z2, A2 = Z + sum(CHANGE[k][1] for k in s), A + sum(CHANGE[k][0] for k in s)
        if Z2 >= 1 and A2 >= 1:
            require(d.daughter == nuc(Z2, A2, c["rfs"]), "{} of {} gives {}", d.modes, d.parent, d.daughter)
    expect_raises(lambda: make(e=(-1.0, 0.1)), "a negative decay energy")
    expect_raises(lambda: make(b=(-0.1, 0.1)), "a negative branching ratio")
    ctx.nontrivial(len(s) > 1)


SUBS = [
    Sub("decay", decay_case(), run_decay, 1500, 60000, "a decay in several steps and at least one spectrum"),
    Sub("yields", fpy_case(), run_fpy, 800, 30000, "several incident energies"),
    Sub("modes", st.fixed_dictionaries({"s": seq, "Z": st.integers(5, 104), "A": st.integers(15, 260), "m": st.sampled_from([0, 1, 2]), "rfs": st.sampled_from([0, 1, 2])}), run_mode, 500, 20000, "a decay in several steps"),
]
