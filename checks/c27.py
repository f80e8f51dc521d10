import io, os, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy.data.endf import Evaluation
from ASAPy.data.neutron import IncidentNeutron
from lib.core import Sub, require
from lib import endfgen as eg
from lib.endfdata import Writer, head, cont

warnings.simplefilter("ignore")
ASSUMPTIONS = ["evaluations carry the sections ENDF-102 demands together (a scattering radius in MF2, nu-bar with fission, MT18 with partial fission)",
               "products in File 6 are given in their ground state (LIP=0): how the library names others is not specified",
               "photon and activation production cross sections (MF13, MF10) are tabulated linearly"]
SYMBOLS = {26: "Fe", 92: "U", 8: "O", 95: "Am"}
SCHEME = {1: "histogram", 2: "linear-linear", 3: "linear-log", 4: "log-linear", 5: "log-log"}


@st.composite
def reaction(draw, mt):
    r = {"mt": mt, "regions": draw(st.integers(1, 4)), "dist": None}
    s = st.sampled_from
    if mt in (1, 3, 101, 102):
        kinds = [None, None, "6"]
    elif mt == 2:
        kinds = ["4", "4", None, "6"]
    elif 50 < mt < 91:
        kinds = ["4", "4", "6", None]
    else:
        kinds = ["45", "5", "6", None]
    if mt in (19, 20, 21, 38):
        kinds = ["5", "45", None, "4", "6"]
    if mt == 18:
        kinds = ["5", "5", "45", "6"]
    r["dist"] = draw(s(kinds))
    if r["dist"] in ("4", "45"):
        r["mf4"] = draw(s(["leg", "tab", "mixed", "iso"]))
    if r["dist"] in ("5", "45"):
        r["mf5"] = draw(st.lists(s([1, 11, 7, 9, 12, 5]), min_size=1, max_size=3))
    if r["dist"] == "6":
        r["mf6"] = draw(st.lists(st.tuples(s([1, 0, 1000, 1001, 1002, 2004, 26055, 92236]), s([1, 1, 1, 2, 3, 4, 0, 6, 7]), s([1, 2])).map(list), min_size=1, max_size=3))
        if mt in (18, 19, 20, 21, 38):
            r["mf6"] = [p for p in r["mf6"] if p[0] != 1] + [[1, draw(s([1, 7])), draw(s([1, 2]))]]
    if mt not in (1, 3) and draw(st.integers(0, 4)) == 2:
        r["photons"] = [draw(s([12, 13])), draw(st.integers(1, 4))]
        if draw(st.integers(0, 5)) == 2:
            # transition probabilities
            r["cascade"] = r.pop("photons")[1:] + [draw(s([1, 2]))]
    if mt in (102, 16, 103, 5, 107) and draw(st.integers(0, 2)) == 1:
        r["states"] = draw(st.lists(st.tuples(s([26055, 92236, 27060, 95242]), st.integers(0, 2), s([9, 9, 10])).map(list), min_size=1, max_size=3, unique_by=lambda t: (t[0], t[1])))
        if r["dist"] == "6" and draw(st.booleans()):
            # the same product in File 6 and Files 9/10
            r["mf6"] = r["mf6"][:2] + [[26055, draw(s([1, 2, 4, 0])), 1]]
            r["states"] = [x for x in r["states"] if x[0] != 26055][:2] + [[26055, 0, draw(s([9, 10]))]]
        r["sublib"] = draw(st.booleans())
    return r


@st.composite
def case(draw):
    s = st.sampled_from
    c = {"seed": draw(st.integers(0, 10 ** 6)), "Z": draw(s(sorted(SYMBOLS))), "A": draw(s([0, 16, 56, 235, 242])), "liso": draw(s([0, 0, 1, 2])), "nlib": draw(s([0, 2, 99])),
         "awr": draw(s([15.8575, 55.454, 233.0248, 0.99917])), "emax": draw(s([2e7, 1.5e8])), "how": draw(s(["file", "evaluation"])), "other": draw(st.booleans())}
    mts = draw(st.lists(s([2, 1, 102, 51, 52, 91, 16, 4, 103, 107, 5, 22, 90]), min_size=1, max_size=5, unique=True))
    if draw(st.booleans()):
        mts.append(18)
        mts += draw(s([[], [], [19], [19, 20], [19, 20, 21, 38]]))
        c["nu"] = {"prompt": draw(s(["tab", "poly", None])), "total": draw(s(["tab", "poly"])), "delayed": draw(s([None, 6, 6, 1, 8, 3]))}
        if c["nu"]["delayed"]:
            c["nu"]["dkind"] = draw(s(["tab", "poly", "poly0"]))
            c["nu"]["spectra"] = draw(st.booleans())
            c["nu"]["const"] = draw(st.booleans())
            c["nu"]["laws"] = draw(st.lists(s([1, 5, 11, 9]), min_size=8, max_size=8))
    c["reactions"] = [draw(reaction(mt)) for mt in sorted(mts)]
    return c


# ------------------------------------------------------------------ the evaluation
def build(c):
    m = {"mat": 9228, "Z": c["Z"], "A": c["A"], "awr": c["awr"], "lrp": 0, "lfi": int("nu" in c), "nlib": c["nlib"], "nmod": 1, "elis": 0.0, "sta": 0, "lis": c["liso"], "liso": c["liso"],
         "awi": 1.0, "emax": c["emax"], "lrel": 0, "nsub": 10, "nver": 8, "temp": 0.0, "ldrv": 0, "text": [" " * 66] * 5, "sections": []}
    facts = {}
    w = Writer([c["seed"], 41])
    spin, ap = float(w.rs.randint(0, 8)) / 2, w.one(-1, 0)
    eg.set_body(m, 2, 151, [head(m, 0, 0, 1, 0), cont(m["Z"] * 1000.0 + m["A"], 1.0, 0, 0, 1, 0), cont(1e-5, 1e5, 0, 0, 0, 0), cont(spin, ap, 0, 0, 0, 0)])
    if "nu" in c:
        n = c["nu"]
        facts["nu"] = {}
        for mt, key in ((452, "total"), (456, "prompt")):
            if n[key]:
                lnu, lines, d = w.function(n[key], int(w.rs.randint(1, 4)))
                eg.set_body(m, 1, mt, [head(m, 0, lnu)] + lines)
                facts["nu"][key] = d
        if n["delayed"]:
            k = n["delayed"]
            rates = w.pos(k, -3, 1)
            if n["dkind"] == "poly0":
                v = w.one(-3, -1)
                lnu, lines, d = 1, w.list([v]), {"poly": [v]}
            else:
                lnu, lines, d = w.function(n["dkind"], 1)
            if n["dkind"] == "tab":                                                # linear, so that products can be predicted
                lines, d = w.table(1, ylo=-3, yhi=-1, laws=(2,))
            eg.set_body(m, 1, 455, [head(m, 0, lnu)] + w.list(rates) + lines)
            const = n["const"] or n["dkind"] == "poly"
            facts["nu"].update(rates=rates, delayed=d, spectra=None)
            if n["spectra"]:
                body, facts["nu"]["spectra"] = [head(m, 0, 0, k, 0)], []
                for i in range(k):
                    app = w.increasing(int(w.rs.randint(2, 5)))
                    frac = [eg.val(v) for v in w.rs.uniform(0.01, 1, len(app))]
                    if const:
                        frac = [frac[0]] * len(app)
                    _, _, dist = (keep := w.mf5_law(n["laws"][i]))
                    al, a = w.tab1(app, frac, 1, dist["u"], 0.0, 0, n["laws"][i], laws=(2,))
                    skip = 1 + (len(keep[1]["bp"]) * 2 + 5) // 6 + (len(keep[1]["x"]) * 2 + 5) // 6
                    body += al + keep[0][skip:]
                    facts["nu"]["spectra"].append({"app": a, "dist": dist})
                eg.set_body(m, 5, 455, body)
    for r in c["reactions"]:
        mt = r["mt"]
        w = Writer([c["seed"], mt, 42])
        f = facts[mt] = {}
        f["q"] = w.signed(1, 1e7)[0]
        lines, f["xs"] = w.table(r["regions"], n=int(w.rs.randint(2, 12)), c1=w.signed(1, 1e7)[0], c2=f["q"], laws=(2,) if "states" in r or r.get("photons", [0])[0] == 13 else (1, 2, 3, 4, 5))
        if w.rs.randint(3) == 0:
            pass
        eg.set_body(m, 3, mt, [head(m)] + lines)
        if r["dist"] == "6":
            lines, f["mf6"] = w.mf6(m, [tuple(p) for p in r["mf6"]])
            eg.set_body(m, 6, mt, lines)
        else:
            if "mf4" in r:
                lines, f["mf4"] = w.mf4(m, r["mf4"])
                eg.set_body(m, 4, mt, lines)
            if "mf5" in r:
                lines, f["mf5"] = w.mf5(m, r["mf5"])
                eg.set_body(m, 5, mt, lines)
        if "states" in r:
            secs, f["act"] = w.activation(m, [tuple(s) for s in r["states"]], r["sublib"])
            for mf, l in secs.items():
                eg.set_body(m, mf, mt, l)
        if "cascade" in r:
            n, lg = r["cascade"]
            eg.set_body(m, 12, mt, [head(m, 2, lg, n, 0)] + w.list(w.pos((lg + 1) * n, -2, 6), w.one(3, 6), 0.0, int(w.rs.randint(0, 2)), 0, n))
        if "photons" in r:
            lines, f["photons"] = w.photons(m, *r["photons"])
            eg.set_body(m, r["photons"][0], mt, lines)
    return m, facts, spin, ap


# ------------------------------------------------------------------ comparison
def eq(got, want, what, rtol=0.0):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, "{}: {} values instead of {}", what, got.shape, want.shape)
    require(bool(np.all(np.abs(got - want) <= max(rtol, 1e-14) * np.abs(want))), "{}: {} instead of {}", what, got, want)


def kind(got, name, what):
    require(type(got).__name__ == name, "{}: {} instead of {}", what, type(got).__name__, name)


def table(got, d, what, rtol=0.0):
    kind(got, "Tabulated1D", what)
    eq(got.x, d["x"], what + " abscissae")
    eq(got.y, d["y"], what + " values", rtol)
    eq(got.breakpoints, d["bp"], what + " breakpoints")
    eq(got.interpolation, d["it"], what + " interpolation")


def function(got, d, what, rtol=0.0):
    if "poly" in d:
        kind(got, "Polynomial", what)
        eq(got.coef, d["poly"], what, rtol)
    else:
        table(got, d, what, rtol)


def mu(got, d, what):
    if d["kind"] == "iso":
        kind(got, "Uniform", what)
        eq([got.a, got.b], [-1, 1], what)
    elif d["kind"] == "legendre":
        kind(got, "Legendre", what)
        x = np.linspace(-1, 1, 7)
        ref = np.polynomial.legendre.legval(x, [(2 * l + 1) / 2 * a for l, a in enumerate(d["a"])])
        require(bool(np.allclose(got(x), ref, rtol=1e-12, atol=1e-12)), "{}: density {} instead of {}", what, got(x), ref)
    else:
        kind(got, "Tabular", what)
        eq(got.x, d["x"], what + " cosines")
        eq(got.p, d["y"], what + " density")
        want = d.get("name") or SCHEME[d["it"][0]]
        require(got.interpolation == want, "{}: interpolation {} instead of {}", what, got.interpolation, want)


def angle(got, d, what):
    if d is None:
        require(got is None, "{}: an angular distribution that is not given", what)
        return
    require(got is not None, "{}: the angular distribution is missing", what)
    eq(got.energy, d["energy"], what + " energies of the angular distribution")
    require(len(got.mu) == len(d["mu"]), "{}: {} angular distributions", what, len(got.mu))
    for k, (g, x) in enumerate(zip(got.mu, d["mu"])):
        mu(g, x, "%s angular distribution %d" % (what, k))


LF = {1: "ArbitraryTabulated", 5: "GeneralEvaporation", 7: "MaxwellEnergy", 9: "Evaporation", 11: "WattEnergy", 12: "MadlandNix"}


def energy(got, d, what):
    what += " (LF %d)" % d["lf"]
    kind(got, LF[d["lf"]], what)
    if d["lf"] == 1:
        eq(got.energy, d["energy"], what + " incident energies")
        require(len(got.pdf) == len(d["pdf"]), "{}: {} densities", what, len(got.pdf))
        for k, (g, x) in enumerate(zip(got.pdf, d["pdf"])):
            table(g, x, "%s density %d" % (what, k))
        return
    for key in ("theta", "a", "b", "g", "tm"):
        if key in d:
            table(getattr(got, key), d[key], what + " " + key)
    for key in ("efl", "efh") if d["lf"] == 12 else ("u",):
        require(getattr(got, key) == d[key], "{}: {} is {} instead of {}", what, key, getattr(got, key), d[key])


def product6(got, d, what):
    require(got.particle == d["particle"], "{}: {} instead of {}", what, got.particle, d["particle"])
    dist6(got.distribution, d["dist"], what)


def dist6(got, d, what):
    law = d["law"]
    what += " law %d" % law
    if law in (0, 4):
        require(len(got) == 0, "{}: {} distributions although none is given", what, len(got))
        return
    require(len(got) == 1, "{}: {} distributions", what, len(got))
    g = got[0]
    kind(g, {1: {1: "CorrelatedAngleEnergy", 2: "KalbachMann"}[d["lang"]], 2: "UncorrelatedAngleEnergy", 3: "UncorrelatedAngleEnergy", 6: "NBodyPhaseSpace", 7: "LaboratoryAngleEnergy"}[law], what)
    if law == 2:
        angle(g.angle, d, what)
    elif law == 6:
        require((g.total_mass, g.n_particles) == (d["mass"], d["n"]), "{}: {} {} instead of {} {}", what, g.total_mass, g.n_particles, d["mass"], d["n"])
    elif law in (1, 7):
        eq(g.energy, d["energy"], what + " incident energies")
        eq(g.breakpoints, d["bp"], what + " breakpoints")
        eq(g.interpolation, d["it"], what + " interpolation")
    if law == 1:
        require(len(g.energy_out) == len(d["out"]), "{}: {} tables", what, len(g.energy_out))
        for k, o in enumerate(d["out"]):
            t = g.energy_out[k]
            n = "%s table %d" % (what, k)
            eq(t.x, o["x"], n + " energies")
            eq(t.p, o["p"], n + " density")
            require(t.interpolation == SCHEME[d["lep"]], "{}: interpolation {}", n, t.interpolation)
            if d["lang"] == 1:
                require(len(g.mu[k]) == len(o["x"]), "{}: {} angular distributions", n, len(g.mu[k]))
                for j, b in enumerate(o["b"]):
                    mu(g.mu[k][j], {"kind": "legendre", "a": [o["p"][j]] + b}, n + " point %d" % j)
            else:
                for name, col in (("precompound", 0), ("slope", 1)):
                    f = getattr(g, name)[k]
                    eq(f.x, o["x"], n + " " + name + " energies")
                    eq(f.y, [b[col] if col < o["na"] else 0.0 for b in o["b"]], n + " " + name)
    elif law == 7:
        require(len(g.mu) == len(d["mu"]) == len(g.energy_out), "{}: {} cosine tables", what, len(g.mu))
        for k, o in enumerate(d["mu"]):
            eq(g.mu[k].x, o["x"], what + " cosines")
            require(len(g.energy_out[k]) == len(o["out"]), "{}: {} spectra", what, len(g.energy_out[k]))
            for t, x in zip(g.energy_out[k], o["out"]):
                eq(t.x, x["x"], what + " outgoing energies")
                eq(t.p, x["y"], what + " density")


def lin(d, e):
    return np.interp(e, d["x"], d["y"], left=0.0, right=0.0)


def ratio(got, d, xs, what):
    """yield = production / reaction cross section wherever the latter is positive"""
    kind(got, "Tabulated1D", what)
    e = np.union1d(d["x"], xs["x"])
    eq(got.x, e, what + " energies")
    n = lin(xs, e)
    want = np.where(n > 0, lin(d, e) / np.where(n > 0, n, 1), 0.0)
    require(bool(np.allclose(got.y, want, rtol=1e-9, atol=0)), "{}: {} instead of {}", what, got.y, want)
    require(set(got.interpolation) == {2}, "{}: interpolation {}", what, got.interpolation)


def delayed_yield(got, nu, k, what):
    y = nu["delayed"]
    if nu["spectra"] is None:
        function(got, y, what)
        return
    a = nu["spectra"][k]["app"]
    const = len(set(a["y"])) == 1
    if "poly" in y:
        if len(y["poly"]) == 1:
            e = np.array(a["x"])
            require(bool(np.allclose([got(v) for v in e], np.array(a["y"]) * y["poly"][0], rtol=1e-12)), "{}: {} instead of {}", what, [got(v) for v in e], np.array(a["y"]) * y["poly"][0])
        else:
            e = np.array([0.0, 1.0, 1e3, 1e6])
            ref = a["y"][0] * sum(c * e ** i for i, c in enumerate(y["poly"]))
            require(bool(np.allclose([got(v) for v in e], ref, rtol=1e-12)), "{}: {} instead of {} at {}", what, [got(v) for v in e], ref, e)
    else:
        e = np.union1d(y["x"], a["x"]) if not const else np.array(y["x"])
        e = e[e <= min(y["x"][-1], a["x"][-1])]
        ref = lin(y, e) * (a["y"][0] if const else lin(a, e))
        require(bool(np.allclose(got(e), ref, rtol=1e-9)), "{}: {} instead of {} at {}", what, got(e), ref, e)


def check_fission(rx, r, f, facts, what):
    nu = facts["nu"]
    main = "prompt" if "prompt" in nu else "total"
    P = [p for p in rx.products if p.particle == "neutron" and p.emission_mode in ("prompt", "total")]
    require(rx.products and rx.products[0].particle == "neutron" and rx.products[0].emission_mode == main, "{}: the first product is not the {} neutron: {}", what, main, rx.products)
    require(len(P) == 1, "{}: {} prompt/total neutrons", what, len(P))
    function(P[0].yield_, nu[main], what + " %s nu" % main)
    require([p.emission_mode for p in rx.derived_products] == (["total"] if main == "prompt" else []), "{}: derived products {}", what, rx.derived_products)
    if main == "prompt":
        function(rx.derived_products[0].yield_, nu["total"], what + " total nu")
    D = [p for p in rx.products if p.emission_mode == "delayed"]
    require(len(D) == len(nu.get("rates", [])), "{}: {} delayed groups instead of {}", what, len(D), len(nu.get("rates", [])))
    for k, p in enumerate(D):
        n = "%s delayed group %d" % (what, k)
        require(p.decay_rate == nu["rates"][k], "{}: decay constant {} instead of {}", n, p.decay_rate, nu["rates"][k])
        delayed_yield(p.yield_, nu, k, n + " yield")
        if nu["spectra"] is not None:
            require(len(p.distribution) == 1, "{}: {} spectra", n, len(p.distribution))
            energy(p.distribution[0].energy, nu["spectra"][k]["dist"], n)
        else:
            require(len(p.distribution) == 0, "{}: {} spectra although none is given", n, len(p.distribution))
    return P[0], 1 + len(D)


def check_uncorrelated(p, r, f, rx, c, what):
    """neutron of an MF4/MF5 section"""
    if "mf5" in f:
        require(len(p.distribution) == len(f["mf5"]["dist"]) == len(p.applicability), "{}: {} distributions, {} applicabilities instead of {}", what, len(p.distribution), len(p.applicability), len(f["mf5"]["dist"]))
        for k, d in enumerate(f["mf5"]["dist"]):
            n = "%s distribution %d" % (what, k)
            kind(p.distribution[k], "UncorrelatedAngleEnergy", n)
            table(p.applicability[k], f["mf5"]["applicability"][k], n + " applicability")
            energy(p.distribution[k].energy, d, n)
            angle(p.distribution[k].angle, f.get("mf4"), n)
        return
    mt = r["mt"]
    require(len(p.distribution) == (1 if mt == 2 or 51 <= mt < 91 else 0), "{}: {} distributions", what, len(p.distribution))
    for d in p.distribution:
        kind(d, "UncorrelatedAngleEnergy", what)
        angle(d.angle, f["mf4"], what)
        if mt == 2:
            require(d.energy is None, "{}: elastic scattering with an energy distribution", what)
        else:
            kind(d.energy, "LevelInelastic", what)
            A = eg.val(c["awr"])
            eq([d.energy.threshold, d.energy.mass_ratio], [(A + 1) / A * abs(f["q"]), (A / (A + 1)) ** 2], what + " level", 1e-12)


def frame(rx, f, what):
    """the frame of File 6, else that of File 4, else (File 5) the laboratory"""
    if "mf6" in f:
        cm = f["mf6"][0]["lct"] != 1
    elif "mf4" in f:
        cm = f["mf4"]["lct"] == 2
    elif "mf5" in f:
        cm = False
    else:
        return
    require(bool(rx.center_of_mass) == cm, "{}: distributions in the {} system", what, "center-of-mass" if rx.center_of_mass else "laboratory")


def check_reaction(rx, r, f, facts, c):
    mt = r["mt"]
    what = "MT%d" % mt
    require(rx.mt == mt, "{}: reaction number {}", what, rx.mt)
    require(list(rx.xs) == ["0K"], "{}: cross sections at {}", what, list(rx.xs))
    table(rx.xs["0K"], f["xs"], what + " cross section")
    eq(rx.q_value, f["q"], what + ": Q value")
    rest = list(rx.products)
    if mt in (18, 19, 20, 21, 38):
        main, n = check_fission(rx, r, f, facts, what)
        rest = rest[n:]
        src, sr = f, r
        if "mf5" not in f and "mf6" not in f and mt != 18:
            # the spectrum of all fission, with the angles of this one where it has any
            src, sr = facts[18], [x for x in c["reactions"] if x["mt"] == 18][0]
            if "mf4" in f:
                src = dict(src, mf4=f["mf4"])
        if "mf6" in f or "mf6" not in src or "mf4" not in f:
            frame(rx, src, what)
        if "mf6" in src:
            six = [p for p in src["mf6"] if p["particle"] == "neutron"]
            dist6(main.distribution, six[-1]["dist"], what + " neutron")
        else:
            check_uncorrelated(main, sr, src, rx, c, what + " neutron")
        if "mf6" in f:
            others = [p for p in f["mf6"] if p["particle"] != "neutron"]
            require(len(rest) >= len(others), "{}: {} further products instead of {}", what, len(rest), len(others))
            for p, d in zip(rest, others):
                product6(p, d, what)
            rest = rest[len(others):]
    elif "mf6" in f:
        frame(rx, f, what)
        require(len(rest) >= len(f["mf6"]), "{}: {} products instead of {}", what, len(rest), len(f["mf6"]))
        renewed = {name_of(a) for a in f.get("act", [])}
        for p, d in zip(rest, f["mf6"]):
            product6(p, d, "%s product %s" % (what, d["particle"]))
            if d["particle"] not in renewed:
                table(p.yield_, d["yield"], "%s yield of %s" % (what, d["particle"]))
        rest = rest[len(f["mf6"]):]
    elif "mf4" in f or "mf5" in f:
        require(rest and rest[0].particle == "neutron", "{}: no neutron among the products", what)
        check_uncorrelated(rest[0], r, f, rx, c, what + " neutron")
        frame(rx, f, what)
        rest = rest[1:]
    have6 = [d["particle"] for d in f.get("mf6", [])]
    for a in f.get("act", []):
        name = name_of(a)
        n = "%s activation product %s" % (what, name)
        if name in have6:
            p = [p for p in rx.products if p.particle == name][0]
            last = [x for x in f["act"] if name_of(x) == name][-1]
            if last is not a:
                continue
        else:
            require(rest and rest[0].particle == name, "{}: products {} instead", n, [p.particle for p in rest])
            p = rest.pop(0)
        if a["mf"] == 9:
            table(p.yield_, a["table"], n + " yield")
        else:
            ratio(p.yield_, a["table"], f["xs"], n + " yield")
    for k, g in enumerate(f.get("photons", [])):
        n = "%s photon %d" % (what, k)
        require(rest and rest[0].particle == "photon", "{}: products {} instead", n, [p.particle for p in rest])
        p = rest.pop(0)
        if r["photons"][0] == 12:
            table(p.yield_, g["table"], n + " yield")
        else:
            ratio(p.yield_, g["table"], f["xs"], n + " yield")
        require(len(p.distribution) == 1, "{}: {} distributions", n, len(p.distribution))
        e = p.distribution[0].energy
        if g["lf"] == 2:
            kind(e, "DiscretePhoton", n)
            require((e.primary_flag, e.energy, e.atomic_weight_ratio) == (g["primary"], g["energy"], eg.val(c["awr"])), "{}: line {} {} {} instead of {} {}", n, e.primary_flag, e.energy, e.atomic_weight_ratio, g["primary"], g["energy"])
    require(not rest, "{}: products that are not in the evaluation: {}", what, rest)


def name_of(a):
    Z, A = divmod(a["zap"], 1000)
    return {26: "Fe", 92: "U", 27: "Co", 95: "Am"}[Z] + str(A) + ("_e%d" % a["lfs"] if a["lfs"] else "")


def run(c, ctx):
    m, facts, spin, ap = build(c)
    other = dict(m, mat=125, sections=[], bodies={})
    text, _ = eg.tape([m] + ([other] if c["other"] else []))
    path = os.path.join(ctx.dir(), "tape")
    open(path, "w").write(text)
    data = IncidentNeutron.from_endf(path if c["how"] == "file" else Evaluation(path))
    name = SYMBOLS[c["Z"]] + str(c["A"]) + ("_m%d" % c["liso"] if c["liso"] else "")
    got = (data.name, data.atomic_number, data.mass_number, data.metastable, data.atomic_symbol)
    require(got == (name, c["Z"], c["A"], c["liso"], SYMBOLS[c["Z"]]), "target is {} instead of {}", got, name)
    require(data.atomic_weight_ratio == eg.val(c["awr"]), "mass ratio {} instead of {}", data.atomic_weight_ratio, c["awr"])
    require(data.temperatures == ["0K"], "temperatures {}", data.temperatures)
    require(sorted(data.reactions) == [r["mt"] for r in c["reactions"]], "reactions {} instead of {}", sorted(data.reactions), [r["mt"] for r in c["reactions"]])
    require(data.resonance_covariance is None, "resonance covariances that are not in the file")
    rr = list(data.resonances)
    require(len(rr) == 1 and rr[0].target_spin == spin and (rr[0].energy_min, rr[0].energy_max) == (1e-5, 1e5) and rr[0].scattering_radius[0](1.0) == ap, "scattering radius range {}", [vars(x) for x in rr])
    for r in c["reactions"]:
        check_reaction(data.reactions[r["mt"]], r, facts[r["mt"]], facts, c)
    for r in c["reactions"]:
        ctx.label("MF" + (r["dist"] or "3 only"))
        if "photons" in r:
            ctx.label("MF%d" % r["photons"][0])
        if "states" in r:
            ctx.label("activation" + (" of a product in MF6" if {name_of(a) for a in facts[r["mt"]].get("act", [])} & {p["particle"] for p in facts[r["mt"]].get("mf6", [])} else ""))
        if "cascade" in r:
            ctx.label("transition probabilities")
    if "nu" in c:
        ctx.label("fission", "%s delayed groups" % c["nu"]["delayed"])
    ctx.nontrivial(any(r["dist"] for r in c["reactions"]))


SUBS = [Sub("evaluation", case(), run, 2400, 80000, "at least one reaction with angle or energy distributions")]
