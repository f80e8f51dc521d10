import os, pathlib, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy.data import ace
from ASAPy.data.neutron import IncidentNeutron
from lib.core import Sub, Violation, require
from lib import acegen

warnings.simplefilter("ignore")
R = range
PARTS = {1: [2, 3], 3: [4, 5, 11, 16, 17, *R(22, 26), 27, *R(28, 31), *R(32, 38), 41, 42, 44, 45, 152, 153, 154, *R(156, 182), 183, *R(184, 191), *R(194, 197), *R(198, 201)],
         4: R(50, 92), 16: R(875, 892), 18: [19, 20, 21, 38], 27: [18, 101],
         101: [*R(102, 110), *R(111, 118), 155, 182, 191, 192, 193, 197], 103: R(600, 650), 104: R(650, 700), 105: R(700, 750), 106: R(750, 800), 107: R(800, 850)}
SYMBOL = {92: "U", 1: "H", 26: "Fe", 94: "Pu", 8: "O", 13: "Al"}


def components(mt, have):
    out = [c for p in PARTS.get(mt, []) for c in components(p, have)]
    return out or ([mt] if mt in have else [])


def eq(got, want, what, rtol=0.0):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, "{}: {} values instead of {}", what, got.shape, want.shape)
    bad = np.abs(got - want) > max(rtol, 1e-14) * np.abs(want)      # the last digit is arithmetic's
    require(not bad.any(), "{}:\n{}\ninstead of\n{}", what, got, want)


def tab1(got, x, y, what, bp=None, it=None, rtol=0.0):
    eq(got.x, x, what + " abscissae", rtol and 1e-15)
    eq(got.y, y, what + " values", rtol)
    eq(got.breakpoints, bp if bp is not None else [len(x)], what + " breakpoints")
    eq(got.interpolation, it if it is not None else [2], what + " interpolation")


def density(got, x, p, c, hist, what):
    eq(got.x, x, what + " points", 1e-15)
    eq(got.p, p, what + " density", 1e-15)
    eq(got.c, c, what + " cumulative")
    require(got.interpolation == ("histogram" if hist else "linear-linear"), "{}: interpolation {}", what, got.interpolation)


def mu(got, d, what):
    kind = type(got).__name__
    if d is None or d.get("kind") == "iso":
        require(kind == "Uniform" and got.a == -1 and got.b == 1, "{}: {} instead of isotropic", what, got)
    elif d.get("kind") == "bins":
        c = np.array(d["mu"])
        density(got, c, np.append(1 / 32 / np.diff(c), 0), np.arange(33) / 32, True, what)
    else:
        density(got, d["x"], d["p"], d["c"], d["hist"], what)


def angle(got, d, what):
    if d is None:
        require(got is None, "{}: an angular distribution that is not in the file", what)
        return
    require(got is not None, "{}: the angular distribution is missing", what)
    eq(got.energy, d["energy"], what + " angle energies", 1e-15)
    require(len(got.mu) == len(d["mu"]), "{}: {} angular distributions", what, len(got.mu))
    for k, (g, w) in enumerate(zip(got.mu, d["mu"])):
        mu(g, w, what + " angle %d" % k)


def outgoing(got, d, what):
    x, p, c, nd = np.array(d["x"]) * 1e6, np.array(d["p"]), np.array(d["c"]), d["nd"]
    if nd:
        require(type(got).__name__ == "Mixture", "{}: {} instead of lines and continuum", what, type(got).__name__)
        w = min(sum(d["p"][:nd]), 1.0)
        eq(got.probability, [w, 1 - w], what + " mixture", 1e-12)
        eq(got.distribution[0].x, x[:nd], what + " lines", 1e-15)
        eq(got.distribution[0].p, p[:nd], what + " line probabilities")
        eq(got.distribution[0].c, c[:nd], what + " line cumulative")
        got = got.distribution[1]
    density(got, x[nd:], p[nd:] / 1e6, c[nd:], d["hist"], what)


def law(got, d, a, what, t, q):
    n, kind = d["law"], type(got).__name__
    what += " law %d" % n
    if n in (44, 61):
        require(kind == {44: "KalbachMann", 61: "CorrelatedAngleEnergy"}[n], "{}: {}", what, kind)
    elif n == 66:
        require(kind == "NBodyPhaseSpace", "{}: {}", what, kind)
        eq([got.n_particles, got.total_mass, got.atomic_weight_ratio, got.q_value], [d["n"], d["mass"], acegen.head_values(t)[0], q], what)
        return
    else:
        require(kind == "UncorrelatedAngleEnergy", "{}: {}", what, kind)
        if a is not False:
            angle(got.angle, a, what)
        e = got.energy
        require(type(e).__name__ == {2: "DiscretePhoton", 3: "LevelInelastic", 4: "ContinuousTabular", 7: "MaxwellEnergy", 9: "Evaporation", 11: "WattEnergy"}[n],
                "{}: {}", what, type(e).__name__)
        got = e
    if n == 2:
        eq([got.primary_flag, got.energy, got.atomic_weight_ratio], [d["primary"], d["energy"], acegen.head_values(t)[0]], what)
    elif n == 3:
        eq([got.threshold, got.mass_ratio], [d["threshold"], d["mass_ratio"]], what)
    elif n in (7, 9):
        tab1(got.theta, d["x"], d["y"], what + " theta", d["bp"], d["it"], 1e-15)
        eq(got.u, d["u"], what + " u")
    elif n == 11:
        tab1(got.a, d["x"], d["y"], what + " a", d["bp"], d["it"], 1e-15)
        tab1(got.b, d["x2"], d["y2"], what + " b", d["bp2"], d["it2"], 1e-15)
        eq(got.u, d["u"], what + " u")
    else:
        eq(got.energy, d["energy"], what + " incident energies", 1e-15)
        eq(got.breakpoints, d["bp"], what + " breakpoints")
        eq(got.interpolation, d["it"], what + " interpolation")
        require(len(got.energy_out) == len(d["out"]), "{}: {} tables", what, len(got.energy_out))
        for k, w in enumerate(d["out"]):
            outgoing(got.energy_out[k], w, what + " table %d" % k)
            if n == 44:
                tab1(got.precompound[k], np.array(w["x"]) * 1e6, w["r"], what + " r", rtol=1e-15)
                tab1(got.slope[k], np.array(w["x"]) * 1e6, w["a"], what + " a", rtol=1e-15)
            elif n == 61:
                require(len(got.mu[k]) == len(w["mu"]), "{}: {} cosine tables", what, len(got.mu[k]))
                for j, m in enumerate(w["mu"]):
                    mu(got.mu[k][j], m, what + " cosine %d %d" % (k, j))


def function(got, d, what):
    if d["kind"] == "poly":
        require(type(got).__name__ == "Polynomial", "{}: {} instead of a polynomial", what, type(got).__name__)
        eq(got.coef, d["coef"], what, 1e-14)
    else:
        tab1(got, d["x"], d["y"], what, d["bp"], d["it"], 1e-15)


def interp(x, y, e):
    return np.interp(e, x, y, left=0.0, right=0.0)


def check_fission(rx, f, F, t, mt):
    nu, P = F["nu"], rx.products
    neutrons = [p for p in P if p.particle == "neutron"]
    main = neutrons[0]
    mode = "total" if "single" in nu else "prompt"
    require(main.emission_mode == mode, "MT{}: emission mode {} instead of {}", mt, main.emission_mode, mode)
    function(main.yield_, nu.get("single") or nu["prompt"], "%s nu" % mode)
    if "total" in nu:
        require(len(rx.derived_products) == 1 and rx.derived_products[0].emission_mode == "total", "MT{}: total nu-bar: {}", mt, rx.derived_products)
        function(rx.derived_products[0].yield_, nu["total"], "total nu")
    else:
        require(not rx.derived_products, "MT{}: total nu-bar {} that is not in the file", mt, rx.derived_products)
    groups = F.get("groups", [])
    require(len(neutrons) == 1 + len(groups) and all(p.emission_mode == "delayed" for p in neutrons[1:]), "MT{}: products {}", mt, neutrons)
    for k, (p, g) in enumerate(zip(neutrons[1:], groups)):
        what = "delayed group %d" % k
        eq(p.decay_rate, g["decay"], what + " decay constant", 1e-15)
        dx, dy = np.array(nu["delayed"]["x"]), np.array(nu["delayed"]["y"])
        if all(v == g["p"][0] for v in g["p"]):
            eq(p.yield_.x, dx, what + " yield energies", 1e-15)
            require(list(p.yield_.breakpoints) == nu["delayed"]["bp"] and list(p.yield_.interpolation) == nu["delayed"]["int"], "{}: yield interpolated by {} to {} instead of {} to {}",
                    what, list(p.yield_.interpolation), list(p.yield_.breakpoints), nu["delayed"]["int"], nu["delayed"]["bp"])
            # where every group is constant the sum of the probabilities is made exactly one
            whole = all(v == h["p"][0] for h in groups for v in h["p"])
            eq(p.yield_.y, dy * g["p"][0] / (sum(h["p"][0] for h in groups) if whole else 1.0), what + " yield", 1e-12 if whole else 1e-9)
        else:
            e = np.union1d(dx, g["x"])
            e = e[e <= min(dx[-1], g["x"][-1])]
            eq(p.yield_.x, e, what + " yield energies", 1e-15)
            eq(p.yield_.y, interp(dx, dy, e) * interp(g["x"], g["p"], e), what + " yield", 1e-9)
        require(len(p.distribution) == 1, "{}: {} spectra", what, len(p.distribution))
        law(p.distribution[0], g["dist"][0], None, what, t, None)
    return main


def check_photons(rx, F, t, mt, grid, xs):
    got = [p for p in rx.products if p.particle == "photon"]
    want = [p for p in F["photon"] if p["mt"] == mt]
    require(len(got) == len(want), "MT{}: {} photon productions instead of {}", mt, len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        what = "MT%d photon %d" % (mt, k)
        if w["mf"] in (12, 16):
            tab1(g.yield_, w["x"], w["y"], what + " yield", rtol=1e-15)
        else:
            e = grid[w["thr"]:]
            n = xs(e)
            y = np.where(n > 0, np.array(w["xs"]) / np.where(n > 0, n, 1), 0)
            tab1(g.yield_, e, y, what + " yield", rtol=1e-12)
        require(len(g.distribution) == 1, "{}: {} spectra", what, len(g.distribution))
        a = w.get("angle")
        law(g.distribution[0], w["dist"][0], a if a else False, what, t, None)
        if not a:
            ang = g.distribution[0].angle
            require(ang is not None and all(type(m).__name__ == "Uniform" and (m.a, m.b) == (-1, 1) for m in ang.mu), "{}: not isotropic", what)
            eq([ang.energy[0], ang.energy[-1]], [g.yield_.x[0], g.yield_.x[-1]], what + " angle range")


def check(c, ctx):
    os.chdir(ctx.dir())
    s = c["spec"]
    t = acegen.build(s)
    F = t.facts
    open("a.ace", "w").write(acegen.ascii_text(t, c["style"]))
    data = IncidentNeutron.from_ace(pathlib.Path("a.ace").resolve() if c["how"] == "path" else "a.ace" if c["how"] == "name" else ace.get_table("a.ace"))
    verify(data, s, t)
    ctx.label(*["law %d" % k for k in {d["law"] for f in F["rx"].values() for d in f.get("dist", [])}], *[k for k in ("nu", "groups", "urr") if k in F], *["photons of an absent sum" for p in F["photon"][:] if p["mt"] not in t.order and p["mt"] > 3 and p["mt"] in data.reactions][:1],
              *(["photon"] if F["photon"] else []), *["neg" for r in s["reactions"] if r.get("neg")][:1], *["neg elastic" for _ in [1] if s.get("neg_el")])
    ctx.nontrivial(len(F["rx"]) > 2)
    if c["how"] == "table":
        tab = ace.get_table("a.ace")
        before = tab.xss.copy()
        for _ in range(2):
            data = IncidentNeutron.from_ace(tab)
            verify(data, s, t)
            require(np.array_equal(tab.xss, before), "reading changed the table")
        tab.xss[:] = 0.5
        try:
            verify(data, s, t)
        except Violation as e:
            raise Violation("after the table it was read from has changed: %s" % e)


def verify(data, s, t):
    F = t.facts
    grid = np.array(F["grid"])
    awr, kT = acegen.head_values(t)
    T = "%dK" % int(round(kT * 1e6 / 8.61733e-5))
    Z, A = divmod(s["zaid"], 1000)
    require((data.name, data.atomic_number, data.mass_number, data.metastable, data.atomic_symbol) == (SYMBOL[Z] + str(A), Z, A, 0, SYMBOL[Z]), "identity {}", data.name)
    require(data.atomic_weight_ratio == awr and list(data.temperatures) == [T], "weight ratio {}, temperatures {}", data.atomic_weight_ratio, data.temperatures)
    eq(data.kTs, [kT * 1e6], "kT", 1e-15)
    require(set(data.energy) == {T}, "energy grids {}", set(data.energy))
    eq(data.energy[T], grid, "energy grid")

    left_out = {m for m in t.order if 200 < m < 219 or m == 444}
    have = {m for m in t.order} - left_out | {1, 2}
    if any(v != 0 for v in F["absorption"]):
        have.add(101)
    listed = set(have)
    for p in sorted({p["mt"] for p in F["photon"]}):
        if p not in have and p != 3 and components(p, have):
            have.add(p)
    for m in (16, 103, 104, 105, 106, 107):
        if components(m, have):
            have.add(m)
    require(set(data.reactions) == have, "reactions {} instead of {}", sorted(data.reactions), sorted(have))
    xsof = {}

    def xs(mt):
        """own evaluation on the grid, zero outside the range"""
        if mt == 1:
            return 0, np.array(F["total"])
        if mt == 101 and 101 not in t.order:
            return 0, np.array(F["absorption"])
        if mt == 2:
            return 0, np.maximum(F["elastic"], 0)
        if mt in t.order:
            f = F["rx"][str(mt)]
            full = np.zeros(len(grid))
            full[f["thr"]:f["thr"] + len(f["xs"])] = np.maximum(f["xs"], 0)
            return f["thr"], full
        parts = [xs(m) for m in components(mt, listed)]
        th = min(p[0] for p in parts)
        full = np.sum([p[1] for p in parts], axis=0)
        return th, full

    for mt in sorted(have):
        rx = data[mt]
        require(rx.mt == mt and set(rx.xs) == {T}, "MT{}: temperatures {}", mt, set(rx.xs))
        th, y = xs(mt)
        end = th + len(F["rx"][str(mt)]["xs"]) if mt in t.order else len(grid)
        tab1(rx.xs[T], grid[th:end], y[th:end], "MT%d cross section" % mt, rtol=0 if mt in listed else 1e-12)
        red = components(mt, have) != [mt]
        if mt != 101:
            require(bool(rx.redundant) == (red or mt == 1), "MT{}: redundant {}", mt, rx.redundant)
        check_photons(rx, F, t, mt, grid, lambda e, th=th, y=y: y[len(grid) - len(e):])
        require(sorted(data.get_reaction_components(mt)) == sorted(components(mt, have)), "components of MT{}: {}", mt, data.get_reaction_components(mt))
        if mt == 2:
            neutron = [p for p in rx.products if p.particle == "neutron"]
            require(len(neutron) == 1 and len(neutron[0].distribution) == 1, "elastic products {}", rx.products)
            angle(neutron[0].distribution[0].angle, F["angle"]["2"], "elastic")
        if str(mt) not in F["rx"]:
            continue
        f = F["rx"][str(mt)]
        eq(rx.q_value, f["q"], "MT%d Q value" % mt)
        require(bool(rx.center_of_mass) == f["com"], "MT{}: centre-of-mass flag {}", mt, rx.center_of_mass)
        neutrons = [p for p in rx.products if p.particle == "neutron"]
        if not f["neutron"]:
            require(not neutrons, "MT{}: emits neutrons {}", mt, neutrons)
            continue
        if f["fission"]:
            n = check_fission(rx, f, F, t, mt)
        else:
            require(len(neutrons) == 1, "MT{}: {} neutron products", mt, len(neutrons))
            n = neutrons[0]
            if isinstance(f["yield"], dict):
                tab1(n.yield_, f["yield"]["x"], f["yield"]["y"], "MT%d yield" % mt, rtol=1e-15)
            else:
                require(abs(n.yield_(1.0) - f["yield"]) <= 1e-14 and abs(n.yield_(1e7) - f["yield"]) <= 1e-14, "MT{}: yield {} instead of {}", mt, n.yield_(1.0), f["yield"])
        require(len(n.distribution) == len(f["dist"]) == len(n.applicability), "MT{}: {} distributions", mt, len(n.distribution))
        for k, d in enumerate(f["dist"]):
            tab1(n.applicability[k], f["app"][k]["x"], f["app"][k]["y"], "MT%d applicability %d" % (mt, k), rtol=1e-15)
            law(n.distribution[k], d, F["angle"][str(mt)], "MT%d" % mt, t, f["q"])
    if "urr" in F:
        u = F["urr"]
        require(set(data.urr) == {T}, "probability tables at {}", set(data.urr))
        g = data.urr[T]
        eq(g.energy, u["energy"], "URR energies")
        tab = np.array(u["table"])
        tab[:, 5, :] *= 1e6
        eq(g.table, tab, "URR table", 1e-15)
        require((g.interpolation, g.inelastic_flag, g.absorption_flag, bool(g.multiply_smooth)) == (u["int"], u["ilf"], u["ioa"], u["iff"] == 1), "URR flags {}", vars(g))
    else:
        require(not data.urr, "probability tables that are not in the file")
    require(data.resonances is None and data.resonance_covariance is None and data.fission_energy is None, "evaluated data that are not in the file: {} {} {}", data.resonances, data.resonance_covariance, data.fission_energy)


SUBS = [Sub("tables", st.fixed_dictionaries({"spec": acegen.spec(max_nes=14), "style": st.sampled_from(["old", "new"]), "how": st.sampled_from(["name", "path", "table"])}),
            check, 1400, 40000, "more than two reactions besides elastic scattering")]
