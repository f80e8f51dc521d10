import hashlib, os, pathlib, warnings
import h5py
import numpy as np
from hypothesis import strategies as st
from ASAPy.data import ace
from ASAPy.data.data import NATURAL_ABUNDANCE
from ASAPy.data import thermal as T
from lib.core import Sub, require, expect_raises
from lib import acegen, endfgen, standin
from checks.c23 import differs

warnings.simplefilter("ignore")
ASSUMPTIONS = ["thermal ACE layout as in the ACE format manual (ITIE, ITXE, ITCE, ITCA blocks)", "NJOY is replaced by a stand-in for from_njoy"]
K = 8.617333262145e-5           # eV/K
# names used by the ENDF/B, JEFF and NJOY libraries
NAMES = {"lwtr": "c_H_in_H2O", "hh2o": "c_H_in_H2O", "h-h2o": "c_H_in_H2O", "lw": "c_H_in_H2O", "hwtr": "c_D_in_D2O", "dd2o": "c_D_in_D2O", "poly": "c_H_in_CH2", "grph": "c_Graphite", "graph": "c_Graphite",
         "h/zr": "c_H_in_ZrH", "hzrh": "c_H_in_ZrH", "zr/h": "c_Zr_in_ZrH", "zrzrh": "c_Zr_in_ZrH", "benz": "c_C6H6", "be": "c_Be", "beo": "c_BeO", "be/o": "c_Be_in_BeO", "bebeo": "c_Be_in_BeO", "o/be": "c_O_in_BeO",
         "u/o2": "c_U_in_UO2", "uuo2": "c_U_in_UO2", "o2/u": "c_O_in_UO2", "ouo2": "c_O_in_UO2", "lmeth": "c_H_in_CH4_liquid", "smeth": "c_H_in_CH4_solid", "hpara": "c_para_H", "hortho": "c_ortho_H",
         "dpara": "c_para_D", "dortho": "c_ortho_D", "al27": "c_Al27", "fe56": "c_Fe56", "sio2": "c_SiO2_alpha", "od2o": "c_O_in_D2O", "hice": "c_H_in_H2O_solid", "hch2": "c_H_in_CH2", "lucite": "c_H_in_C5O2H8"}
ELEMENTS = {1001: "H1", 1002: "H2", 26056: "Fe56", 26054: "Fe54", 4009: "Be", 6000: "C", 6012: "C", 8016: "O", 92238: "U", 40090: "Zr", 40000: "Zr", 13027: "Al", 14028: "Si", 1003: "H3", 20040: "Ca"}


@st.composite
def table(draw):
    s = st.sampled_from
    t = {"ne": draw(s([1, 2, 3, 7])), "nxs": draw(s([0, 3, 8])), "mode": draw(s(["equal", "skewed", "continuous"])), "nout": draw(s([1, 2, 4, 5])),
         "elastic": draw(s([None, "coherent", "incoherent"])), "nel": draw(s([1, 2, 5])), "nmu": draw(s([1, 2, 4]))}
    return t


@st.composite
def case(draw):
    s = st.sampled_from
    temps = draw(st.lists(s([293.6, 294.0, 400.0, 600.0, 1200.0, 77.0, 20.0, 2000.0]), min_size=1, max_size=4))
    return {"seed": draw(st.integers(0, 10 ** 6)), "table": draw(table()), "temps": temps, "name": draw(s(sorted(NAMES))), "given": draw(s([None, None, "c_own_name"])),
            "pairs": draw(st.lists(s(sorted(ELEMENTS)), min_size=1, max_size=4, unique=True)), "how": draw(s(["file", "path", "table"])), "style": draw(s(["old", "new"])),
            "back": draw(s(["file", "group", "path"])), "other": draw(s([None, None, "name"]))}


def build(c, k, T):
    """the table at one temperature: (acegen.Table, facts)"""
    t, b = c["table"], acegen.Builder({"seed": c["seed"] * 7 + k})
    f = {"kT": None}
    ne = t["ne"] + (k if t["mode"] != "continuous" or c["seed"] % 2 else 0)
    jxs = [0] * 32
    jxs[0] = b.here()
    e = b.increasing(ne, 1e-11, 4e-6)
    x = b.pos(ne, -1, 2)
    b.i(ne)
    b.f(e)
    jxs[1] = b.here()
    b.f(x)
    f["inelastic"] = (e, x)
    nmu = t["nmu"]
    cos = lambda n: sorted(acegen.r11(v) for v in b.rs.uniform(-1, 1, n))
    jxs[2] = b.here()
    if t["mode"] == "continuous":
        nouts = [int(b.rs.randint(2, t["nout"] + 2)) for _ in e]
        start = b.here() + 2 * ne
        locc = []
        for n in nouts:
            locc.append(start - 1)
            start += n * (nmu + 3)
        b.i(*locc)
        b.i(*nouts)
        f["dist"] = []
        for n in nouts:
            eo, p, cdf = b.increasing(n, 1e-11, 5e-6), b.pos(n, 0, 6), np.linspace(0, 1, n)
            mus = [cos(nmu) for _ in eo]
            for q in zip(eo, p, [acegen.r11(v) for v in cdf], mus):
                b.f(list(q[:3]) + q[3])
            f["dist"].append((eo, p, [acegen.r11(v) for v in cdf], mus))
        nil, nieb = nmu + 1, 0
    else:
        f["e_out"] = [b.increasing(t["nout"], 1e-11, 5e-6) for _ in e]
        f["mu_out"] = [[cos(nmu) for _ in range(t["nout"])] for _ in e]
        for eo, mus in zip(f["e_out"], f["mu_out"]):
            for v, m in zip(eo, mus):
                b.f([v] + m)
        nil, nieb = nmu - 1, t["nout"]
    idpnc, ncl = 0, 0
    if t["elastic"]:
        jxs[3] = b.here()
        ee = b.increasing(t["nel"], 1e-10, 4e-6)
        p = sorted(b.pos(t["nel"], -9, -6)) if t["elastic"] == "coherent" else b.pos(t["nel"], -1, 2)
        b.i(t["nel"])
        b.f(ee)
        jxs[4] = b.here()
        b.f(p)
        f["elastic"] = (ee, p)
        idpnc, ncl = (4, -1) if t["elastic"] == "coherent" else (3, nmu - 1)
        if t["elastic"] == "incoherent":
            jxs[5] = b.here()
            f["elastic_mu"] = [cos(nmu) for _ in ee]
            for m in f["elastic_mu"]:
                b.f(m)
    o = acegen.Table()
    o.name, o.awr, o.kT = "%s.%02dt" % (c["name"], 20 + k), 0.999167, T * K * 1e-6
    o.izaw = [(z, 0.0) for z in c["pairs"]] + [(0, 0.0)] * (16 - len(c["pairs"]))
    o.xss, o.isint = b.xss, b.isint
    o.nxs = [len(b.xss), 3, nil, nieb, idpnc, ncl, {"equal": 0, "skewed": 1, "continuous": 2}[t["mode"]]] + [0] * 9
    o.jxs = jxs
    f["kT"] = acegen.head_values(o)[1] * 1e6
    return o, f


def eq(got, want, what, scale=1.0):
    got, want = np.asarray(got, float), np.asarray(want, float) * scale
    require(got.shape == want.shape and bool(np.all(np.abs(got - want) <= 1e-13 * np.abs(want))), "{}: {} instead of {}", what, got.tolist(), want.tolist())


def label(kT):
    return "%dK" % round(kT / K)


def same(data, facts, c, what):
    mode = c["table"]["mode"]
    temps = [label(f["kT"]) for f in facts]
    require(sorted(data.temperatures) == sorted(temps) and len(data.kTs) == len(temps), "{}: temperatures {} instead of {}", what, data.temperatures, temps)
    require(data.secondary_mode == mode, "{}: mode {}", what, data.secondary_mode)
    for key in ("inelastic_xs", "elastic_xs", "elastic_mu_out", "inelastic_e_out", "inelastic_mu_out", "inelastic_dist"):
        present = {"inelastic_xs": True, "elastic_xs": c["table"]["elastic"], "elastic_mu_out": c["table"]["elastic"] == "incoherent", "inelastic_dist": mode == "continuous"}.get(key, mode != "continuous")
        require(sorted(getattr(data, key)) == (sorted(temps) if present else []), "{}: {} at {}", what, key, sorted(getattr(data, key)))
    for f, t in zip(facts, temps):
        n = "%s %s " % (what, t)
        kT = data.kTs[list(data.temperatures).index(t)]
        require(abs(kT - f["kT"]) <= 1e-13 * kT, "{}: kT {} instead of {}", n, kT, f["kT"])
        xs = data.inelastic_xs[t]
        eq(xs.x, f["inelastic"][0], n + "inelastic energies", 1e6)
        eq(xs.y, f["inelastic"][1], n + "inelastic cross section")
        require(list(xs.interpolation) == [2], "{}: interpolation {}", n, xs.interpolation)
        if mode == "continuous":
            d = data.inelastic_dist[t]
            eq(d.energy, f["inelastic"][0], n + "incident energies", 1e6)
            require(list(d.breakpoints) == [len(f["dist"])] and list(d.interpolation) == [2], "{}: {} {}", n, d.breakpoints, d.interpolation)
            require(len(d.energy_out) == len(d.mu) == len(f["dist"]), "{}: {} distributions", n, len(d.energy_out))
            for k, (eo, p, cdf, mus) in enumerate(f["dist"]):
                g = d.energy_out[k]
                w = n + "distribution %d " % k
                eq(g.x, eo, w + "energies", 1e6)
                eq(g.p, p, w + "density", 1e-6)
                eq(g.c, cdf, w + "cumulative")
                require(g.interpolation == "linear-linear", "{}: {}", w, g.interpolation)
                require(len(d.mu[k]) == len(mus), "{}: {} cosine sets", w, len(d.mu[k]))
                for m, q in zip(d.mu[k], mus):
                    eq(m.x, q, w + "cosines")
                    require(bool(np.allclose(m.p, 1 / len(q), rtol=1e-12)) and len(m.p) == len(q), "{}: cosine probabilities {}", w, m.p)
        else:
            eq(data.inelastic_e_out[t], f["e_out"], n + "outgoing energies", 1e6)
            eq(data.inelastic_mu_out[t], f["mu_out"], n + "cosines")
        if c["table"]["elastic"] == "coherent":
            g = data.elastic_xs[t]
            require(type(g).__name__ == "CoherentElastic", "{}: elastic is {}", n, type(g).__name__)
            eq(g.bragg_edges, f["elastic"][0], n + "Bragg edges", 1e6)
            eq(g.factors, f["elastic"][1], n + "structure factors", 1e6)
        elif c["table"]["elastic"]:
            eq(data.elastic_xs[t].x, f["elastic"][0], n + "elastic energies", 1e6)
            eq(data.elastic_xs[t].y, f["elastic"][1], n + "elastic cross section")
            eq(data.elastic_mu_out[t], f["elastic_mu"], n + "elastic cosines")


def nuclides(pairs):
    out = set()
    for z in pairs:
        el = ELEMENTS[z]
        if el[-1].isdigit():
            out.add(el)
        else:
            out.add(el + "0")
            out |= {i for i in NATURAL_ABUNDANCE if i[:len(el)] == el and i[len(el):].isdigit()}
    return out


def check(c, ctx):
    d = ctx.dir()
    built, used = [], set()
    for k, T_ in enumerate(c["temps"]):
        built.append(build(c, k, T_))
    arg = {"name": c["given"]} if c["given"] else {}
    tables = []
    name = c["given"] or NAMES[c["name"]]

    def source(o, k):
        p = os.path.join(d, "t%d" % k)
        open(p, "w").write(acegen.ascii_text(o, c["style"]))
        if c["how"] == "table":
            t = ace.get_table(p)
            tables.append((t, t.xss.copy()))
            return t
        return {"file": p, "path": pathlib.Path(p)}[c["how"]]

    data = T.ThermalScattering.from_ace(source(built[0][0], 0), **arg)
    facts = [built[0][1]]
    require(data.name == name, "the material is {} instead of {}", data.name, name)
    require(data.atomic_weight_ratio == 0.999167, "mass ratio {}", data.atomic_weight_ratio)
    require(set(data.nuclides) == nuclides(c["pairs"]) and len(set(data.nuclides)) == len(data.nuclides), "nuclides {} instead of {}", sorted(data.nuclides), sorted(nuclides(c["pairs"])))
    same(data, facts, c, "ACE")
    for k, (o, f) in enumerate(built[1:], 1):
        data.add_temperature_from_ace(source(o, k), **arg)
        if label(f["kT"]) not in [label(g["kT"]) for g in facts]:
            facts.append(f)
        else:
            ctx.label("temperature again")
        same(data, facts, c, "after adding temperature %d" % k)
    if c["other"]:
        o, _ = build(dict(c, name="benz" if c["name"] != "benz" else "lwtr"), 0, 3000.0)
        if not c["given"]:
            expect_raises(lambda: data.add_temperature_from_ace(source(o, 99)), "data of another material")
            same(data, facts, c, "after refusing another material")
    for t, before in tables:
        require(np.array_equal(t.xss, before), "reading changed the table")
        t.xss[:] = 0.5
    same(data, facts, c, "after the tables have changed")
    h5 = os.path.join(d, "out.h5")
    data.export_to_hdf5(pathlib.Path(h5) if c["back"] == "path" else h5, "w")
    same(data, facts, c, "after exporting")
    with h5py.File(h5, "r") as fh:
        require(bytes(fh.attrs["filetype"]) == b"data_thermal" and list(fh) == [name], "file of {} {}", fh.attrs["filetype"], list(fh))
    if c["back"] == "group":
        with h5py.File(h5, "r") as fh:
            back = T.ThermalScattering.from_hdf5(fh[name])
    else:
        back = T.ThermalScattering.from_hdf5(pathlib.Path(h5) if c["back"] == "path" else h5)
    require(back.name == name and back.atomic_weight_ratio == data.atomic_weight_ratio and list(back.nuclides) == list(data.nuclides), "HDF5: {} {} {}", back.name, back.atomic_weight_ratio, back.nuclides)
    same(back, facts, c, "HDF5")
    ctx.label(c["table"]["mode"], "elastic %s" % c["table"]["elastic"], "%d temperatures" % len(facts))
    ctx.nontrivial(len(facts) > 1 or c["table"]["elastic"] is not None)


# ------------------------------------------------------------------ Bragg edges
@st.composite
def case_bragg(draw):
    n = draw(st.integers(1, 6))
    return {"edges": sorted(draw(st.lists(st.integers(1, 40), min_size=n, max_size=n, unique=True))), "factors": draw(st.lists(st.integers(1, 9), min_size=n, max_size=n)),
            "at": draw(st.lists(st.sampled_from([0.4, 0.7, 1.0, 1.5, 2.25, 5.5, 10.5, 20.25, 33.0, 41.0, 100.5]), min_size=1, max_size=8)), "as": draw(st.sampled_from(["list", "array", "scalar"]))}


def check_bragg(c, ctx):
    edges = [0.001 * e for e in c["edges"]]
    sums = np.cumsum(c["factors"]) * 1e-3
    f = T.CoherentElastic(edges if c["as"] == "list" else np.array(edges), list(sums) if c["as"] == "list" else sums)
    at = [a * 1e-3 for a in c["at"] if a not in c["edges"]]       # exactly on an edge both sides are defensible
    want = [sum(s for e, s in zip(edges, c["factors"]) if e < a) * 1e-3 / a for a in at]
    if c["as"] == "scalar":
        got = [f(a) for a in at]
    else:
        got = f(at if c["as"] == "list" else np.array(at)) if at else []
    require(len(got) == len(want) and bool(np.allclose(got, want, rtol=1e-12, atol=0)), "{} at {} instead of {} (edges {}, sums {})", list(got), at, want, edges, list(sums))
    require(len(f) == len(edges), "{} edges", len(f))
    ctx.label("below the first edge" if at and min(at) < edges[0] else "above" if at and max(at) > edges[-1] else "inside")
    ctx.nontrivial(len(edges) > 1 and len(at) > 0)


# ------------------------------------------------------------------ names
@st.composite
def case_name(draw):
    n = draw(st.sampled_from(sorted(NAMES)))
    return {"name": draw(st.sampled_from([n, n.upper(), n.capitalize(), NAMES[n], "lw%02d" % draw(st.integers(0, 9))])), "junk": "".join(draw(st.lists(st.sampled_from("xqj"), min_size=4, max_size=8)))}


def check_name(c, ctx):
    n = c["name"]
    want = n if n.startswith("c_") else "c_H_in_H2O" if n[:2] == "lw" and n[2:].isdigit() else NAMES[n.lower()]
    require(T.get_thermal_name(n) == want, "{} is called {} instead of {}", n, T.get_thermal_name(n), want)
    require(T.get_thermal_name(c["junk"]) == "c_" + c["junk"], "an unknown material {} is called {}", c["junk"], T.get_thermal_name(c["junk"]))
    ctx.nontrivial(n != want)


# ------------------------------------------------------------------ through NJOY
MATS = {1: "hh2o", 31: "graph", 40: "benz", 11: "dd2o", 26: "be", 75: "ouo2"}


@st.composite
def case_njoy(draw):
    s = st.sampled_from
    return {"seed": draw(st.integers(0, 10 ** 6)), "table": draw(table()), "mat": draw(s(sorted(MATS))), "pairs": draw(st.lists(s(sorted(ELEMENTS)), min_size=1, max_size=3, unique=True)),
            "temps": draw(st.lists(s([293.6, 400.0, 600.0, 1200.0, 77.0]), min_size=1, max_size=3, unique=True)), "given": draw(st.booleans()), "fail": draw(s([0, 0, 0, 2]))}


def check_njoy(c, ctx):
    e = endfgen
    d = ctx.dir()
    c = dict(c, name=MATS[c["mat"]])
    neutron = {"mat": 125, "Z": 1, "A": 1, "awr": 0.999167, "lrp": 1, "lfi": 0, "nlib": 0, "nmod": 1, "elis": 0.0, "sta": 0, "lis": 0, "liso": 0, "awi": 1.0,
               "emax": 2e7, "lrel": 0, "nsub": 10, "nver": 8, "temp": 0.0, "ldrv": 0, "text": [" " * 66] * 5, "sections": [[3, 1, 1, 0]]}
    th = dict(neutron, mat=c["mat"], Z=0, A=100 + c["mat"], nsub=12, sections=[])
    own = c["temps"]
    lines = [e.cont(th["A"] * 1.0, 1.0, 0, 1, 0, 0), e.cont(0.0, 0.0, 0, 0, 6, 0)] + e.fields([20.0, 195.0, 1.0, 4.0, 0.0, 2.0])
    lines += [e.cont(0.0, 0.0, 0, 0, 1, 1)] + e.fields([1, 4]) + [e.cont(own[0], 0.0, len(own) - 1, 0, 1, 2)] + e.fields([2, 4]) + e.fields([0.1, 1.0, 0.2, 2.0])
    for t in own[1:]:
        lines += [e.cont(t, 0.0, 4, 0, 2, 0)] + e.fields([1.0, 2.0])
    e.set_body(th, 7, 4, lines)
    os.makedirs(os.path.join(d, "data"))
    facts = []
    for k, t in enumerate(c["temps"]):
        o, f = build(c, k, t)
        facts.append(f)
        open(os.path.join(d, "data", "ace_%g" % t), "w").write(acegen.ascii_text(o))
        open(os.path.join(d, "data", "xsdir_%g" % t), "w").write("xsdir\n")
    text, ttext = e.tape([neutron])[0], e.tape([th])[0]
    os.chdir(d)
    open("eval.endf", "w").write(text)
    open("thermal.endf", "w").write(ttext)
    exe = standin.write_njoy(os.path.join(d, "njoy"), os.path.join(d, "log"), os.path.join(d, "data"), {20: "endf", 21: "thermal"},
                             {20: hashlib.sha256(text.encode()).hexdigest(), 21: hashlib.sha256(ttext.encode()).hexdigest()}, fail=c["fail"])
    before = set(os.listdir(d))
    run = lambda: T.ThermalScattering.from_njoy("eval.endf", "thermal.endf", njoy_exec=exe, **({"temperatures": c["temps"]} if c["given"] else {}))
    if c["fail"]:
        expect_raises(run, "failure of NJOY")
        ctx.label("NJOY fails")
        return
    data = run()
    require(data.name == NAMES[c["name"]], "the material is {} instead of {}", data.name, NAMES[c["name"]])
    same(data, facts, c, "NJOY")
    require(set(os.listdir(d)) == before, "files left behind: {}", set(os.listdir(d)) - before)
    ctx.label("%d temperatures" % len(facts), "given" if c["given"] else "own")
    ctx.nontrivial(len(facts) > 1)


SUBS = [Sub("tables", case(), check, 1600, 40000, "several temperatures or elastic scattering"),
        Sub("bragg", case_bragg(), check_bragg, 2000, 60000, "two or more edges"),
        Sub("names", case_name(), check_name, 400, 4000, "a library's own name"),
        Sub("njoy", case_njoy(), check_njoy, 120, 3000, "several temperatures")]
