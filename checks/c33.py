import os, warnings
import h5py
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import make_interp_spline
import ASAPy.data
from ASAPy.data import ace
from ASAPy.data.endf import Evaluation
from ASAPy.data.photon import AtomicRelaxation, IncidentPhoton, PhotonReaction
from lib.core import Sub, require, expect_raises
from lib import acegen
from lib import endfgen as eg
from lib.endfdata import Writer, head
from checks.c32 import SYM

warnings.simplefilter("ignore")
ASSUMPTIONS = ["photo-atomic ACE layout as in the ACE format manual; a stored logarithm of exactly zero means a zero cross section",
               "Compton profiles, stopping powers and bremsstrahlung come from the data files in ASAPy/data; the check reads them by itself",
               "form factors that are exported interpolate linearly, as the integrated form factor is tabulated"]
SHELLS = "K L1 L2 L3 M1 M2 M3 M4 M5 N1 N2 N3 N4 N5 N6 N7 O1 O2 O3 O4 O5 O6 O7 O8 O9 P1 P2 P3 P4 P5 P6 P7 P8 P9 P10 P11 Q1 Q2 Q3".split()
shell = lambda i: None if i == 0 else SHELLS[i - 1]


@st.composite
def relax(draw, first=False):
    n = draw(st.integers(1, 6))
    ds = sorted(draw(st.lists(st.one_of(st.integers(1, 9), st.integers(1, 39)), min_size=n, max_size=n, unique=True)))
    return [{"d": d, "tr": [[draw(st.integers(1, 39)), draw(st.sampled_from([0, 0, 5, 9, 30]))] for _ in range(draw(st.sampled_from([0, 1, 2, 3, 6])))]} for d in ds]


@st.composite
def case(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "Z": draw(st.one_of(st.integers(1, 98), st.sampled_from([1, 98, 99, 100]))), "relax": draw(relax()), "mts": draw(st.lists(st.sampled_from([501, 515, 516, 517]), unique=True)),
            "ff": draw(st.booleans()), "anom": draw(st.sampled_from([[], [505], [506], [505, 506]])), "given": draw(st.sampled_from(["file", "evaluation", None])), "export": draw(st.booleans()), "nr": draw(st.integers(1, 3)),
            "shells": draw(st.booleans()), "two": draw(st.integers(0, 2)) == 1}


def material(c, nsub, mat=2600):
    return {"mat": mat, "Z": c["Z"], "A": 0, "awr": 55.0, "lrp": -1, "lfi": 0, "nlib": 0, "nmod": 1, "elis": 0.0, "sta": 0, "lis": 0, "liso": 0, "awi": 0.0, "emax": 1e11, "lrel": 0, "nsub": nsub, "nver": 8,
            "temp": 0.0, "ldrv": 0, "text": [" " * 66] * 5, "sections": []}


def write_relax(c, m):
    w = Writer([c["seed"], 91])
    lines = [head(m, 0, 0, len(c["relax"]), 0)]
    facts = {}
    for r in c["relax"]:
        e, n = w.one(1, 5), float(w.rs.randint(1, 15)) + (0.5 if w.rs.randint(3) == 0 else 0.0)
        tr = [(float(j), float(k), w.one(1, 5), w.one(-4, 0)) for j, k in r["tr"]]
        lines += w.list([e, n, 0.0, 0.0, 0.0, 0.0] + [v for t in tr for v in list(t) + [0.0, 0.0]], float(r["d"]), 0.0, 0, 0, len(tr))
        facts[SHELLS[r["d"] - 1]] = (e, n, tr)
    eg.set_body(m, 28, 533, lines)
    return facts


def same_relax(a, facts, what, tol=0.0):
    require(set(a.binding_energy) == set(facts) == set(a.num_electrons) == set(a.subshells), "{}: subshells {} instead of {}", what, a.subshells, sorted(facts))
    require(set(a.transitions) == {s for s in facts if facts[s][2]}, "{}: transitions of {}", what, sorted(a.transitions))
    for s, (e, n, tr) in facts.items():
        require(abs(a.binding_energy[s] - e) <= tol * e and a.num_electrons[s] == n, "{}: subshell {}: {}, {}", what, s, a.binding_energy[s], a.num_electrons[s])
        if tr:
            t = a.transitions[s]
            require(len(t) == len(tr), "{}: {} transitions of {}", what, len(t), s)
            for row, (j, k, en, p) in zip(t.itertuples(index=False), tr):
                require(row[0] == shell(int(j)) and (row[1] == shell(int(k))), "{}: transition {} of {} instead of {}, {}", what, row, s, j, k)
                require(abs(row[2] - en) <= tol * en and abs(row[3] - p) <= tol, "{}: transition {} of {} instead of {}, {}", what, row, s, en, p)
            require(list(t.columns) == ["secondary", "tertiary", "energy (eV)", "probability"], "columns {}", list(t.columns))


def tab(got, want, what, tol=0.0):
    require(got is not None, "{} is missing", what)
    ok = len(got.x) == len(want["x"]) and np.all(np.abs(np.asarray(got.x) - want["x"]) <= tol * np.abs(want["x"])) and np.all(np.abs(np.asarray(got.y) - want["y"]) <= tol * np.abs(want["y"]))
    require(ok and list(got.breakpoints) == want["bp"] and list(got.interpolation) == want["it"], "{}: {} {} instead of {}", what, got.x, got.y, want)


def value(t, e):
    """the table at e (single region of law 2 or 5, no jumps)"""
    x, y = np.array(t["x"]), np.array(t["y"])
    if t["it"] == [2]:
        return np.interp(e, x, y)
    return np.exp(np.interp(np.log(e), np.log(x), np.log(y)))


def exported(d, data, c, xs, ff, anom, facts, compton):
    """facts as found in the HDF5 file"""
    p = os.path.join(d, "out.h5")
    data.export_to_hdf5(p, "w")
    with h5py.File(p, "r") as f:
        require(bytes(f.attrs["filetype"]) == b"data_photon" and list(f) == [SYM[c["Z"]]], "file of {}", list(f))
        g = f[SYM[c["Z"]]]
        require(g.attrs["Z"] == c["Z"], "Z {}", g.attrs["Z"])
        grid = np.unique(np.concatenate([t["x"] for t in xs.values()]))
        e = g["energy"][()]
        require(e.shape == grid.shape and np.allclose(e, grid, rtol=1e-12), "energy grid {} instead of {}", e, grid)
        for mt, name in ((502, "coherent"), (504, "incoherent"), (515, "pair_production_electron"), (517, "pair_production_nuclear"), (522, "photoelectric")):
            require((name in g) == (mt in xs), "{} in {}", name, list(g))
            if mt in xs:
                got, want = g[name + "/xs"][()], value(xs[mt], grid)
                inside = (grid >= xs[mt]["x"][0] * (1 + 1e-9)) & (grid <= xs[mt]["x"][-1] * (1 - 1e-9))
                require(got.shape == want.shape and np.allclose(got[inside], want[inside], rtol=1e-8, atol=0), "{}: {} instead of {}", name, got, want)
        shells = [mt for mt in xs if 534 <= mt <= 572]
        require([bytes(s).decode() for s in g["subshells"].attrs["designators"]] == [SHELLS[mt - 534] for mt in shells] and set(g["subshells"]) == {SHELLS[mt - 534] for mt in shells}, "subshells {}", list(g["subshells"]))
        for mt in shells:
            s = SHELLS[mt - 534]
            q = g["subshells"][s]
            k = int(q["xs"].attrs["threshold_idx"])
            first = int(np.argmin(np.abs(grid - xs[mt]["x"][0])))
            require(k == first, "{}: threshold {} instead of {}", s, k, first)
            got, want = q["xs"][()], value(xs[mt], grid[k:])
            require(got.shape == want.shape and np.allclose(got[1:-1], want[1:-1], rtol=1e-8), "{}: {} instead of {}", s, got, want)
            if data.atomic_relaxation is not None:
                en, n, tr = facts[s]
                require(np.isclose(q.attrs["binding_energy"], en, rtol=1e-12) and q.attrs["num_electrons"] == n and ("transitions" in q) == bool(tr), "{}: {}", s, dict(q.attrs))
                if tr:
                    require(np.allclose(np.array(q["transitions"], float), np.array(tr), rtol=1e-9, atol=1e-10), "{}: transitions {} instead of {}", s, q["transitions"][()].tolist(), tr)
        if 502 in ff:
            x, y = np.array(ff[502]["x"]) ** 2, np.array(ff[502]["y"]) ** 2 / c["Z"] ** 2
            want = np.concatenate([[0.0], np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(x))])
            t = g["coherent/integrated_scattering_factor"][()]
            require(np.allclose(t[0], x, rtol=1e-12) and np.allclose(t[1], want, rtol=1e-9), "integrated form factor {} instead of {}", t, want)
        if 504 in ff:
            t = g["incoherent/scattering_factor"][()]
            require(np.allclose(t[0], ff[504]["x"], rtol=1e-12) and np.allclose(t[1], ff[504]["y"], rtol=1e-12), "scattering factor")
        for mt, name in ((506, "anomalous_real"), (505, "anomalous_imag")):
            require((name in g["coherent"]) == (mt in anom), "{}", name)
            if mt in anom:
                t = g["coherent"][name][()]
                require(np.array_equal(t[0], anom[mt]["x"]) and np.array_equal(t[1], anom[mt]["y"]), "{}", name)
        if compton:
            q = g["compton_profiles"]
            for k in ("num_electrons", "binding_energy", "pz", "J"):
                require(np.allclose(q[k][()], compton[k], rtol=1e-12), "Compton profile {}", k)
        else:
            require("compton_profiles" not in g, "Compton profiles out of nowhere")
        for k in ("energy", "s_collision", "s_radiative"):
            if data.stopping_powers:
                require(np.array_equal(g["stopping_powers"][k][()], data.stopping_powers[k]), "stopping power {}", k)
        if data.stopping_powers:
            require(g["stopping_powers"].attrs["I"] == data.stopping_powers["I"], "mean excitation energy")
        for k in ("electron_energy", "photon_energy", "dcs"):
            if data.bremsstrahlung:
                require(np.array_equal(g["bremsstrahlung"][k][()], data.bremsstrahlung[k]), "bremsstrahlung {}", k)
    # the object itself is not changed by exporting
    for mt, t in ff.items():
        require(np.allclose(data[mt].scattering_factor.x, t["x"], rtol=1e-12) and np.allclose(data[mt].scattering_factor.y, t["y"], rtol=1e-12), "exporting changed the form factor")


FILES = {}


def tables(Z):
    """reference data of an element, read without the code under test"""
    base = os.path.dirname(ASAPy.data.__file__)
    if not FILES:
        words = open(os.path.join(base, "BREMX.DAT")).read().split()
        FILES["brem"], FILES["n"], FILES["k"] = words, int(words[37]), int(words[38])
    out = {}
    with h5py.File(os.path.join(base, "compton_profiles.h5"), "r") as f:
        g = f["%03d" % Z]
        out["compton"] = {"pz": f["pz"][()], "num_electrons": g["num_electrons"][()], "binding_energy": g["binding_energy"][()] * 1e6, "J": g["J"][()]}
    with h5py.File(os.path.join(base, "stopping_powers.h5"), "r") as f:
        if Z < 99:
            g = f["%03d" % Z]
            out["stop"] = {"energy": f["energy"][()] * 1e6, "I": g.attrs["I"], "s_collision": g["s_collision"][()] * 1e6, "s_radiative": g["s_radiative"][()] * 1e6}
    w, n, k = FILES["brem"], FILES["n"], FILES["k"]
    e = np.array([float(v) for v in w[39:39 + n]]) * 1e6
    p = 39 + n + k + (Z - 1) * n * k
    y = np.array([float(v) for v in w[p:p + n * k]]).reshape(n, k) * 1e-3
    grid = np.logspace(3, 9, 200)
    out["brem"] = {"electron_energy": grid, "photon_energy": np.array([float(v) for v in w[39 + n:39 + n + k]]), "dcs": make_interp_spline(np.log(e), y, k=3)(np.log(grid))}
    return out


def same_tables(data, Z):
    t = tables(Z)
    cp = data.compton_profiles
    for k in ("num_electrons", "binding_energy"):
        require(np.allclose(cp[k], t["compton"][k], rtol=1e-12), "Compton {} of Z={}", k, Z)
    require(len(cp["J"]) == len(t["compton"]["J"]) and all(np.array_equal(j.x, t["compton"]["pz"]) and np.array_equal(j.y, y) for j, y in zip(cp["J"], t["compton"]["J"])), "Compton profiles of Z={}", Z)
    require(bool(data.stopping_powers) == ("stop" in t), "stopping powers of Z={}", Z)
    for k, v in t.get("stop", {}).items():
        require(np.allclose(data.stopping_powers[k], v, rtol=1e-12), "stopping power {} of Z={}", k, Z)
    for k, v in t["brem"].items():
        got = np.asarray(data.bremsstrahlung[k])
        require(got.shape == v.shape and np.allclose(got, v, rtol=1e-7, atol=1e-9 * np.abs(v).max()), "bremsstrahlung {} of Z={}", k, Z)
    return t["compton"]


def spoil(data):
    """change the tables of an object: the reference data of other objects are not affected"""
    for k in ("energy", "I", "s_collision"):
        data.stopping_powers[k] = None
    data.stopping_powers.pop("s_radiative", None)
    data.compton_profiles["J"].pop()
    data.compton_profiles["binding_energy"] = None
    data.compton_profiles.pop("num_electrons")
    data.bremsstrahlung["dcs"] = None
    data.bremsstrahlung.clear()


def run_endf(c, ctx):
    d = ctx.dir()
    m, mr = material(c, 3), material(c, 6)
    facts = write_relax(c, mr)
    w = Writer([c["seed"], 92])
    laws = (2, 5) if c["export"] else (1, 2, 3, 4, 5)
    nr = 1 if c["export"] else c["nr"]
    xs, ff, anom, sub = {}, {}, {}, {}
    for mt in [502, 504, 522] + c["mts"] + ([533 + r["d"] for r in c["relax"]] if c["shells"] else []):
        edge, fy = (w.one(1, 5), w.one(-3, 0)) if mt > 530 else (0.0, 0.0)
        n = int(w.rs.randint(2, 9))
        lo = 1.022e6 if mt in (515, 516, 517) else edge if mt > 530 else 1.0
        x, y = w.increasing(n, eg.val(lo), 1e11), w.pos(n, -6, 6)
        l, t = w.tab1(x, y, nr, edge, fy, laws=laws)
        eg.set_body(m, 23, mt, [head(m)] + l)
        xs[mt], sub[mt] = t, (edge, fy)
    for mt in (502, 504):
        if c["ff"]:
            n = int(w.rs.randint(2, 9))
            x = [0.0] + w.increasing(n, 1e-3, 1e9)
            y = sorted(w.pos(n + 1, -6, 2), reverse=mt == 502)
            l, ff[mt] = w.tab1(x, y, nr if not c["export"] else 1, 0.0, float(c["Z"]), laws=(2,) if c["export"] else (1, 2, 3, 4, 5))
            eg.set_body(m, 27, mt, [head(m)] + l)
    for mt in c["anom"]:
        n = int(w.rs.randint(2, 9))
        l, anom[mt] = w.tab1(w.increasing(n, 1.0, 1e7), w.signed(n, 30.0), nr, laws=(2,) if c["export"] else (1, 2, 3, 4, 5))
        eg.set_body(m, 27, mt, [head(m)] + l)
    p, pr = os.path.join(d, "photoat"), os.path.join(d, "relax")
    open(p, "w").write(eg.tape([m])[0])
    open(pr, "w").write(eg.tape([mr])[0])
    if c["two"]:
        o = material(dict(c, Z=26), 3)
        for mt in (502, 504, 522):
            eg.set_body(o, 23, mt, m["bodies"]["23,%d" % mt])
        open(os.path.join(d, "other"), "w").write(eg.tape([o])[0])
        same_tables(IncidentPhoton.from_endf(os.path.join(d, "other")), 26)
    given = {"file": (p, pr), "evaluation": (Evaluation(p), Evaluation(pr)), None: (p,)}[c["given"]]
    data = IncidentPhoton.from_endf(*given)
    require(data.atomic_number == c["Z"] and data.name == SYM[c["Z"]], "element {}", data.name)
    require(list(data.reactions) == sorted(xs) and all(r.mt == k for k, r in data.reactions.items()), "reactions {} instead of {}", list(data.reactions), sorted(xs))
    for mt, t in xs.items():
        require(mt in data, "MT{}", mt)
        tab(data[mt].xs, t, "MT%d" % mt)
        if mt > 530:
            require((data[mt].subshell_binding_energy, data[mt].fluorescence_yield) == sub[mt], "MT{}: binding energy, fluorescence yield", mt)
        if mt in ff:
            tab(data[mt].scattering_factor, ff[mt], "form factor of MT%d" % mt)
        else:
            require(data[mt].scattering_factor is None, "form factor of MT{} out of nowhere", mt)
    for mt, a in ((506, data[502].anomalous_real), (505, data[502].anomalous_imag)):
        if mt in anom:
            tab(a, anom[mt], "anomalous %d" % mt)
        else:
            require(a is None, "anomalous scattering factor {} out of nowhere", mt)
    expect_raises(lambda: data[503], "MT 503")
    if c["given"]:
        same_relax(data.atomic_relaxation, facts, "relaxation")
    else:
        require(data.atomic_relaxation is None, "relaxation out of nowhere")
        data.atomic_relaxation = AtomicRelaxation.from_endf(pr)
        same_relax(data.atomic_relaxation, facts, "relaxation set later")
        expect_raises(lambda: AtomicRelaxation.from_endf(p), "an evaluation without relaxation data")
    compton = same_tables(data, c["Z"])
    if c["seed"] % 2:
        spoil(IncidentPhoton.from_endf(p))
        same_tables(data, c["Z"])
        same_tables(IncidentPhoton.from_endf(p), c["Z"])
        ctx.label("another object changed")
    if c["export"]:
        exported(d, data, c, {k: xs[k] for k in sorted(xs)}, ff, anom, facts, compton)
        same_relax(data.atomic_relaxation, facts, "relaxation after exporting")
        ctx.label("exported")
    ctx.label("relaxation " + str(c["given"]), "Z>=99" if c["Z"] > 98 else "Z<99")
    ctx.nontrivial(c["shells"] and any(r["tr"] for r in c["relax"]))


OLD_COH = [0.0, 0.01, 0.02, 0.03, 0.04, 0.05, 0.06, 0.08, 0.1, 0.12, 0.15, 0.18, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.3, 1.4, 1.5, 1.6, 1.7, 1.8, 1.9, 2.0,
           2.2, 2.4, 2.6, 2.8, 3.0, 3.2, 3.4, 3.6, 3.8, 4.0, 4.2, 4.4, 4.6, 4.8, 5.0, 5.2, 5.4, 5.6, 5.8, 6.0]
OLD_INC = [0.0, 0.005, 0.01, 0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 8.0]


@st.composite
def ace_case(draw):
    s = st.sampled_from
    return {"seed": draw(st.integers(0, 10 ** 6)), "Z": draw(st.integers(1, 100)), "ne": draw(s([2, 3, 5, 9])), "new": draw(st.booleans()), "ncompton": draw(s([0, 1, 2, 4])), "npz": draw(s([2, 3, 6])), "jj": draw(s([1, 2])),
            "relax": draw(st.one_of(st.just([]), relax(), relax())), "zeros": draw(st.booleans()), "how": draw(s(["file", "table"])), "style": draw(s(["old", "new"])), "export": draw(st.booleans()), "fluor": draw(s([0, 3, 6]))}


def run_ace(c, ctx):
    d = ctx.dir()
    b = acegen.Builder({"seed": c["seed"]})
    r = acegen.r11
    jxs = [0] * 32
    n = c["ne"]
    jxs[0] = b.here()
    loge = [r(np.log(v)) for v in b.increasing(n, 1e-6, 1e5)]
    energy = np.exp(loge) * 1e6
    b.f(loge)
    xs, ff = {}, {}

    def logs(k, zeros):
        v = [r(np.log(x)) for x in b.pos(n, -6, 5)]
        z = int(b.rs.randint(1, n)) if zeros and n > 1 else 0
        v[:z] = [0.0] * z
        return v, [0.0 if q == 0.0 else float(np.exp(q)) for q in v]
    law5 = {"bp": [n], "it": [5]}
    for mt in (504, 502, 522, 515):
        v, y = logs(n, mt == 515 and c["zeros"])
        b.f(v)
        xs[mt] = dict(law5, x=list(energy), y=y)
    jxs[1] = b.here()
    if c["new"]:
        k = int(b.rs.randint(2, 8))
        x, y = [0.0] + b.increasing(k - 1, 1e-3, 1e3), sorted(b.pos(k, -4, 2))
        b.f(x + y)
        ff[504] = {"x": x, "y": y, "bp": [k], "it": [2]}
    else:
        y = sorted(b.pos(21, -4, 2))
        b.f(y)
        ff[504] = {"x": OLD_INC, "y": y, "bp": [21], "it": [2]}
    jxs[2] = b.here()
    k = int(b.rs.randint(2, 8)) if c["new"] else 55
    x, y = ([0.0] + b.increasing(k - 1, 1e-3, 1e3) if c["new"] else OLD_COH), sorted(b.pos(k, -4, 2), reverse=True)
    if c["new"]:
        b.f(x)
    b.f(b.pos(k, -4, 2))
    b.f(y)
    ff[502] = {"x": x, "y": y, "bp": [k], "it": [2]}
    jxs[3] = b.here()
    b.f(b.pos(4 * c["fluor"]))
    jxs[4] = b.here()
    b.f(b.pos(n))
    compton = {}
    if c["ncompton"]:
        nc, m = c["ncompton"], c["npz"]
        jxs[5] = b.here()
        compton["num_electrons"] = [float(v) for v in b.rs.randint(1, 9, nc)]
        b.f(compton["num_electrons"])
        jxs[6] = b.here()
        e = b.pos(nc, -5, -1)
        compton["binding_energy"] = [v * 1e6 for v in e]
        b.f(e)
        jxs[7] = b.here()
        b.f(b.pos(nc))
        jxs[8] = b.here()
        b.i(*[1 + j * (2 + 3 * m) for j in range(nc)])
        jxs[9] = b.here()
        compton["pz"] = [0.0] + b.increasing(m - 1, 1e-2, 1e2)
        compton["J"] = []
        for j in range(nc):
            b.i(c["jj"], m)
            b.f(compton["pz"])
            compton["J"].append(b.pos(m, -5, 0))
            b.f(compton["J"][-1])
            b.f(b.pos(m))
    facts = {}
    if c["relax"]:
        nsh = len(c["relax"])
        jxs[10] = b.here()
        b.f([float(q["d"]) for q in c["relax"]])
        jxs[11] = b.here()
        el = [float(v) for v in b.rs.randint(1, 15, nsh)]
        b.f(el)
        jxs[12] = b.here()
        be = b.pos(nsh, -6, -1)
        b.f(be)
        jxs[13] = b.here()
        b.f(b.pos(nsh))
        jxs[14] = b.here()
        b.f([float(len(q["tr"])) for q in c["relax"]])
        jxs[15] = b.here()
        for q in c["relax"]:
            v, y = logs(n, c["zeros"] and not c["export"])
            b.f(v)
            xs[533 + q["d"]] = dict(law5, x=list(energy), y=y)
        jxs[17] = b.here()
        for q, e, k in zip(c["relax"], be, el):
            tr, cum = [], 0.0
            for j, t in q["tr"]:
                en, p = b.pos(1, -6, -1)[0], b.pos(1, -3, -1)[0]
                last, cum = cum, r(cum + p)
                b.f([float(j), float(t), en, cum])
                tr.append((float(j), float(t), en * 1e6, cum - last))
            facts[SHELLS[q["d"] - 1]] = (e * 1e6, k, tr)
    o = acegen.Table()
    o.name, o.awr, o.kT = "%d.12p" % (c["Z"] * 1000), 55.0, 0.0
    o.izaw = [(0, 0.0)] * 16
    o.xss, o.isint, o.jxs = b.xss, b.isint, jxs
    o.nxs = [len(b.xss), c["Z"], n, c["fluor"], c["ncompton"], 3 if c["new"] else 0, len(c["relax"])] + [0] * 9
    p = os.path.join(d, "ace")
    open(p, "w").write(acegen.ascii_text(o, c["style"]))
    table = ace.get_table(p)
    before = table.xss.copy()
    data = IncidentPhoton.from_ace(p if c["how"] == "file" else table)
    require(np.array_equal(table.xss, before), "reading changed the table")
    table.xss[:] = 0.5          # what was read does not change with the table
    require(data.atomic_number == c["Z"], "Z {}", data.atomic_number)
    require(set(data.reactions) == set(xs) and all(q.mt == k for k, q in data.reactions.items()), "reactions {} instead of {}", list(data.reactions), sorted(xs))
    for mt, t in xs.items():
        tab(data[mt].xs, t, "MT%d" % mt, 1e-13)
        if mt > 530:
            require(abs(data[mt].subshell_binding_energy - facts[SHELLS[mt - 534]][0]) <= 1e-9, "binding energy of MT{}", mt)
        if mt in ff:
            tab(data[mt].scattering_factor, ff[mt], "form factor of MT%d" % mt)
    expect_raises(lambda: PhotonReaction.from_ace(ace.get_table(p), 517), "MT 517 from ACE")
    if facts:
        same_relax(data.atomic_relaxation, facts, "relaxation", 1e-12)
    else:
        require(data.atomic_relaxation is None, "relaxation out of nowhere")
    require(bool(data.compton_profiles) == bool(compton), "Compton profiles {}", list(data.compton_profiles))
    if compton:
        cp = data.compton_profiles
        require(np.allclose(cp["num_electrons"], compton["num_electrons"], rtol=1e-13) and np.allclose(cp["binding_energy"], compton["binding_energy"], rtol=1e-13), "Compton profiles")
        require(len(cp["J"]) == len(compton["J"]), "{} profiles", len(cp["J"]))
        for got, y in zip(cp["J"], compton["J"]):
            tab(got, {"x": compton["pz"], "y": y, "bp": [c["npz"]], "it": [c["jj"]]}, "Compton profile")
    if c["export"] and not c["zeros"]:
        exported(d, data, c, xs, ff, {}, facts, compton)
        ctx.label("exported")
    ctx.label("new" if c["new"] else "old", "compton %d" % c["ncompton"], "shells %d" % len(c["relax"]))
    ctx.nontrivial(bool(compton) and any(q["tr"] for q in c["relax"]))


SUBS = [
    Sub("ENDF", case(), run_endf, 500, 20000, "subshell reactions and at least one transition"),
    Sub("ACE", ace_case(), run_ace, 700, 20000, "Compton profiles and at least one transition"),
]
