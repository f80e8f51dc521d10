import os, warnings
import h5py
import numpy as np
from hypothesis import strategies as st
from ASAPy.data.endf import Evaluation
from ASAPy.data.fission_energy import FissionEnergyRelease
from ASAPy.data.neutron import IncidentNeutron
from lib.core import Sub, require, expect_raises
from lib import endfgen as eg
from lib.endfdata import Writer, head, cont

warnings.simplefilter("ignore")
ASSUMPTIONS = ["evaluations that give second-order coefficients in MeV (an ENDF/B-VII.1 error that the reader corrects) are told apart by size, as documented in the reader: coefficients above 4e-6 in series of exactly second order are generated as such errors",
               "tables of energy release span the whole energy range; all tables interpolate linearly"]
NAMES = ["fragments", "prompt_neutrons", "delayed_neutrons", "prompt_photons", "delayed_photons", "betas", "neutrinos"]
AT = np.array([1e-5, 0.0253, 1.0, 5e3, 1e5, 1e6, 2.5e6, 1.4e7, 2e7])


@st.composite
def case(draw):
    s = st.sampled_from
    return {"seed": draw(st.integers(0, 10 ** 6)), "npoly": draw(s([0, 0, 1, 2, 2, 3])), "mev": draw(st.booleans()), "tables": draw(st.lists(st.integers(1, 7), unique=True, max_size=3)),
            "nu": draw(s(["tab", "poly"])), "prompt": draw(st.booleans()), "ncoef": draw(st.integers(1, 4)), "bad": draw(s([None, None, None, "Z", "A", "liso", "lfi", "no458"])), "liso": draw(s([0, 0, 1])), "rx": draw(s([[18], [18], [19], [18, 19], "redundant"]))}


def material(c, **kw):
    m = {"mat": 9228, "Z": 92, "A": 235, "awr": 233.0248, "lrp": 0, "lfi": 1, "nlib": 0, "nmod": 1, "elis": 0.0, "sta": 0, "lis": c["liso"], "liso": c["liso"],
         "awi": 1.0, "emax": 2e7, "lrel": 0, "nsub": 10, "nver": 8, "temp": 0.0, "ldrv": 0, "text": [" " * 66] * 5, "sections": []}
    m.update(kw)
    return m


def fill(m, c):
    """nu-bar, fission and MT458; returns the expected functions of energy"""
    w = Writer([c["seed"], 71])
    eg.set_body(m, 2, 151, [head(m, 0, 0, 1, 0), cont(m["Z"] * 1000.0 + m["A"], 1.0, 0, 0, 1, 0), cont(1e-5, 1e5, 0, 0, 0, 0), cont(0.0, 0.9, 0, 0, 0, 0)])
    nus = {}
    for mt in (452, 456) if c["prompt"] else (452,):
        if c["nu"] == "poly":
            k = [w.one(0, 0.5)] + [eg.val(v * 10.0 ** (-7 * (i + 1))) for i, v in enumerate(w.rs.uniform(0.1, 2, c["ncoef"] - 1))]
            eg.set_body(m, 1, mt, [head(m, 0, 1)] + w.list(k))
            nus[mt] = lambda e, k=k: sum(v * e ** i for i, v in enumerate(k))
        else:
            l, d = w.table(1, ylo=0, yhi=0.6, laws=(2,))
            eg.set_body(m, 1, mt, [head(m, 0, 2)] + l)
            nus[mt] = lambda e, d=d: np.interp(e, d["x"], d["y"])
    nu = nus[456 if c["prompt"] else 452]
    nu0 = nu(0.0) if c["nu"] == "poly" else nu(1e-5)
    for mt in c["rx"] if c["rx"] != "redundant" else [18, 19]:
        l, _ = w.table(1)
        eg.set_body(m, 3, mt, [head(m)] + l)
        if c["rx"] == [19]:
            # without MT18 the spectrum is its own
            p, _ = w.table(1, ylo=0, yhi=0, c1=0.0, c2=0.0, l1=0, l2=7)
            t, _ = w.table(1, ylo=5.5, yhi=6.5, laws=(2,))
            eg.set_body(m, 5, 19, [head(m, 0, 0, 1, 0)] + p + t)
    w = Writer([c["seed"], 72])
    n = c["npoly"]
    coef, data = {}, []
    for i in range(n + 1):
        for k in range(9):
            v = w.one(6, 8.2) if i == 0 else eg.val(w.rs.uniform(-1, 1) * {1: 0.3, 2: 1e-8, 3: 1e-16}[i])
            if i == 2 and not c["mev"] and w.rs.randint(4) == 0:
                v = eg.val(w.rs.uniform(-3.9e-6, 3.9e-6))  # large, but no error
            if i == 2 and c["mev"] and k < 7:
                # with further coefficients this is no such error
                v = eg.val((0.5 + abs(w.rs.uniform(0, 1))) * 1e-5 * (1 if w.rs.randint(2) else -1))
            coef.setdefault(k, []).append(v)
            data += [v, abs(w.one(3, 4))]
    tabs, lines = {}, []
    for k in sorted(c["tables"]):
        l, d = w.table(1, ylo=6, yhi=8, c1=0.0, c2=0.0, l1=int(w.rs.randint(1, 3)), l2=k, laws=(2,))
        lines += l
        tabs[k - 1] = d
    eg.set_body(m, 1, 458, [head(m, 0, int(bool(tabs)), 0, len(tabs))] + w.list(data, 0.0, 0.0, 0, n, 9 * (n + 1)) + lines)
    want = {}
    for k, name in enumerate(NAMES):
        a = list(coef[k])
        if k in tabs:
            want[name] = lambda e, d=tabs[k]: np.interp(e, d["x"], d["y"])
        elif n == 0:
            slope = {"delayed_photons": -0.075, "betas": -0.075, "neutrinos": -0.105}.get(name, 0.0)
            want[name] = lambda e, a=a, s=slope: a[0] + s * e
            if name == "prompt_neutrons":
                want[name] = lambda e, a=a: a[0] + 1.307 * e - 8.07e6 * (nu(e) - nu0)
        else:
            if n == 2 and c["mev"]:
                a[2] *= 1e-6
            want[name] = lambda e, a=a: sum(v * e ** i for i, v in enumerate(a))
    grid = np.unique(np.concatenate([AT] + [np.array(d["x"]) for d in tabs.values()] + ([])))
    return want, grid


def close(got, want, e, what, loose=0.0):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape and bool(np.all(np.abs(got - want) <= 1e-9 * np.abs(want) + 1e-3 + loose * e)), "{}: {} at {} instead of {}", what, got, e, want)


def compare(f, want, grid, what):
    for name in NAMES:
        g = getattr(f, name)
        # ENDF-102 gives 0.100 or 0.105 for the slope of the neutrinos, depending on its edition
        close([float(g(e)) for e in grid], want[name](grid), grid, "%s %s" % (what, name), 0.006 if name == "neutrinos" else 0.0)
    vals = {n: np.array([float(getattr(f, n)(e)) for e in grid]) for n in NAMES}
    rec = sum(vals[n] for n in NAMES[:-1])
    tot = rec + vals["neutrinos"]
    # sums are tabulated on the points of their parts: compare there
    ref = {"recoverable": rec, "total": tot, "q_prompt": vals["fragments"] + vals["prompt_neutrons"] + vals["prompt_photons"] - grid, "q_recoverable": rec - grid, "q_total": tot - grid}
    parts = {k: set(NAMES[:-1]) if "recov" in k else set(NAMES) if "total" in k else {"fragments", "prompt_neutrons", "prompt_photons"} for k in ref}
    for k, r in ref.items():
        g = getattr(f, k)
        xs = [getattr(f, n).x for n in parts[k] if hasattr(getattr(f, n), "x")]
        pts = np.unique(np.concatenate(xs)) if xs else grid
        v = {n: np.array([float(getattr(f, n)(e)) for e in pts]) for n in NAMES}
        r = sum(v[n] for n in parts[k]) - (pts if k.startswith("q_") else 0.0)
        close([float(g(e)) for e in pts], r, pts, "%s %s" % (what, k))


def run(c, ctx):
    d = ctx.dir()
    m = material(c)
    want, grid = fill(m, c)
    path = os.path.join(d, "tape")
    open(path, "w").write(eg.tape([m])[0])
    data = IncidentNeutron.from_endf(path)
    if c["rx"] == "redundant":
        # total fission that is only the sum of first, second... chance fission has no neutrons of its own
        data[18].redundant = True
        data[18].products = []
    if c["bad"]:
        if c["bad"] == "no458":
            b = material(c)
            eg.set_body(b, 3, 18, m["bodies"][(3, 18)] if (3, 18) in m.get("bodies", {}) else [head(m)] + Writer(1).table(1)[0])
        else:
            b = material(c, **{"Z": {"Z": 94}, "A": {"A": 238}, "liso": {"liso": 1 - c["liso"], "lis": 1}, "lfi": {"lfi": 0}}[c["bad"]])
            fill(b, c)
        p = os.path.join(d, "other")
        open(p, "w").write(eg.tape([b])[0])
        expect_raises(lambda: FissionEnergyRelease.from_endf(Evaluation(p), data), "an evaluation that differs in " + c["bad"])
        ctx.label("refused " + c["bad"])
    f = FissionEnergyRelease.from_endf(Evaluation(path), data)
    compare(f, want, grid, "ENDF")
    require(data.fission_energy is not None, "the neutron data lack the energy release")
    compare(data.fission_energy, want, grid, "neutron data")
    h5 = os.path.join(d, "f.h5")
    with h5py.File(h5, "w") as fh:
        f.to_hdf5(fh.create_group("r"))
    with h5py.File(h5, "r") as fh:
        back = FissionEnergyRelease.from_hdf5(fh["r"])
        for k in ("q_prompt", "q_recoverable"):
            from ASAPy.data.function import Function1D
            q = Function1D.from_hdf5(fh["r"][k])
            require(np.allclose([float(q(e)) for e in grid], [float(getattr(f, k)(e)) for e in grid], rtol=1e-12), "HDF5 {} differs", k)
    compare(back, want, grid, "HDF5")
    for n in NAMES:
        require(type(getattr(back, n)) is type(getattr(f, n)), "HDF5 {}: {}", n, type(getattr(back, n)))
    ctx.label("Sher-Beck" if c["npoly"] == 0 else "order %d" % c["npoly"], "%d tables" % len(c["tables"]), "nu " + c["nu"], "fission %s" % (c["rx"],))
    ctx.nontrivial(c["npoly"] == 0 or bool(c["tables"]))


SUBS = [Sub("energy release", case(), run, 1000, 30000, "energy dependence from the Sher-Beck formula or tables")]
