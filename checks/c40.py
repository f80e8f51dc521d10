import copy, os, warnings
import numpy as np
from hypothesis import strategies as st
from uncertainties import ufloat
from lib import recon
recon.install()
from ASAPy.data.decay import Decay, FissionProductYields
from ASAPy.data.photon import IncidentPhoton
from ASAPy.data.library import DataLibrary
from ASAPy.data.neutron import IncidentNeutron
from ASAPy.data.thermal import ThermalScattering
from lib.core import Sub, require
from lib import acegen, objgen
from checks import c27, c28, c29, c30, c32, c33, c36

warnings.simplefilter("ignore")
ALL = dict(objgen.KINDS, **objgen.MORE)
ASSUMPTIONS = ["the objects compared hold the same kinds of containers (arrays or lists)"]


@st.composite
def case(draw):
    return {"kind": draw(st.sampled_from(sorted(ALL))), "seed": draw(st.integers(0, 10 ** 6)), "big": draw(st.integers(1, 4)), "lists": draw(st.booleans()), "other": draw(st.sampled_from(sorted(ALL))),
            "change": draw(st.integers(0, 10 ** 6)), "changes": draw(st.integers(1, 4))}


def same(a, b, what):
    require(bool(a == b) and bool(b == a) and not (a != b) and not (b != a), "{} does not equal an object with the same data", what)


def apart(a, b, what):
    require(not (a == b) and not (b == a) and (a != b) and (b != a), "{} equals an object with other data", what)


def build(c, change=None):
    s = objgen.Src(c["seed"], c["big"], change=change, lists=c["lists"])
    return ALL[c["kind"]](s), s.n


def check(c, ctx):
    a, n = build(c)
    same(a, a, c["kind"])
    same(a, build(c)[0], c["kind"])
    same(a, copy.deepcopy(a), c["kind"])
    rs = np.random.RandomState([c["change"], 5])
    for k in sorted(set(rs.randint(0, n, c["changes"]))):
        apart(a, build(c, int(k))[0], "%s (value %d of %d changed)" % (c["kind"], k, n))
    if c["other"] != c["kind"]:
        o = ALL[c["other"]](objgen.Src(c["seed"], c["big"]))
        if type(o) is not type(a):
            apart(a, o, "%s and %s" % (c["kind"], c["other"]))
    for o in (None, 3.0, "x"):
        require(not (a == o) and (a != o), "{} equals {!r}", c["kind"], o)
    ctx.label(c["kind"])
    ctx.nontrivial(n > 3)


@st.composite
def case_ace(draw):
    s = draw(acegen.spec(simple=draw(st.integers(0, 3)) == 3, max_nes=7))
    return {"spec": s, "pos": draw(st.integers(0, 10 ** 6))}


def check_ace(c, ctx):
    os.chdir(ctx.dir())
    t = acegen.build(c["spec"])
    open("a.ace", "w").write(acegen.ascii_text(t))
    a, b = IncidentNeutron.from_ace("a.ace"), IncidentNeutron.from_ace("a.ace")
    same(a, b, "neutron data")
    same(a, copy.deepcopy(a), "neutron data")
    for mt in a.reactions:
        same(a[mt], b[mt], "MT%d" % mt)
    # another cross section at one energy
    mt = sorted(a.reactions)[c["pos"] % len(a.reactions)]
    xs = b[mt].xs[b.temperatures[0]]
    if hasattr(xs, "y") and len(xs.y) and not a[mt].redundant:
        y = xs.y.copy()
        y[c["pos"] % len(y)] = y[c["pos"] % len(y)] * 1.001 + 1e-9
        xs.y = y
        apart(a, b, "neutron data with another MT%d" % mt)
        apart(a[mt], b[mt], "MT%d" % mt)
        ctx.label("cross section changed")
    e = copy.deepcopy(a)
    T = e.temperatures[0]
    g = np.array(e.energy[T])
    g[c["pos"] % len(g)] *= 1.001
    e.energy[T] = g
    apart(a, e, "neutron data on another grid")
    ctx.nontrivial(len(a.reactions) > 2)


# ------------------------------------------------------------------ read twice
class Quiet:
    """stands for the context of the check that writes the file"""
    def __init__(self, d):
        self.dir, self.label, self.nontrivial = (lambda: d), (lambda *a: None), (lambda *a: None)


def file_of(func, c, d, *names):
    """path of the file that another check reads, whatever it finds"""
    try:
        func(c, Quiet(d))
    except Exception:
        pass
    for n in names:
        p = os.path.join(d, n)
        if os.path.exists(p):
            return p


def more(u):
    return ufloat(u.nominal_value * 1.001 + 1e-12, u.std_dev)


def wider(u):
    return ufloat(u.nominal_value, u.std_dev * 1.001 + 1e-12)


def angular_momenta(I, l):
    return {abs(abs(l - s) + k) for s in (abs(I - 0.5), I + 0.5) for k in range(int(l + s - abs(l - s)) + 1)}


def change_decay(o, rs):
    k = rs.randint(5)
    if k < 2 and o.modes:
        m = o.modes[rs.randint(len(o.modes))]
        if k:
            m.branching_ratio = wider(m.branching_ratio)
        else:
            m.energy = more(m.energy)
    elif k == 2 and o.average_energies:
        e = sorted(o.average_energies)[rs.randint(len(o.average_energies))]
        o.average_energies[e] = wider(o.average_energies[e])
    elif k == 3 and o.spectra:
        s = o.spectra[sorted(o.spectra)[rs.randint(len(o.spectra))]]
        s["energy_average"] = more(s["energy_average"])
    elif o.half_life.nominal_value < 1e300:
        o.half_life = wider(o.half_life) if k == 4 else more(o.half_life)
    else:
        o.nuclide["mass"] *= 1.001


def change_yields(o, rs):
    a = [y for ys in (o.independent, o.cumulative) for y in ys or [] if y]
    if not a:
        o.nuclide["mass_number"] += 1
        return
    y = a[rs.randint(len(a))]
    k = sorted(y)[rs.randint(len(y))]
    y[k] = (more, wider)[rs.randint(2)](y[k])


def change_frame(p, rs):
    if isinstance(p, list):
        p = p[rs.randint(len(p))]
    i, j = rs.randint(len(p)), rs.randint(1, len(p.columns))
    p[p.columns[j]] = p[p.columns[j]].astype(float)
    p.iloc[i, j] = p.iloc[i, j] * 1.001 + 1e-9


def change_resonances(o, rs):
    r = o.resonances.ranges[rs.randint(len(o.resonances.ranges))]
    k, p = rs.randint(3), getattr(r, "parameters", None)
    groups = [g for g in getattr(r, "spin_groups", []) if len(g.parameters)]
    if k == 0:
        r.energy_max *= 1.001
    elif k == 1 and groups:
        change_frame(groups[rs.randint(len(groups))].parameters, rs)
    elif k == 1 and p is not None and len(p):
        change_frame(p, rs)
    elif o.resonance_covariance is not None and len(o.resonance_covariance.ranges):
        c = o.resonance_covariance.ranges[rs.randint(len(o.resonance_covariance.ranges))].covariance
        c[0, rs.randint(len(c))] += 1e-6
    elif hasattr(r, "target_spin"):
        r.target_spin += 1
    else:
        r.energy_min *= 1.001


def change_neutron(o, rs):
    mt = sorted(o.reactions)[rs.randint(len(o.reactions))]
    rx = o.reactions[mt]
    if rx.products and rs.randint(2):
        p = rx.products[rs.randint(len(rx.products))]
        p.decay_rate += 0.5
    elif rx.derived_products and rs.randint(2):
        rx.derived_products[0].decay_rate += 0.5
    elif rs.randint(2):
        rx.q_value += 1.0
    else:
        rx.center_of_mass = not rx.center_of_mass


def change_thermal(o, rs):
    t = sorted(o.inelastic_xs)[rs.randint(len(o.inelastic_xs))]
    y = np.array(o.inelastic_xs[t].y)
    y[rs.randint(len(y))] *= 1.001
    o.inelastic_xs[t].y = y


def change_photon(o, rs):
    rx = o.reactions[sorted(o.reactions)[rs.randint(len(o.reactions))]]
    a = o.atomic_relaxation
    if rs.randint(2) and a is not None and a.num_electrons:
        k = sorted(a.num_electrons)[rs.randint(len(a.num_electrons))]
        a.num_electrons[k] += 1
    else:
        y = np.array(rx.xs.y)
        y[rs.randint(len(y))] += 1e-3
        rx.xs.y = y


def change_multipole(o, rs):
    a = np.array(o.data if rs.randint(2) else o.curvefit)
    if not a.size:
        o.sqrtAWR *= 1.001
        return
    a.flat[rs.randint(a.size)] += 1e-3
    if a.dtype.kind == "c":
        o.data = a
    else:
        o.curvefit = a


def multipole(c, d):
    v, _ = c36.build(c)
    return c36.make(v)


FILES = {
    "decay": (c32.decay_case(), lambda c, d: file_of(c32.run_decay, c, d, "decay"), Decay.from_endf, change_decay),
    "yields": (c32.fpy_case(), lambda c, d: file_of(c32.run_fpy, c, d, "fpy"), FissionProductYields.from_endf, change_yields),
    "resonances": (c28.case(), lambda c, d: file_of(c28.run, c, d, "tape"), IncidentNeutron.from_endf, change_resonances),
    "covariances": (c29.case(), lambda c, d: file_of(c29.load, c, d, "tape"), lambda p: IncidentNeutron.from_endf(p, covariance=True), change_resonances),
    "evaluation": (c27.case(), lambda c, d: file_of(c27.run, c, d, "tape"), IncidentNeutron.from_endf, change_neutron),
    "thermal": (c30.case(), lambda c, d: file_of(c30.check, c, d, "t0"), ThermalScattering.from_ace, change_thermal),
    "photon": (c33.ace_case(), lambda c, d: file_of(c33.run_ace, c, d, "ace"), IncidentPhoton.from_ace, change_photon),
    "multipole": (c36.case(), lambda c, d: c, lambda c: multipole(c, None), change_multipole),
}


def case_file():
    return st.one_of(*[st.fixed_dictionaries({"file": st.just(k), "pos": st.integers(0, 10 ** 6), "case": v[0]}) for k, v in sorted(FILES.items())])


def check_file(c, ctx):
    k = c["file"]
    d = ctx.dir()
    os.chdir(d)
    _, write, read, change = FILES[k]
    src = write(c["case"], d)
    if src is None:
        ctx.label("not written")
        return
    try:
        a, b = read(src), read(src)
    except Exception:
        ctx.label("not read")          # that is for the check of these data to say
        return
    same(a, b, k)
    same(a, copy.deepcopy(a), "a copy of " + k)
    rs = np.random.RandomState([c["pos"], 40])
    if k in ("resonances", "covariances"):
        # having been asked for cross sections changes nothing
        for r in a.resonances.ranges:
            if type(r).__name__ in ("MultiLevelBreitWigner", "SingleLevelBreitWigner", "ReichMoore") and len(r.parameters):
                # spins that the angular momenta allow (anything else is not data)
                if not all(abs(j) in angular_momenta(r.target_spin, int(l)) for l, j in zip(r.parameters["L"], r.parameters["J"])):
                    continue
                try:
                    r.reconstruct(r.energy_max)
                except Exception:
                    continue
                ctx.label("reconstructed")
        same(a, b, k + ", one of which has been used")
    for _ in range(3):
        e = copy.deepcopy(b)
        change(e, rs)
        apart(a, e, k + " with another value")
    same(a, b, k)
    ctx.label(k)
    ctx.nontrivial()


SUBS = [Sub("objects", case(), check, 2400, 100000, "more than three values"), Sub("neutron data", case_ace(), check_ace, 300, 12000, "three or more reactions"),
        Sub("files", case_file(), check_file, 480, 16000, "read")]
