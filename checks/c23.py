import os, warnings
import h5py
import numpy as np
from hypothesis import strategies as st
from ASAPy.data import neutron, ace
from ASAPy.data.function import Sum, Tabulated1D
from ASAPy.data.univariate import Uniform, Tabular
from lib.core import Sub, require, expect_raises
from lib import acegen, sums

warnings.simplefilter("ignore")
ASSUMPTIONS = ["cross sections of pure sums are recomputed from their parts when read, as documented in the reader"]


def differs(a, b, path=""):
    """first difference between two values of the data model, or None"""
    if a is None or b is None:
        return None if a is b else "%s: %r against %r" % (path, a, b)
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return None if bool(a) == bool(b) else "%s: %r against %r" % (path, a, b)
    if isinstance(a, (int, float, np.integer, np.floating)):
        return None if isinstance(b, (int, float, np.integer, np.floating)) and a == b else "%s: %r against %r" % (path, a, b)
    if isinstance(a, (str, bytes)):
        return None if a == b else "%s: %r against %r" % (path, a, b)
    if isinstance(a, np.ndarray) and a.dtype != object:
        if not isinstance(b, (np.ndarray, list, tuple)):
            return "%s: %r against %r" % (path, a, b)
        b = np.asarray(b)
        return None if a.shape == b.shape and np.array_equal(a, b) else "%s: %r against %r" % (path, a, b)
    if path.endswith(".probability"):
        return None if np.allclose(a, b, rtol=1e-9, atol=1e-12) else "%s: %r against %r" % (path, a, b)
    if isinstance(a, (list, tuple, np.ndarray)):
        if isinstance(b, np.ndarray) and b.dtype != object:
            return differs(np.asarray(a), b, path)
        if not isinstance(b, (list, tuple, np.ndarray)) or len(a) != len(b):
            return "%s: %s items against %s" % (path, len(a), len(b) if hasattr(b, "__len__") else b)
        for k, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, "%s[%d]" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return "%s: keys %s against %s" % (path, sorted(a), sorted(b) if isinstance(b, dict) else b)
        for k in a:
            d = differs(a[k], b[k], "%s[%r]" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, Uniform) and isinstance(b, Tabular):
        # the file stores every angular distribution as a table
        d = 1.0 / (a.b - a.a)
        ok = list(b.x) == [a.a, a.b] and list(b.p)[0] == d and list(b.c) == [0.0, 1.0] and b.interpolation in ("histogram", "linear-linear")
        ok = ok and (b.interpolation == "histogram" or list(b.p)[1] == d)
        return None if ok else "%s: uniform between %s and %s against table %s %s %s %s" % (path, a.a, a.b, b.x, b.p, b.c, b.interpolation)
    if type(a) is not type(b):
        return "%s: %s against %s" % (path, type(a).__name__, type(b).__name__)
    names = sorted({k for k in public(a)} | {k for k in public(b)})
    for k in names:
        d = differs(getattr(a, k), getattr(b, k), path + "." + k)
        if d:
            return d
    return None


def public(o):
    """public data attributes and properties"""
    out = [k for k in getattr(o, "__dict__", {}) if not k.startswith("_")]
    for c in type(o).__mro__:
        out += [k for k, v in vars(c).items() if isinstance(v, property) and not k.startswith("_")]
    return out


def product_differs(p, q, path):
    for k in ("particle", "decay_rate", "emission_mode", "yield_", "distribution", "applicability"):
        d = differs(getattr(p, k), getattr(q, k), path + "." + k)
        if d:
            return d
    return None


SKIP_SUM = (1, 3, 27, 101)


@st.composite
def case(draw):
    extra = draw(st.lists(st.sampled_from([4, 51, 52, 102, 103, 107, 16, 600, 601, 650, 875, 876, 19, 38]), max_size=4, unique=True))
    s = draw(acegen.spec(simple=draw(st.integers(0, 4)) == 4, extra_mts=extra, max_nes=8))
    return {"spec": s, "temps": draw(st.lists(st.sampled_from([77.0, 293.6, 600.0, 900.0, 1200.0, 2500.0]), min_size=0, max_size=2, unique=True)), "libver": draw(st.sampled_from([None, "earliest", "latest"])),
            "group": draw(st.booleans()), "lib": draw(st.booleans()), "edit": draw(st.booleans())}


def expected_sum(d, mt, T):
    return [d.reactions[m] for m in sums.PARTS[mt] if m in d.reactions]


def check(c, ctx):
    os.chdir(ctx.dir())
    spec = c["spec"]
    tables = [acegen.build(spec)]
    T0 = acegen.head_values(tables[0])[1]
    for k, T in enumerate(c["temps"]):
        s = dict(spec, kT=acegen.r11(T * acegen.K_MEV), seed=spec["seed"] + k + 1, nes=spec["nes"] + k)
        t = acegen.build(s)
        if acegen.head_values(t)[1] not in [acegen.head_values(x)[1] for x in tables]:
            tables.append(t)
    for k, t in enumerate(tables):
        open("%d.ace" % k, "w").write(acegen.ascii_text(t))
    a = neutron.IncidentNeutron.from_ace("0.ace")
    single = [neutron.IncidentNeutron.from_ace("%d.ace" % k) for k in range(len(tables))]
    for k in range(1, len(tables)):
        a.add_temperature_from_ace("%d.ace" % k)
        # a temperature that is there already is not added again
        n = len(a.temperatures)
        a.add_temperature_from_ace("%d.ace" % k)
        require(len(a.temperatures) == n == k + 1, "temperatures {}", a.temperatures)
    strT = ["%dK" % int(round(acegen.head_values(t)[1] * 1e6 / 8.6173303e-5)) for t in tables]
    require(list(a.temperatures) == strT, "temperatures {} instead of {}", a.temperatures, strT)
    # every temperature holds the data of its own file
    for k, t in enumerate(tables):
        T = strT[k]
        require((np.shape(a.energy[T]) == np.shape(t.facts["grid"]) and np.allclose(a.energy[T], t.facts["grid"], rtol=1e-13, atol=0)), "energy grid at {} is not that of its file", T)
        for mt, rx in single[k].reactions.items():
            if mt in a.reactions:
                d = differs(rx.xs[T], a.reactions[mt].xs[T], "MT%d at %s" % (mt, T))
                require(d is None, "added temperature: {}", d)
        require((T in a.urr) == bool(spec.get("urr")), "probability tables for {}", list(a.urr))
        if T in a.urr:
            require((np.shape(a.urr[T].energy) == np.shape(t.facts["urr"]["energy"]) and np.allclose(a.urr[T].energy, t.facts["urr"]["energy"], rtol=1e-13, atol=0)), "probability tables at {} are not those of the file", T)
    other = dict(spec, zaid=95241 if spec["zaid"] != 95241 else 92235, kT=acegen.r11(444.0 * acegen.K_MEV))
    open("x.ace", "w").write(acegen.ascii_text(acegen.build(other)))
    before = list(a.temperatures)
    expect_raises(lambda: a.add_temperature_from_ace("x.ace"), "data of another nuclide")
    require(list(a.temperatures) == before, "a refused file left temperatures {}", a.temperatures)

    kw = {} if c["libver"] is None else {"libver": c["libver"]}
    if c["group"]:
        # a file can hold several nuclides
        second = neutron.IncidentNeutron.from_ace("x.ace")
        if spec["seed"] % 2:
            second.export_to_hdf5("a.h5", "w", **kw)
            a.export_to_hdf5("a.h5", **kw)
        else:
            a.export_to_hdf5("a.h5", "w", **kw)
            second.export_to_hdf5("a.h5", "a", **kw)
    else:
        a.export_to_hdf5("a.h5", "w", **kw)
    if c["lib"]:
        expect_raises(lambda: a.export_to_hdf5("a.h5", "x"), "existing file in mode x")
    if c["group"]:
        with h5py.File("a.h5", "r") as h:
            b = neutron.IncidentNeutron.from_hdf5(h[a.name])
            compare(second, neutron.IncidentNeutron.from_hdf5(h[second.name]))
    else:
        b = neutron.IncidentNeutron.from_hdf5("a.h5")
    compare(a, b)
    b.export_to_hdf5("b.h5", "w")
    compare(b, neutron.IncidentNeutron.from_hdf5("b.h5"))
    # data put together from parts are written like data read
    n = neutron.IncidentNeutron(a.name, a.atomic_number, a.mass_number, a.metastable, a.atomic_weight_ratio, list(a.kTs))
    n.energy = dict(a.energy)
    n.reactions = type(a.reactions)(a.reactions)
    n.urr = dict(a.urr)
    n.export_to_hdf5("n.h5", "w")
    with h5py.File("n.h5", "r") as h:
        require(bytes(h.attrs["filetype"]) == b"data_neutron" and list(h) == [a.name], "file of {} {}", h.attrs["filetype"], list(h))
    compare(a, neutron.IncidentNeutron.from_hdf5("n.h5"))
    ctx.label("%d temperatures" % len(tables), *[k for k in ("urr", "nu", "photons") if spec.get(k)], "%d reactions" % min(5, len(spec["reactions"])))
    ctx.nontrivial(len(spec["reactions"]) > 1)


def compare(a, b):
    for k in ("name", "atomic_number", "mass_number", "metastable", "atomic_weight_ratio", "atomic_symbol"):
        require(getattr(a, k) == getattr(b, k), "{} is {!r} instead of {!r}", k, getattr(b, k), getattr(a, k))
    require(dict(zip(a.temperatures, a.kTs)) == dict(zip(b.temperatures, b.kTs)), "temperatures {} {} instead of {} {}", b.temperatures, b.kTs, a.temperatures, a.kTs)
    d = differs(dict(a.energy), dict(b.energy), "energy grids")
    require(d is None, "{}", d)
    d = differs(dict(a.urr), dict(b.urr), "probability tables")
    require(d is None, "{}", d)
    for mt, rx in a.reactions.items():
        if rx.redundant and not (mt in (16, 103, 104, 105, 106, 107, 4) or any(p.particle == "photon" for p in rx.products)):
            continue
        require(mt in b.reactions, "MT{} was lost", mt)
        ry = b.reactions[mt]
        for k in ("mt", "q_value", "center_of_mass", "redundant"):
            d = differs(getattr(rx, k), getattr(ry, k), "MT%d %s" % (mt, k))
            require(d is None, "{}", d)
        require(set(rx.xs) == set(ry.xs), "MT{} has temperatures {} instead of {}", mt, sorted(ry.xs), sorted(rx.xs))
        for T in rx.xs:
            d = differs(rx.xs[T], ry.xs[T], "MT%d cross section at %s" % (mt, T))
            require(d is None, "{}", d)
            for e in a.energy[T][::2]:
                require(float(rx.xs[T](e)) == float(ry.xs[T](e)), "MT{} at {} eV", mt, e)
        require(len(rx.products) == len(ry.products), "MT{} has {} products instead of {}", mt, len(ry.products), len(rx.products))
        for k, (p, q) in enumerate(zip(rx.products, ry.products)):
            d = product_differs(p, q, "MT%d product %d" % (mt, k))
            require(d is None, "{}", d)
        require(len(rx.derived_products) == len(ry.derived_products), "MT{} has {} derived products instead of {}", mt, len(ry.derived_products), len(rx.derived_products))
        for k, (p, q) in enumerate(zip(rx.derived_products, ry.derived_products)):
            d = product_differs(p, q, "MT%d derived product %d" % (mt, k))
            require(d is None, "{}", d)
    # pure sums: present wherever they were, equal to the sum of their parts
    for mt in (1, 101, 3, 27, 18, 4):
        if mt in b.reactions and b.reactions[mt].redundant and isinstance(next(iter(b.reactions[mt].xs.values())), Sum):
            for T in b.temperatures:
                e = b.energy[T]
                want = sum(r.xs[T](e) for r in leaves(b, mt))
                got = b.reactions[mt].xs[T](e)
                require(np.allclose(got, want, rtol=1e-12, atol=0), "MT{} at {} is\n{}\ninstead of the sum of its parts\n{}", mt, T, got, want)
        if mt in a.reactions and leaves(b, mt):
            require(mt in b.reactions, "MT{} was lost", mt)


def leaves(d, mt):
    """the reactions a sum is made of, by the rules of the format"""
    from ASAPy.data.endf import SUM_RULES
    out = []
    for m in SUM_RULES[mt]:
        if m in d.reactions:
            out.append(d.reactions[m])
    return out


SUBS = [Sub("round trip", case(), check, 560, 20000, "two or more reactions besides elastic")]
