import os, warnings
import h5py
import numpy as np
from hypothesis import strategies as st
from ASAPy.data.angle_distribution import AngleDistribution
from ASAPy.data.angle_energy import AngleEnergy
from ASAPy.data.energy_distribution import EnergyDistribution
from ASAPy.data.fission_energy import FissionEnergyRelease
from ASAPy.data.function import Function1D
from ASAPy.data.product import Product
from ASAPy.data.reaction import Reaction
from ASAPy.data.thermal import CoherentElastic
from ASAPy.data.urr import ProbabilityTables
from lib.core import Sub, require
from lib import objgen
from checks.c23 import differs, product_differs

warnings.simplefilter("ignore")
ASSUMPTIONS = ["tabulated distributions carry their cumulative distribution and are histograms or interpolate linearly, as those of ACE files do", "a mixture is of one discrete and one continuous distribution with the probability of the lines given by their cumulative distribution"]


@st.composite
def case(draw):
    return {"kind": draw(st.sampled_from(sorted(objgen.KINDS))), "seed": draw(st.integers(0, 10 ** 6)), "big": draw(st.integers(1, 5)), "lists": draw(st.booleans()), "twice": draw(st.booleans())}


def write(o, h):
    if isinstance(o, Function1D):
        o.to_hdf5(h, "f")
    elif isinstance(o, CoherentElastic):
        o.to_hdf5(h, "f")
    else:
        o.to_hdf5(h)


def read(o, h):
    if isinstance(o, Function1D):
        return Function1D.from_hdf5(h["f"])
    if isinstance(o, CoherentElastic):
        return CoherentElastic.from_hdf5(h["f"])
    if isinstance(o, Reaction):
        return Reaction.from_hdf5(h, o.grids)
    for base in (EnergyDistribution, AngleEnergy, AngleDistribution, Product, ProbabilityTables):
        if isinstance(o, base):
            return base.from_hdf5(h)


def compare(a, b, what):
    if isinstance(a, Reaction):
        for k in ("mt", "q_value", "center_of_mass", "redundant"):
            d = differs(getattr(a, k), getattr(b, k), what + "." + k)
            require(d is None, "{}", d)
        require(set(a.xs) == set(b.xs), "{}: temperatures {} instead of {}", what, sorted(b.xs), sorted(a.xs))
        for T in a.xs:
            d = differs(a.xs[T], b.xs[T], what + ".xs[" + T + "]")
            require(d is None, "{}", d)
        require(len(a.products) == len(b.products), "{}: {} products instead of {}", what, len(b.products), len(a.products))
        for i, (p, q) in enumerate(zip(a.products, b.products)):
            d = product_differs(p, q, "%s.products[%d]" % (what, i))
            require(d is None, "{}", d)
        return
    d = product_differs(a, b, what) if isinstance(a, Product) else differs(a, b, what)
    require(d is None, "{}", d)


def check(c, ctx):
    o = objgen.KINDS[c["kind"]](objgen.Src(c["seed"], c["big"], hdf5=True, lists=c["lists"]))
    path = os.path.join(ctx.dir(), "f.h5")
    with h5py.File(path, "w") as h:
        write(o, h.create_group("g"))
    with h5py.File(path, "r") as h:
        b = read(o, h["g"])
    compare(o, b, c["kind"])
    if c["twice"]:
        with h5py.File(path, "w") as h:
            write(b, h.create_group("g"))
        with h5py.File(path, "r") as h:
            if isinstance(b, Reaction):
                b.grids = o.grids
            compare(o, read(b, h["g"]), c["kind"] + " (second time)")
    ctx.label(c["kind"])
    ctx.nontrivial(c["kind"] not in ("table", "polynomial", "nbody", "energy level", "energy photon"))


SUBS = [Sub("objects", case(), check, 3000, 120000, "not one of the kinds that hold a few numbers only")]
