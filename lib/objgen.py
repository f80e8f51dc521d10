"""Data objects made with the public constructors from a stream of values; one value of the stream can be changed."""
import numpy as np
from ASAPy.data.univariate import Discrete, Legendre, Maxwell, Mixture, Tabular, Uniform, Watt
from ASAPy.data.function import Combination, Polynomial, Regions1D, Sum, Tabulated1D
from ASAPy.data import energy_distribution as ed
from ASAPy.data.angle_distribution import AngleDistribution
from ASAPy.data.correlated import CorrelatedAngleEnergy
from ASAPy.data.kalbach_mann import KalbachMann
from ASAPy.data.laboratory import LaboratoryAngleEnergy
from ASAPy.data.nbody import NBodyPhaseSpace
from ASAPy.data.uncorrelated import UncorrelatedAngleEnergy
from ASAPy.data.product import Product
from ASAPy.data.reaction import Reaction
from ASAPy.data.thermal import CoherentElastic
from ASAPy.data.urr import ProbabilityTables


class Src:
    def __init__(self, seed, big=3, change=None, hdf5=False, lists=False):
        self.rs, self.big, self.change, self.n, self.hdf5, self.lists = np.random.RandomState(seed), big, change, 0, hdf5, lists

    def touched(self):
        self.n += 1
        return self.change is not None and self.n - 1 == self.change

    def num(self, lo=0.1, hi=10.0):
        v = float(self.rs.uniform(lo, hi))
        return v * 1.0009765625 if self.touched() else v

    def pick(self, *options):
        k = int(self.rs.randint(len(options)))
        if self.touched():
            k = (k + 1) % len(options)
        return options[k]

    def size(self, lo=1):
        return int(self.rs.randint(lo, self.big + 2))

    def flag(self):
        """part of the structure, never changed"""
        return bool(self.rs.randint(2))

    def arr(self, n, lo=0.1, hi=10.0):
        v = [self.num(lo, hi) for _ in range(n)]
        return v if self.lists else np.array(v)

    def up(self, n, lo=0.1, hi=10.0):
        v = list(np.cumsum([self.num(lo, hi) for _ in range(n)]))
        return [float(x) for x in v] if self.lists else np.array(v)


def tabular(s, n=None):
    n = n or s.size(2)
    t = Tabular(s.up(n), s.arr(n), s.pick("histogram", "linear-linear"))
    t.c = s.up(n)
    return t


def discrete(s, n=None, c=True):
    n = n or s.size()
    d = Discrete(s.up(n), s.arr(n))
    d.c = s.up(n, 0.001, 0.5 / n)
    return d


def mixture(s):
    d, t = discrete(s), tabular(s)
    p = float(d.c[-1])
    return Mixture([p, 1.0 - p], [d, t])


def univariate(s):
    return [tabular, tabular, discrete, mixture][s.rs.randint(4)](s)


def cosines(s):
    k = s.rs.randint(4)
    if k == 0:
        return Uniform(-s.num(0.5, 1.0), s.num(0.5, 1.0))
    return tabular(s)


def table(s, n=None):
    n = n or s.size(2)
    x, y = s.up(n), s.arr(n)
    if n > 2 and s.flag():
        return Tabulated1D(x, y, [2, n], [s.pick(1, 2, 3, 4, 5), s.pick(1, 2, 3, 4, 5)])
    return Tabulated1D(x, y, [n], [s.pick(1, 2, 3, 4, 5)])


def polynomial(s):
    return Polynomial([s.num() for _ in range(s.size())])


def function(s):
    return table(s) if s.flag() else polynomial(s)


def regions(s, n):
    """breakpoints and interpolation of n incident energies"""
    if n > 2 and s.flag():
        return np.array([2, n]), np.array([s.pick(1, 2), s.pick(1, 2)])
    return np.array([n]), np.array([s.pick(1, 2)])


def continuous(s):
    n = s.size()
    return ed.ContinuousTabular(*regions(s, n), s.up(n), [univariate(s) for _ in range(n)])


def kalbach(s):
    n = s.size()
    b, i, e = *regions(s, n), s.up(n)
    out = [univariate(s) for _ in range(n)]
    def xs(d):
        return np.concatenate([np.asarray(q.x) for q in d.distribution]) if isinstance(d, Mixture) else np.asarray(d.x)
    return KalbachMann(b, i, e, out, [Tabulated1D(xs(d), s.arr(len(d))) for d in out], [Tabulated1D(xs(d), s.arr(len(d))) for d in out])


def correlated(s):
    n = s.size()
    b, i, e = *regions(s, n), s.up(n)
    out = [univariate(s) for _ in range(n)]
    return CorrelatedAngleEnergy(b, i, e, out, [[discrete(s) if s.rs.randint(4) == 0 else cosines(s) for _ in range(len(d))] for d in out])


def laboratory(s):
    n = s.size()
    b, i, e = *regions(s, n), s.up(n)
    mu = [tabular(s) for _ in range(n)]
    return LaboratoryAngleEnergy(b, i, e, mu, [[tabular(s) for _ in range(len(m))] for m in mu])


def angle(s):
    n = s.size()
    return AngleDistribution(s.up(n), [cosines(s) for _ in range(n)])


ENERGY = {
    "maxwell": lambda s: ed.MaxwellEnergy(table(s), s.num()),
    "evaporation": lambda s: ed.Evaporation(table(s), s.num()),
    "watt": lambda s: ed.WattEnergy(table(s), table(s), s.num()),
    "madland": lambda s: ed.MadlandNix(s.num(), s.num(), table(s)),
    "photon": lambda s: ed.DiscretePhoton(s.pick(0, 1, 2), s.num(), s.num()),
    "level": lambda s: ed.LevelInelastic(s.num(), s.num()),
    "continuous": continuous,
}
OTHER_ENERGY = {
    "general evaporation": lambda s: ed.GeneralEvaporation(table(s), table(s), s.num()),
    "arbitrary": lambda s: (lambda n: ed.ArbitraryTabulated(s.up(n), [table(s) for _ in range(n)]))(s.size()),
}


def energy(s):
    names = sorted(ENERGY) if s.hdf5 else sorted(ENERGY) + sorted(OTHER_ENERGY)
    return {**ENERGY, **OTHER_ENERGY}[names[s.rs.randint(len(names))]](s)


def uncorrelated(s):
    d = UncorrelatedAngleEnergy()
    k = s.rs.randint(3)
    if k != 1:
        d.angle = angle(s)
    if k != 2:
        d.energy = energy(s)
    return d


def nbody(s):
    return NBodyPhaseSpace(s.num(), int(s.pick(3, 4, 5)), s.num(), s.num(-5.0, 5.0))


def distribution(s):
    return [uncorrelated, uncorrelated, correlated, kalbach, nbody][s.rs.randint(5)](s)


def product(s):
    p = Product(s.pick("neutron", "photon", "U235", "He4"))
    p.emission_mode = s.pick("prompt", "delayed", "total")
    if s.flag():
        p.decay_rate = s.num()
    p.yield_ = function(s)
    n = s.rs.randint(3)
    p.distribution = [distribution(s) for _ in range(n)]
    if n > 1 or s.flag():
        p.applicability = [table(s) for _ in range(n)]
    return p


def reaction(s):
    r = Reaction(int(s.pick(2, 16, 18, 51, 102, 875)))
    r.q_value = s.num(-10.0, 10.0)
    r.center_of_mass = s.pick(True, False)
    r.redundant = s.pick(True, False)
    grids = {}
    for T in ["294K", "600K", "1200K"][:1 + s.rs.randint(3)]:
        n = s.size(2)
        grids[T] = np.asarray(s.up(n + 2))
        k = s.rs.randint(3)
        r.xs[T] = Tabulated1D(grids[T][k:], np.asarray(s.arr(n + 2 - k)))
        r.xs[T]._threshold_idx = k
    r.products = [product(s) for _ in range(s.rs.randint(3))]
    if not s.hdf5:
        r.derived_products = [product(s) for _ in range(s.rs.randint(3))]
    r.grids = grids
    return r


def urr(s):
    n, m = s.size(), s.size()
    return ProbabilityTables(s.up(n), np.array([s.num() for _ in range(n * 6 * m)]).reshape(n, 6, m), s.pick(2, 5), s.pick(-1, 4, 51), s.pick(-1, 102), s.pick(True, False))


def coherent(s):
    n = s.size()
    return CoherentElastic(s.up(n), s.up(n))


KINDS = dict({"energy " + k: v for k, v in ENERGY.items()}, table=table, polynomial=polynomial, angle=angle, uncorrelated=uncorrelated, correlated=correlated,
             kalbach=kalbach, nbody=nbody, product=product, reaction=reaction, urr=urr, coherent=coherent)
MORE = dict({"energy " + k: v for k, v in OTHER_ENERGY.items()}, tabular=tabular, discrete=discrete, mixture=mixture, laboratory=laboratory,
            uniform=lambda s: Uniform(s.num(), s.num(20.0, 30.0)), maxwell=lambda s: Maxwell(s.num()), watt=lambda s: Watt(s.num(), s.num()),
            legendre=lambda s: Legendre([1.0] + [s.num(-0.3, 0.3) for _ in range(s.size())]), sum=lambda s: Sum([function(s) for _ in range(s.size())]),
            regions=lambda s: (lambda n: Regions1D([table(s) for _ in range(n)], s.up(n - 1)))(s.size(2)),
            combination=lambda s: (lambda n: Combination([function(s) for _ in range(n)], [s.pick(np.add, np.subtract, np.multiply) for _ in range(n - 1)]))(s.size(2)))
