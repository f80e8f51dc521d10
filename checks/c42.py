import copy, warnings
from collections.abc import Iterable
from numbers import Integral, Real
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from uncertainties import ufloat
from ASAPy.data import checkvalue as cv, mixin
from ASAPy.data import fission_energy, neutron, photon, resonance, resonance_covariance
from ASAPy.data.decay import DecayMode
from ASAPy.data.function import ResonancesWithBackground
from ASAPy.data.multipole import WindowedMultipole
from ASAPy.data._xml import get_text
import xml.etree.ElementTree as ET
from lib.core import Sub, require
from lib import objgen

warnings.simplefilter("ignore")
ASSUMPTIONS = ["a value that an attribute cannot hold is refused with TypeError or ValueError", "booleans count as numbers, NaN is not offered, a string is not offered as a list of strings",
               "of the type-checked list append, insert, extend, + and += are used"]
BAD = [None, "text", object(), 3.7j, {"a": 1}]


# ---------------------------------------------------------------------------- values: each kind gives (values it can hold, values it cannot)
def scalars(rs):
    return [rs.uniform(-9, 9), float(rs.randint(-5, 5)), int(rs.randint(-5, 5)), np.float64(rs.uniform(-9, 9)), np.float32(1.5), np.int64(rs.randint(-3, 9)), 0, -1e300, 1e-300]


def real(rs):
    return scalars(rs), BAD + [[1.0], np.array([1.0, 2.0])]


def positive(rs):
    v = scalars(rs)
    return [x for x in v if x > 0] + [1e-12, 7, 3.5], BAD + [x for x in v if x <= 0] + [0, 0.0, -1e-12, -4, [1.0]]


def nonnegative(rs):
    v = scalars(rs)
    return [x for x in v if x >= 0] + [0, 0.0, 1e-12], BAD + [x for x in v if x < 0] + [-1e-12, -4, [1.0]]


def integer(rs):
    return [int(rs.randint(-9, 99)), np.int64(rs.randint(-9, 99)), np.int32(4), 0, -1], BAD + [1.5, 2.0, np.float64(3.0), [1]]


def count(rs):
    return [int(rs.randint(1, 99)), np.int64(5), 1], BAD + [0, -1, 2.0, np.int64(-7), [1]]


def natural(rs):
    return [int(rs.randint(0, 99)), np.int64(5), 1, 0], BAD + [-1, 2.0, np.int64(-7), [1]]


def boolean(rs):
    return [True, False], [None, 0, 1, "True", 1.0, [True]]


def numpy_boolean(rs):
    g, b = boolean(rs)
    return g + [np.bool_(True), np.bool_(False)], b


def text(rs):
    return ["U235", "", "x" * int(rs.randint(1, 9))], [None, 3, b"bytes", ["U235"], 1.0]


def texts(rs):
    return [["alpha"], ["beta-", "n"], ("sf",), []], [None, 3, [1], ["alpha", None], [b"x"]]


def reals(rs):
    n = rs.randint(1, 6)
    v = rs.uniform(-5, 9, n)
    return [v, v.tolist(), tuple(v), v.astype(np.float32), v.astype(int), [1, 2.5], [], np.array([])], [None, 5.0, v.astype(str), v * 1j, ["a"], v.tolist() + [None], ["1.0"] + v.tolist(), [[1.0]], object()]


def weights(rs):
    g, b = reals(rs)
    n = rs.randint(1, 6)
    v = rs.uniform(0, 9, n)
    k = rs.randint(n)
    w = v.copy()
    w[k] = -abs(w[k]) - 1e-9
    return [v, v.tolist(), tuple(v), np.append(v, 0.0), [0.0, 1], [0, 0]], [x for x in b] + [w, w.tolist(), [-1], np.array([1.0, -1e-12])]


def integers(rs):
    v = rs.randint(1, 9, rs.randint(1, 5))
    return [v, v.tolist(), tuple(v), v.astype(np.int32), [2], []], [None, 5, v.astype(float), v.tolist() + [2.5], ["1"], v.astype(str), [[1]]]


def edges(rs):
    """several numbers, kept as an array"""
    g, b = reals(rs)
    return g[:6], b


def choice(*options, no):
    return lambda rs: (list(options), list(no))


def some(make):
    """one object of a class"""
    return lambda rs: ([make(rs) for _ in range(2)], BAD + [[make(rs)], 1.0, type(make(rs))])


def many(make):
    def f(rs):
        n = rs.randint(1, 4)
        o = [make(rs) for _ in range(n)]
        return [o, tuple(o), o[:1], []], [None, 1.0, o + [None], [1.0] + o, o + ["x"], [o], object()]
    return f


def nested(make):
    def f(rs):
        o = [[make(rs) for _ in range(rs.randint(1, 3))] for _ in range(rs.randint(1, 4))]
        return [o, o[:1]], [o[0], [o], o + [1.0], o + [[None]], [[1.0]] + o, [o[0], o[0][0]]]
    return f


def src(rs, **kw):
    return objgen.Src(int(rs.randint(10 ** 6)), 2, **kw)


OBJ = {"table": objgen.table, "univariate": objgen.univariate, "angle": objgen.angle, "energy": objgen.energy, "function": objgen.function, "product": objgen.product,
       "angle energy": objgen.distribution, "urr": objgen.urr}


def a(kind):
    return lambda rs: OBJ[kind](src(rs))


def function(rs):
    """anything that can be called"""
    return [a("table")(rs), a("function")(rs), np.sin, lambda E: 2.0], [None, 1.0, "text", [a("table")(rs)], np.array([1.0])]


def functions(rs):
    o = [a("table")(rs) for _ in range(rs.randint(1, 4))]
    return [o, [np.sin] + o, tuple(o), []], [None, np.sin, o + [1.0], ["x"] + o, [o]]


def table_of(values, keys=("294K", "600K", "0K")):
    def f(rs):
        g, b = values(rs)
        ok = {k: g[rs.randint(len(g))] for k in keys[:rs.randint(1, len(keys) + 1)]}
        bad = [dict(ok, **{keys[0]: b[rs.randint(len(b))]}), dict(ok, **{keys[-1]: b[rs.randint(len(b))]}), None, 1.0, list(ok)]
        bad += [{**ok, 294.0: g[0]}] if keys[0].endswith("K") and len(keys[0]) > 1 else [{**ok, "Z9": g[0]}]
        return [ok, {}], bad
    return f


def mapping(rs):
    return [{}, {2: 1}], [None, 1.0, [1], "text"]


def shells(values):
    return table_of(values, ("K", "L1", "M5", "Q3"))


def frames(rs):
    return [pd.DataFrame({"energy": rs.uniform(0, 9, 3)})], [None, 1.0, [1]]


def optional(kind):
    return lambda rs: (kind(rs)[0] + [None], [x for x in kind(rs)[1] if x is not None])


def arrays(ok, bad):
    return lambda rs: ([f(rs) for f in ok] + [None], [f(rs) for f in bad] + ["text", 1.0, [[1.0]]])


def cplx(*shape):
    return lambda rs: rs.uniform(-1, 1, shape) + 1j * rs.uniform(-1, 1, shape)


def flt(*shape):
    return lambda rs: rs.uniform(-1, 1, shape)


def integral(*shape):
    return lambda rs: rs.randint(0, 9, shape)


def decimals(nonzero=False):
    return lambda rs: ([ufloat(rs.uniform(0.1, 9), rs.uniform(0, 1)), ufloat(1.0, 0.0)], [None, 1.0, "x", ufloat(-0.5, 0.1), (1.0, 0.1)])


def pole(rs):
    w = WindowedMultipole("U238")
    return w


def resonances(rs):
    return resonance.Resonances([resonance.ResonanceRange(0.0, 1e-5, rs.uniform(1, 9), {}, {})])


def ranges(rs):
    r = [resonance.ResonanceRange(0.0, 1e-5, float(k + 1), {}, {}) for k in range(rs.randint(1, 4))]
    return [r, r[:1], []], [None, 1.0, tuple(r), r + [None], [1.0]]


def covariance_ranges(rs):
    r = [resonance_covariance.ResonanceCovarianceRange(1e-5, float(k + 1)) for k in range(rs.randint(1, 4))]
    return [r, r[:1], []], [None, 1.0, tuple(r), r + [None], [1.0], ranges(rs)[0][0]]


def relaxation(rs):
    return photon.AtomicRelaxation({"K": 100.0 + rs.uniform(0, 9)}, {"K": 2.0}, {})


def energy_release(rs):
    return fission_energy.FissionEnergyRelease(*[a("function")(rs) for _ in range(7)])


O = objgen.MORE
K = objgen.KINDS
REGIONS = {"breakpoints": integers, "interpolation": integers}
UNI, TAB = some(a("univariate")), some(a("table"))
CLASSES = {
    "angle distribution": (K["angle"], {"energy": reals, "mu": many(a("univariate"))}),
    "correlated": (K["correlated"], dict(REGIONS, energy=reals, energy_out=many(a("univariate")), mu=nested(a("univariate")))),
    "laboratory": (O["laboratory"], dict(REGIONS, energy=reals, mu=many(a("univariate")), energy_out=nested(a("univariate")))),
    "kalbach": (K["kalbach"], dict(REGIONS, energy=reals, energy_out=many(a("univariate")), precompound=many(a("table")), slope=many(a("table")))),
    "continuous": (K["energy continuous"], dict(REGIONS, energy=reals, energy_out=many(a("univariate")))),
    "maxwell spectrum": (K["energy maxwell"], {"theta": TAB, "u": real}), "evaporation": (K["energy evaporation"], {"theta": TAB, "u": real}),
    "watt spectrum": (K["energy watt"], {"a": TAB, "b": TAB, "u": real}), "madland": (K["energy madland"], {"efl": positive, "efh": positive, "tm": TAB}),
    "photon line": (K["energy photon"], {"primary_flag": integer, "energy": real, "atomic_weight_ratio": real}), "level": (K["energy level"], {"threshold": real, "mass_ratio": real}),
    "table": (K["table"], {"x": reals, "y": reals, "breakpoints": integers, "interpolation": integers}),
    "sum": (O["sum"], {"functions": functions}), "regions": (O["regions"], {"functions": functions, "breakpoints": lambda rs: (reals(rs)[0], [[None], ["a"], [[1.0]], [1.0, None]])}),
    "nbody": (K["nbody"], {"total_mass": positive, "n_particles": count, "atomic_weight_ratio": positive, "q_value": real}),
    "product": (K["product"], {"applicability": many(a("table")), "decay_rate": nonnegative, "distribution": many(a("angle energy")), "particle": text, "yield_": some(a("function")),
                               "emission_mode": choice("prompt", "delayed", "total", no=[None, "Prompt", "fission", 1, ""])}),
    "reaction": (K["reaction"], {"center_of_mass": numpy_boolean, "redundant": numpy_boolean, "q_value": real, "products": many(a("product")), "derived_products": many(a("product")), "xs": table_of(function)}),
    "uncorrelated": (K["uncorrelated"], {"angle": some(a("angle")), "energy": some(a("energy"))}),
    "urr": (K["urr"], {"absorption_flag": integer, "inelastic_flag": integer, "energy": reals, "interpolation": choice(2, 5, no=[1, 3, 4, 0, None, "2"]), "multiply_smooth": boolean,
                       "table": lambda rs: ([rs.uniform(0, 1, (2, 6, 3))], [None, [[1.0]], 1.0])}),
    "coherent": (K["coherent"], {"bragg_edges": edges, "factors": edges}),
    "discrete": (O["discrete"], {"x": lambda rs: (reals(rs)[0] + [rs.uniform(0, 9), 4], [b for b in reals(rs)[1] if not isinstance(b, float)]),
                                 "p": lambda rs: (weights(rs)[0] + [rs.uniform(0, 9), 4, 0.0], [b for b in weights(rs)[1] if not isinstance(b, float)] + [-1.0, -1])}),
    "tabular": (O["tabular"], {"x": reals, "p": weights, "interpolation": choice("histogram", "linear-linear", "linear-log", "log-linear", "log-log", no=[None, "linear", 2, "LOG-LOG"])}),
    "mixture": (O["mixture"], {"probability": weights, "distribution": many(a("univariate"))}),
    "uniform": (O["uniform"], {"a": real, "b": real}), "maxwell": (O["maxwell"], {"theta": positive}), "watt": (O["watt"], {"a": positive, "b": positive}),
    "fission energy": (lambda s: energy_release(s.rs), {k: function for k in ("fragments", "prompt_neutrons", "delayed_neutrons", "prompt_photons", "delayed_photons", "betas", "neutrinos")}),
    "decay mode": (lambda s: DecayMode("U235", ["alpha"], 0, ufloat(4.0, 0.1), ufloat(1.0, 0.0)), {"branching_ratio": decimals(), "energy": decimals(), "modes": texts, "parent": text}),
    "multipole": (lambda s: pole(s.rs), {"name": text, "spacing": optional(positive), "sqrtAWR": optional(positive), "E_min": optional(nonnegative), "E_max": optional(positive),
                  "data": arrays([cplx(4, 3), cplx(2, 4), cplx(1, 3)], [flt(4, 3), cplx(4), cplx(4, 2), cplx(4, 5), cplx(1, 3, 3), integral(2, 3)]),
                  "windows": arrays([integral(4, 2), integral(1, 2)], [flt(4, 2), integral(4), integral(2, 2, 2)]),
                  "broaden_poly": arrays([lambda rs: rs.randint(0, 2, 4) == 1], [integral(4), lambda rs: np.ones((2, 2), bool), flt(3)]),
                  "curvefit": arrays([flt(2, 3, 3), flt(1, 2, 2)], [flt(2, 3), flt(2, 3, 4), flt(2, 3, 1), cplx(2, 3, 3), flt(3)])}),
    "neutron": (lambda s: neutron.IncidentNeutron("U235", 92, 235, 0, 233.0, [2.53e-8]), {"name": text, "atomic_number": natural, "mass_number": natural, "metastable": natural,
                "atomic_weight_ratio": positive, "reactions": mapping, "urr": table_of(some(a("urr"))), "fission_energy": some(energy_release), "resonances": some(resonances)}),
    "photon": (lambda s: photon.IncidentPhoton(92), {"atomic_number": natural, "atomic_relaxation": some(relaxation)}),
    "photon reaction": (lambda s: photon.PhotonReaction(502), {k: function for k in ("xs", "scattering_factor", "anomalous_real", "anomalous_imag")}),
    "relaxation": (lambda s: relaxation(s.rs), {"binding_energy": shells(nonnegative), "num_electrons": shells(nonnegative), "transitions": shells(frames)}),
    "resonances": (lambda s: resonances(s.rs), {"ranges": ranges}),
    "covariances": (lambda s: resonance_covariance.ResonanceCovariances([]), {"ranges": covariance_ranges}),
    "background": (lambda s: ResonancesWithBackground(resonances(s.rs), objgen.table(s), 102), {"background": function, "mt": integer, "resonances": some(resonances)}),
}


def same(x, y):
    """x is what y says, exactly"""
    if x is y:
        return True
    if isinstance(y, (list, tuple, np.ndarray)) and isinstance(x, (list, tuple, np.ndarray)):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(y, dict) and hasattr(x, "items"):
        return list(x) == list(y) and all(same(x[k], y[k]) for k in y)
    if isinstance(y, (Real, complex, str, np.complexfloating)):
        return x == y
    return False


def held(obj, attrs):
    out = {}
    for k in attrs:
        try:
            v = getattr(obj, k)
        except AttributeError:         # nothing set yet
            continue
        out[k] = list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v.copy() if isinstance(v, np.ndarray) else v
    return out


@st.composite
def case(draw):
    kind = draw(st.sampled_from(sorted(CLASSES)))
    step = st.fixed_dictionaries({"attr": st.sampled_from(sorted(CLASSES[kind][1])), "good": st.booleans(), "pick": st.integers(0, 40), "seed": st.integers(0, 10 ** 6)})
    return {"kind": kind, "seed": draw(st.integers(0, 10 ** 6)), "steps": draw(st.lists(step, min_size=1, max_size=12))}


def show(v):
    return "%s %.80r" % (type(v).__name__, v)


def check(c, ctx):
    make, attrs = CLASSES[c["kind"]]
    obj = make(objgen.Src(c["seed"], 3))
    refused = set_ = 0
    for s in c["steps"]:
        rs = np.random.RandomState([s["seed"], 1])
        good, bad = attrs[s["attr"]](rs)
        before = held(obj, attrs)
        pool = good if s["good"] else bad
        v = pool[s["pick"] % len(pool)]
        what = "%s.%s = %s" % (c["kind"], s["attr"], show(v))
        if s["good"]:
            setattr(obj, s["attr"], v)
            want = [v] if c["kind"] == "discrete" and isinstance(v, Real) else v
            require(same(getattr(obj, s["attr"]), want), "{}: the attribute is {}", what, show(getattr(obj, s["attr"])))
            set_ += 1
        else:
            try:
                setattr(obj, s["attr"], v)
            except (TypeError, ValueError):
                refused += 1
            else:
                require(False, "{} was accepted", what)
        now = held(obj, attrs)
        for k in set(before) | set(now):
            if k != s["attr"] or not s["good"]:
                require(k in before and k in now and same(now[k], before[k]), "{}: {} changed from {} to {}", what, k, show(before.get(k)), show(now.get(k)))
    ctx.label(c["kind"], "refused" if refused else "nothing refused")
    ctx.nontrivial(refused > 0 and set_ > 0)


# ---------------------------------------------------------------------------- a combination's operations must fit its functions
@st.composite
def case_combination(draw):
    return {"n": draw(st.integers(1, 5)), "ops": draw(st.integers(0, 6)), "bad": draw(st.integers(0, 5)), "init": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}


def check_combination(c, ctx):
    from ASAPy.data.function import Combination, Polynomial
    rs = np.random.RandomState([c["seed"], 2])
    f = [Polynomial(rs.uniform(0.5, 2, 2)) for _ in range(c["n"])]
    ops = [[np.add, np.subtract, np.multiply, np.divide][rs.randint(4)] for _ in range(c["ops"])]
    fits = len(ops) == len(f) - 1
    if c["bad"] == 3 and ops:
        ops[rs.randint(len(ops))] = [None, "add", 1.0][rs.randint(3)]
        fits = False
    try:
        if c["init"]:
            g = Combination(f, ops)
        else:
            g = Combination(f, [np.add] * (len(f) - 1))
            g.operations = ops
    except (TypeError, ValueError):
        require(not fits, "{} functions and operations {} were refused", len(f), ops)
    else:
        require(fits, "{} functions and operations {} were accepted", len(f), ops)
        E = rs.uniform(0.5, 9)
        y = f[0](E)
        for o, h in zip(ops, f[1:]):
            y = o(y, h(E))
        require(g(E) == y, "combination gives {} instead of {}", g(E), y)
    ctx.label("fits" if fits else "does not fit")
    ctx.nontrivial(c["n"] > 1)


# ---------------------------------------------------------------------------- the checking functions
TYPES = {"real": Real, "int": Integral, "str": str, "bool": bool, "list": list, "array": np.ndarray, "number or text": (Real, str), "iterable": Iterable}
leaf = st.one_of(st.integers(-3, 9), st.floats(-9, 9), st.sampled_from(["a", "", None, True]))
nest = st.recursive(leaf, lambda x: st.lists(x, max_size=3), max_leaves=8)


@st.composite
def case_checks(draw):
    f = draw(st.sampled_from(["type", "items", "array", "depth", "length", "value", "less", "greater", "file"]))
    c = {"f": f}
    if f == "type":
        c.update(value=draw(st.one_of(nest, st.just("array"))), type=draw(st.sampled_from(sorted(TYPES))))
    elif f in ("items", "array"):
        c.update(value=draw(st.lists(st.one_of(st.integers(-3, 9), st.floats(-9, 9), st.sampled_from(["a", True])) if draw(st.booleans()) else st.integers(0, 9), max_size=5)),
                 type=draw(st.sampled_from(["real", "int", "str", "bool", "number or text"])), tuple=draw(st.booleans()))
    elif f == "depth":
        lo = draw(st.integers(1, 3))
        deep = st.floats(0, 1) if draw(st.integers(0, 2)) else st.sampled_from([1.0, None, [1.0], []])
        for _ in range(draw(st.integers(0, 3))):
            deep = st.lists(deep, max_size=3)
        c.update(value=draw(st.lists(deep, max_size=3)), lo=lo, hi=draw(st.integers(lo, 4)))
    elif f == "length":
        c.update(n=draw(st.integers(0, 6)), lo=draw(st.integers(0, 6)), hi=draw(st.one_of(st.none(), st.integers(0, 6))))
    elif f == "value":
        c.update(value=draw(st.integers(0, 6)), ok=draw(st.lists(st.integers(0, 6), max_size=4)))
    elif f in ("less", "greater"):
        x = draw(st.one_of(st.integers(-3, 3), st.floats(-3, 3)))
        c.update(value=x, limit=draw(st.one_of(st.just(x), st.integers(-3, 3), st.floats(-3, 3))), equal=draw(st.sampled_from([True, False, None])))
    else:
        c.update(type=draw(st.sampled_from(["depletion", "statepoint", None])), want=draw(st.sampled_from(["depletion", "statepoint"])), version=draw(st.integers(0, 3)), minor=draw(st.integers(0, 3)),
                 need=draw(st.integers(0, 3)))
    return c


def fits_depth(v, lo, hi, depth=1):
    return all((depth >= lo) if isinstance(x, float) else isinstance(x, list) and depth < hi and fits_depth(x, lo, hi, depth + 1) for x in v)


def check_checks(c, ctx):
    f = c["f"]
    if f == "type":
        v = np.array([1.0]) if c["value"] == "array" else c["value"]
        want, errors, call = isinstance(v, TYPES[c["type"]]), TypeError, lambda: cv.check_type("x", v, TYPES[c["type"]])
    elif f in ("items", "array"):
        t = TYPES[c["type"]]
        v = c["value"]
        if f == "array":
            v = np.array(v)
            want = all(isinstance(x, t) for x in v) if v.dtype != bool or c["type"] != "bool" else len(v) == 0
        else:
            v = tuple(v) if c["tuple"] else v
            want = all(isinstance(x, t) for x in v)
        errors, call = TypeError, lambda: cv.check_type("x", v, Iterable, t)
    elif f == "depth":
        want, errors, call = fits_depth(c["value"], c["lo"], c["hi"]), TypeError, lambda: cv.check_iterable_type("x", c["value"], float, c["lo"], c["hi"])
    elif f == "length":
        lo, hi = c["lo"], c["hi"]
        want, errors, call = lo <= c["n"] <= (lo if hi is None else hi), ValueError, lambda: cv.check_length("x", [0] * c["n"], lo, *([] if hi is None else [hi]))
    elif f == "value":
        want, errors, call = c["value"] in c["ok"], ValueError, lambda: cv.check_value("x", c["value"], c["ok"])
    elif f in ("less", "greater"):
        x, y = c["value"], c["limit"]
        want = (x < y if f == "less" else x > y) or (bool(c["equal"]) and x == y)
        g = cv.check_less_than if f == "less" else cv.check_greater_than
        errors, call = ValueError, lambda: g("x", x, y, *([] if c["equal"] is None else [c["equal"]]))
    else:
        class File:
            filename = "f.h5"
            attrs = {"filetype": np.bytes_(c["type"]) if c["type"] else 3, "version": np.array([c["version"], c["minor"]])}
        want, errors = c["type"] == c["want"] and c["version"] == c["need"], OSError
        call = lambda: cv.check_filetype_version(File, c["want"], c["need"])
    try:
        r = call()
        got = True
    except errors:
        got = False
    require(got == want, "{}: {}", "accepted" if got else "refused", c)
    require(not got or r is None, "{} returns {}", c, r if got else None)
    ctx.label("%s %s" % (f, "fits" if want else "does not fit"))
    ctx.nontrivial(f not in ("depth", "items", "array") or len(c["value"]) > 0)


# ---------------------------------------------------------------------------- the type-checked list
@st.composite
def case_list(draw):
    step = st.fixed_dictionaries({"op": st.sampled_from(["append", "insert", "extend", "iadd", "add", "radd", "iterator", "copy", "pop"]), "values": st.lists(st.one_of(st.integers(0, 99), st.integers(0, 99), st.just("bad")), max_size=4),
                                  "at": st.integers(-3, 6)})
    return {"start": draw(st.lists(st.integers(0, 99), max_size=4)), "steps": draw(st.lists(step, min_size=1, max_size=10)), "two": draw(st.booleans())}


def check_list(c, ctx):
    t = (int, float) if c["two"] else int
    m = list(c["start"])
    l = cv.CheckedList(t, "numbers", c["start"])
    refused = 0
    for s in c["steps"]:
        v, op = s["values"], s["op"]
        one = v[0] if v else 7
        items = [one] if op in ("append", "insert") else [] if op in ("copy", "pop") else v
        ok = all(isinstance(x, int) for x in items)
        base = list(m)
        try:
            if op == "append":
                l.append(one)
            elif op == "insert":
                l.insert(s["at"], one)
            elif op == "iadd":
                l += v
            elif op == "extend":
                l.extend(v)
            elif op == "iterator":
                l += iter(v)
            elif op == "add":
                k = l + v
                require(list(l) == base, "adding changed the list itself from {} to {}", base, list(l))
                l = k
            elif op == "radd":
                k = v + l
                require(list(l) == base, "adding changed the list itself from {} to {}", base, list(l))
                l = k
            elif op == "copy":
                l = copy.copy(l)
            elif m:
                require(l.pop() == m[-1], "another last element")
        except TypeError:
            require(not ok, "{} refused {}", op, items)
            refused += 1
        else:
            require(ok, "{} accepted {}", op, items)
            if op == "append":
                m.append(one)
            elif op == "insert":
                m.insert(s["at"], one)
            elif op in ("iadd", "add", "iterator", "extend"):
                m = m + v
            elif op == "radd":
                m = v + m
            elif op == "pop":
                m = m[:-1]
        require(list(l) == m, "after {} {}: {} instead of {}", op, v, list(l), m)
        require(isinstance(l, cv.CheckedList), "after {}: a {}", op, type(l).__name__)
    ctx.label(*[s["op"] for s in c["steps"]], "refused" if refused else "nothing refused")
    ctx.nontrivial(len(c["steps"]) > 1)


# ---------------------------------------------------------------------------- unique numbers
@st.composite
def case_ids(draw):
    step = st.one_of(st.fixed_dictionaries({"op": st.just("new"), "cls": st.integers(0, 2), "id": st.one_of(st.none(), st.none(), st.integers(0, 8), st.sampled_from([-1, 1.0, "1"]))}),
                     st.fixed_dictionaries({"op": st.just("reserve"), "ids": st.lists(st.integers(0, 8), max_size=4), "cls": st.sampled_from([None, 0, 1])}),
                     st.fixed_dictionaries({"op": st.just("next"), "id": st.integers(0, 9)}), st.fixed_dictionaries({"op": st.sampled_from(["reset", "new", "new"]), "cls": st.integers(0, 2), "id": st.none()}))
    return {"steps": draw(st.lists(step, min_size=2, max_size=25))}


class First(mixin.IDManagerMixin):
    next_id, used_ids = 1, set()


class Second(mixin.IDManagerMixin):
    next_id, used_ids = 1, set()


class Child(First):
    pass


def check_ids(c, ctx):
    owner = [First, Second, First]
    used = {First: set(), Second: set()}
    nxt = {First: 1, Second: 1}
    mixin.reset_auto_ids()
    auto = warned = 0
    for s in c["steps"]:
        if s["op"] == "new":
            o, k = (First, Second, Child)[s["cls"]](), owner[s["cls"]]
            uid = s["id"]
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    o.id = uid
                except (TypeError, ValueError):
                    require(uid is not None and (not isinstance(uid, int) or uid < 0), "id {!r} refused", uid)
                    require(not hasattr(o, "_id") or o.id is None, "a refused id {!r} was kept", uid)
                    continue
            require(uid is None or (isinstance(uid, int) and uid >= 0), "id {!r} accepted", uid)
            if uid is None:
                n = nxt[k]
                while n in used[k]:
                    n += 1
                nxt[k] = n
                require(o.id == n, "automatic id {} instead of {}; in use {}", o.id, n, sorted(used[k]))
                auto += 1
            else:
                require(o.id == uid, "id {} instead of {}", o.id, uid)
            twice = uid is not None and uid in used[k]
            require(bool(w) == twice, "id {} {}, warnings {}", uid, "is taken" if twice else "is free", [str(x.message) for x in w])
            warned += twice
            used[k].add(o.id)
        elif s["op"] == "reserve":
            k = None if s["cls"] is None else owner[s["cls"]]
            mixin.reserve_ids(s["ids"], *([] if k is None else [k]))
            for j in used:
                if k in (None, j):
                    used[j] |= set(s["ids"])
        elif s["op"] == "next":
            mixin.set_auto_id(s["id"])
            nxt = {k: s["id"] for k in nxt}
        else:
            mixin.reset_auto_ids()
            used, nxt = {First: set(), Second: set()}, {First: 1, Second: 1}
    ctx.label("automatic" if auto else "given", *(["taken twice"] if warned else []), *{s["op"] for s in c["steps"]})
    ctx.nontrivial(auto > 1)


# ---------------------------------------------------------------------------- XML attributes and elements
name = st.sampled_from(["path", "type", "materials", "x"])


@st.composite
def case_xml(draw):
    word = st.text(alphabet="abc <&\"'é1", max_size=6)
    return {"attrs": draw(st.dictionaries(name, word, max_size=3)), "children": draw(st.lists(st.tuples(name, word.filter(bool)), max_size=4)), "name": draw(name), "default": draw(st.sampled_from([None, "d", 3]))}


def check_xml(c, ctx):
    e = ET.Element("library", c["attrs"])
    for k, t in c["children"]:
        ET.SubElement(e, k).text = t
    e = ET.fromstring(ET.tostring(e))
    n = c["name"]
    child = [t for k, t in c["children"] if k == n]
    want = c["attrs"][n] if n in c["attrs"] else child[0] if child else c["default"]
    got = get_text(e, n, *([] if c["default"] is None else [c["default"]]))
    require(got == want, "{} of {} is {!r} instead of {!r}", n, ET.tostring(e), got, want)
    ctx.label("attribute" if n in c["attrs"] else "element" if child else "default")
    ctx.nontrivial(bool(c["attrs"] or c["children"]))


SUBS = [Sub("attributes", case(), check, 3000, 120000, "a value was set and a value was refused"),
        Sub("combinations", case_combination(), check_combination, 400, 10000, "two or more functions"),
        Sub("checks", case_checks(), check_checks, 1500, 60000, "something to check"),
        Sub("checked list", case_list(), check_list, 500, 20000, "two or more operations"),
        Sub("identifiers", case_ids(), check_ids, 500, 20000, "two or more automatic numbers"),
        Sub("xml", case_xml(), check_xml, 300, 10000, "an element with attributes or children")]
