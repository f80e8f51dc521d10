import math, warnings
import h5py
import numpy as np
from hypothesis import strategies as st
from ASAPy.data import function as F
from lib.core import Sub, require, expect_raises

warnings.simplefilter("ignore")
ASSUMPTIONS = ["points closer than 1e-9 relative to an end are not evaluated unless they are the end (the code treats points within 1e-10 as the end itself)",
               "laws with logarithms are used on positive data only"]


# ------------------------------------------------------------------ descriptions
@st.composite
def tab(draw, laws=(1, 2, 3, 4, 5), max_n=8, dup=True, fine=False):
    n = draw(st.integers(2, max_n))
    bps = sorted(draw(st.lists(st.integers(2, n), max_size=3, unique=True)) + [n])
    bps = sorted(set(bps))
    it = draw(st.lists(st.sampled_from(laws), min_size=len(bps), max_size=len(bps)))
    x0 = draw(st.sampled_from([1e-5, 0.5, 1.0, 3.0, 1e6])) if set(it) & {3, 5} else draw(st.sampled_from([0.0, 1e-5, 1.0, -3.0, 2e6]))
    x = [x0]
    for k in range(1, n):
        step = draw(st.sampled_from([1.02, 1.1, 1.5, 2.0, 10.0, 1000.0] + [1.000002, 1.0000001] * fine))
        if dup and 1 < k < n - 1 and x[-1] != x[-2] and draw(st.integers(0, 7)) == 5:
            x.append(x[-1])
        else:
            x.append(float("%.10g" % (x[-1] * step if x[-1] > 0 else x[-1] + step)))
    pos = bool(set(it) & {4, 5})
    ys = st.sampled_from([1.0, 1.0, 2.0, 3.5, 0.125, 1e-4, 40.0, 1e6] if pos else [0.0, 0.0, 1.0, -2.0, 3.5, 1e-4, 40.0, 1e6])
    y = draw(st.lists(ys, min_size=n, max_size=n))
    d = {"x": x, "y": y, "bp": bps, "it": it}
    if it == [2] and draw(st.booleans()):
        d["plain"] = True
    return d


@st.composite
def points(draw):
    return draw(st.lists(st.tuples(st.integers(0, 10), st.sampled_from([0.0, 0.01, 0.25, 0.5, 0.75, 0.99, 1.0])), min_size=1, max_size=12))


def make(d):
    if d.get("coef") is not None:
        return F.Polynomial([float(v) for v in d["coef"]])
    if d.get("plain"):
        return F.Tabulated1D(d["x"], d["y"])
    return F.Tabulated1D(np.array(d["x"], float), np.array(d["y"], float), d["bp"], d["it"])


# ------------------------------------------------------------------ oracle
def law_between(law, x, x0, x1, y0, y1):
    if law == 1:
        return y0
    if law == 2:
        a = (x - x0) / (x1 - x0)
        return y0 * (1 - a) + y1 * a
    if law == 3:
        a = math.log1p((x - x0) / x0) / math.log1p((x1 - x0) / x0)
        return y0 * (1 - a) + y1 * a
    if law == 4:
        a = (x - x0) / (x1 - x0)
    else:
        a = math.log1p((x - x0) / x0) / math.log1p((x1 - x0) / x0)
    return math.exp(math.log(y0) * (1 - a) + math.log(y1) * a)


def law_of(d, i):
    """law of the interval between point i and i+1 (zero-based)"""
    for bp, it in zip(d["bp"], d["it"]):
        if i + 1 < bp:
            return it


def value(d, x):
    """admissible values at x"""
    if d.get("coef") is not None:
        return [sum(float(c) * x ** k for k, c in enumerate(d["coef"]))]
    X, Y = d["x"], d["y"]
    if x < X[0] or x > X[-1]:
        return [0.0]
    at = [y for a, y in zip(X, Y) if a == x]
    if at:
        return at
    i = max(k for k in range(len(X)) if X[k] <= x)
    return [law_between(law_of(d, i), x, X[i], X[i + 1], Y[i], Y[i + 1])]


def scale(d, x):
    if d.get("coef") is not None:
        return sum(abs(float(c) * x ** k) for k, c in enumerate(d["coef"]))
    return max(abs(v) for v in d["y"])


def places(d, pts):
    """evaluation points: inside every interval, at the points, outside"""
    X = d["x"]
    lo, hi = X[0], X[-1]
    w = max(abs(lo), abs(hi), 1e-3)
    out = [lo - 0.01 * w, lo - 2 * w, hi + 0.01 * w, hi * 2 + w] + list(X)
    for k, a in pts:
        i = k % (len(X) - 1)
        x = X[i] + a * (X[i + 1] - X[i])
        if lo <= x <= hi and all(x == e or abs(x - e) > 1e-9 * abs(e) + 1e-12 for e in (lo, hi)):
            out.append(x)
    out += [e * f for e in (lo, hi) if abs(e) > 1e-5 for f in (0.999999, 1.000001, 0.99999999, 1.00000001) if not lo <= e * f <= hi]
    return out


def slack(d, x):
    """logarithms of nearly equal numbers lose digits"""
    X, Y = d["x"], d["y"]
    if not set(d["it"]) & {3, 5} or not X[0] <= x < X[-1]:
        return 0.0
    i = max(k for k in range(len(X)) if X[k] <= x)
    y = max(abs(Y[i]), abs(Y[i + 1]))
    return 3e-15 * X[i] / (X[i + 1] - X[i]) * y * (1 + (abs(math.log(Y[i + 1] / Y[i])) if law_of(d, i) == 5 else 0))


def close(got, wants, sc, what, more=0.0):
    require(any(abs(got - w) <= more + 1e-11 * (abs(w) + 1e-3 * sc) + 1e-300 for w in wants), "{}: {!r} instead of {!r}", what, got, wants)


def kinds(f, xs, what, lists=True):
    """evaluate as scalars, list, tuple, arrays; all must agree; returns the values"""
    one = []
    for x in xs:
        v = f(x)
        require(np.ndim(v) == 0, "{}({!r}) is not a number: {!r}", what, x, v)
        one.append(float(v))
    arr = np.array(xs, float)
    keep = arr.copy()
    for name, arg in (("array", arr), ("list", list(xs)), ("tuple", tuple(xs))):
        if name != "array" and not lists:
            continue
        v = np.asarray(f(arg))
        require(v.shape == (len(xs),), "{} of a {} of {} has shape {}", what, name, len(xs), v.shape)
        bad = [k for k in range(len(xs)) if not (v[k] == one[k] or abs(v[k] - one[k]) <= 1e-14 * abs(one[k]))]
        require(not bad, "{} of a {}: at {!r} it is {!r}, alone {!r}", what, name, bad and xs[bad[0]], bad and v[bad[0]], bad and one[bad[0]])
    require(np.array_equal(arr, keep), "{} changed its argument", what)
    return one


# ------------------------------------------------------------------ checks
def tabulated(c, ctx):
    d = c["f"]
    f = make(d)
    xs = places(d, c["pts"])
    got = kinds(f, xs, "f")
    for x, g in zip(xs, got):
        close(g, value(d, x), scale(d, x), "f(%r) for %s" % (x, d), slack(d, x))
    ints = sorted({int(round(v)) for v in d["x"] if abs(v) < 1e9 and v == round(v)})
    if ints:
        v = np.asarray(f(ints), float)
        for x, g in zip(ints, v):
            close(g, value(d, float(x)), scale(d, x), "f of the integer %d" % x, slack(d, x))
            close(float(f(x)), value(d, float(x)), scale(d, x), "f of the integer %d" % x, slack(d, x))
    require(len(f) == len(d["x"]) and f.n_pairs == len(d["x"]) and f.n_regions == len(d["bp"]), "{} points, {} regions", f.n_pairs, f.n_regions)
    require(np.shape(f(np.array([]))) == (0,), "f of no points is {!r}", f(np.array([])))
    with h5py.File("x", "w", driver="core", backing_store=False) as h:
        f.to_hdf5(h, "f")
        for g in (F.Tabulated1D.from_hdf5(h["f"]), F.Function1D.from_hdf5(h["f"])):
            require(type(g) is F.Tabulated1D and np.array_equal(g.x, f.x) and np.array_equal(g.y, f.y) and list(g.breakpoints) == list(d["bp"]) and list(g.interpolation) == list(d["it"]), "HDF5 gives back another function")
            require(g == f and not (g != f), "a copy is not equal")
    g = make(dict(d, y=[v + 1 for v in d["y"]]))
    require(g != f, "functions with other values are equal")
    ctx.label(*["law %d" % k for k in set(d["it"])], "%d regions" % len(d["bp"]))
    if any(a == b for a, b in zip(d["x"], d["x"][1:])):
        ctx.label("discontinuity")
    ctx.nontrivial(len(set(d["y"])) > 1)


NODES, WEIGHTS = np.polynomial.legendre.leggauss(60)


def interval_integral(law, x0, x1, y0, y1):
    if x0 == x1:
        return 0.0
    if law in (3, 5):
        a, b = math.log(x0), math.log(x1)
        u = 0.5 * (b - a) * (NODES + 1) + a
        xs, jac = np.exp(u), np.exp(u)
    else:
        a, b = x0, x1
        xs = 0.5 * (b - a) * (NODES + 1) + a
        jac = np.ones(len(xs))
    y = np.array([law_between(law, min(max(x, x0), x1), x0, x1, y0, y1) for x in xs])
    return float(np.sum(WEIGHTS * y * jac) * 0.5 * (b - a))


def integral(c, ctx):
    d = c["f"]
    got = np.asarray(make(d).integral(), float)
    X, Y = d["x"], d["y"]
    require(got.shape == (len(X),) and got[0] == 0.0, "integral has {} values and starts with {!r}", got.shape, got[:1])
    total = size = 0.0
    for i in range(len(X) - 1):
        total += interval_integral(law_of(d, i), X[i], X[i + 1], Y[i], Y[i + 1])
        size += max(abs(Y[i]), abs(Y[i + 1])) * (X[i + 1] - X[i])
        require(abs(got[i + 1] - total) <= 1e-8 * size, "integral up to {!r} is {!r} instead of {!r} for {}", X[i + 1], got[i + 1], total, d)
    ctx.label(*["law %d" % k for k in set(d["it"])])
    ctx.nontrivial(size > 0)


coef = st.lists(st.sampled_from([0.0, 1.0, -2.0, 0.5, 3.25]), min_size=1, max_size=4)
part = st.one_of(tab(), tab(), coef.map(lambda c: {"coef": c}))
OPS = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b, "maximum": max, "minimum": min}


@st.composite
def comp_case(draw):
    k = draw(st.integers(1, 4))
    fs = [draw(tab(dup=False))] + [draw(st.one_of(tab(dup=False), coef.map(lambda c: {"coef": c}))) for _ in range(k - 1)]
    fs = draw(st.permutations(fs))
    return {"fs": fs, "ops": draw(st.lists(st.sampled_from(sorted(OPS)), min_size=k - 1, max_size=k - 1)), "pts": draw(points()), "cut": draw(st.lists(st.integers(0, 40), min_size=k - 1, max_size=k - 1))}


def away(d, x):
    """x is not within the tolerance zone of an end of d, unless it is the end"""
    return d.get("coef") is not None or all(x == e or abs(x - e) > 1e-4 * abs(e) + 1e-12 for e in (d["x"][0], d["x"][-1]))


def composition(c, ctx):
    fs = c["fs"]
    objs = [make(d) for d in fs]
    xs = sorted({x for d in fs if d.get("coef") is None for x in places(d, c["pts"]) if all(away(e, x) for e in fs)})
    if not xs:
        return
    lists = all(d.get("coef") is None for d in fs)              # polynomials are numpy's and take arrays and numbers
    s = kinds(F.Sum(objs), xs, "Sum", lists)
    m = kinds(F.Combination(objs, [getattr(np, o) for o in c["ops"]]), xs, "Combination", lists)
    for x, a, b in zip(xs, s, m):
        v = [value(d, x)[0] for d in fs]
        sc = [scale(d, x) for d in fs]
        w, size = v[0], sc[0]
        for o, y, z in zip(c["ops"], v[1:], sc[1:]):
            w = OPS[o](w, y)
            size = size * z + size + z
        close(a, [sum(v)], sum(sc), "Sum at %r" % x)
        require(abs(b - w) <= 1e-11 * abs(w) + 1e-12 * size, "Combination {} at {!r} is {!r} instead of {!r}", c["ops"], x, b, w)
    cuts = sorted({float(xs[k % len(xs)]) for k in c["cut"]})
    fr = F.Regions1D(objs[:len(cuts) + 1], np.array(cuts))
    r = kinds(fr, xs, "Regions1D")
    for x, g in zip(xs, r):
        k = sum(1 for b in cuts if b < x)                       # function i applies up to and including breakpoint i
        w = [value(fs[k], x)[0]] + ([value(fs[k + 1], x)[0]] if x in cuts else [])
        require(any(abs(g - v) <= 1e-11 * (abs(v) + 1e-3 * max(scale(d, x) for d in fs)) for v in w), "piecewise function with limits {} at {!r} is {!r} instead of {!r}", cuts, x, g, w)
    ints = [int(x) for x in xs if x == int(x) and abs(x) < 1e9]
    if ints:
        v = np.asarray(fr(ints), float)
        for k, x in enumerate(ints):
            require(abs(v[k] - fr(x)) <= 1e-13 * abs(fr(x)), "piecewise function of the list {} gives {} at {} but {} alone", ints, v[k], x, fr(x))
        ctx.label("integers")
    for bad in ([np.add] * len(objs), [np.add] * (len(objs) - 2) if len(objs) > 1 else None):
        if bad is not None:
            expect_raises(lambda: F.Combination(objs, bad), "%d operations for %d functions" % (len(bad), len(objs)))
    ctx.label("%d functions" % len(fs), *c["ops"])
    ctx.nontrivial(len(fs) > 1)


@st.composite
def sum_case(draw):
    fs = draw(st.lists(st.one_of(tab(laws=(2,), dup=False), tab(laws=(2,), dup=False), coef.map(lambda c: {"coef": c})), min_size=1, max_size=4))
    return {"fs": fs, "other": draw(st.one_of(st.none(), st.none(), tab(laws=(1, 3, 4, 5)))), "gen": draw(st.booleans())}


def summing(c, ctx):
    fs = list(c["fs"])
    if c["other"]:
        expect_raises(lambda: F.sum_functions([make(d) for d in fs + [c["other"]]]), "function with laws %s in a sum" % c["other"]["it"])
        ctx.label("refused")
    objs = [make(d) for d in fs]
    f = F.sum_functions(iter(objs) if c["gen"] else objs)
    tabs = [d for d in fs if d.get("coef") is None]
    if tabs:
        X = sorted({float(x) for d in tabs for x in d["x"]})
        require(isinstance(f, F.Tabulated1D) and np.array_equal(f.x, X), "energies of the sum {} instead of {}", f.x, X)
        for x, y in zip(X, f.y):
            if all(away(d, x) for d in fs):
                close(float(y), [sum(value(d, x)[0] for d in fs)], sum(scale(d, x) for d in fs), "sum at %r" % x)
        require(list(f.breakpoints) == [len(X)] and list(f.interpolation) == [2], "the sum is not linear-linear")
    else:
        for x in (-1.5, 0.0, 0.3, 2.0):
            close(float(f(x)), [sum(value(d, x)[0] for d in fs)], sum(scale(d, x) for d in fs), "sum of polynomials at %r" % x)
    with h5py.File("x", "w", driver="core", backing_store=False) as h:
        f.to_hdf5(h, "f")
        g = F.Function1D.from_hdf5(h["f"])
        require(type(g) is type(f) and all(float(g(x)) == float(f(x)) for x in (0.1, 1.0, 7.0)), "HDF5 gives back another sum")
    ctx.label("%d tabulated" % len(tabs), "%d polynomials" % (len(fs) - len(tabs)))
    ctx.nontrivial(len(fs) > 1)


SUBS = [Sub("tabulated", st.fixed_dictionaries({"f": tab(fine=True), "pts": points()}), tabulated, 4000, 150000, "the tabulated values are not all equal"),
        Sub("integral", st.fixed_dictionaries({"f": tab()}), integral, 3000, 100000, "the function is not zero"),
        Sub("composition", comp_case(), composition, 2000, 60000, "two or more functions"),
        Sub("summing", sum_case(), summing, 1500, 50000, "two or more functions")]
