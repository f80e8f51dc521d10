import math, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy.data import grid
from lib.core import Sub, require

warnings.simplefilter("ignore")
ASSUMPTIONS = ["functions to linearise have no zeros (the tolerance is relative to the value)"]

FUNCS = {"linear": lambda p: lambda x: p[0] + p[1] * x, "power": lambda p: lambda x: p[0] * x ** (p[1] - 1.5) + 0.1, "resonance": lambda p: lambda x: 1e-2 * p[1] + p[0] / (1 + ((x - p[2]) / (0.05 * p[1] + 0.01)) ** 2),
         "decay": lambda p: lambda x: p[0] * math.exp(-x / p[1]) + 0.05, "sqrt": lambda p: lambda x: 1.0 + p[0] * math.sqrt(x), "wave": lambda p: lambda x: 2.0 + math.sin(p[0] * x) * 0.9}


@st.composite
def lin_case(draw):
    n = draw(st.integers(1, 6))
    x = [draw(st.sampled_from([0.01, 0.1, 1.0]))]
    for _ in range(n - 1):
        x.append(float("%.6g" % (x[-1] + draw(st.sampled_from([0.01, 0.1, 0.5, 1.0, 3.0])))))
    return {"x": x, "f": draw(st.sampled_from(sorted(FUNCS))), "p": [float(v) for v in draw(st.lists(st.sampled_from([0.5, 1.0, 2.0, 3.0]), min_size=3, max_size=3))],
            "tol": draw(st.sampled_from([None, 0.1, 0.01, 1e-3, 1e-4])), "list": draw(st.booleans()), "neg": draw(st.sampled_from([False, False, True]))}


def linearize(c, ctx):
    pos = FUNCS[c["f"]](c["p"])
    f = (lambda x: -pos(x)) if c["neg"] else pos
    x = [float(v) for v in c["x"]]
    arg = list(x) if c["list"] else np.array(x)
    a, b = grid.linearize(arg, f) if c["tol"] is None else grid.linearize(arg, f, c["tol"])
    tol = c["tol"] or 0.001
    require(list(arg) == x, "the starting grid was changed")
    require(isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and len(a) == len(b), "{} x values, {} y values", len(a), len(b))
    require(all(a[k] < a[k + 1] for k in range(len(a) - 1)), "the grid does not increase: {}", a)
    require(a[0] == x[0] and a[-1] == x[-1] and set(x) <= set(a.tolist()), "starting points {} are not all in {}", x, a)
    for u, v in zip(a, b):
        require(v == f(u), "the value at {!r} is {!r} instead of {!r}", u, v, f(u))
    for k in range(len(a) - 1):
        m = 0.5 * (a[k] + a[k + 1])
        e = abs((0.5 * (b[k] + b[k + 1]) - f(m)) / f(m))
        require(e <= tol * (1 + 1e-6) + 1e-12, "between {!r} and {!r} linear interpolation is off by {} (tolerance {})", a[k], a[k + 1], e, tol)
    if c["f"] == "linear":
        require(len(a) == len(x), "{} points for a straight line given at {}", len(a), len(x))
    # a point that was not asked for exists only because a coarser interval failed
    ctx.label(c["f"], *(["negative"] if c["neg"] else []), "refined" if len(a) > len(x) else "not refined")
    ctx.nontrivial(len(a) > len(x))


@st.composite
def thin_case(draw):
    kind = draw(st.sampled_from(["random", "smooth", "line", "steps", "noise"]))
    return {"n": draw(st.integers(2, 30)), "kind": kind, "seed": draw(st.integers(0, 10 ** 6)), "tol": draw(st.sampled_from([None, 0.2, 0.05, 1e-3, 1e-5])), "neg": draw(st.booleans()),
            "zeros": draw(st.integers(0, 3)) == 2, "dup": draw(st.integers(0, 3)) == 2}


def curve(c):
    rs = np.random.RandomState([c["seed"], 3])
    n = c["n"]
    x = np.cumsum(rs.uniform(0.1, 2, n))
    tol = c["tol"] or 0.001
    if c["kind"] == "random":
        y = rs.uniform(0.5, 5, n)
    elif c["kind"] == "smooth":
        y = 1 + np.sin(x / rs.uniform(1, 30)) ** 2 + 0.1 * x
    elif c["kind"] == "line":
        y = 2.0 + 0.5 * x
    elif c["kind"] == "steps":
        y = np.repeat(rs.uniform(1, 3, n), 4)[:n]
    else:
        y = (3 + 0.2 * x) * (1 + rs.uniform(-2, 2, n) * tol)
    if c["zeros"]:
        y[rs.randint(n, size=max(1, n // 4))] = 0.0
    if c["dup"] and n > 3:
        k = rs.randint(1, n - 2)
        x[k + 1] = x[k]
    return x, (-y if c["neg"] else y)


def thin(c, ctx):
    x, y = curve(c)
    tol = c["tol"] or 0.001
    kx, ky = x.copy(), y.copy()
    a, b = grid.thin(x, y) if c["tol"] is None else grid.thin(x, y, c["tol"])
    require(np.array_equal(x, kx) and np.array_equal(y, ky), "the curve handed in was changed")
    require(len(a) == len(b) <= len(x), "{} x values and {} y values from {}", len(a), len(b), len(x))
    kept, j = [], 0
    for i in range(len(x)):
        if j < len(a) and a[j] == x[i] and b[j] == y[i]:
            kept.append(i)
            j += 1
    require(j == len(a), "the thinned curve {} is not part of {}", list(zip(a, b)), list(zip(x, y)))
    require(kept[0] == 0 and kept[-1] == len(x) - 1, "the end points are not kept: {} of {}", kept, len(x))
    for l, r in zip(kept, kept[1:]):
        for i in range(l + 1, r):
            v = y[l] + (y[r] - y[l]) / (x[r] - x[l]) * (x[i] - x[l])
            require(abs(v - y[i]) <= tol * abs(y[i]) * (1 + 1e-6) + 1e-13 * max(abs(y)), "point {} ({!r}, {!r}) was removed but interpolation gives {!r} (tolerance {})", i, x[i], y[i], v, tol)
    if c["kind"] == "line" and not c["zeros"] and not c["dup"]:
        require(kept == [0, len(x) - 1], "points {} of a straight line were kept", kept)
    ctx.label(c["kind"], "removed" if len(kept) < len(x) else "none removed")
    ctx.nontrivial(2 < len(kept) < len(x))


SUBS = [Sub("linearize", lin_case(), linearize, 2500, 60000, "the grid was refined"), Sub("thin", thin_case(), thin, 6000, 200000, "some but not all interior points were removed")]
