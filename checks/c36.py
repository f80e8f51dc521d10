import math, os
import h5py
import numpy as np
from hypothesis import strategies as st
from ASAPy.data.multipole import WindowedMultipole
from ASAPy.data import multipole as M
from lib.core import Sub, require

ASSUMPTIONS = ["windowed multipole format 1.1: poles of window w are windows[w, 0]..windows[w, 1] (from one), fits are powers of sqrt(E) from 1/E",
               "the Boltzmann constant may be any CODATA value (relative tolerance 2e-6 on the Doppler width)"]
K = 8.6173303e-5
PI = math.pi
GX, GW = np.polynomial.legendre.leggauss(160)


def w_int(z):
    """Faddeeva function in its integral form, by the trapezoidal rule with the pole correction (Matta and Reichel)"""
    if z.imag < 0:
        return -np.conj(w_int(np.conj(z)))
    h, n = 0.35, 60
    x = z.real / h
    # stay away from the nodes of the rule
    if abs(x - round(x)) < 0.25:
        t = (np.arange(-n, n) + 0.5) * h
        corr = 2 * np.exp(-z * z) / (1 + np.exp(-2j * PI * z / h))
    else:
        t = np.arange(-n, n + 1) * h
        corr = 2 * np.exp(-z * z) / (1 - np.exp(-2j * PI * z / h))
    s = h * 1j / PI * np.sum(np.exp(-t * t) / (z - t))
    return s + (corr if z.imag < PI / h else 0.0)


def broadened(E, d, k):
    """free-gas broadening of E**(k/2 - 1), by quadrature"""
    v = math.sqrt(E)
    lo, hi = max(0.0, v - 8.5 / d), v + 8.5 / d
    x, w = GX, GW
    u = 0.5 * (hi - lo) * x + 0.5 * (hi + lo)
    f = u ** k * (np.exp(-(d * (u - v)) ** 2) - np.exp(-(d * (u + v)) ** 2))
    return d / math.sqrt(PI) * 0.5 * (hi - lo) * float(np.sum(w * f)) / E


def val(rs, lo, hi):
    return float(10.0 ** rs.uniform(lo, hi))


@st.composite
def case(draw):
    s = st.sampled_from
    return {"seed": draw(st.integers(0, 10 ** 6)), "nw": draw(s([1, 2, 3, 6])), "poles": draw(s([0, 1, 3, 8])), "order": draw(s([2, 3, 4, 6])), "fission": draw(st.booleans()), "T": draw(s([0.0, 0.0, 1e-3, 293.6, 293.6, 900.0, 2500.0])),
            "emin": draw(s([1e-5, 1e-5, 0.5, 100.0])), "awr": draw(s([0.9991673, 15.86, 236.0])), "order_e": draw(s(["given", "reversed", "outside first", "scalar"])), "how": draw(s(["built", "file", "group", "many"])), "exact": draw(st.booleans())}


def build(c):
    rs = np.random.RandomState([c["seed"], 5])
    nw, n = c["nw"], c["poles"]
    e0 = c["emin"]
    # windows as wide as the library format makes them: the last ends at E_max
    sp = val(rs, -1.5, 0.5) if not c["exact"] else float(rs.choice([0.25, 0.5, 1.0, 2.0]))
    r0 = math.sqrt(e0)
    e1 = (r0 + sp * nw) ** 2
    d = {"name": "U235" if c["seed"] % 3 else "Am242_m1", "spacing": sp, "sqrtAWR": math.sqrt(c["awr"]), "E_min": e0, "E_max": e1}
    cols = 4 if c["fission"] else 3
    re = np.sort(rs.uniform(r0 - sp, r0 + sp * (nw + 1), n))
    im = -np.array([val(rs, -4, -0.5) for _ in range(n)]) * np.where(rs.randint(4, size=n) == 0, -1, 1)
    data = np.zeros((n, cols), complex)
    data[:, 0] = re + 1j * im
    data[:, 1:] = rs.normal(size=(n, cols - 1)) * 10 + 1j * rs.normal(size=(n, cols - 1))
    d["data"] = data
    win = np.zeros((nw, 2), int)
    for k in range(nw):
        a = int(rs.randint(1, n + 2))
        b = int(rs.randint(a - 1, n + 1))
        win[k] = (a, b)
    d["windows"] = win
    d["broaden_poly"] = rs.randint(2, size=nw).astype(bool)
    d["curvefit"] = rs.normal(size=(nw, c["order"] + 1, cols - 1)) * (10.0 ** -np.arange(c["order"] + 1))[None, :, None]
    return d, rs


def expected(d, E, T):
    """list of (scattering, absorption, fission, size of the terms) for the windows that may hold E"""
    if E < d["E_min"] or E > d["E_max"]:
        return [np.zeros(4)]
    v = math.sqrt(E)
    x = (v - math.sqrt(d["E_min"])) / d["spacing"]
    nw = len(d["windows"])
    ks = {min(nw - 1, max(0, int(math.floor(x + o)))) for o in (-1e-9, 0, 1e-9)}
    out = []
    nc = d["data"].shape[1] - 1
    for k in sorted(ks):
        r, mag = np.zeros(3), 0.0
        dopp = d["sqrtAWR"] / math.sqrt(K * T) if T > 0 else None
        for i in range(d["curvefit"].shape[1]):
            f = broadened(E, dopp, i) if dopp and d["broaden_poly"][k] else v ** (i - 2)
            r[:nc] += d["curvefit"][k, i] * f
            mag += float(np.max(np.abs(d["curvefit"][k, i] * f)))
        for p in range(d["windows"][k, 0] - 1, d["windows"][k, 1]):
            if dopp:
                g = w_int((v - d["data"][p, 0]) * dopp) * dopp / E * math.sqrt(PI)
            else:
                g = -1j / (d["data"][p, 0] - v) / E
            r[:nc] += (d["data"][p, 1:] * g).real
            mag += float(np.max(np.abs(d["data"][p, 1:] * g)))
        out.append(np.append(r, mag))
    return out


def make(d):
    m = WindowedMultipole(d["name"])
    for k in ("spacing", "sqrtAWR", "E_min", "E_max", "data", "windows", "broaden_poly", "curvefit"):
        setattr(m, k, d[k])
    return m


def run(c, ctx):
    os.chdir(ctx.dir())
    d, rs = build(c)
    m = make(d)
    if c["how"] in ("file", "many", "group"):
        m.export_to_hdf5("m.h5")
        with h5py.File("m.h5", "r") as f:
            require(bytes(f.attrs["filetype"]) == b"data_wmp" and list(f) == [d["name"]], "file of {} {}", f.attrs["filetype"], list(f))
        if c["how"] == "many":
            d2, _ = build(dict(c, seed=c["seed"] + 1))
            other = make(dict(d2, name="Zr90"))
            other.export_to_hdf5("m.h5")
            with h5py.File("m.h5", "r") as f:
                require(sorted(f) == sorted([d["name"], "Zr90"]), "groups {}", sorted(f))
                m = WindowedMultipole.from_hdf5(f[d["name"]])
        elif c["how"] == "group":
            with h5py.File("m.h5", "r") as f:
                m = WindowedMultipole.from_hdf5(f[d["name"]])
        else:
            m = WindowedMultipole.from_hdf5("m.h5")
        require(m.name == d["name"], "name {!r} instead of {!r}", m.name, d["name"])
        for k in ("spacing", "sqrtAWR", "E_min", "E_max"):
            require(float(getattr(m, k)) == d[k], "{} is {} instead of {}", k, getattr(m, k), d[k])
        for k in ("data", "windows", "broaden_poly", "curvefit"):
            a = getattr(m, k)
            require(a.shape == d[k].shape and np.array_equal(a, d[k]), "{} differs after the round trip", k)
    require(m.fit_order == c["order"] and bool(m.fissionable) == c["fission"], "order {}, fissionable {}", m.fit_order, m.fissionable)
    r0, sp, nw = math.sqrt(d["E_min"]), d["spacing"], c["nw"]
    es = [d["E_min"], d["E_max"]] + [float((r0 + sp * rs.uniform(0, nw)) ** 2) for _ in range(5)]
    es += [float((r0 + sp * k) ** 2) for k in range(1, nw)] + [float(p.real ** 2) for p in d["data"][:3, 0] if p.real > 0]
    es = [e for e in es if d["E_min"] <= e <= d["E_max"]]
    outside = [d["E_min"] * 0.9, d["E_max"] * 1.1]
    T = float(c["T"])
    if c["order_e"] == "reversed":
        es = es[::-1] + outside
    elif c["order_e"] == "outside first":
        es = outside + es
    else:
        es = es + outside
    if c["order_e"] == "scalar":
        got = np.array([[float(x) for x in m(e, T)] for e in es]).T
    else:
        r = m(np.array(es) if c["seed"] % 2 else list(es), T)
        require(len(r) == 3, "{} cross sections", len(r))
        got = np.array([np.asarray(x, float) for x in r])
    for i, e in enumerate(es):
        alts = expected(d, e, T)
        ok = any(all(abs(got[q, i] - a[q]) <= 1e-5 * a[3] + 1e-12 * (a[3] > 0) for q in range(3)) for a in alts)
        require(ok, "cross sections {} instead of {} at {!r} eV, {} K ({})", got[:, i].tolist(), [a[:3].tolist() for a in alts], e, T, c["order_e"])
    ctx.label("0 K" if T == 0 else "broadened", c["order_e"], c["how"], "fission" if c["fission"] else "no fission")
    ctx.nontrivial(c["poles"] > 0 and nw > 1)


SUBS = [Sub("multipole", case(), run, 2500, 80000, "several windows and poles")]
