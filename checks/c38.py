import math, os, re, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy.data import data as D
from lib.core import Sub, require, REPO, expect_raises

ASSUMPTIONS = ["AME2012 mass table and abundances as bundled; water: IAPWS-IF97 region 1 with the coefficients of the release (checked against its published values) and the saturation line of region 4"]
KEV = 931494.061
# IAPWS-IF97 (2012), tables 2 and 34
N1 = [(0, -2, 0.14632971213167), (0, -1, -0.84548187169114), (0, 0, -0.37563603672040e1), (0, 1, 0.33855169168385e1), (0, 2, -0.95791963387872), (0, 3, 0.15772038513228), (0, 4, -0.16616417199501e-1), (0, 5, 0.81214629983568e-3),
      (1, -9, 0.28319080123804e-3), (1, -7, -0.60706301565874e-3), (1, -1, -0.18990068218419e-1), (1, 0, -0.32529748770505e-1), (1, 1, -0.21841717175414e-1), (1, 3, -0.52838357969930e-4), (2, -3, -0.47184321073267e-3), (2, 0, -0.30001780793026e-3),
      (2, 1, 0.47661393906987e-4), (2, 3, -0.44141845330846e-5), (2, 17, -0.72694996297594e-15), (3, -4, -0.31679644845054e-4), (3, 0, -0.28270797985312e-5), (3, 6, -0.85205128120103e-9), (4, -5, -0.22425281908000e-5), (4, -2, -0.65171222895601e-6),
      (4, 10, -0.14341729937924e-12), (5, -8, -0.40516996860117e-6), (8, -11, -0.12734301741641e-8), (8, -6, -0.17424871230634e-9), (21, -29, -0.68762131295531e-18), (23, -31, 0.14478307828521e-19), (29, -38, 0.26335781662795e-22),
      (30, -39, -0.11947622640071e-22), (31, -40, 0.18228094581404e-23), (32, -41, -0.93537087292458e-25)]
N4 = [0.11670521452767e4, -0.72421316703206e6, -0.17073846940092e2, 0.12020824702470e5, -0.32325550322333e7, 0.14915108613530e2, -0.48232657361591e4, 0.40511340542057e6, -0.23855557567849, 0.65017534844798e3]


def density(T, p):
    pi, tau = p / 16.53, 1386.0 / T
    g = -sum(n * i * (7.1 - pi) ** (i - 1) * (tau - 1.222) ** j for i, j, n in N1 if i)
    v = pi * g * 0.461526e-3 * T / p       # m3/kg
    return 1e-3 / v


def p_sat(T):
    t = T + N4[8] / (T - N4[9])
    A, B, C = t * t + N4[0] * t + N4[1], N4[2] * t * t + N4[3] * t + N4[4], N4[5] * t * t + N4[6] * t + N4[7]
    return (2 * C / (-B + math.sqrt(B * B - 4 * A * C))) ** 4


assert abs(density(300, 3) * 0.100215168e-2 * 1e3 - 1) < 1e-8 and abs(density(300, 80) * 0.971180894e-3 * 1e3 - 1) < 1e-8 and abs(density(500, 3) * 0.120241800e-2 * 1e3 - 1) < 1e-8
assert abs(p_sat(300) / 0.353658941e-2 - 1) < 1e-8 and abs(p_sat(500) / 2.63889776 - 1) < 1e-8


def kell(t):
    """water at 1 atm, t in Celsius (Kell 1975)"""
    return 1e-3 * (999.83952 + 16.945176 * t - 7.9870401e-3 * t ** 2 - 46.170461e-6 * t ** 3 + 105.56302e-9 * t ** 4 - 280.54253e-12 * t ** 5) / (1 + 16.879850e-3 * t)


@st.composite
def case_water(draw):
    T = draw(st.one_of(st.floats(273.15, 623.0), st.floats(273.15, 372.0), st.floats(250.0, 700.0)))
    return {"T": T, "p": draw(st.one_of(st.none(), st.floats(0.01, 100.0), st.floats(-4, 2.05).map(lambda v: 10 ** v))), "near": draw(st.sampled_from([None, None, -0.3, 0.1, 0.5, 20.0]))}


def run_water(c, ctx):
    T, p = float(c["T"]), 0.1013 if c["p"] is None else float(c["p"])
    if c["near"] is not None and 0.0007 < p < 16.0:
        lo, hi = 260.0, 640.0
        for _ in range(60):
            mid = 0.5 * (lo + hi)
            lo, hi = (mid, hi) if p_sat(mid) < p else (lo, mid)
        T = lo + c["near"]
    T = min(T, 690.0)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        rho = D.water_density(T) if c["p"] is None else D.water_density(T, p)
    want = density(T, p)
    require(abs(rho - want) <= 1e-9 * abs(want), "density {} instead of {} at {} K, {} MPa", rho, want, T, p)
    liquid = 273.16 <= T <= 623.1 and p <= 100 and p >= p_sat(T)
    steam = T < 640 and p < p_sat(min(T - 0.25, 640)) and T > 274
    if liquid:
        require(not w, "warning for liquid water at {} K, {} MPa: {}", T, p, [str(x.message) for x in w])
    if p > 100.01 or T < 272.9 or T > 623.2 or steam:
        require(len(w) > 0, "no warning at {} K, {} MPa, outside the range of the formula", T, p)
    if c["p"] is None and liquid and T < 372:
        require(abs(rho - kell(T - 273.15)) < 2e-4, "density {} is not that of water at 1 atm, {} ({} K)", rho, kell(T - 273.15), T)
    ctx.label("liquid" if liquid else "steam" if steam else "other")
    ctx.nontrivial(liquid)


def masses():
    out = {}
    rows = open(os.path.join(REPO, "ASAPy", "data", "mass.mas12")).read().split("\n")
    for line in rows[39:]:
        if not line.strip():
            continue
        ids = re.match(r"\s*(\d+)\s+(\d+)\s+(\d+)\s+([A-Za-z]+)", line[4:])
        excess = re.match(r"\s*(-?[\d.]+)#?", line[28:42])
        tail = re.search(r"(\d+)\s+(\d{6}(?:\.\d*)?)(#?)\s+[\d.]+#?\s*$", line)
        out[(ids.group(4), int(ids.group(3)))] = (int(ids.group(2)), float(excess.group(1)), int(tail.group(1)) + 1e-6 * float(tail.group(2)))
    return out


AME = masses()
KEYS = sorted(AME)
ELEMENTS = sorted({re.match("[A-Za-z]+", k).group(0) for k in D.NATURAL_ABUNDANCE})
NAT = {"C": 0, "Zn": 0, "Pt": 0, "Os": 0, "Tl": 0}


def run_mass(c, ctx):
    sym, A = KEYS[c["i"] % len(KEYS)]
    Z, excess, mass = AME[(sym, A)]
    name = "%s%d" % (sym, A)
    arg = {"plain": name, "meta": name + "_m1", "excited": name + "_e2", "lower": name.lower()}[c["form"]]
    got = D.atomic_mass(arg)
    require(abs(got - mass) < 1e-9, "mass of {} is {} instead of {}", arg, got, mass)
    require(abs(got - (A + excess / KEV)) < 2e-6 * max(1, abs(excess) / KEV), "mass of {}, {}, does not fit its mass excess {} keV", arg, got, excess)
    if Z in D.ATOMIC_SYMBOL and Z > 0 and Z < 113:
        require(D.ATOMIC_SYMBOL[Z] == sym and D.ATOMIC_NUMBER[sym] == Z, "symbol of {} is {}", Z, D.ATOMIC_SYMBOL[Z])
    el = ELEMENTS[c["el"] % len(ELEMENTS)]
    iso = {k: v for k, v in D.NATURAL_ABUNDANCE.items() if re.match("[A-Za-z]+", k).group(0) == el}
    want = sum(v * AME[(el, int(re.search(r"\d+", k).group(0)))][2] for k, v in iso.items())
    require(abs(sum(iso.values()) - 1) < 1e-3, "abundances of {} add to {}", el, sum(iso.values()))
    require(abs(D.atomic_weight(el) - want) < 1e-8 * want, "weight of {} is {} instead of {}", el, D.atomic_weight(el), want)
    if el in NAT:
        require(abs(D.atomic_mass(el + "0") - want) < 1e-8 * want, "mass of {}0", el)
    for bad in ("Tc", "Pm", "At", "Xx"):
        expect_raises(lambda: D.atomic_weight(bad), "atomic weight of " + bad)
    ctx.label(c["form"])
    ctx.nontrivial(len(iso) > 1)


SUBS = [Sub("water", case_water(), run_water, 3000, 100000, "liquid water"),
        Sub("masses", st.fixed_dictionaries({"i": st.integers(0, 10 ** 5), "el": st.integers(0, 10 ** 5), "form": st.sampled_from(["plain", "meta", "excited", "lower"])}), run_mass, 3000, 60000, "an element of several isotopes")]
