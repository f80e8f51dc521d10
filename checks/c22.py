import os, re, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy.data import data as D, ace, reaction, endf
from lib.core import Sub, Violation, require, expect_raises, REPO
from lib import sums

warnings.simplefilter("ignore")
ASSUMPTIONS = ["nuclides with 3Z-100 < A <= 3Z, which holds for every known nuclide with data (the ZAID conventions are ambiguous elsewhere)"]
SYMBOLS = ("n H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba "
           "La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds "
           "Rg Cn Nh Fl Mc Lv Ts Og").split()


@st.composite
def nuclide(draw):
    Z = draw(st.one_of(st.integers(1, 118), st.sampled_from([95, 1, 47, 72, 92, 118])))
    lo = max(1, 3 * Z - 99)
    A = 242 if Z == 95 and draw(st.booleans()) else draw(st.integers(lo, min(3 * Z, 300)))
    return {"Z": Z, "A": A, "m": draw(st.integers(0, 3))}


def ids(c, ctx):
    Z, A, m = c["Z"], c["A"], c["m"]
    s = SYMBOLS[Z]
    name = "%s%d" % (s, A) + ("_m%d" % m if m else "")
    require(D.ATOMIC_SYMBOL[Z] == s and D.ATOMIC_NUMBER[s] == Z, "element {} is {}", Z, D.ATOMIC_SYMBOL[Z])
    require(D.gnd_name(Z, A, m) == name and D.gnd_name(Z=Z, A=A, m=m) == name, "name of {}: {!r}", (Z, A, m), D.gnd_name(Z, A, m))
    if m == 0:
        require(D.gnd_name(Z, A) == name, "name of {}: {!r}", (Z, A), D.gnd_name(Z, A))
    require(tuple(D.zam(name)) == (Z, A, m), "{} parsed as {}", name, D.zam(name))
    # names are not limited to the states that identifiers can carry
    big = [10, 12, 25, 100][(Z + A + m) % 4]
    require(D.gnd_name(Z, A, big) == "%s%d_m%d" % (s, A, big) and tuple(D.zam("%s%d_m%d" % (s, A, big))) == (Z, A, big), "state {}: {!r}, {}", big, D.gnd_name(Z, A, big), D.zam("%s%d_m%d" % (s, A, big)))
    require(tuple(D.zam("%s%d_e%d" % (s, A, m))) == (Z, A, m), "{}{}_e{} parsed as {}", s, A, m, D.zam("%s%d_e%d" % (s, A, m)))

    def read(zaid, scheme):
        got = ace.get_metadata(zaid, scheme) if scheme else ace.get_metadata(zaid)
        return tuple(got)

    # the MCNP convention: plus 400 for the metastable state, except that the two states of Am-242 are exchanged; newer tables: one million per state
    if m <= 1:
        z = 1000 * Z + A + 400 * m
        real = m if (Z, A) != (95, 242) else 1 - m
        want = ("%s%d" % (s, A) + ("_m1" if real else ""), s, Z, A, real)
        require(read(z, "mcnp") == want, "ZAID {} (mcnp) is {} instead of {}", z, read(z, "mcnp"), want)
    z = 1000000 * m + 1000 * Z + A
    if m:
        real = 0 if z == 1095242 else m
        want = ("%s%d" % (s, A) + ("_m%d" % real if real else ""), s, Z, A, real)
        require(read(z, "mcnp") == want, "SZA {} is {} instead of {}", z, read(z, "mcnp"), want)
    # the other convention, where files carry 300 + 100 m for a metastable state
    if m <= 1:
        z = 1000 * Z + A + 400 * m
        want = (name, s, Z, A, m)
        for scheme in ("nndc", None):
            require(read(z, scheme) == want, "ZAID {} ({}) is {} instead of {}", z, scheme or "default", read(z, scheme), want)
    ctx.label("m=%d" % m)
    ctx.nontrivial(m > 0)


def documented(c, ctx):
    Z, A, m = c["Z"], c["A"], c["m"]
    s = SYMBOLS[Z]
    name = "%s%d" % (s, A) + ("_m%d" % m if m else "")
    ctx.nontrivial(m > 0)
    # as documented: 1000 Z + A + 100 m
    z = 1000 * Z + A + 100 * m
    if A + 100 * m < 1000 and m:
        got, want = tuple(ace.get_metadata(z, "nndc")), (name, s, Z, A, m)
        if got != want:
            simple = 1 if A + 100 * m > 300 else 0
            known = (D.gnd_name(Z, A, simple), s, Z, A, simple)
            raise Violation("ZAID %d (nndc) is %s instead of %s" % (z, got, want), finding="nndc-100m" if got == known else None)


@st.composite
def bad_name(draw):
    n = draw(nuclide())
    s = SYMBOLS[n["Z"]]
    good = "%s%d" % (s, n["A"])
    return {"name": draw(st.sampled_from([s, str(n["A"]), good + "m", good + "_m", good + "_", good + "_x1", good + "_m1x", good + " ", " " + good, "", "%d%s" % (n["A"], s), good + "_m-1",
                                          s.lower() + "A%d" % n["A"], "Xx%d" % n["A"], "%s-%d" % (s, n["A"]), good + ".5", s.upper() + "q%d" % n["A"], good + "_1", "_m1"]))}


def malformed(c, ctx):
    expect_raises(lambda: D.zam(c["name"]), "nuclide name %r" % c["name"])
    ctx.nontrivial(len(c["name"]) > 1)


def bad_zaid(c, ctx):
    expect_raises(lambda: ace.get_metadata(c["zaid"], c["scheme"]), "ZAID %r in scheme %r" % (c["zaid"], c["scheme"]))
    ctx.nontrivial()


MASSES = {}


def masses():
    if not MASSES:
        for line in list(open(os.path.join(REPO, "ASAPy", "data", "mass.mas12")))[39:]:
            A, s = int(line[16:19]), line[20:22].strip()
            MASSES[(s, A)] = A + float(line[28:41].replace("#", " ").split()[0]) / 931494.061
    return MASSES


def abundances():
    out = {}
    for k, v in D.NATURAL_ABUNDANCE.items():
        s, A = re.fullmatch(r"([A-Z][a-z]?)(\d+)", k).groups()
        out.setdefault(s, {})[int(A)] = v
    return out


def element(c, ctx):
    Z = c["Z"]
    s = SYMBOLS[Z]
    ab, mass = abundances(), masses()
    require(set(ab) <= set(SYMBOLS) and list(D.ATOMIC_SYMBOL[z] for z in range(119)) == SYMBOLS and len(D.ATOMIC_SYMBOL) == len(D.ATOMIC_NUMBER) == 119, "the tables of elements are wrong")
    mine = {A: m for (t, A), m in mass.items() if t == s}
    for A, m in mine.items():
        for name in ("%s%d" % (s, A), "%s%d_m1" % (s, A), "%s%d" % (s.lower(), A)):
            got = D.atomic_mass(name)
            require(abs(got - m) < 2e-6, "mass of {} is {} instead of {}", name, got, m)
    if s in ab:
        require(all(v > 0 for v in ab[s].values()) and abs(sum(ab[s].values()) - 1) < 2e-6, "abundances of {} add up to {}", s, sum(ab[s].values()))
        w = sum(v * mass[(s, A)] for A, v in ab[s].items())
        require(abs(D.atomic_weight(s) - w) < 1e-5, "weight of {} is {} instead of {}", s, D.atomic_weight(s), w)
        if s in ("C", "Zn", "Pt", "Os", "Tl"):
            require(abs(D.atomic_mass(s + "0") - w) < 1e-5, "mass of {}0 is {} instead of {}", s, D.atomic_mass(s + "0"), w)
        require(all(A in mine for A in ab[s]), "isotopes {}", sorted(ab[s]))
    else:
        expect_raises(lambda: D.atomic_weight(s), "weight of %s which has no natural isotopes" % s)
    ctx.label("natural" if s in ab else "artificial")
    ctx.nontrivial(s in ab)


LEVELS = {50: ("(n,n%d)", 41, "(n,nc)"), 600: ("(n,p%d)", 49, "(n,pc)"), 650: ("(n,d%d)", 49, "(n,dc)"), 700: ("(n,t%d)", 49, "(n,tc)"), 750: ("(n,3He%d)", 49, "(n,3Hec)"), 800: ("(n,a%d)", 49, "(n,ac)"), 875: ("(n,2n%d)", 16, "(n,2nc)")}


def emitted(name):
    """particles in a reaction name (n,2npa) -> counts, without the level"""
    b = re.fullmatch(r"\(n,(.*)\)", name).group(1)
    out = {}
    while b:
        m = re.match(r"(\d*)(3He|He-3|n|p|d|t|a)", b)
        if not m:
            return None
        n, p = m.groups()
        if p == "He-3" or n.endswith("3") and p == "He":
            p = "3He"
        out[p] = out.get(p, 0) + (int(n) if n else 1)
        b = b[m.end():]
    return out


# products of the reactions by ENDF-6 number (appendix B of the format manual)
PRODUCTS = {16: "2n", 17: "3n", 22: "na", 23: "n3a", 24: "2na", 25: "3na", 28: "np", 29: "n2a", 30: "2n2a", 32: "nd", 33: "nt", 34: "nHe-3", 35: "nd2a", 36: "nt2a", 37: "4n", 41: "2np", 42: "3np", 44: "n2p", 45: "npa",
            103: "p", 104: "d", 105: "t", 107: "a", 108: "2a", 109: "3a", 111: "2p", 112: "pa", 113: "t2a", 114: "d2a", 115: "pd", 116: "pt", 117: "da"}


def rules(c, ctx):
    R = reaction.REACTION_NAME
    for start, (fmt, n, last) in LEVELS.items():
        for k in range(n):
            require(R[start + k] == fmt % k, "MT{} is called {!r}", start + k, R.get(start + k))
        require(R[start + n] == last, "MT{} is called {!r}", start + n, R.get(start + n))
    for mt, name in {1: "(n,total)", 2: "(n,elastic)", 18: "(n,fission)", 101: "(n,disappear)", 102: "(n,gamma)", 27: "(n,absorption)", 106: "(n,3He)", 5: "(n,misc)", 4: "(n,level)"}.items():
        require(R[mt] == name, "MT{} is called {!r}", mt, R.get(mt))
    for mt, p in PRODUCTS.items():
        require(R[mt] == "(n,%s)" % p, "MT{} is called {!r} instead of (n,{})", mt, R.get(mt), p)
    byname = {}
    for mt, n in R.items():
        require(n not in byname, "MT{} and MT{} have the same name {!r}", mt, byname.get(n), n)
        byname[n] = mt
    S = endf.SUM_RULES
    for mt in sums.PARTS:
        require(mt in S, "no sum rule for MT{}", mt)
    for mt in (103, 104, 105, 106, 107, 101, 18, 27, 16, 4, 1):
        require(sorted(S[mt]) == sorted(sums.PARTS[mt]), "MT{} is the sum of {}", mt, S[mt])
    for mt, parts in S.items():
        require(len(parts) == len(set(parts)) and mt not in parts and mt in R and all(p in R for p in parts), "sum rule of MT{}: {}", mt, parts)
    # every reaction counts exactly once in the total
    def expand(mt):
        return [x for p in S[mt] for x in (expand(p) if p in S else [p])]
    e = expand(1)
    require(len(e) == len(set(e)), "reactions counted twice in the total: {}", sorted({x for x in e if e.count(x) > 1}))
    missing = [m for m in R if m not in e and m not in S and m not in (444, 452, 1018, 1, 3)]
    require(not missing, "reactions not in the total: {}", missing)
    ctx.nontrivial()


zaids = st.one_of(st.sampled_from([119001, 250000, 999999, 500]), st.integers(119, 999).map(lambda z: 1000 * z + 1))
SUBS = [Sub("identifiers", nuclide(), ids, 6000, 60000, "a metastable state"),
        Sub("documented nndc", nuclide(), documented, 1000, 10000, "a metastable state"),
        Sub("malformed", bad_name(), malformed, 1500, 15000, "a name of two or more characters"),
        Sub("refused", st.one_of(st.fixed_dictionaries({"zaid": st.sampled_from([92235.0, "92235", None]), "scheme": st.sampled_from(["nndc", "mcnp"])}),
                                 st.fixed_dictionaries({"zaid": st.sampled_from([92235, 1001]), "scheme": st.sampled_from(["NNDC", "", "endf", None])}),
                                 st.fixed_dictionaries({"zaid": st.integers(119, 999).map(lambda z: 1000 * z + 1), "scheme": st.sampled_from(["nndc", "mcnp"])})), bad_zaid, 200, 2000, "always"),
        Sub("elements", st.fixed_dictionaries({"Z": st.integers(1, 118)}), element, 600, 2000, "an element with natural isotopes"),
        Sub("reactions", st.just({}), rules, 8, 8, "always")]
