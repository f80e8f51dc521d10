"""ENDF-6 text written from values (independent of the parsers under test)."""
from hypothesis import strategies as st


def num(x):
    """any float in an 11-column ENDF field, e-less form"""
    if x == 0:
        return " 0.000000+0"
    m, e = ("%.6e" % x).split("e")
    e = int(e)
    digits = 6 if abs(e) < 10 else 5 if abs(e) < 100 else 4
    m, e = ("%.*e" % (digits, x)).split("e")
    e = int(e)
    s = "%s%+d" % (m, e)
    return s.rjust(11)


def val(x):
    """the value num(x) stands for"""
    s = num(x)
    k = max(s.rfind("+"), s.rfind("-"))
    return float(s[:k] + "e" + s[k:])


def integer(i):
    return "%11d" % i


def rec(fields, mat, mf, mt, ns):
    s = "".join(fields)
    assert len(s) <= 66, (len(s), s)
    return "%-66s%4d%2d%3d%5d\n" % (s, mat, mf, mt, ns % 100000)


@st.composite
def number(draw):
    """{"s": eleven characters, "v": value}"""
    form = draw(st.sampled_from(["eless", "eless", "eless", "E", "e", "dec", "int", "zero"]))
    sign = draw(st.sampled_from(["", "", "-", "+"]))
    if form == "zero":
        s = draw(st.sampled_from([" 0.000000+0", "0.0", "0", "0.000000+0", " 0.0000E+00", ".0", "-0.00000+00"]))
        v = 0.0
    elif form == "int":
        i = draw(st.integers(0, 99999999))
        s, v = sign + str(i), float(i) * (-1 if sign == "-" else 1)
    elif form == "dec":
        a, nb = draw(st.integers(0, 9999)), draw(st.integers(1, 5))
        b = str(draw(st.integers(0, 10 ** nb - 1))).zfill(nb)
        s = sign + "%d.%s" % (a, b)
        v = float(s)
    else:
        nd = draw(st.integers(1, 6))
        m = "%d.%s" % (draw(st.integers(0 if draw(st.integers(0, 9)) == 9 else 1, 9)), str(draw(st.integers(0, 10 ** nd - 1))).zfill(nd))
        e = draw(st.one_of(st.integers(-9, 9), st.integers(-38, 38)))
        es = draw(st.sampled_from(["%+d", "%+03d"])) % e
        while True:
            s = sign + m + {"eless": "", "E": "E", "e": "e"}[form] + es
            if len(s) <= 11:
                break
            if len(m) > 3:
                m = m[:-1]
            else:
                es = "%+d" % e
        v = float(sign + m + "e%d" % e)
    left = draw(st.booleans()) and draw(st.booleans())
    return {"s": s.ljust(11) if left else s.rjust(11), "v": v}


# ------------------------------------------------------------------ whole evaluations
LIBS = {0: 'ENDF/B', 1: 'ENDF/A', 2: 'JEFF', 3: 'EFF', 4: 'ENDF/B High Energy', 5: 'CENDL', 6: 'JENDL', 31: 'INDL/V', 32: 'INDL/A', 33: 'FENDL',
        34: 'IRDF', 35: 'BROND', 36: 'INGDB-90', 37: 'FENDL/A', 41: 'BROND'}
LIBS_DATA = dict(LIBS)
LIBS_DATA.update({17: 'TENDL', 18: 'ROSFOND', 21: 'SG-21'})
SUBLIB = {0: 'Photo-nuclear data', 1: 'Photo-induced fission product yields', 3: 'Photo-atomic data', 4: 'Radioactive decay data',
          5: 'Spontaneous fission product yields', 6: 'Atomic relaxation data', 10: 'Incident-neutron data',
          11: 'Neutron-induced fission product yields', 12: 'Thermal neutron scattering data', 19: 'Neutron standards', 113: 'Electro-atomic data',
          10010: 'Incident-proton data', 10011: 'Proton-induced fission product yields', 10020: 'Incident-deuteron data',
          10030: 'Incident-triton data', 20030: 'Incident-helion (3He) data', 20040: 'Incident-alpha data'}
TEXT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -+.,()/*"


def text_line(n=66):
    return st.text(TEXT, max_size=n).map(lambda s: s.ljust(66))


@st.composite
def material(draw, mats=None, mf33=None, fissionable=None, neutron=False):
    Z = draw(st.integers(1, 100))
    A = draw(st.integers(0, 300))
    m = {"mat": draw(mats if mats is not None else st.integers(1, 9999)), "Z": Z, "A": A, "awr": draw(st.integers(9000, 2600000)) / 1e4, "lrp": draw(st.sampled_from([-1, 0, 1, 2])),
         "lfi": fissionable if fissionable is not None else draw(st.sampled_from([0, 1])), "nlib": draw(st.sampled_from(sorted(LIBS_DATA) + [99])), "nmod": draw(st.integers(0, 9)),
         "elis": draw(st.sampled_from([0.0, 48600.0, 1.25e6])), "sta": draw(st.sampled_from([0, 1])), "lis": draw(st.integers(0, 3)), "liso": draw(st.integers(0, 2)),
         "awi": draw(st.sampled_from([0.0, 1.0, 0.99862])), "emax": draw(st.sampled_from([2e7, 1.5e8, 2e8])), "lrel": draw(st.integers(0, 9)),
         "nsub": 10 if neutron else draw(st.sampled_from(sorted(SUBLIB))), "nver": draw(st.integers(0, 8)), "temp": draw(st.sampled_from([0.0, 293.6])), "ldrv": draw(st.sampled_from([0, 0, 1, 2]))}
    nw = draw(st.sampled_from([5, 5, 6, 8] if neutron else [5, 5, 6, 8, 0, 3]))
    m["text"] = draw(st.lists(text_line(), min_size=nw, max_size=nw))
    secs = {(3, 1), (3, 2)} if draw(st.booleans()) else set()
    for _ in range(draw(st.integers(0, 6))):
        secs.add((draw(st.sampled_from([2, 3, 4, 5, 6, 12, 14, 31, 33, 34, 35, 40])), draw(st.sampled_from([1, 2, 4, 16, 18, 51, 91, 102, 107, 251, 452, 851]))))
    if mf33 is not None:
        secs = {s for s in secs if s[0] != 33} | {(33, x) for x in mf33}
    m["sections"] = [[mf, mt, draw(st.integers(1, 4)), draw(st.integers(0, 9))] for mf, mt in sorted(secs)]
    return m


def cont(c1, c2, l1, l2, n1, n2):
    return num(c1) + num(c2) + integer(l1) + integer(l2) + integer(n1) + integer(n2)


def fields(vals):
    """numbers, six per line"""
    f = [integer(v) if isinstance(v, int) else num(v) for v in vals]
    return ["".join(f[k:k + 6]) for k in range(0, len(f), 6)]


def set_body(m, mf, mt, lines):
    """give a material its own section text (list of 66-column lines)"""
    m.setdefault("bodies", {})["%d,%d" % (mf, mt)] = lines
    m["sections"] = sorted([s for s in m["sections"] if s[:2] != [mf, mt]] + [[mf, mt, len(lines) - 1, 0]])


def material_text(m):
    """(text, {(mf, mt): section text}, directory)"""
    out, sections = [], {}
    mat = m["mat"]
    directory = [(1, 451, 4 + len(m["text"]) + 1 + len(m["sections"]), m["nmod"])] + [(a, b, c + 1, d) for a, b, c, d in m["sections"]]
    lines = []

    def add(fields, mf, mt):
        lines.append(rec(fields, mat, mf, mt, len(lines) + 1))
    add([num(m["Z"] * 1000.0 + m["A"]), num(m["awr"]), integer(m["lrp"]), integer(m["lfi"]), integer(m["nlib"]), integer(m["nmod"])], 1, 451)
    add([num(m["elis"]), num(float(m["sta"])), integer(m["lis"]), integer(m["liso"]), integer(0), integer(6)], 1, 451)
    add([num(m["awi"]), num(m["emax"]), integer(m["lrel"]), integer(0), integer(m["nsub"]), integer(m["nver"])], 1, 451)
    add([num(m["temp"]), num(0.0), integer(m["ldrv"]), integer(0), integer(len(m["text"])), integer(len(directory))], 1, 451)
    for t in m["text"]:
        add([t], 1, 451)
    for a, b, c, d in directory:
        mod = " " * 11 if m.get("blank_mod") and (a, b) == tuple(directory[-1][:2]) else integer(d)
        add([" " * 22, integer(a), integer(b), integer(c), mod], 1, 451)
    sections[1, 451] = "".join(lines)
    last = 1
    out += lines + [rec([" " * 66], mat, 1, 0, 99999)]
    for a, b, c, d in m["sections"]:
        if a != last:
            out.append(rec([" " * 66], mat, 0, 0, 0))
            last = a
        lines = []
        own = m.get("bodies", {}).get("%d,%d" % (a, b))
        if own is not None:
            for l in own:
                add([l], a, b)
        else:
            add([num(m["Z"] * 1000.0 + m["A"]), num(m["awr"]), integer(0), integer(0), integer(1), integer(c)], a, b)
        for k in range(c if own is None else 0):
            add([num(a + b / 1000.0 + k), num(float(k)), num(1.0 / (k + 1)), integer(k), integer(b), integer(a)], a, b)
        sections[a, b] = "".join(lines)
        out += lines + [rec([" " * 66], mat, a, 0, 99999)]
    out.append(rec([" " * 66], mat, 0, 0, 0))
    out.append(rec([" " * 66], 0, 0, 0, 0))
    return "".join(out), sections, directory


def tape(materials, tpid="generated tape"):
    parts = [rec([tpid], 1, 0, 0, 0)]
    all_secs = []
    for m in materials:
        t, s, d = material_text(m)
        parts.append(t)
        all_secs.append((s, d))
    parts.append(rec([" " * 66], -1, 0, 0, 0))
    return "".join(parts), all_secs
