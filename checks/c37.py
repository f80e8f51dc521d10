import os, pathlib, xml.etree.ElementTree as ET
import h5py
import numpy as np
from hypothesis import strategies as st
from ASAPy.data.library import DataLibrary
from ASAPy.data import univariate as U
from lib.core import Sub, require

ASSUMPTIONS = ["names of files and materials without blanks (materials are listed separated by blanks)", "the cross sections file format of OpenMC: <directory> is optional, paths are relative to it or to the file's own folder"]
FOLDERS = ["", "lib", "lib/sub", "lib2", "li", "photon/x", "lib/sub/deep"]
NAMES = ["U235", "U238", "Am242_m1", "H1", "c_H_in_H2O", "U", "Zr90", "C0", "Pu239", "Pu240", "O16", "c_D_in_D2O", "Fe56", "He4", "H2", "c_Graphite"]
s = st.sampled_from
file_ = st.fixed_dictionaries({"dir": s(FOLDERS), "materials": st.integers(0, 7).flatmap(lambda k: st.lists(s(NAMES), min_size=12 if k == 5 else 1, max_size=16 if k == 5 else 3, unique=True)), "type": s(["neutron", "photon", "thermal", "wmp"]), "abs": st.booleans()})
case = st.fixed_dictionaries({"files": st.lists(file_, min_size=0, max_size=5), "xml": s(["cross_sections.xml", "lib/cross_sections.xml", "out/cs.xml", "lib/sub/a.xml", "lib2/x.xml"]), "xml_abs": st.booleans(), "same_abs": st.booleans(), "path": s(["str", "pathlib"]), "env": st.booleans(), "move_cwd": st.booleans(), "again": st.booleans()})


def run(c, ctx):
    root = os.path.realpath(ctx.dir())
    os.chdir(root)
    for f in FOLDERS + ["out"]:
        os.makedirs(os.path.join(root, f), exist_ok=True)
    lib = DataLibrary()
    want = []
    for i, f in enumerate(c["files"]):
        rel = os.path.join(f["dir"], "f%d.h5" % i)
        with h5py.File(rel, "w") as h:
            h.attrs["filetype"] = np.bytes_("data_" + f["type"])
            for m in f["materials"]:
                h.create_group(m)
        ab = c["same_abs"] if c["xml_abs"] else f["abs"]
        p = os.path.join(root, rel) if ab else rel
        lib.register_file(pathlib.Path(p) if c["path"] == "pathlib" else p)
        want.append({"file": os.path.join(root, rel), "type": f["type"], "materials": sorted(f["materials"])})

    def same(lib, what):
        require(len(lib.libraries) == len(want), "{} files {}", len(lib.libraries), what)
        for g, w in zip(lib.libraries, want):
            require(os.path.exists(g["path"]) and os.path.samefile(g["path"], w["file"]), "path {!r} is not {} ({})", g["path"], w["file"], what)
            require(g["type"] == w["type"], "type {!r} instead of {!r} {}", g["type"], w["type"], what)
            require(sorted(g["materials"]) == w["materials"], "materials {} instead of {} {}", g["materials"], w["materials"], what)
        for n in NAMES + ["Fe56"]:
            g = lib.get_by_material(n)
            first = [w for w in want if n in w["materials"]]
            if not first:
                require(g is None, "{!r} is in no library but found in {}", n, g)
            else:
                require(g is not None and os.path.samefile(g["path"], first[0]["file"]), "{!r} found in {} instead of {}", n, g, first[0])

    same(lib, "after registration")
    x = os.path.join(root, c["xml"]) if c["xml_abs"] else c["xml"]
    lib.export_to_xml(pathlib.Path(x) if c["path"] == "pathlib" else x)
    same(lib, "after the export")
    xml = os.path.join(root, c["xml"])
    if c["move_cwd"]:
        # the written file is read from another working folder
        os.chdir(os.path.join(root, "photon"))
    elif not c["xml_abs"]:
        xml = c["xml"]
    old = os.environ.pop("OPENMC_CROSS_SECTIONS", None)
    try:
        if c["env"]:
            os.environ["OPENMC_CROSS_SECTIONS"] = xml
            back = DataLibrary.from_xml()
        else:
            back = DataLibrary.from_xml(pathlib.Path(xml) if c["path"] == "pathlib" else xml)
    finally:
        os.environ.pop("OPENMC_CROSS_SECTIONS", None)
        if old is not None:
            os.environ["OPENMC_CROSS_SECTIONS"] = old
    same(back, "after reading the file")
    if c["again"]:
        back.export_to_xml(os.path.join(root, "out", "second.xml"))
        same(DataLibrary.from_xml(os.path.join(root, "out", "second.xml")), "after a second round trip")
    ctx.label("%d files" % min(3, len(want)), "absolute" if c["xml_abs"] else "relative")
    ctx.nontrivial(len({f["dir"] for f in c["files"]}) > 1)


fl = st.floats(-1e6, 1e6).map(lambda v: float("%.6g" % v))
pos = st.floats(1e-8, 1e7).map(lambda v: float("%.6g" % v))


@st.composite
def case_dist(draw):
    k = draw(s(["discrete", "uniform", "maxwell", "watt", "tabular", "legendre", "mixture"]))
    n = draw(st.integers(1, 6))
    return {"kind": k, "x": sorted(draw(st.lists(fl, min_size=n, max_size=n, unique=True))), "p": draw(st.lists(st.floats(0, 10), min_size=n, max_size=n)), "a": draw(pos), "b": draw(pos), "interp": draw(s(["histogram", "linear-linear", "linear-log", "log-linear", "log-log"])),
            "np": draw(st.booleans()), "mu": draw(st.lists(st.floats(-1, 1), min_size=1, max_size=4)), "name": draw(s(["energy", "angle", "x"]))}


def numbers(t):
    return [float(v) for v in t.split()]


def run_dist(c, ctx):
    x, p = [float(v) for v in c["x"]], [float(v) for v in c["p"]]
    a = float(c["a"])
    b = max(float(c["b"]), 1e-3 * a)
    if c["np"]:
        x, p = np.array(x), np.array(p)
    k = c["kind"]
    ctx.label(k)
    ctx.nontrivial(len(c["x"]) > 1)
    if k == "legendre":
        coef = [1.0] + [float(v) for v in c["p"]]
        d = U.Legendre(np.array(coef) if c["np"] else coef)
        require(len(d) == len(coef) and np.allclose(d.coefficients, coef, rtol=1e-13), "coefficients {} instead of {}", d.coefficients, coef)
        for mu in c["mu"]:
            pl = [1.0, float(mu)]
            for l in range(1, len(coef)):
                pl.append(((2 * l + 1) * mu * pl[l] - l * pl[l - 1]) / (l + 1))
            w = sum((2 * l + 1) / 2 * v * pl[l] for l, v in enumerate(coef))
            sc = sum((2 * l + 1) / 2 * abs(v) for l, v in enumerate(coef))
            require(abs(float(d(float(mu))) - w) <= 1e-11 * sc, "density {} instead of {} at {}", d(float(mu)), w, mu)
        return
    if k == "mixture":
        ds = [U.Uniform(a, a + b), U.Discrete(x, p), U.Watt(a, b)][:1 + len(c["mu"]) % 3]
        d = U.Mixture([1.0 / len(ds)] * len(ds), ds)
        require(len(d) == sum([2, len(c["x"]), 2][:len(ds)]) and list(d.distribution) == ds, "mixture of {} numbers", len(d))
        return
    d = {"discrete": lambda: U.Discrete(x, p), "uniform": lambda: U.Uniform(a, a + b), "maxwell": lambda: U.Maxwell(a), "watt": lambda: U.Watt(a, b), "tabular": lambda: U.Tabular(x, p, c["interp"])}[k]()
    require(len(d) == {"discrete": len(c["x"]), "uniform": 2, "maxwell": 1, "watt": 2, "tabular": len(c["x"])}[k], "length {}", len(d))
    el = ET.fromstring(ET.tostring(d.to_xml_element(c["name"])))
    require(el.tag == c["name"] and el.get("type") == k, "element {!r} of type {!r}", el.tag, el.get("type"))
    t = el.get("parameters") or el.find("parameters").text
    want = {"discrete": c["x"] + c["p"], "uniform": [a, a + b], "maxwell": [a], "watt": [a, b], "tabular": c["x"] + c["p"]}[k]
    require(numbers(t) == [float(v) for v in want], "parameters {!r} instead of {}", t, want)
    if k == "tabular":
        require(el.get("interpolation") == c["interp"], "interpolation {!r}", el.get("interpolation"))
    if k == "uniform":
        tab = d.to_tabular()
        require(list(tab.x) == [a, a + b] and tab.interpolation == "histogram" and np.allclose(np.asarray(tab.p)[0] * (tab.x[1] - tab.x[0]), 1.0, rtol=1e-12), "table {}, {}", tab.x, tab.p)
        require(np.allclose(tab.c, [0, 1]), "cumulative {}", tab.c)


SUBS = [Sub("library", case, run, 1500, 40000, "files in several folders"), Sub("distributions", case_dist(), run_dist, 2000, 60000, "several values")]
