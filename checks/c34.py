import hashlib, os, subprocess, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy.data.neutron import IncidentNeutron
from lib.core import Sub, require, Violation
from lib import acegen, standin
from lib import endfgen as eg
from lib.endfdata import Writer, head, cont
from checks import c31
from checks.c23 import compare as same_after_hdf5, differs
from checks.c32 import SYM

warnings.simplefilter("ignore")
ASSUMPTIONS = ["NJOY is replaced by a stand-in that reads the deck and hands out generated ACE tables and a generated PENDF tape", "only the first isomer is given as metastable: the ACE identifier tells no more (400 is added for any isomer)",
               "an evaluation without resolved resonances: the resonance reconstruction module is not part of the package as it is built"]
NUCLIDES = [(92, 235), (94, 239), (95, 242), (95, 242), (72, 178), (47, 110), (26, 56), (1, 1), (95, 244), (67, 166), (27, 58)]


@st.composite
def case(draw):
    s = st.sampled_from
    Z, A = draw(s(NUCLIDES))
    spec = draw(acegen.spec(simple=True, fissile=Z > 90 or None, max_nes=7))
    if draw(s([True, False])):
        spec["urr"] = {"n": draw(st.integers(1, 3)), "m": draw(st.integers(2, 5)), "int": draw(s([2, 5])), "ilf": draw(s([-1, 0, 51])), "ioa": draw(s([-1, 0, 102])), "iff": draw(s([0, 1]))}
    return {"seed": draw(st.integers(0, 10 ** 6)), "Z": Z, "A": A, "liso": draw(s([0, 1])), "spec": spec, "temps": draw(st.one_of(st.none(), st.lists(s([0.0, 77.0, 293.6, 600.0, 900.0, 1200.5, 2500.0]), min_size=draw(s([1, 2, 3])), max_size=4, unique=True))),
            "q": draw(st.booleans()), "npoly": draw(s([1, 2, 3])), "fail": draw(s([0] * 9 + [1])), "no_urr": draw(st.integers(0, 15)), "suffix": "00c"}


def run(c, ctx):
    d = ctx.dir()
    os.chdir(d)
    for x in ("data", "cwd"):
        os.mkdir(x)
    ts = c["temps"] or [293.6]
    fissile = any(r["mt"] == 18 for r in c["spec"]["reactions"])
    cc = {"seed": c["seed"], "npoly": c["npoly"], "mev": False, "tables": [], "nu": "tab", "prompt": True, "ncoef": 2, "liso": c["liso"], "rx": [18]}
    m = c31.material(cc, Z=c["Z"], A=c["A"], lfi=int(fissile), mat=1 + c["seed"] % 9999)
    want = None
    if fissile and c["q"]:
        want, grid = c31.fill(m, cc)
    else:
        eg.set_body(m, 3, 2, [head(m)] + Writer([c["seed"], 5]).table(1)[0])
    text = eg.tape([m])[0]
    open("cwd/eval.endf", "w").write(text)
    pen = c31.material(cc, Z=c["Z"], A=c["A"], lfi=int(fissile), mat=m["mat"])
    w = Writer([c["seed"], 6])
    l, el = w.table(1, n=12, laws=(2,))
    eg.set_body(pen, 3, 2, [head(pen)] + l)
    l, _ = w.table(1, n=12, laws=(2,))
    eg.set_body(pen, 3, 1, [head(pen)] + l)
    open("data/pendf", "w").write(eg.tape([pen])[0])
    tables = []
    for k, T in enumerate(ts):
        spec = dict(c["spec"])
        if c["no_urr"] >> k & 1:
            spec.pop("urr", None)
        t = acegen.build(dict(spec, zaid=1000 * c["Z"] + c["A"], suffix="%02dc" % k, kT=acegen.r11(T * acegen.K_MEV), seed=c["spec"]["seed"] + k, nes=c["spec"]["nes"] + k))
        tables.append(t)
        open("data/ace_%g" % T, "w").write(acegen.ascii_text(t))
        open("data/xsdir_%g" % T, "w").write("xsdir\n")
    exe = standin.write_njoy(os.path.join(d, "njoy"), os.path.join(d, "log"), os.path.join(d, "data"), {20: "endf"}, {20: hashlib.sha256(text.encode()).hexdigest()}, fail=c["fail"], message="MARK-njoy")
    os.chdir("cwd")
    try:
        data = IncidentNeutron.from_njoy("eval.endf", **({"temperatures": c["temps"]} if c["temps"] else {}), njoy_exec=exe)
    except subprocess.CalledProcessError as e:
        require(c["fail"], "NJOY could not run: {}", (e.output or "")[-400:])
        ctx.label("NJOY fails")
        require(os.listdir(".") == ["eval.endf"], "files left behind: {}", os.listdir("."))
        return
    require(not c["fail"], "NJOY failed but data were returned")
    require(os.listdir(".") == ["eval.endf"], "files left behind: {}", os.listdir("."))
    name = "%s%d%s" % (SYM[c["Z"]], c["A"], "_m1" if c["liso"] else "")
    require((data.name, data.atomic_number, data.mass_number, data.metastable) == (name, c["Z"], c["A"], c["liso"]), "data are for {}, Z={}, A={}, m={} instead of {}", data.name, data.atomic_number, data.mass_number, data.metastable, name)
    strT = ["%dK" % int(round(acegen.head_values(t)[1] * 1e6 / 8.6173303e-5)) for t in tables]
    require(list(data.temperatures) == strT, "temperatures {} instead of {}", data.temperatures, strT)
    for t, T in zip(tables, strT):
        require((np.shape(data.energy[T]) == np.shape(t.facts["grid"]) and np.allclose(data.energy[T], t.facts["grid"], rtol=1e-13, atol=0)), "energy grid at {}", T)
    for k, (t, T) in enumerate(zip(tables, strT)):
        open("one.ace", "w").write(acegen.ascii_text(t))
        one = IncidentNeutron.from_ace("one.ace")
        require(set(one.reactions) == set(data.reactions), "reactions {} instead of {}", list(data.reactions), list(one.reactions))
        for mt, rx in one.reactions.items():
            df = differs(rx.xs[one.temperatures[0]], data[mt].xs[T], "MT%d at %s" % (mt, T))
            require(df is None, "{}", df)
        require((T in data.urr) == ("urr" in t.facts), "probability tables at {}", sorted(data.urr))
        if "urr" in t.facts:
            df = differs(one.urr[one.temperatures[0]], data.urr[T], "probability tables at %s" % T)
            require(df is None, "{}", df)
    others = {"0K"} if 0.0 not in ts else set()
    require(set(data.energy) == set(strT) | others, "energy grids at {}", sorted(data.energy))
    if others:
        x = data[2].xs["0K"]
        require(list(data.energy["0K"]) == el["x"] and list(x.x) == el["x"] and list(x.y) == el["y"] and list(x.interpolation) == [2], "elastic cross section at 0 K is not that of the PENDF tape: {}", x)
    require(all(set(rx.xs) == set(strT) | (others if mt == 2 else set()) for mt, rx in data.reactions.items()), "cross sections at {}", {k: list(r.xs) for k, r in data.reactions.items()})
    if want is not None:
        require(data.fission_energy is not None, "no fission energy release")
        c31.compare(data.fission_energy, want, grid, "NJOY")
    else:
        require(data.fission_energy is None, "fission energy release out of nowhere")
    data.export_to_hdf5("a.h5", "w")
    back = IncidentNeutron.from_hdf5("a.h5")
    same_after_hdf5(data, back)
    if want is not None:
        c31.compare(back.fission_energy, want, grid, "HDF5")
    require(len(data.urr) == sum("urr" in t.facts for t in tables), "probability tables at {}", sorted(data.urr))
    ctx.label("%d temperatures" % len(ts), "probability tables at %s temperatures" % ("no" if not data.urr else "all" if len(data.urr) == len(ts) else "some"), "metastable" if c["liso"] else "ground state", "energy release" if want else "no energy release", "Am242" if c["Z"] == 95 and c["A"] == 242 else "other")
    ctx.nontrivial(len(ts) > 1 or c["liso"] > 0)


@st.composite
def case0(draw):
    s = st.sampled_from
    return {"seed": draw(st.integers(0, 10 ** 6)), "mf2": draw(s([None, "radius", "urr"])), "there": draw(s([0, 1, 2])), "nr": draw(st.integers(1, 2)), "name": draw(s(["file", "evaluation"])), "ne": draw(s([4, 8, 20]))}


def run0(c, ctx):
    """elastic cross section at 0 K from an evaluation without resolved resonances"""
    os.chdir(ctx.dir())
    m = c31.material({"liso": 0})
    w = Writer([c["seed"], 7])
    if c["mf2"]:
        lines = [head(m, 0, 0, 1, 0), cont(92235.0, 1.0, 0, 0, 1, 0)]
        if c["mf2"] == "radius":
            lines += [cont(1e-5, 2e7, 0, 0, 0, 0), cont(0.0, 0.9, 0, 0, 0, 0)]
        else:
            lines += [cont(1e2, 1e4, 2, 1, 0, 0), cont(0.0, 0.9, 1, 0, 1, 0), cont(m["awr"], 0.0, 0, 0, 6, 1)] + eg.fields([10.0, 0.5, 1.0, 0.001, 0.02, 0.0])
        eg.set_body(m, 2, 151, lines)
    l, t = w.table(c["nr"], n=c["ne"], ylo=0, yhi=2, laws=(2, 5))
    eg.set_body(m, 3, 2, [head(m)] + l)
    open("eval.endf", "w").write(eg.tape([m])[0])
    tab = acegen.build({"seed": c["seed"], "nes": 5, "zaid": 92235, "reactions": [], "kT": acegen.r11(293.6 * acegen.K_MEV), "elastic_angle": []})
    open("a.ace", "w").write(acegen.ascii_text(tab))
    data = IncidentNeutron.from_ace("a.ace")
    if c["there"]:
        data.add_elastic_0K_from_endf("eval.endf")
        first = data[2].xs["0K"]
        if c["there"] == 1:
            try:
                data.add_elastic_0K_from_endf("eval.endf")
            except ValueError:
                pass
            else:
                raise Violation("0 K data that were there were replaced without being asked to")
            require(data[2].xs["0K"] is first or differs(data[2].xs["0K"], first, "xs") is None, "0 K data changed")
        else:
            data.add_elastic_0K_from_endf("eval.endf", overwrite=True)
    else:
        data.add_elastic_0K_from_endf("eval.endf")
    xs, e = data[2].xs["0K"], np.asarray(data.energy["0K"])
    require(np.array_equal(e, xs.x), "grid and cross section at 0 K differ")
    require(len(e) >= 2 and e[0] == t["x"][0] and e[-1] == t["x"][-1] and np.all(np.diff(e) > 0), "0 K grid from {} to {} eV", e[:1], e[-1:])
    at = np.exp(np.random.RandomState(c["seed"]).uniform(np.log(1e-5), np.log(2e7), 100))
    want = np.array([reference(t, x) for x in at])
    got = np.array([float(xs(x)) for x in at])
    bad = np.abs(got - want) > 0.003 * np.abs(want)
    require(not bad.any(), "elastic cross section at 0 K is {} instead of {} at {} eV", got[bad], want[bad], at[bad])
    require(list(data.temperatures) == ["294K"], "temperatures {}", data.temperatures)
    data.export_to_hdf5("a.h5", "w")
    same_after_hdf5(data, IncidentNeutron.from_hdf5("a.h5"))
    ctx.label(str(c["mf2"]), "there %d" % c["there"])
    ctx.nontrivial(5 in t["it"])


def reference(t, e):
    x, y = t["x"], t["y"]
    i = min(max(int(np.searchsorted(x, e)), 1), len(x) - 1)
    law = next(l for b, l in zip(t["bp"], t["it"]) if i + 1 <= b)
    if law == 2:
        return y[i - 1] + (y[i] - y[i - 1]) * (e - x[i - 1]) / (x[i] - x[i - 1])
    return y[i - 1] * (y[i] / y[i - 1]) ** (np.log(e / x[i - 1]) / np.log(x[i] / x[i - 1]))


SUBS = [
    Sub("njoy", case(), run, 250, 6000, "several temperatures or a metastable target"),
    Sub("0 K", case0(), run0, 200, 6000, "logarithmic interpolation"),
]
