import os, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy.data.endf import Evaluation
from ASAPy.data.neutron import IncidentNeutron
from ASAPy.data.resonance import Resonances
from lib.core import Sub, require, expect_raises
from lib import endfgen as eg, resgen
from lib.endfdata import Writer, head
from checks.c27 import table, eq

warnings.simplefilter("ignore")
ASSUMPTIONS = ["R-matrix-limited groups without background R-matrix or tabulated phase shifts"]
NAMES = {"bw": ['energy', 'L', 'J', 'totalWidth', 'neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth'],
         "rm": ['energy', 'L', 'J', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB'],
         "A": ['L', 'J', 'd', 'amun', 'gn', 'gg', 'gf'], "B": ['L', 'J', 'd', 'amun', 'gn0', 'gg', 'gf'], "C": ['L', 'J', 'E', 'd', 'gx', 'gn0', 'gg', 'gf']}


@st.composite
def rrange(draw, last):
    s = st.sampled_from
    t = draw(s(["bw", "rm", "rml", "urr", "urr"] if last else ["bw", "rm", "rml"]))
    nro = draw(s([0, 0, 1]))
    r = {"type": t, "nro": nro, "naps": draw(s([0, 1, 2] if nro else [0, 1]))}
    if t in ("bw", "rm"):
        r.update(lrf=3 if t == "rm" else draw(s([1, 2])), ls=draw(st.lists(s([1, 2, 3, 7]), min_size=1, max_size=3)), l0=draw(s([0, 0, 1])), lx=draw(st.booleans()), fission=draw(st.booleans()),
                 apl=draw(st.booleans()), bound=draw(st.booleans()))
    elif t == "rml":
        r.update(pairs=draw(st.lists(s([2, 102, 18, 103, 51]), min_size=1, max_size=4)), groups=draw(st.lists(st.tuples(s([1, 2, 3, 5, 6, 7, 11, 12]), s([1, 2, 4, 0])).map(list), min_size=1, max_size=3)))
    else:
        r.update(lrf=draw(s([1, 2])), njs=draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)), ne=draw(st.integers(2, 5)))
    return r


@st.composite
def case(draw):
    s = st.sampled_from
    isos = []
    for _ in range(draw(s([1, 1, 1, 2]))):
        if draw(st.integers(0, 7)) == 4:
            isos.append({"lfw": 0, "ranges": [{"type": "radius"}]})
            continue
        n = draw(s([1, 2, 2, 3]))
        isos.append({"lfw": draw(s([0, 1])), "ranges": [draw(rrange(k == n - 1)) for k in range(n)]})
    return {"seed": draw(st.integers(0, 10 ** 6)), "awr": draw(s([15.8575, 233.0248])), "isotopes": isos, "whole": draw(st.booleans()), "mts": draw(st.lists(s([2, 18, 102, 1, 51]), unique=True, max_size=4))}


def rad(got, want, what):
    if isinstance(want, dict):
        table(got, want, what)
    else:
        require(abs(got(10.0) - want) <= 1e-8 * want and got(10.0) == got(1e5), "{}: {} instead of {}", what, got(10.0), want)


def params(got, cols, rows, what):
    require(list(got.columns) == cols, "{}: columns {}", what, list(got.columns))
    eq(np.array(got.values, float).reshape(len(got), len(cols)), np.array(rows, float).reshape(len(rows), len(cols)), what)


def check_range(g, d, what):
    what += " (%s)" % d["kind"]
    require(type(g).__name__ == d["kind"], "{}: read as {}", what, type(g).__name__)
    require((g.energy_min, g.energy_max) == (d["lo"], d["hi"]), "{}: {}-{} eV instead of {}-{}", what, g.energy_min, g.energy_max, d["lo"], d["hi"])
    if "spin" in d:
        require(g.target_spin == d["spin"], "{}: spin {} instead of {}", what, g.target_spin, d["spin"])
    if d["kind"] == "Unresolved":
        if isinstance(d["scat"], dict):
            table(g.scattering_radius, d["scat"], what + " scattering radius")
        else:
            require(g.scattering_radius == d["scat"], "{}: scattering radius {} instead of {}", what, g.scattering_radius, d["scat"])
        require(g.add_to_background == (d["lssf"] == 0), "{}: add_to_background {} although LSSF is {}", what, g.add_to_background, d["lssf"])
        if d["case"] == "B":
            eq(g.energies, d["energies"], what + " energies")
            require(len(g.parameters) == len(d["rows"]), "{}: parameters at {} energies", what, len(g.parameters))
            for k, rows in enumerate(d["rows"]):
                params(g.parameters[k], NAMES["B"], rows, what + " parameters at energy %d" % k)
        else:
            params(g.parameters, NAMES[d["case"]], d["rows"], what + " parameters")
        return
    if d["kind"] == "RMatrixLimited":
        require(bool(g.reduced_width) == (d["ifg"] == 1) and g.formalism == d["krm"], "{}: flags {} {} instead of {} {}", what, g.reduced_width, g.formalism, d["ifg"], d["krm"])
        require(len(g.particle_pairs) == len(d["pairs"]) and len(g.spin_groups) == len(d["groups"]), "{}: {} pairs, {} groups", what, len(g.particle_pairs), len(g.spin_groups))
        for p, v in zip(g.particle_pairs, d["pairs"]):
            got = [p.first["mass"], p.second["mass"], p.first["z"], p.second["z"], p.first["spin"], p.second["spin"], p.q_value, p.penetrability, p.shift, p.mt, p.first["parity"], p.second["parity"]]
            require(got == v, "{}: particle pair {} instead of {}", what, got, v)
        for k, (sg, v) in enumerate(zip(g.spin_groups, d["groups"])):
            n = "%s spin group %d" % (what, k)
            require((sg.spin, sg.parity) == (v["J"], v["parity"]), "{}: {}{} instead of {}{}", n, sg.spin, sg.parity, v["J"], v["parity"])
            require(len(sg.channels) == len(v["channels"]), "{}: {} channels", n, len(sg.channels))
            for ch, c in zip(sg.channels, v["channels"]):
                require(ch["particle_pair"] is g.particle_pairs[int(c[0]) - 1], "{}: wrong particle pair", n)
                got = [ch["l"], ch["spin"], ch["boundary"], ch["effective_radius"], ch["true_radius"]]
                require(got == c[1:], "{}: channel {} instead of {}", n, got, c[1:])
            names = ["energy"] + [{2: "neutronWidth", 18: "fissionWidth", 102: "captureWidth"}.get(int(d["pairs"][int(c[0]) - 1][9]), "width (MT=%d)" % int(d["pairs"][int(c[0]) - 1][9])) for c in v["channels"]]
            params(sg.parameters, names, v["rows"], n)
        return
    for key, have in (("scat", g.scattering_radius), ("chan", g.channel_radius)):
        require(sorted(have) == sorted(d[key]), "{}: radii for l = {}", what, sorted(have))
        for l, v in d[key].items():
            rad(have[l], v, "%s %s radius for l = %d" % (what, {"scat": "scattering", "chan": "channel"}[key], l))
    if d["kind"] == "ResonanceRange":
        return
    require(g.atomic_weight_ratio == d["awri"], "{}: mass ratio {} instead of {}", what, g.atomic_weight_ratio, d["awri"])
    if d["kind"] == "ReichMoore":
        require(bool(g.angle_distribution) == (d["lad"] == 1) and g.num_l_convergence == d["nlsc"], "{}: flags {} {}", what, g.angle_distribution, g.num_l_convergence)
        params(g.parameters, NAMES["rm"], d["rows"], what + " parameters")
    else:
        require(g.q_value == d["q"], "{}: Q values {} instead of {}", what, g.q_value, d["q"])
        require(list(g.parameters.columns) == NAMES["bw"], "{}: columns {}", what, list(g.parameters.columns))
        eq(g.parameters.values[:, :-1], np.array(d["rows"])[:, :-1], what + " parameters")
        gx = np.array(d["rows"])
        require(bool(np.all(np.abs(g.parameters.values[:, -1] - gx[:, -1]) <= 1e-14 * gx[:, 3])), "{}: competitive widths {} instead of {}", what, g.parameters.values[:, -1], gx[:, -1])


def material(c):
    return {"mat": 9228, "Z": 92, "A": 235, "awr": c["awr"], "lrp": 1, "lfi": 0, "nlib": 0, "nmod": 1, "elis": 0.0, "sta": 0, "lis": 0, "liso": 0,
            "awi": 1.0, "emax": 2e7, "lrel": 0, "nsub": 10, "nver": 8, "temp": 0.0, "ldrv": 0, "text": [" " * 66] * 5, "sections": []}


def run(c, ctx):
    m = material(c)
    lines, facts = resgen.mf2(m, c["isotopes"], [c["seed"], 51])
    eg.set_body(m, 2, 151, lines)
    w = Writer([c["seed"], 52])
    xs = {}
    for mt in sorted(c["mts"]):
        if mt == 18:
            eg.set_body(m, 1, 452, [head(m, 0, 1)] + w.list([2.5]))
        l, xs[mt] = w.table(2)
        eg.set_body(m, 3, mt, [head(m)] + l)
    path = os.path.join(ctx.dir(), "tape")
    open(path, "w").write(eg.tape([m])[0])
    if c["whole"]:
        data = IncidentNeutron.from_endf(path)
        res = data.resonances
        formal = any(d["kind"] not in ("Unresolved", "ResonanceRange") for d in facts)
        for mt in xs:
            f = data[mt].xs["0K"]
            if formal and mt in (2, 18, 102):
                require(type(f).__name__ == "ResonancesWithBackground" and f.mt == mt and f.resonances is res, "MT{}: the cross section {} does not combine the resonances with the background", mt, f)
                f = f.background
            table(f, xs[mt], "MT%d (background) cross section" % mt)
    else:
        res = Resonances.from_endf(Evaluation(path))
    ranges = list(res)
    require(len(ranges) == len(facts) == len(res.ranges), "{} ranges instead of {}", len(ranges), len(facts))
    for k, (g, d) in enumerate(zip(ranges, facts)):
        check_range(g, d, "range %d" % k)
        ctx.label(d["kind"] + (" " + d["case"] if "case" in d else ""))
    solved = [k for k, d in enumerate(facts) if d["kind"] != "Unresolved"]
    if len(solved) > 1:
        expect_raises(lambda: res.resolved, "the resolved range of an evaluation that has %d" % len(solved))
    else:
        require(res.resolved is (ranges[solved[0]] if solved else None), "resolved is {}", res.resolved)
    un = [k for k, d in enumerate(facts) if d["kind"] == "Unresolved"]
    require(res.unresolved is (ranges[un[0]] if un else None), "unresolved is {}", res.unresolved)
    ctx.label("%d isotopes" % len(c["isotopes"]), "whole evaluation" if c["whole"] else "resonances only")
    ctx.nontrivial(any(d["kind"] != "ResonanceRange" for d in facts))


SUBS = [Sub("resonances", case(), run, 2400, 80000, "at least one range with resonance parameters")]
