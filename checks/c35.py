import copy, os, warnings
import numpy as np
from hypothesis import strategies as st
from lib import recon
recon.install()
from ASAPy.data import resonance as R
from ASAPy.data.neutron import IncidentNeutron
from ASAPy.data.reconstruct import penetration_shift, wave_number
from lib.core import Sub, require
from lib import acegen
from lib import endfgen as eg
from lib.endfdata import Writer, head, cont
from checks import c31

warnings.simplefilter("ignore")
ASSUMPTIONS = ["reconstruct.pyx is compiled by the check (as the build does), setup.py does not install it",
               "formulas of ENDF-102, appendix D; the elastic cross section in single-level Breit-Wigner form may or may not count the competitive width among the absorptions",
               "spins J that the angular momenta allow; the sign of J tells the channel spin only where both are possible"]
LD, CLD = np.longdouble, np.clongdouble
MN, HBARC = LD(939.5654133e6), LD(197.3269788e5)
PI = LD("3.14159265358979323846")
NM = 1.00866491588


def wave(A, E):
    A = LD(A)
    return A / (A + 1) * np.sqrt(2 * MN * abs(LD(E))) / HBARC


def ps(l, rho):
    """penetration, shift and hard-sphere phase from the outgoing wave: h_l = rho * (spherical Hankel), by recurrence"""
    rho = LD(rho)
    # Kinsey-style recurrence (ENDF-102, D.1): exact for any l
    P, S = rho, LD(0)
    phi = rho
    for k in range(1, l + 1):
        d = (LD(k) - S) ** 2 + P ** 2
        phi = phi - np.arctan2(P, LD(k) - S)
        P, S = rho ** 2 * P / d, rho ** 2 * (LD(k) - S) / d - k
    return P, S, phi


def hard(l, rho):
    return ps(l, rho)[2]


def channel_spins(I):
    return sorted({abs(I - 0.5), I + 0.5})


def js(I, l):
    """{J: [channel spins]}"""
    out = {}
    for s in channel_spins(I):
        j = abs(l - s)
        while j <= l + s + 1e-9:
            out.setdefault(j, []).append(s)
            j += 1
    return out


def rad(r, E):
    return r if not isinstance(r, dict) else float(np.interp(E, r["x"], r["y"]))


def breit_wigner(d, E, multi):
    """{mt: cross section}; for the single-level elastic a pair of admitted values"""
    A, I, k = d["awri"], d["spin"], wave(d["awri"], E)
    el, el2, ca, fi = LD(0), LD(0), LD(0), LD(0)
    for l in d["ls"]:
        P, S, _ = ps(l, k * rad(d["chan"][l], E))
        phi = hard(l, k * rad(d["scat"][l], E))
        rows = [r for r in d["rows"] if r["l"] == l]
        amp = {j: CLD(0) for j in js(I, l)}
        if not multi:
            el += 4 * (2 * l + 1) * np.sin(phi) ** 2
            el2 += 4 * (2 * l + 1) * np.sin(phi) ** 2
        for r in rows:
            Pr, Sr, _ = ps(l, wave(A, r["e"]) * rad(d["chan"][l], abs(r["e"])))
            gn = P * LD(r["gn"]) / Pr
            gx = LD(0)
            if r["gx"] > 0:
                q = d["q"][l] * (A + 1) / A
                Ex, Er = E + q, r["e"] + q
                px = ps(l, wave(A, Ex) * rad(d["chan"][l], Ex))[0] if Ex > 0 else LD(0)
                gx = LD(r["gx"]) * px / ps(l, wave(A, Er) * rad(d["chan"][l], abs(Er)))[0]
            gg, gf = LD(r["gg"]), LD(r["gf"])
            gt = gn + gg + gf + gx
            e1 = LD(r["e"]) + (Sr - S) / (2 * Pr) * LD(r["gn"])
            g = LD((2 * r["j"] + 1) / (4 * I + 2))
            den = (E - e1) ** 2 + gt ** 2 / 4
            ca += g * gn * gg / den
            fi += g * gn * gf / den
            if multi:
                amp[r["j"]] += CLD(1j) * gn / (e1 - E - CLD(0.5j) * gt)
            else:
                for which in (0, 1):
                    v = g * gn / den * (gn * np.cos(2 * phi) - 2 * (gg + gf + which * gx) * np.sin(phi) ** 2 + 2 * (E - e1) * np.sin(2 * phi))
                    if which:
                        el2 += v
                    else:
                        el += v
        if multi:
            D = LD(2 * l + 1)
            for j, a in amp.items():
                g = LD((2 * j + 1) / (4 * I + 2))
                D -= g
                U = np.exp(CLD(-2j) * phi) * (1 + a)
                el += g * abs(1 - U) ** 2
            el += 2 * D * (1 - np.cos(2 * phi))
    f = PI / k ** 2
    return {2: [el * f] if multi else [el * f, el2 * f], 102: [ca * f], 18: [fi * f]}, f


def inv3(m):
    c = np.zeros((3, 3), CLD)
    for i in range(3):
        for j in range(3):
            a = np.delete(np.delete(m, i, 0), j, 1)
            c[j, i] = (-1) ** (i + j) * (a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0])
    return c / (m[0, :] @ c[:, 0])


def reich_moore(d, E):
    A, I, k = d["awri"], d["spin"], wave(d["awri"], E)
    el, ca, fi = LD(0), LD(0), LD(0)
    slack = LD(0)
    for l in d["ls"]:
        P = ps(l, k * rad(d["chan"][l], E))[0]
        phi = hard(l, k * rad(d["scat"][l], E))
        if abs(phi) < 4e-4:
            slack += 8 * phi ** 4
        rows = [r for r in d["rows"] if r["l"] == l]
        for j, ss in js(I, l).items():
            for s in ss:
                K = np.zeros((3, 3), CLD)
                for r in rows:
                    if abs(r["j"]) != j:
                        continue
                    if len(ss) == 2 and (s == min(ss)) != (r["j"] < 0):
                        continue
                    Pr = ps(l, wave(A, r["e"]) * rad(d["chan"][l], abs(r["e"])))[0]
                    v = [np.sqrt(P * LD(r["gn"]) / Pr)] + [np.sign(r[x]) * np.sqrt(LD(abs(r[x]))) for x in ("gfa", "gfb")]
                    K += np.outer(v, v).astype(CLD) * CLD(0.5j) / (LD(r["e"]) - LD(E) - CLD(0.5j) * LD(r["gg"]))
                X = inv3(np.eye(3).astype(CLD) - K)
                g = LD((2 * j + 1) / (4 * I + 2))
                U = np.exp(CLD(-2j) * phi) * (2 * X[0, 0] - 1)
                el += g * abs(1 - U) ** 2
                f = 4 * g * (abs(X[1, 0]) ** 2 + abs(X[2, 0]) ** 2)
                fi += f
                ca += 2 * g * (1 - U.real) - g * abs(1 - U) ** 2 - f
    f = PI / k ** 2
    return {2: [el * f], 102: [ca * f], 18: [fi * f]}, f, slack


@st.composite
def rng(draw):
    s = st.sampled_from
    lrf = draw(s([1, 2, 3, 3]))
    return {"lrf": lrf, "I": draw(s([0.0, 0.0, 0.5, 1.0, 1.5, 3.5])), "ls": draw(st.lists(st.integers(0, 4 if draw(st.integers(0, 3)) == 2 else 2), min_size=1, max_size=3, unique=True).map(sorted)), "n": [draw(s([1, 2, 3, 4])) for _ in range(3)],
            "nro": draw(s([0, 0, 0, 1])), "naps": draw(s([0, 1, 2])), "fission": draw(st.booleans()), "lx": lrf < 3 and draw(st.booleans()), "apl": draw(st.booleans()), "neg": draw(st.booleans()), "radius": draw(s([1.0, 1.0, 1e-3, 3.0])),
            "awr": draw(s([236.0, 55.45, 0.9991673, 15.86]))}


@st.composite
def case(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "ranges": draw(st.lists(rng(), min_size=1, max_size=2)), "how": draw(st.sampled_from(["scalar", "array", "list", "whole"])), "again": draw(st.booleans()), "order": draw(st.sampled_from([None, "all", "some", "some in order"]))}


def make_range(w, r, lo, hi):
    nro = r["nro"]
    naps = min(r["naps"], 2 if nro else 1)
    I = r["I"]
    d = {"lo": lo, "hi": hi, "spin": I, "awri": eg.val(r["awr"]), "ls": r["ls"], "rows": [], "scat": {}, "chan": {}, "q": {}, "lrf": r["lrf"]}
    lines = [cont(lo, hi, 1, r["lrf"], nro, naps)]
    ap = eg.val(w.rs.uniform(0.3, 1.0) * r["radius"])
    ape = None
    if nro:
        # nearly constant over the range and a little beyond, so that modified energies are inside
        x = [1e-5] + w.increasing(3, 1.0, 1e6) + [2e7]
        y = [eg.val(v) for v in w.rs.uniform(0.3, 1.0, 5)]
        l, _ = w.tab1(x, y, 1, laws=(2,))
        lines += l
        ape = {"x": x, "y": y}
    lines.append(cont(I, ap, 0, 0, len(r["ls"]), 0))
    for i, l in enumerate(r["ls"]):
        n = r["n"][i]
        a = 0.123 * (NM * d["awri"]) ** (1 / 3) + 0.08
        apl = eg.val(w.rs.uniform(0.3, 1.0)) if r["lrf"] == 3 and r["apl"] else 0.0
        sc = apl or ap
        d["scat"][l] = ape if nro else sc
        d["chan"][l] = {0: a, 1: ape if nro else sc, 2: sc}[naps]
        js_ = js(I, l)
        es = sorted(set(eg.val(v) for v in 10.0 ** w.rs.uniform(np.log10(max(lo, 0.5)), np.log10(hi), n)))
        if r.get("falling"):
            # one narrow resonance per group, at lower energies for higher l
            es = [eg.val(max(lo, 0.5) * (hi / max(lo, 0.5)) ** ((len(r["ls"]) - i - w.rs.uniform(0.3, 0.7)) / len(r["ls"])))]
        if r["neg"] and len(es) > 1:
            es = [-es[1]] + es[1:]
        # the threshold of the competitive reaction lies below the range or within it
        q = 0.0
        if r["lx"]:
            q = eg.val(-w.rs.uniform(0.1, 0.9) * lo if w.rs.randint(2) else -10.0 ** w.rs.uniform(np.log10(lo), np.log10(hi)))
        d["q"][l] = q
        vals = []
        for e in es:
            j = sorted(js_)[int(w.rs.randint(len(js_)))]
            pen = float(ps(l, wave(d["awri"], e) * rad(d["chan"][l], abs(e)))[0])
            gn, gg = eg.val(min(5.0, 2 * pen * 10 ** w.rs.uniform(-2, 3))), eg.val(10 ** w.rs.uniform(-3, 0))
            if r.get("falling"):
                gn, gg = eg.val(min(10 ** w.rs.uniform(-4, -3) * e, 2 * pen * 1e3)), eg.val(10 ** w.rs.uniform(-6, -5) * e)
            if r["lrf"] == 3:
                if len(js_[j]) == 2 and w.rs.randint(2) and j > 0:
                    j = -j
                fa, fb = ([eg.val(v) for v in (10 ** w.rs.uniform(-4, 0, 2)) * np.where(w.rs.randint(2, size=2), 1, -1)] if r["fission"] and w.rs.randint(4) else [0.0, 0.0])
                if r["fission"] and w.rs.randint(4) == 0:
                    fb = 0.0
                d["rows"].append({"l": l, "e": e, "j": j, "gn": gn, "gg": gg, "gfa": fa, "gfb": fb})
                vals += [e, j, gn, gg, fa, fb]
            else:
                gf = eg.val(10 ** w.rs.uniform(-3, 0)) if r["fission"] and w.rs.randint(4) else 0.0
                open_ = e + q * (d["awri"] + 1) / d["awri"] > 0.01 * abs(e)
                gx = 10 ** w.rs.uniform(-3, 1) if r["lx"] and w.rs.randint(3) and open_ else 0.0
                gt = eg.val(gn + gg + gf + gx)
                if gx == 0:
                    gt = gn + gg + gf          # printed below with rounding; the rest counts as competitive
                gt = eg.val(gt)
                x = gt - (gn + gg + gf) if r["lx"] else 0.0
                d["rows"].append({"l": l, "e": e, "j": j, "gn": gn, "gg": gg, "gf": gf, "gx": x})
                vals += [e, j, gt, gn, gg, gf]
        lines += w.list(vals, d["awri"], apl if r["lrf"] == 3 else q, l, int(r["lx"]), len(es))
    return lines, d


def material():
    return c31.material({"liso": 0}, lrp=1)


def expected(d, E):
    if d["lrf"] == 3:
        return reich_moore(d, E)
    v, f = breit_wigner(d, E, d["lrf"] == 2)
    return v, f, LD(0)


def points(d, rs, n=12):
    e = list(10.0 ** rs.uniform(np.log10(d["lo"]), np.log10(d["hi"]), n // 2))
    for r in d["rows"]:
        g = r["gn"] + r["gg"] + abs(r.get("gf", r.get("gfa", 0.0)))
        e += [r["e"], r["e"] + g * rs.uniform(-3, 3)]
    e = [float(x) for x in e if d["lo"] <= x <= d["hi"]]
    return [d["lo"], d["hi"]] + e[:n]


def judge(got, want, f, slack, what):
    ref = max(float(abs(v)) for vs in want.values() for v in vs)
    ok = any(abs(LD(got) - v) <= 2e-6 * abs(v) + (LD(1e-14) + slack) * f for v in want[what[0]])
    require(ok, "MT{} is {!r} instead of {} (of {} b) at {!r} eV, {}", what[0], got, [float(v) for v in want[what[0]]], ref, what[1], what[2])


def check_range(rr, d, es, how):
    mts = (2, 102, 18)
    if how == "whole":
        # whole electronvolts, given as integers
        es = [int(e) for e in es if e >= 1.0] or [1]
        es = [e for e in es if d["lo"] <= e <= d["hi"]] or [int(np.ceil(d["lo"]))]
    if how == "scalar":
        out = {mt: [] for mt in mts}
        for e in es:
            x = rr.reconstruct(e)
            require(set(x) == set(mts), "cross sections {}", sorted(x))
            for mt in mts:
                out[mt].append(float(x[mt]))
    else:
        x = rr.reconstruct(list(es) if how == "list" else np.array(es))
        out = {mt: [float(v) for v in x[mt]] for mt in mts}
    for i, e in enumerate(es):
        want, f, slack = expected(d, e)
        for mt in mts:
            judge(out[mt][i], want, f, slack, (mt, e, "%s, %s" % (type(rr).__name__, how)))
    return out


def run(c, ctx):
    os.chdir(ctx.dir())
    m = material()
    w = Writer([c["seed"], 101])
    bounds = [eg.val(10.0 ** w.rs.uniform(-5, 1 if w.rs.randint(2) else 3))]
    lines, ds = [], []
    for r in c["ranges"]:
        lo = bounds[-1]
        if r["lx"]:
            lo = max(lo, 10.0) if len(ds) == 0 else lo
        hi = eg.val(lo * 10 ** (w.rs.uniform(1.5, 3.5) if len(c["ranges"]) == 1 else w.rs.uniform(1.0, 2.0)) + 10.0)
        l, d = make_range(w, r, lo, hi)
        bounds.append(hi)
        lines += l
        ds.append(d)
    eg.set_body(m, 2, 151, [head(m, 0, 0, 1, 0), cont(m["Z"] * 1000.0 + m["A"], 1.0, 0, 0, len(ds), 0)] + lines)
    back = {}
    for mt in (1, 2, 18, 102, 16):
        l, back[mt] = w.table(1, laws=(2,))
        eg.set_body(m, 3, mt, [head(m)] + l)
    open("eval", "w").write(eg.tape([m])[0])
    data = IncidentNeutron.from_endf("eval")
    rs = np.random.RandomState([c["seed"], 3])
    ranges = list(data.resonances)
    require(len(ranges) == len(ds), "{} ranges", len(ranges))
    first = []
    for rr, d in zip(ranges, ds):
        es = points(d, rs)
        first.append((es, check_range(rr, d, es, "list" if c["how"] == "whole" else c["how"])))
        if c["how"] == "whole" and d["hi"] - d["lo"] > 2:
            check_range(rr, d, es, "whole")
            ctx.label("energies in whole eV")
    if c["again"]:
        # a copy with other parameters and the original do not disturb each other
        for rr, d, (es, old) in zip(ranges, ds, first):
            other = copy.copy(rr)
            p = rr.parameters.copy()
            p["captureWidth"] = p["captureWidth"] * 2
            if d["lrf"] < 3:
                p["totalWidth"] = p["totalWidth"] + rr.parameters["captureWidth"]
            other.parameters = p
            d2 = dict(d, rows=[dict(r, gg=2 * r["gg"]) for r in d["rows"]])
            check_range(other, d2, es, "array")
            x = rr.reconstruct(np.array(es))
            for mt in (2, 102, 18):
                require(np.allclose(x[mt], old[mt], rtol=1e-12, atol=0), "MT{} of the original changed with a copy: {} instead of {}", mt, x[mt], old[mt])
            check_range(other, d2, es[:3], "scalar")
        ctx.label("copies")
    if c["order"]:
        # resonances in another order, and only some of them
        for rr, d, (es, old) in zip(ranges, ds, first):
            keep = list(rs.permutation(len(d["rows"])))
            if c["order"] != "all":
                for i in list(keep):
                    if rs.randint(2) and sum(d["rows"][j]["l"] == d["rows"][i]["l"] for j in keep) > 1:
                        keep.remove(i)
            if c["order"] == "some in order":
                keep.sort()
            other = copy.copy(rr)
            other.parameters = rr.parameters.iloc[keep]
            check_range(other, dict(d, rows=[d["rows"][i] for i in keep]), es[-8:], "array")
            check_range(rr, d, es[:2], "array")
        ctx.label("resonances: " + c["order"])
    # File 3 is a background to the resonances, each energy belonging to one range
    es = sorted(set([e for x, _ in first for e in x[:5]] + [1e-5, bounds[0], bounds[-1], 2e7] + bounds[1:-1]))
    for mt in (2, 18, 102, 16):
        f = data[mt].xs["0K"]
        arr = f(np.array(es))
        for e, v in zip(es, arr):
            b = float(np.interp(e, back[mt]["x"], back[mt]["y"]))
            alts = []
            if mt != 16:
                for d in ds:
                    if d["lo"] <= e <= d["hi"]:
                        want, q, slack = expected(d, e)
                        alts.append(({k: [y + b for y in ys] for k, ys in want.items()}, q, slack))
            if not alts:
                alts = [({mt: [LD(b)], 2: [LD(b)]}, LD(0), LD(0))]
            ok = [abs(LD(float(v)) - y) <= 2e-6 * abs(y) + (LD(1e-14) + sl) * q for wt, q, sl in alts for y in wt[mt]]
            require(any(ok), "MT{} with background is {} instead of {} at {} eV", mt, v, [float(y) for wt, q, sl in alts for y in wt[mt]], e)
            one = float(f(e))
            require(abs(one - v) <= 1e-9 * abs(v), "MT{}: {} for one energy, {} in an array, at {} eV", mt, one, v, e)
    ctx.label("%d ranges" % len(ds), *["LRF%d" % d["lrf"] for d in ds], *(["competitive"] if any(r.get("gx", 0) > 0 for d in ds for r in d["rows"]) else []), *(["fission"] if any(r["fission"] for r in c["ranges"]) else []), *(["l>2"] if any(max(r["ls"]) > 2 for r in c["ranges"]) else []))
    ctx.nontrivial(any(len(d["ls"]) > 1 for d in ds) and any(d["spin"] > 0 for d in ds))


@st.composite
def case_0K(draw):
    c = draw(case())
    for r in c["ranges"]:
        r["n"] = [min(x, 2) for x in r["n"]]
        r["lx"] = False
        r["falling"] = draw(st.booleans())
        if r["falling"]:
            r["fission"] = False
    return c


def run_0K(c, ctx):
    os.chdir(ctx.dir())
    m = material()
    w = Writer([c["seed"], 102])
    lo = eg.val(10.0 ** (w.rs.uniform(2, 3) if c["ranges"][0]["falling"] else w.rs.uniform(-5, 0)))
    lines, ds = [], []
    for r in c["ranges"]:
        hi = eg.val(lo * 10 ** w.rs.uniform(1.0, 2.0) + 10.0)
        l, d = make_range(w, r, lo, hi)
        lo = hi
        lines += l
        ds.append(d)
    eg.set_body(m, 2, 151, [head(m, 0, 0, 1, 0), cont(m["Z"] * 1000.0 + m["A"], 1.0, 0, 0, len(ds), 0)] + lines)
    l, back = w.table(1, laws=(2,))
    eg.set_body(m, 3, 2, [head(m)] + l)
    open("eval", "w").write(eg.tape([m])[0])
    tab = acegen.build({"seed": c["seed"], "nes": 5, "zaid": 92235, "reactions": [], "kT": acegen.r11(293.6 * acegen.K_MEV), "elastic_angle": []})
    open("a.ace", "w").write(acegen.ascii_text(tab))
    data = IncidentNeutron.from_ace("a.ace")
    data.add_elastic_0K_from_endf("eval")
    xs, e = data[2].xs["0K"], np.asarray(data.energy["0K"])
    require(np.array_equal(e, xs.x) and np.all(np.diff(e) >= 0), "0 K grid")
    require(np.isclose(e[0], ds[0]["lo"], rtol=1e-12) and np.isclose(e[-1], ds[-1]["hi"], rtol=1e-12), "0 K grid from {} to {} eV instead of the resolved range", e[0], e[-1])
    pick = np.unique(np.concatenate([np.arange(0, len(e), max(1, len(e) // 25)), [len(e) - 1], np.searchsorted(e, [d["hi"] for d in ds[:-1]])]))
    for i in pick:
        b = float(np.interp(e[i], back["x"], back["y"]))
        ok, alts = False, []
        for d in ds:
            if d["lo"] * (1 - 1e-12) <= e[i] <= d["hi"] * (1 + 1e-12):
                want, f, slack = expected(d, float(e[i]))
                alts += [float(v + b) for v in want[2]]
                ok = ok or any(abs(LD(float(xs.y[i])) - v - b) <= 1e-5 * abs(v + b) + (LD(1e-14) + slack) * f for v in want[2])
        require(ok, "elastic cross section at 0 K is {} instead of {} at {!r} eV", xs.y[i], alts, e[i])
    # the grid resolves every resonance: its peak is on the curve
    peaks = 0
    for d in ds:
        for r in d["rows"]:
            E = r["e"]
            if not d["lo"] * (1 + 1e-9) < E < d["hi"] * (1 - 1e-9) or any(abs(o["hi"] - E) < 1e-9 * E for o in ds):
                continue
            want, f, slack = expected(d, float(E))
            b = float(np.interp(E, back["x"], back["y"]))
            got = float(xs(E))
            require(any(abs(LD(got) - v - b) <= 0.02 * abs(v + b) + (LD(1e-14) + slack) * f for v in want[2]),
                    "elastic cross section at 0 K is {} instead of {} at the resonance at {!r} eV", got, [float(v + b) for v in want[2]], E)
            peaks += 1
    ctx.label("%d ranges" % len(ds), "peaks compared" if peaks else "no peaks")
    ctx.nontrivial(len(ds) > 1)


def run_factors(c, ctx):
    l, rho = c["l"], float(c["rho"])
    P, S = penetration_shift(l, rho)
    p, s, _ = ps(l, rho)
    require(abs(P - p) <= 1e-12 * p and abs(S - s) <= 1e-11 * abs(s) + 1e-300, "penetration and shift {}, {} instead of {}, {} for l={}, rho={}", P, S, float(p), float(s), l, rho)
    k = wave_number(c["A"], c["E"])
    require(abs(k - wave(c["A"], c["E"])) <= 1e-12 * k, "wave number {}", k)
    ctx.nontrivial(l > 0)


SUBS = [
    Sub("cross sections", case(), run, 800, 20000, "several l-values and a target with spin"),
    Sub("0 K", case_0K(), run_0K, 40, 1500, "two resolved ranges"),
    Sub("factors", st.fixed_dictionaries({"l": st.integers(0, 4), "rho": st.floats(-6, 1).map(lambda v: 10 ** v), "A": st.floats(0.9, 300), "E": st.floats(-1e6, 1e6).filter(lambda v: abs(v) > 1e-6)}), run_factors, 800, 20000, "l of one or more"),
]
