import os, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy import AceIO
from lib.core import Sub, require, expect_raises
from lib import acegen
from checks.c15 import chi_wish, chi_after, same

warnings.simplefilter("ignore")


@st.composite
def case(draw):
    extra = draw(st.sampled_from([[18], [18], [18, 19], [18, 19, 38], [19, 20]]))
    s = draw(acegen.spec(simple=True, fissile=False, extra_mts=extra, max_nes=6, levels=False))
    s["nu"] = draw(st.sampled_from([{"mode": "both", "prompt": "tab", "total": "tab"}, {"mode": "both", "prompt": "poly", "total": "tab"}, {"mode": "single", "prompt": "tab", "delayed": 2},
                                    {"mode": "single", "prompt": "tab"}]))
    s["cend"] = draw(st.sampled_from([None, None, None, 0.99, 0.9999, 1.001]))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops.append({"op": draw(st.sampled_from(["set", "set", "set", "same", "count", "length", "sigma"])), "mt": draw(st.sampled_from(extra)), "seed": draw(st.integers(0, 10 ** 6)),
                    "spread": draw(st.sampled_from([0.01, 0.3, 0.8])), "which": draw(st.integers(0, 5)), "delta": draw(st.sampled_from([-1, 1]))})
    return {"spec": s, "ops": ops}


def check(c, ctx):
    os.chdir(ctx.dir())
    t = acegen.build(c["spec"])
    open("a.ace", "w").write(acegen.ascii_text(t))
    e = AceIO.AceEditor("a.ace")
    F = t.facts
    fis = [int(m) for m, f in F["rx"].items() if f["fission"]]
    other = [m for m in (18, 19, 21) if m not in fis]
    for m in other:
        expect_raises(lambda: e.get_chi_distro(m), "spectrum of MT%d which is not in the file" % m)
        expect_raises(lambda: e.set_chi_distro([np.ones(2)], m), "spectrum of MT%d which is not in the file" % m)
    if "single" in F["nu"]:
        for m in fis:
            expect_raises(lambda: e.get_chi_distro(m), "prompt spectrum where only total data are given")
            expect_raises(lambda: e.set_chi_distro([np.array(o["p"]) / 1e6 for o in F["rx"][str(m)]["dist"][0]["out"]], m), "prompt spectrum where only total data are given")
        ctx.label("total only")
        return
    X, E, base, now = {}, {}, {}, {}
    for m in fis:
        d = F["rx"][str(m)]["dist"][0]
        E[m] = np.array(d["energy"])
        X[m] = [np.array(o["x"]) * 1e6 for o in d["out"]]
        base[m] = [(np.array(o["p"]) / 1e6, np.array(o["c"])) for o in d["out"]]
        now[m] = base[m]

    def compare(after):
        for m in fis:
            for un, want in ((False, now[m]), (True, base[m])):
                what = "after %s: %sMT%d" % (after, "unadjusted " if un else "", m)
                ein, eout, p, cc = e.get_chi_distro(m, unadjusted=un)
                same(ein, E[m], what + " incident energies")
                require(len(p) == len(cc) == len(eout) == len(want), "{}: {} tables", what, len(p))
                for k, (wp, wc) in enumerate(want):
                    same(eout[k], X[m][k], what + " outgoing energies")
                    same(p[k], wp, what + " density of table %d" % k, np.abs(wp) + 1e-3 * np.max(wp))
                    same(cc[k], wc, what + " cumulative of table %d" % k, np.ones(len(wc)))
                    require(abs(cc[k][-1] - (1 if wc is not base[m][k][1] else wc[-1])) <= 1e-12, "{}: cumulative distribution ends at {!r}", what, cc[k][-1])
                    require(abs(cc[k][0] * (1 if un else 1) - wc[0]) <= 1e-15, "{}: cumulative distribution starts at {!r}", what, cc[k][0])

    compare("loading")
    done = []
    for o in c["ops"]:
        m = o["mt"]
        rs = np.random.RandomState([o["seed"], 8])
        k = o["op"]
        if k == "sigma":
            if 18 not in fis:
                continue
            m = 18
        if k in ("set", "sigma", "same"):
            want = chi_wish(now[m], X[m], rs, o["spread"]) if k != "same" else [p.copy() for p, _ in now[m]]
            arg = [w.copy() for w in want]
            if k == "sigma":
                if len(e.get_energy(1018)) != len(arg):
                    require(False, "get_energy(1018) gives {} tables instead of {}", len(e.get_energy(1018)), len(arg))
                e.set_sigma(1018, arg)
            elif m == 18 and o["which"] % 2:
                e.set_chi_distro(arg)
            else:
                e.set_chi_distro(arg, m)
            require(all(np.array_equal(a, w) for a, w in zip(arg, want)), "the densities handed in were changed")
            if k != "same" or c["spec"].get("cend"):
                now[m] = [chi_after(x, p, cc, w) for x, (p, cc), w in zip(X[m], now[m], want)]
            for a in arg:
                a *= 2.0
        elif k == "count":
            arg = [p * 1.1 for p, _ in now[m]]
            arg = arg[:-1] if o["delta"] < 0 else arg + [arg[0]]
            expect_raises(lambda: e.set_chi_distro(arg, m), "%d spectra for %d incident energies" % (len(arg), len(now[m])))
        elif k == "length":
            j = o["which"] % len(now[m])
            arg = [p * 1.1 for p, _ in now[m]]
            arg[j] = arg[j][:-1] if o["delta"] < 0 else np.append(arg[j], arg[j][-1])
            expect_raises(lambda: e.set_chi_distro(arg, m), "%d densities for %d energies in table %d" % (len(arg[j]), len(now[m][j][0]), j))
        done.append(k)
        compare(" ".join(done))
    ctx.label(*set(done), "fission MTs %d" % len(fis))
    ctx.nontrivial(bool({"set", "sigma"} & set(done)))


SUBS = [Sub("histories", case(), check, 1200, 40000, "at least one spectrum was set")]
