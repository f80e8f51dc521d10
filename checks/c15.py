import os, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy import AceIO
from lib.core import Sub, require, expect_raises
from lib import acegen, sums

warnings.simplefilter("ignore")


@st.composite
def op(draw):
    o = {"op": draw(st.sampled_from(["set", "set", "set", "get", "at", "apply", "wrong", "unknown", "nu", "chi", "chi"])), "pick": draw(st.integers(0, 20)), "seed": draw(st.integers(0, 10 ** 6))}
    o["kind"] = draw(st.sampled_from(["scale", "random", "zero", "same"]))
    o["delta"] = draw(st.sampled_from([-1, 1, 2]))
    return o


@st.composite
def case(draw):
    extra = draw(st.lists(st.sampled_from([4, 51, 52, 102, 103, 107, 16, 600]), max_size=3, unique=True))
    s = draw(acegen.spec(simple=True, fissile=draw(st.booleans()), extra_mts=extra, max_nes=8, levels=False))
    return {"spec": s, "ops": draw(st.lists(op(), min_size=1, max_size=8)), "temp": draw(st.sampled_from([None, None, "K", "plain", "int", "bad"])), "style": draw(st.sampled_from(["old", "new"]))}


def new_values(o, v):
    rs = np.random.RandomState([o["seed"], 9])
    if o["kind"] == "scale":
        return v * rs.uniform(0.2, 3)
    if o["kind"] == "random":
        return v * 10.0 ** rs.uniform(-1, 1, len(v))
    return v * 0.0 if o["kind"] == "zero" else v.copy()


def chi_after(x, p, c, want):
    """density and cumulative distribution after asking for a density"""
    dc = np.concatenate([[0.0], np.cumsum((want - p)[1:] * np.diff(x))])
    n = c[-1] + dc[-1]
    return want / n, (c + dc) / n


def chi_wish(chi, xs, rs, spread=0.5):
    """perturbed densities; the perturbation is damped until the normalisation stays well above zero (the tool's rule weights with the upper point of each bin)"""
    f = [10.0 ** rs.uniform(-spread, spread, len(p)) - 1 for p, _ in chi]
    a = 1.0
    while True:
        want = [p * (1 + a * g) for (p, _), g in zip(chi, f)]
        if all(c[-1] + np.sum((w - p)[1:] * np.diff(x)) > 0.3 for (p, c), w, x in zip(chi, want, xs)):
            return want
        a /= 2


class State:
    """expected content of an editor"""
    def __init__(self, t):
        F = t.facts
        grid = np.array(F["grid"])
        base, energy = {1: F["total"], 2: F["elastic"]}, {1: grid, 2: grid}
        if any(F["absorption"]):
            base[101], energy[101] = F["absorption"], grid
        for mt, f in F["rx"].items():
            base[int(mt)], energy[int(mt)] = f["xs"], np.array(f["x"])
        for mt in (16, 103, 104, 105, 106, 107):
            lev = [m for m in base if m in sums.PARTS[mt]]
            if mt not in base and lev:
                e = grid[grid >= min(energy[m][0] for m in lev)]
                y = np.zeros(len(e))
                for m in lev:
                    k = int(np.searchsorted(e, energy[m][0]))
                    y[k:k + len(base[m])] += base[m]
                base[mt], energy[mt] = y, e
        self.m = sums.Model(base, energy)
        self.made = {mt for mt in (16, 103, 104, 105, 106, 107) if mt in base and str(mt) not in F["rx"]}
        self.nu = self.chi = None
        self.extra = set()
        if "18" in F["rx"]:
            n = F["nu"]["total"]
            self.nu_e, self.nu0 = np.array(n["x"]), np.array(n["y"])
            self.nu = self.nu0.copy()
            d = F["rx"]["18"]["dist"][0]
            self.chi_e = np.array(d["energy"])
            self.chi_x = [np.array(o["x"]) * 1e6 for o in d["out"]]
            self.chi0 = [(np.array(o["p"]) / 1e6, np.array(o["c"])) for o in d["out"]]
            self.chi = [(p.copy(), c.copy()) for p, c in self.chi0]

    def mts(self):
        return sorted(list(self.m.base) + ([452, 1018] if self.nu is not None else []))


def same(got, want, what, scale=None):
    got = np.asarray(got, float)
    require(got.shape == want.shape, "{}: {} values instead of {}", what, got.shape, want.shape)
    bad = np.abs(got - want) > (1e-12 * (np.abs(want) if scale is None else scale))
    require(not bad.any(), "{}:\n{}\ninstead of\n{}", what, got, want)


def compare(e, s, after):
    m = s.m
    for mt in m.base:
        exact = mt not in m.adjusted and mt not in s.made
        g = e.get_sigma(mt)
        if exact:
            require(np.array_equal(g, m.now[mt]), "after {}: MT{} is\n{}\ninstead of\n{}", after, mt, g, m.now[mt])
        same(g, m.now[mt], "after %s: MT%d" % (after, mt), m.scale[mt])
        same(e.get_sigma(mt, unadjusted=True), m.base[mt], "after %s: unadjusted MT%d" % (after, mt))
        same(e.get_energy(mt), m.energy[mt], "after %s: energies of MT%d" % (after, mt))
    require(set(e.adjusted_mts) == m.adjusted | s.extra, "after {}: adjusted reactions {} instead of {}", after, sorted(e.adjusted_mts), sorted(m.adjusted | s.extra))
    for mt, was in getattr(e, "original_sigma", {}).items():            # the editor's record of what the edited quantities were
        if mt in m.base:
            same(was, m.base[mt], "after %s: recorded original of MT%d" % (after, mt))
    require(not hasattr(e, "original_sigma") or m.adjusted <= set(e.original_sigma), "after {}: originals recorded of {}, edited {}", after, sorted(getattr(e, "original_sigma", [])), sorted(m.adjusted))
    if s.nu is not None:
        same(e.get_sigma(452), s.nu, "after %s: nu-bar" % after)
        same(e.get_sigma(452, unadjusted=True), s.nu0, "after %s: unadjusted nu-bar" % after)
        same(e.get_energy(452), s.nu_e, "after %s: nu-bar energies" % after)
        for un, want in ((False, s.chi), (True, s.chi0)):
            what = "after %s: %schi" % (after, "unadjusted " if un else "")
            ein, eout, p, c = e.get_chi_distro(unadjusted=un)
            same(ein, s.chi_e, what + " incident energies")
            require(len(eout) == len(p) == len(c) == len(want), "{}: {} tables", what, len(p))
            for k in range(len(want)):
                same(eout[k], s.chi_x[k], what + " energies")
                same(p[k], want[k][0], what + " density %d" % k, np.abs(want[k][0]) + 1e-3 * np.max(want[k][0]))
                same(c[k], want[k][1], what + " cumulative %d" % k, np.ones(len(want[k][1])))
            for a, b in zip(e.get_sigma(1018, unadjusted=un), p):
                require(np.array_equal(a, b), "{}: get_sigma(1018) differs from get_chi_distro", what)


def open_editor(c, t):
    kT = acegen.head_values(t)[1]
    T = int(round(kT * 1e6 / 8.61733e-5))
    if c["temp"] == "bad":
        for bad in (T + 1, "%dK" % (T + 7), "%d" % (T - 1)):
            expect_raises(lambda: AceIO.AceEditor("a.ace", bad), "temperature %r for a file at %d K" % (bad, T))
    arg = {"K": "%dK" % T, "plain": str(T), "int": T}.get(c["temp"])
    path = "a.ace"
    if c["temp"] == "plain":
        os.environ["HOME"] = os.getcwd()
        path = "~/a.ace"
    e = AceIO.AceEditor(path, arg) if arg is not None else AceIO.AceEditor(path)
    require(e.temperature == "%dK" % T, "temperature {!r}", e.temperature)
    return e


def check(c, ctx):
    os.chdir(ctx.dir())
    t = acegen.build(c["spec"])
    open("a.ace", "w").write(acegen.ascii_text(t, c["style"]))
    before = open("a.ace").read()
    e = open_editor(c, t)
    s = State(t)
    m = s.m
    require(sorted(e.all_mts) == s.mts(), "reactions {} instead of {}", sorted(e.all_mts), s.mts())
    compare(e, s, "loading")
    mts = sorted(m.base)
    done = []
    for o in c["ops"]:
        mt = mts[o["pick"] % len(mts)]
        k = o["op"]
        if k in ("nu", "chi") and s.nu is None:
            bad = 452 if k == "nu" else 1018
            expect_raises(lambda: e.get_sigma(bad), "get_sigma(%d) without fission" % bad)
            expect_raises(lambda: e.set_sigma(bad, np.ones(3)), "set_sigma(%d) without fission" % bad)
        elif k == "set":
            v = new_values(o, m.now[mt])
            keep = v.copy()
            e.set_sigma(mt, v)
            require(np.array_equal(v, keep), "set_sigma changed the values handed in")
            v *= 7.0
            v += 1.0
            m.set(mt, keep)
        elif k == "nu":
            v = new_values(o, s.nu)
            keep = v.copy()
            e.set_sigma(452, v)
            v *= 3.0
            s.nu = keep
            s.extra.add(452)
        elif k == "chi":
            rs = np.random.RandomState([o["seed"], 4])
            want = chi_wish(s.chi, s.chi_x, rs)
            e.set_sigma(1018, [w.copy() for w in want])
            s.chi = [chi_after(x, p, cc, w) for x, (p, cc), w in zip(s.chi_x, s.chi, want)]
            s.extra.add(1018)
        elif k == "get":
            g = e.get_sigma(mt)
            g *= 3.0
            g += 5.0
            g = e.get_sigma(mt, unadjusted=True)
            g *= 2.0
            g -= 1.0
            if s.nu is not None:
                for un in (False, True):
                    g = e.get_sigma(452, unadjusted=un)
                    g *= 2.0
                    for g in e.get_sigma(1018, unadjusted=un):
                        g *= 2.0
        elif k == "at":
            x, y = m.energy[mt], m.now[mt]
            rs = np.random.RandomState([o["seed"], 5])
            mid = (x[1:] * 0.3 + x[:-1] * 0.7) if len(x) > 1 else np.array([])
            at = np.concatenate([x, mid, [x[0] * 0.5, x[-1] * 1.5]])
            rs.shuffle(at)
            for un, src in ((False, y), (True, m.base[mt])):
                want = np.interp(at, x, src, left=0.0, right=0.0)
                same(e.get_sigma(mt, at_energies=at, unadjusted=un), want, "MT%d at given energies" % mt, np.interp(at, x, np.abs(src) + m.scale[mt]) + np.max(np.abs(src)) * 1e-3)
        elif k == "apply":
            e.apply_sum_rules()
            m.apply()
        elif k == "wrong":
            n = max(1, len(m.base[mt]) + o["delta"])
            if n != len(m.base[mt]):
                expect_raises(lambda: e.set_sigma(mt, np.ones(n)), "%d values for MT%d with %d energies" % (n, mt, len(m.base[mt])))
            expect_raises(lambda: e.set_sigma(mt, np.array([])), "no values for MT%d" % mt)
            if s.nu is not None:
                expect_raises(lambda: e.set_sigma(452, np.ones(len(s.nu) + 1)), "one value too many for nu-bar")
                expect_raises(lambda: e.set_sigma(1018, [p.copy() for p, _ in s.chi] + [s.chi[0][0].copy()]), "one spectrum too many")
        elif k == "unknown":
            bad = [n for n in (999, 3, 17, 456, 51) if n not in m.base][0]
            for f in (lambda: e.get_sigma(bad), lambda: e.get_sigma(bad, unadjusted=True), lambda: e.set_sigma(bad, np.ones(3)), lambda: e.get_energy(bad)):
                expect_raises(f, "reaction %d which is not in the file" % bad)
        done.append(k)
        compare(e, s, " ".join(done))
    require(open("a.ace").read() == before, "the ACE file was modified")
    fresh = AceIO.AceEditor("a.ace")
    compare(fresh, State(t), "opening again")
    ctx.label(*set(done), "fissile" if s.nu is not None else "not fissile")
    ctx.nontrivial(len(set(done)) > 1 and bool(set(done) & {"set", "nu", "chi"}))


SUBS = [Sub("histories", case(), check, 900, 30000, "two or more kinds of operation, at least one of them an edit")]
