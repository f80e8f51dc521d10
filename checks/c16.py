import os, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy import AceIO
from lib.core import Sub, require
from lib import acegen, sums

warnings.simplefilter("ignore")
ASSUMPTIONS = ["what an edit of MT155, 182, 191-193 or 197 does to MT1 and MT3 is not judged (those reactions are not part of the tool's MT=3 rule), its effect on MT101 and MT27 is"]
LEVELS = [600, 601, 630, 649, 650, 670, 699, 700, 730, 749, 750, 780, 799, 800, 801, 820, 849]
EXOTIC = [155, 182, 191, 192, 193, 197]


@st.composite
def table(draw):
    extra = []
    for pool, n in (([51, 52, 53, 91], 3), ([4], 1), ([103, 104, 105, 106, 107], 3), (LEVELS, 4), ([102], 1), ([19, 20, 21, 38], 2), ([18], 1), ([27, 101], 2), ([3], 1), ([16], 1),
                    ([875, 876, 891], 2), ([5, 17, 22, 28, 37, 11, 23, 24, 25, 29, 30, 32, 33, 34, 35, 36, 41, 42, 44, 45, 108, 109, *range(111, 118)], 4), (EXOTIC, 3)):
        if draw(st.integers(0, 9)) in (1, 3, 5, 8):
            extra += draw(st.lists(st.sampled_from(pool), min_size=1, max_size=n, unique=True))
    return draw(acegen.spec(simple=True, fissile=None if draw(st.booleans()) else False, extra_mts=extra, max_nes=9, levels=False))


@st.composite
def edit(draw):
    return {"pick": draw(st.integers(0, 30)), "kind": draw(st.sampled_from(["scale", "scale", "points", "random", "zero", "back"])), "seed": draw(st.integers(0, 10 ** 6)),
            "f": draw(st.sampled_from([1.1, 0.5, 2.0, 1e3, 1.0])), "apply": draw(st.booleans())}


case = st.fixed_dictionaries({"spec": table(), "edits": st.lists(edit(), min_size=1, max_size=5), "sums": st.integers(0, 9)})


def values(e, base, now):
    rs = np.random.RandomState([e["seed"], 3])
    if e["kind"] == "scale":
        return base * e["f"]
    if e["kind"] == "points":
        return np.where(rs.randint(0, 2, len(base)) == 1, base * e["f"], base)
    if e["kind"] == "random":
        return base * 10.0 ** rs.uniform(-1, 1, len(base))
    if e["kind"] == "zero":
        return base * 0.0
    return base.copy()


def check(c, ctx):
    os.chdir(ctx.dir())
    t = acegen.build(c["spec"])
    open("a.ace", "w").write(acegen.ascii_text(t))
    ed = [AceIO.AceEditor("a.ace") for _ in range(2)]           # one applies the rules once at the end, one after chosen edits
    mts = sorted(ed[0].table.reactions)
    m = sums.Model({k: ed[0].get_sigma(k) for k in mts}, {k: ed[0].get_energy(k) for k in mts})
    choose = [k for k in mts if c["sums"] == 3 or k not in sums.PARTS or not sums.parts(k, set(mts))]
    for e in c["edits"]:
        mt = choose[e["pick"] % len(choose)]
        v = values(e, m.base[mt], m.now[mt])
        for a in ed:
            a.set_sigma(mt, v.copy())
        m.set(mt, v)
        if e["apply"]:
            ed[1].apply_sum_rules()
    m.apply()
    edited = sorted({choose[e["pick"] % len(choose)] for e in c["edits"]})
    skip = {1, 3} if any(x in edited for x in EXOTIC) else set()
    for k in range(4):
        a = ed[k % 2]
        if k == 3:
            a.apply_sum_rules()
        a.apply_sum_rules()
        who = ("applied once", "applied in steps", "applied again", "applied again")[k]
        for mt in mts:
            if mt in skip and mt not in edited:
                continue
            got = np.asarray(a.get_sigma(mt))
            require(got.shape == m.now[mt].shape, "{}: MT{} has {} values", who, mt, got.shape)
            if mt in m.adjusted:
                bad = np.abs(got - m.now[mt]) > 1e-12 * m.scale[mt]
            else:
                bad = got != m.now[mt]
            require(not bad.any(), "edited {}, {}: MT{} of {} is\n{}\ninstead of\n{}\n(base {})", edited, who, mt, mts, got, m.now[mt], m.base[mt])
            require(np.array_equal(a.get_sigma(mt, unadjusted=True), m.base[mt]), "{}: the unadjusted MT{} changed", who, mt)
        require(set(a.adjusted_mts) - skip == m.adjusted - skip, "edited {}, {}: adjusted reactions {} instead of {}", edited, who, sorted(a.adjusted_mts), sorted(m.adjusted))
    touched = m.adjusted - set(edited)
    ctx.label(*["sum %d" % k for k in touched], *["edited a sum" for k in edited if k in sums.PARTS][:1], "edits %d" % len(edited))
    ctx.nontrivial(len(touched) > 0)


SUBS = [Sub("edits", case, check, 1600, 40000, "some sum contains an edited reaction")]
