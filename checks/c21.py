import io, os
import numpy as np
from hypothesis import strategies as st
from ASAPy import endf as e1
from ASAPy.data import endf as e2
from lib.core import Sub, require
from lib import endfgen as eg

ASSUMPTIONS = ["field forms are those ENDF-102 allows with digits on both sides of the point; blank numeric fields are not generated"]
MODS = {"ASAPy.endf": e1, "ASAPy.data.endf": e2}
which = st.sampled_from(sorted(MODS))

ints = st.integers(0, 9)


def check_number(c, ctx):
    mod = MODS[c["mod"]]
    got = mod.float_endf(c["n"]["s"])
    require(got == c["n"]["v"], "field {!r} reads {!r} instead of {!r}", c["n"]["s"], got, c["n"]["v"])
    ctx.label("e-less" if "e" not in c["n"]["s"].lower() and any(x in c["n"]["s"].strip()[1:] for x in "+-") else "plain or E")
    ctx.nontrivial(c["n"]["v"] != 0)


@st.composite
def record(draw):
    k = draw(st.sampled_from(["cont", "cont skip", "head", "list", "tab1", "tab2", "text", "intg"]))
    n = eg.number()
    r = {"kind": k}
    i = st.integers(-5, 99999999)
    if k in ("cont", "cont skip"):
        r["c"], r["i"] = draw(st.lists(n, min_size=2, max_size=2)), draw(st.lists(i, min_size=4, max_size=4))
    elif k == "head":
        r["za"], r["awr"], r["i"] = draw(st.integers(1, 110)) * 1000 + draw(st.integers(0, 300)), draw(n), draw(st.lists(i, min_size=4, max_size=4))
    elif k == "text":
        r["t"] = draw(eg.text_line())
    elif k == "list":
        r["c"], r["i"], r["v"] = draw(st.lists(n, min_size=2, max_size=2)), draw(st.lists(i, min_size=3, max_size=3)), draw(st.lists(n, min_size=1, max_size=26))
    elif k in ("tab1", "tab2"):
        nr = draw(st.integers(1, 8))
        cuts = sorted(draw(st.lists(st.integers(2, 40), min_size=nr, max_size=nr, unique=True)))
        r["c"], r["i"] = draw(st.lists(n, min_size=2, max_size=2)), draw(st.lists(i, min_size=2, max_size=2))
        r["nbt"], r["int"] = cuts, draw(st.lists(st.integers(1, 5), min_size=nr, max_size=nr))
        r["np"] = cuts[-1]
        if k == "tab1":
            v = draw(st.lists(n, min_size=2, max_size=12))
            r["v"] = v
            r["step"] = draw(st.integers(1, 11))
    else:
        nd = draw(st.integers(2, 6))
        N = draw(st.sampled_from([1, 2, 3, 5, 9, 10, 12, 14, 16, 20, 27]))
        dense = draw(st.booleans())
        seed = draw(st.integers(0, 10 ** 6))
        els = []
        for a in range(1, N):
            for b in range(a):
                h = (a * 7919 + b * 104729 + seed) * 2654435761 % 2 ** 32
                if dense or h % 3 == 0:
                    v = (h >> 4) % (10 ** nd - 1) + 1
                    els.append([a, b, -v if (h >> 2) % 2 and v < 10 ** nd else v])
        r["nd"], r["n"], r["els"] = nd, N, els
    return r


WIDTH = {2: 18, 3: 13, 4: 11, 5: 9, 6: 8}       # ENDF-6: (2I5,1X,18I3) (2I5,1X,13I4) (2I5,1X,11I5) (2I5,1X,9I6) (2I5,8I7)


def tabvals(r):
    """(x, y) strings and values for a TAB1 record"""
    v, s = r["v"], r["step"]
    xs = [v[(k * s) % len(v)] for k in range(r["np"])]
    ys = [v[(k * s + k // len(v) + 1) % len(v)] for k in range(r["np"])]
    return xs, ys


def lines_of(fields, mat, mf, mt, start):
    return [eg.rec(fields[k:k + 6], mat, mf, mt, start + k // 6) for k in range(0, len(fields), 6)]


def write(r):
    k = r["kind"]
    I = eg.integer
    rec = lambda f: eg.rec(f, 125, 3, 2, 1)
    if k in ("cont", "cont skip"):
        return [rec([x["s"] for x in r["c"]] + [I(i) for i in r["i"]])]
    if k == "head":
        return [rec([eg.num(float(r["za"])), r["awr"]["s"]] + [I(i) for i in r["i"]])]
    if k == "text":
        return [rec([r["t"]])]
    if k == "list":
        return [rec([x["s"] for x in r["c"]] + [I(i) for i in r["i"][:2]] + [I(len(r["v"])), I(r["i"][2])])] + lines_of([x["s"] for x in r["v"]], 125, 3, 2, 2)
    if k in ("tab1", "tab2"):
        out = [rec([x["s"] for x in r["c"]] + [I(i) for i in r["i"]] + [I(len(r["nbt"])), I(r["np"])])]
        f = []
        for a, b in zip(r["nbt"], r["int"]):
            f += [I(a), I(b)]
        out += lines_of(f, 125, 3, 2, 2)
        if k == "tab1":
            xs, ys = tabvals(r)
            f = []
            for a, b in zip(xs, ys):
                f += [a["s"], b["s"]]
            out += lines_of(f, 125, 3, 2, 2)
        return out
    nd, w = r["nd"], WIDTH[r["nd"]]
    lines = []
    rows = {}
    for a, b, v in r["els"]:
        rows.setdefault(a, {})[b] = v
    for a in sorted(rows):
        cols = sorted(rows[a])
        while cols:
            j0 = cols[0]
            s = "%5d%5d" % (a + 1, j0 + 1) + (" " if nd < 6 else "")
            cells = []
            while cols and cols[0] < j0 + w:
                while len(cells) < cols[0] - j0:
                    cells.append(" " * (nd + 1))
                cells.append("%*d" % (nd + 1, rows[a][cols.pop(0)]))
            lines.append(eg.rec([s + "".join(cells)], 125, 32, 151, 1))
    return [rec([eg.num(0.0), eg.num(0.0), I(nd), I(r["n"]), I(len(lines)), I(0)])] + lines


def eq(got, want, what):
    require(list(got) == list(want), "{}: {} instead of {}", what, list(got), list(want))


def check_records(c, ctx):
    mod = MODS[c["mod"]]
    text = "".join("".join(write(r)) for r in c["recs"])
    if c["mod"] == "ASAPy.endf":
        recs = [r for r in c["recs"] if r["kind"] != "intg"]
        text = "".join("".join(write(r)) for r in recs)
    else:
        recs = c["recs"]
    f = io.StringIO(text)
    for r in recs:
        k = r["kind"]
        ctx.label(k)
        if k == "cont":
            eq(mod.get_cont_record(f), [x["v"] for x in r["c"]] + r["i"], "CONT")
        elif k == "cont skip":
            got = mod.get_cont_record(f, skipC=True)
            eq(got[2:], r["i"], "CONT integers")
            require(got[0] is None and got[1] is None, "skipped fields {}", got[:2])
        elif k == "head":
            eq(mod.get_head_record(f), [r["za"], r["awr"]["v"]] + r["i"], "HEAD")
        elif k == "text":
            got = mod.get_text_record(f)
            require(got == r["t"], "TEXT {!r} instead of {!r}", got, r["t"])
        elif k == "list":
            items, vals = mod.get_list_record(f)
            eq(items, [x["v"] for x in r["c"]] + r["i"][:2] + [len(r["v"]), r["i"][2]], "LIST header")
            eq(vals, [x["v"] for x in r["v"]], "LIST values")
        elif k == "tab1":
            xs, ys = tabvals(r)
            res = mod.get_tab1_record(f)
            if mod is e2:
                p, t = res
                x, y, nbt, it = t.x, t.y, t.breakpoints, t.interpolation
            else:
                p, x, y, nbt, it = res
            eq(p, [v["v"] for v in r["c"]] + r["i"], "TAB1 parameters")
            eq(x, [v["v"] for v in xs], "TAB1 x")
            eq(y, [v["v"] for v in ys], "TAB1 y")
            eq(nbt, r["nbt"], "TAB1 breakpoints")
            eq(it, r["int"], "TAB1 interpolation")
        elif k == "tab2":
            p, t = mod.get_tab2_record(f)
            eq(p, [v["v"] for v in r["c"]] + r["i"] + [len(r["nbt"]), r["np"]], "TAB2 parameters")
            eq(t.breakpoints, r["nbt"], "TAB2 breakpoints")
            eq(t.interpolation, r["int"], "TAB2 interpolation")
        else:
            got = mod.get_intg_record(f)
            want = np.eye(r["n"])
            for a, b, v in r["els"]:
                want[a, b] = want[b, a] = (abs(v) + 0.5) / 10 ** r["nd"] * (1 if v > 0 else -1)
            require(np.shape(got) == want.shape and np.allclose(got, want, rtol=1e-14, atol=0), "INTG {} instead of {}", np.asarray(got).tolist(), want.tolist())
    require(f.read() == "", "the reader is not at the next record")
    ctx.nontrivial(len(recs) > 1)


@st.composite
def case_eval(draw):
    ms = draw(st.lists(eg.material(), min_size=1, max_size=3))
    ms[0]["blank_mod"] = draw(st.booleans())
    return {"mod": draw(which), "m": ms, "how": draw(st.sampled_from(["name", "path", "object", "all", "all"]))}


def same_evaluation(ev, m, secs, directory, mod):
    t, i = ev.target, ev.info
    libs = eg.LIBS if mod is e1 else eg.LIBS_DATA
    require(ev.material == m["mat"], "material {}", ev.material)
    st_ = 2 if (m["Z"], m["A"], m["liso"]) == (95, 242, 1) else m["lis"]
    want = {"atomic_number": m["Z"], "mass_number": m["A"], "mass": eg.val(m["awr"]), "fissionable": m["lfi"] == 1, "excitation_energy": m["elis"], "stable": m["sta"] == 0,
            "state": st_, "isomeric_state": m["liso"], "temperature": eg.val(m["temp"])}
    for k, v in want.items():
        require(k in t and t[k] == v, "target {}: {!r} instead of {!r}", k, t.get(k), v)
    want = {"modification": m["nmod"], "format": 6, "energy_max": m["emax"], "sublibrary": m["nsub"] if mod is e1 else eg.SUBLIB[m["nsub"]],
            "library": (libs.get(m["nlib"], "Unknown"), m["nver"], m["lrel"]), "derived": m["ldrv"] > 0}
    x = m["text"]
    if len(x) >= 5:
        require(t["zsymam"] == x[0][:11], "zsymam {!r}", t["zsymam"])
        want.update({"laboratory": x[0][11:22], "date": x[0][22:32], "author": x[0][32:66], "reference": x[1][1:22], "date_distribution": x[1][22:32],
                     "date_release": x[1][33:43], "date_entry": x[1][55:63], "identifier": x[2:5], "description": x[5:]})
    for k, v in want.items():
        require(k in i and i[k] == v, "info {}: {!r} instead of {!r}", k, i.get(k), v)
    require(ev.projectile["mass"] == eg.val(m["awi"]), "projectile mass {}", ev.projectile["mass"])
    d = [tuple(x) for x in directory]
    if m.get("blank_mod"):
        d[-1] = d[-1][:3] + (0,)
    require([tuple(r) for r in ev.reaction_list] == d, "directory {} instead of {}", ev.reaction_list, d)
    require(set(ev.section) == set(secs), "sections {} instead of {}", sorted(ev.section), sorted(secs))
    for k in secs:
        require(ev.section[k] == secs[k], "section {}:\n{}\ninstead of\n{}", k, ev.section[k], secs[k])


def check_eval(c, ctx):
    mod = MODS[c["mod"]]
    text, secs = eg.tape(c["m"])
    p = os.path.join(ctx.dir(), "t.endf")
    open(p, "w").write(text)
    import pathlib
    how = c["how"]
    if how == "all":
        evs = mod.get_evaluations(p)
        require(len(evs) == len(c["m"]), "{} evaluations instead of {}", len(evs), len(c["m"]))
    elif how == "object":
        with open(p) as f:
            evs = [mod.Evaluation(f)]
            require(not f.closed, "the caller's file was closed")
            for _ in c["m"][1:]:
                evs.append(mod.Evaluation(f))
    else:
        evs = [mod.Evaluation(p if how == "name" else pathlib.Path(p))]
    for ev, m, (s, d) in zip(evs, c["m"], secs):
        same_evaluation(ev, m, s, d, mod)
    ctx.label(how, c["mod"], "materials %d" % len(evs))
    ctx.nontrivial(sum(len(m["sections"]) for m in c["m"]) > 0)


SUBS = [Sub("numbers", st.fixed_dictionaries({"n": eg.number(), "mod": which}), check_number, 4000, 400000, "not zero"),
        Sub("records", st.fixed_dictionaries({"recs": st.lists(record(), min_size=1, max_size=5), "mod": which}), check_records, 1600, 60000, "two or more records in sequence"),
        Sub("evaluations", case_eval(), check_eval, 400, 12000, "some section besides the header")]
