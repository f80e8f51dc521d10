import os, pathlib, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy.data import ace
from lib.core import Sub, require, expect_raises
from lib import acegen

warnings.simplefilter("ignore")
SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 21, 64, 509, 511, 512, 513, 1023, 1024, 1025, 2000]


@st.composite
def raw(draw, zaid):
    n = draw(st.sampled_from(SIZES))
    return {"zaid": zaid, "n": n, "seed": draw(st.integers(0, 10 ** 6)), "awr": draw(st.sampled_from([0.999167, 15.8575, 236.0058, 1.0, 999.999999])),
            "kT": draw(st.sampled_from([0.0, 2.53e-8, 2.1543e-7, 8.617e-11])), "tiny": draw(st.sampled_from([0, 0, 0, 1, 3])), "ints": draw(st.booleans()),
            "pairs": draw(st.lists(st.tuples(st.sampled_from([0, 1001, 1002, 6012, 92235]), st.sampled_from([0.0, 0.999167, 235.984])), max_size=16)),
            "suffix": draw(st.sampled_from(["80c", "00c", "70t", "12p", "710nc"]))}


def make(s):
    rs = np.random.RandomState([s["seed"], 5])
    t = acegen.Table()
    n = s["n"]
    x = rs.uniform(-9.999, 9.999, n) * 10.0 ** rs.randint(-30, 30, n)
    if s["tiny"]:
        k = rs.choice(n, min(n, s["tiny"]), replace=False)
        x[k] = rs.choice([-1, 1], len(k)) * rs.uniform(1, 9.99, len(k)) * 10.0 ** rs.randint(-290, -100, len(k)).astype(float)
    x = [acegen.r11(v) for v in x]
    isint = [bool(s["ints"] and rs.randint(3) == 0) for _ in range(n)]
    t.xss = [int(rs.randint(-10 ** 6, 10 ** 6)) if i else v for i, v in zip(isint, x)]
    t.isint = isint
    t.nxs = [n] + rs.randint(-10 ** 5, 10 ** 6, 15).tolist()
    t.jxs = rs.randint(-1, 10 ** 6, 32).tolist()
    t.izaw = ([list(p) for p in s["pairs"]] + [[0, 0.0]] * 16)[:16]
    t.name, t.awr, t.kT = s.get("name") or "%d.%s" % (s["zaid"], s["suffix"]), s["awr"], s["kT"]
    return t


@st.composite
def case(draw):
    z = draw(st.lists(st.sampled_from([1001, 1002, 6000, 8016, 26056, 92235, 92238, 95242, 94239]), min_size=1, max_size=4, unique=True))
    c = {"tables": [draw(raw(x)) for x in z], "container": draw(st.sampled_from(["old", "old", "new", "mixed", "binary", "binary", "converted", "converted"])),
         "comments": draw(st.sampled_from([3, 3, 3, 0, 1, 2, 5])), "path": draw(st.booleans())}
    if draw(st.integers(0, 2)) == 1:
        # names that contain one another
        base = draw(st.sampled_from(["lwtr", "grph", "u235", "92235"]))
        for t, n in zip(c["tables"], draw(st.permutations([base + ".1t", base + ".10t", base + ".1", "x" + base + ".1t"]))):
            t["name"] = n
    c["select"] = draw(st.lists(st.integers(0, len(z) - 1), min_size=1, max_size=len(z), unique=True))
    return c


def text(t, style, comments):
    old = acegen.ascii_text(t, "old")
    if style == "old":
        return old
    new = acegen.ascii_text(t, "new").split("\n")
    if comments == 3:
        return "\n".join(new)
    head = [new[0], new[1][:-5] + "%5d" % comments] + ["comment %d of a table" % k for k in range(comments)]
    return "\n".join(head + new[5:])


def same(got, t, what):
    awr, kT = acegen.head_values(t)
    require(got.name == t.name, "{}: name {!r} instead of {!r}", what, got.name, t.name)
    require(got.atomic_weight_ratio == awr, "{}: weight ratio {} instead of {}", what, got.atomic_weight_ratio, awr)
    require(got.temperature == kT, "{}: temperature {} instead of {}", what, got.temperature, kT)
    require([tuple(p) for p in got.pairs] == [(int(a), float("%.6f" % b)) for a, b in t.izaw], "{}: pairs {}", what, got.pairs)
    for k, want in (("nxs", t.nxs), ("jxs", t.jxs), ("xss", t.xss)):
        g = list(getattr(got, k))
        require(len(g) == len(want) + 1, "{}: {} has {} values instead of {}", what, k, len(g) - 1, len(want))
        bad = [i for i in range(len(want)) if g[i + 1] != want[i]]
        require(not bad, "{}: {}({}) is {} instead of {}", what, k, bad and bad[0] + 1, bad and g[bad[0] + 1], bad and want[bad[0]])
    require(np.asarray(got.nxs).dtype.kind == "i" and np.asarray(got.jxs).dtype.kind == "i", "{}: NXS/JXS are not integers", what)


def check(c, ctx):
    d = ctx.dir()
    os.chdir(d)
    ts = [make(s) for s in c["tables"]]
    con, com = c["container"], c["comments"]
    names = [t.name for t in ts]
    if con in ("binary", "converted"):
        ts = [t for t in ts if len(t.name) <= 10]
    if con == "binary":
        data = b"".join(acegen.binary_bytes(t) for t in ts)
        open("lib", "wb").write(data)
    else:
        st_ = ["old" if con == "old" else "new" if con == "new" else ("new", "old")[(k + com) % 2] for k in range(len(ts))]
        if con == "converted":
            st_ = [("new", "old")[(k + com) % 2] for k in range(len(ts))]
            com = 3
        data = "".join(text(t, s, com) for t, s in zip(ts, st_))
        open("lib", "w").write(data)
        if con == "converted":
            ace.ascii_to_binary("lib", "lib.bin")
            require(open("lib").read() == data, "the ASCII file was modified")
            os.rename("lib.bin", "lib")
            require(os.path.getsize("lib") % 4096 == 0, "the binary file is not a whole number of records")
    p = pathlib.Path(d) / "lib" if c["path"] else os.path.join(d, "lib")
    if con in ("binary", "converted"):
        head = b"".join(open("lib", "rb").read().splitlines(True)[:10])
        if all(b < 128 for b in head):
            return
    before = open("lib", "rb").read()
    lib = ace.Library(p)
    require([t.name for t in lib.tables] == [t.name for t in ts], "{}: tables {} instead of {}", con, lib.tables, [t.name for t in ts])
    for g, t in zip(lib.tables, ts):
        same(g, t, con)
    same(ace.get_table(p), ts[0], con + " default table")
    sel = sorted({k for k in c["select"] if k < len(ts)}) or [0]
    chosen = [ts[k].name for k in sel]
    args = [chosen, tuple(reversed(chosen)), set(chosen)] + ([chosen[0]] if len(chosen) == 1 else [])
    for a in args:
        got = ace.Library(p, a).tables
        require([t.name for t in got] == chosen, "{}: selecting {} of {} gave {}", con, chosen, [t.name for t in ts], got)
        for g, k in zip(got, sel):
            same(g, ts[k], con + " selected")
    for k in sel:
        same(ace.get_table(p, ts[k].name), ts[k], con + " get_table")
    got = ace.Library(p, "99999.99c").tables
    require(got == [], "{}: a name that is not in the file gave {}", con, got)
    expect_raises(lambda: ace.get_table(p, "99999.99c"), "get_table of a name that is not in the file")
    require(open("lib", "rb").read() == before, "reading modified the library")
    ctx.label(con, "tables %d" % len(ts), *["tiny" for t in c["tables"] if t["tiny"]][:1])
    ctx.nontrivial(len(ts) > 1 or con != "old")


@st.composite
def case_phys(draw):
    return {"spec": draw(acegen.spec(max_nes=40)), "style": draw(st.sampled_from(["old", "new", "binary", "converted"]))}


def check_phys(c, ctx):
    os.chdir(ctx.dir())
    t = acegen.build(c["spec"])
    if c["style"] == "binary":
        open("a", "wb").write(acegen.binary_bytes(t))
    else:
        open("a", "w").write(acegen.ascii_text(t, "new" if c["style"] == "new" else "old"))
        if c["style"] == "converted":
            ace.ascii_to_binary("a", "b")
            os.rename("b", "a")
    same(ace.get_table("a"), t, c["style"])
    ctx.label(c["style"])
    ctx.nontrivial(len(t.xss) > 512)


SUBS = [Sub("libraries", case(), check, 1200, 40000, "several tables, or a container other than the old ASCII header"),
        Sub("neutron tables", case_phys(), check_phys, 400, 8000, "table longer than one binary record")]
