import hashlib, os, subprocess
from hypothesis import strategies as st
from ASAPy import njoy as njoy1
from ASAPy.data import njoy as njoy2
from lib.core import Sub, require, Violation
from lib import endfgen, standin, njoydeck
from checks import c11

ASSUMPTIONS = ["NJOY is replaced by a stand-in that reads the deck and writes recognisable ACE and xsdir tapes"]
THERMAL = {1: ('hh2o', [1001], 1), 31: ('graph', [6000, 6012, 6013], 1), 40: ('benz', [1001, 6000, 6012], 2), 11: ('dd2o', [1002], 1), 26: ('be', [4009], 1),
           7: ('hzrh', [1001], 1), 75: ('ouo2', [8016, 8017, 8018], 1), 58: ('zrzrh', [40000, 40090, 40091], 1), 48: ('uuo2', [92238], 1)}


@st.composite
def temps(draw):
    n = draw(st.integers(1, 4))
    ts = []
    for _ in range(n):
        t = draw(c11.temperature())
        if all(abs(t - u) > 0.2 for u in ts):
            ts.append(t)
    return ts


@st.composite
def case_ace(draw):
    m = draw(endfgen.material(neutron=True))
    m["A"] = draw(st.sampled_from([0, 16, 99, 110, 178, 235, 242, 256]))
    c = {"which": draw(st.sampled_from(["data", "main"])), "material": m, "temps": draw(st.one_of(temps(), temps(), st.none())), "error": draw(st.sampled_from([0.001, 0.01])),
         "pendf": draw(st.sampled_from([None, "pendf", "p.out"]))}
    for k in ("broadr", "heatr", "purr", "acer"):
        c[k] = draw(st.integers(0, 9)) not in (4, 7)
    c["names"] = draw(st.sampled_from([["ace", "xsdir"], ["u235.ace", "u235.xsdir"], ["sub/a", "sub/x"]]))
    c["fail"] = draw(st.sampled_from([0, 0, 0, 0, 1, 77, "signal"]))
    c["existing"] = draw(st.booleans())
    c["input"] = draw(st.booleans())
    c["chatter"] = draw(st.sampled_from([0, 3, 2500]))
    c["errorr"] = c["which"] == "main" and draw(st.booleans())
    c["via_pendf"] = c["which"] == "data" and draw(st.integers(0, 4)) == 4
    return c


def ace_text(m, T, k):
    zaid = "%d%03d.%02dc" % (m["Z"], m["A"], k + 1)
    lines = ["%10s%12.6f%12.4E   10/20/30" % (zaid, 1.0 + k, T * 8.617e-11), "table at %s" % T] + ["%20.11E" % (T * (i + 1)) for i in range(5)]
    return "\n".join(lines) + "\n"


def meta(text, m):
    """expected text: 400 added to the ZAID of a metastable target"""
    if m["liso"] > 0:
        zaid = int(text[:6])
        if zaid % 1000 < 300:
            text = "%6d" % (zaid + 400) + text[6:]
    return text


def run_dir(ctx, c, texts):
    d = ctx.dir()
    for x in ("data", "log", "bin", "cwd", "cwd/sub"):
        os.mkdir(os.path.join(d, x))
    os.chdir(os.path.join(d, "cwd"))
    return d


def f_ace(c, ctx):
    m = c["material"]
    ts = [float(t) for t in (c["temps"] or [293.6])]
    d = run_dir(ctx, c, None)
    text, _ = endfgen.tape([m])
    with open("eval.endf", "w") as f:
        f.write(text)
    for k, T in enumerate(ts):
        open(os.path.join(d, "data", "ace_%g" % T), "w").write(ace_text(m, T, k))
        open(os.path.join(d, "data", "xsdir_%g" % T), "w").write("xsdir entry %d at %s\n" % (k, T))
    exe = standin.write_njoy(os.path.join(d, "bin", "njoy"), os.path.join(d, "log", "njoy"), os.path.join(d, "data"), {20: "endf"}, {20: hashlib.sha256(text.encode()).hexdigest()},
                             fail=c["fail"], message="MARK-njoy", chatter=c["chatter"])
    ace, xsdir = c["names"]
    if c["existing"]:
        for f in (ace, xsdir):
            open(f, "w").write("old contents\n")
    kw = dict(error=c["error"])
    err = None
    if c["via_pendf"]:
        c = dict(c, broadr=False, heatr=False, purr=False, acer=False, pendf=c["pendf"] or "pendf", errorr=False)
        kw["pendf"] = c["pendf"]
        old = os.environ["PATH"]
        os.environ["PATH"] = os.path.join(d, "bin") + ":" + old

        def call():
            njoy2.make_pendf("eval.endf", **kw)
    else:
        kw.update(ace=ace, xsdir=xsdir, broadr=c["broadr"], heatr=c["heatr"], purr=c["purr"], acer=c["acer"], njoy_exec=exe)
        if c["pendf"]:
            kw["pendf"] = c["pendf"]
        if c["temps"] is not None:
            kw["temperatures"] = c["temps"]
        if c["input"]:
            kw["input_filename"] = "deck.in"

        def call():
            if c["which"] == "data":
                njoy2.make_ace("eval.endf", **kw)
            else:
                njoy1.make_njoy_run("eval.endf", run=True, errorr=c["errorr"], cov_energy_groups=[1e-5, 1.0, 2e7], **kw)
    before = sorted(os.listdir("."))
    try:
        call()
    except subprocess.CalledProcessError as e:
        err = e
    finally:
        if c["via_pendf"]:
            os.environ["PATH"] = old
    ctx.label(c["which"], "fault" if c["fail"] else "no fault", "temps%d" % len(ts), "metastable" if m["liso"] else "ground state")
    decks = os.listdir(os.path.join(d, "log", "njoy"))
    if err is not None and not c["fail"]:
        raise Violation("NJOY could not run the deck: %s" % (err.output or "")[-600:])
    require(len(decks) == 1, "NJOY ran {} times", len(decks))
    if c["fail"]:
        ctx.nontrivial()
        code = -9 if c["fail"] == "signal" else c["fail"]
        require(err is not None and err.returncode == code, "NJOY failed with status {}, reported {}", code, err)
        if code > 0:
            require("MARK-njoy" in (err.output or ""), "NJOY's output is not in the error")
        for f in (ace, xsdir):
            if c["existing"]:
                require(open(f).read() == "old contents\n", "{} was changed although NJOY failed", f)
        return
    require(err is None, "failed: {}", err)
    deck = open(os.path.join(d, "log", "njoy", decks[0])).read()
    mods = njoydeck.parse(deck)
    tapes = njoydeck.dataflow(mods, {20: "endf"})
    names = [x["module"] for x in mods]
    for k in ("broadr", "heatr", "purr"):
        require(names.count(k) == int(bool(c[k])), "{} runs {} times", k, names.count(k))
    require(names.count("acer") == (len(ts) if c["acer"] else 0), "acer runs {} times", names.count("acer"))
    for x in mods:
        if "mat" in x:
            require(x["mat"] == m["mat"], "{}: material {} instead of {}", x["module"], x["mat"], m["mat"])
        if "temps" in x:
            require(c11.close(x["temps"], ts), "{}: temperatures {}", x["module"], x["temps"])
        if "err" in x:
            require(abs(x["err"] - c["error"]) < 1e-12, "{}: tolerance {}", x["module"], x["err"])
        if x["module"] == "acer":
            h = [y["module"] for y in tapes[x["reads"][1][1]]["history"]]
            require([k for k in ("broadr", "heatr", "purr") if c[k]] == [k for k in h if k != "reconr"], "acer reads a tape made by {}", h)
    after = set()
    for root, _, files in os.walk("."):
        after |= {os.path.normpath(os.path.join(root, f)) for f in files}
    want = {"eval.endf"}
    if c["acer"]:
        want |= {ace, xsdir}
        exp = "".join(meta(ace_text(m, T, k), m) for k, T in enumerate(ts))
        got = open(ace).read()
        require(got == exp, "ACE file holds\n{}\ninstead of\n{}", got[:600], exp[:600])
        exp = "".join("xsdir entry %d at %s\n" % (k, T) for k, T in enumerate(ts))
        require(open(xsdir).read() == exp, "xsdir file holds\n{}\ninstead of\n{}", open(xsdir).read(), exp)
    elif c["existing"]:
        want |= {ace, xsdir}
    if c["pendf"]:
        want.add(c["pendf"])
        require(open(c["pendf"]).read() == "pendf tape by reconr\n", "PENDF file holds {!r}", open(c["pendf"]).read()[:100])
    if c["input"] and not c["via_pendf"]:
        want.add("deck.in")
        require(open("deck.in").read() == deck, "the saved input is not what NJOY got")
    if c["errorr"]:
        want |= {f for f in after if f.startswith("covr_")}
        require(any(f.startswith("covr_") for f in after), "no covariance file collected")
    require(after == want, "files {} instead of {}", sorted(after), sorted(want))
    ctx.nontrivial(c["acer"] and len(ts) > 1)


@st.composite
def case_thermal(draw):
    m = draw(endfgen.material(neutron=True))
    mt = draw(st.sampled_from(sorted(THERMAL)))
    t = draw(endfgen.material(neutron=True, mats=st.just(mt)))
    t["sections"] = []
    own = draw(temps())
    c = {"material": m, "thermal": t, "own": [float(x) for x in own], "temps": draw(st.one_of(st.none(), temps())), "error": draw(st.sampled_from([0.001, 0.005])),
         "elastic": draw(st.sampled_from([None, 1, 2])), "natom": draw(st.integers(1, 8)), "emax": draw(st.sampled_from([0.625, 4.0, 4.46, 10.0])), "fail": draw(st.sampled_from([0, 0, 0, 0, 3])),
         "ns": draw(st.integers(0, 2)), "existing": draw(st.booleans()), "top": draw(st.booleans())}
    return c


def f_thermal(c, ctx):
    e = endfgen
    th = c["thermal"]
    za, awr = th["Z"] * 1000.0 + th["A"], th["awr"]
    own = c["own"]
    b = [1.0, 2.0, 3.0, c["emax"], 0.0, float(c["natom"])] + [1.0, 2.0, 3.0, 4.0, 5.0, 6.0] * c["ns"]
    lines = [e.cont(za, awr, 0, 1, 0, 0), e.cont(0.0, 0.0, 0, 0, len(b), c["ns"])] + e.fields(b)
    lines += [e.cont(0.0, 0.0, 0, 0, 1, 1)] + e.fields([1, 4])
    lines += [e.cont(own[0], 0.0, len(own) - 1, 0, 1, 3)] + e.fields([3, 4]) + e.fields([0.1, 1.0, 0.2, 2.0, 0.3, 3.0])
    for T in own[1:]:
        lines += [e.cont(T, 0.0, 4, 0, 3, 0)] + e.fields([1.5, 2.5, 3.5])
    e.set_body(th, 7, 4, lines)
    if c["elastic"]:
        e.set_body(th, 7, 2, [e.cont(za, awr, c["elastic"], 0, 0, 0), e.cont(0.0, 0.0, 0, 0, 1, 1)] + e.fields([1, 2]))
    ts = [float(t) for t in (c["temps"] or own)]
    d = run_dir(ctx, c, None)
    text, _ = e.tape([c["material"]])
    ttext, _ = e.tape([th])
    open("eval.endf", "w").write(text)
    open("thermal.endf", "w").write(ttext)
    for k, T in enumerate(ts):
        open(os.path.join(d, "data", "ace_%g" % T), "w").write("ace table %d at %s\n" % (k, T))
        open(os.path.join(d, "data", "xsdir_%g" % T), "w").write("xsdir entry %d at %s\n" % (k, T))
    exe = standin.write_njoy(os.path.join(d, "njoy"), os.path.join(d, "log", "njoy"), os.path.join(d, "data"), {20: "endf", 21: "thermal"},
                             {20: hashlib.sha256(text.encode()).hexdigest(), 21: hashlib.sha256(ttext.encode()).hexdigest()}, fail=c["fail"], message="MARK-njoy")
    if c["existing"]:
        open("ace", "w").write("old\n")
        open("xsdir", "w").write("old\n")
    kw = {"error": c["error"], "njoy_exec": exe}
    if c["temps"] is not None:
        kw["temperatures"] = c["temps"]
    err = None
    try:
        (njoy1 if c["top"] else njoy2).make_ace_thermal("eval.endf", "thermal.endf", **kw)
    except subprocess.CalledProcessError as ex:
        err = ex
    ctx.nontrivial()
    ctx.label("ASAPy.njoy" if c["top"] else "ASAPy.data.njoy", "temps%d" % len(ts), "own" if c["temps"] is None else "given", "elastic %s" % c["elastic"])
    if c["fail"]:
        require(err is not None and err.returncode == c["fail"], "NJOY failure not reported: {}", err)
        if c["existing"]:
            require(open("ace").read() == "old\n" and open("xsdir").read() == "old\n", "files changed although NJOY failed")
        return
    require(err is None, "NJOY could not run the deck: {}", (err.output or "")[-500:] if err else "")
    mods = njoydeck.parse(open(os.path.join(d, "log", "njoy", "deck0")).read())
    tapes = njoydeck.dataflow(mods, {20: "endf", 21: "thermal"})
    require([x["module"] for x in mods] == ["reconr", "broadr", "thermr", "thermr"] + ["acer"] * len(ts), "modules {}", [x["module"] for x in mods])
    name, zaids, nmix = THERMAL[th["mat"]]
    close = c11.close
    for x in mods:
        require(x["mat"] == c["material"]["mat"], "{}: material {}", x["module"], x["mat"])
        if "temps" in x:
            require(close(x["temps"], ts), "{}: temperatures {} instead of {}", x["module"], x["temps"], ts)
    free, bound = mods[2], mods[3]
    require(free["matde"] == 0 and free["inelastic"] == 1 and free["mtref"] == 221, "free-gas thermr {}", free)
    require(bound["matde"] == th["mat"] and bound["inelastic"] == 2 and bound["elastic"] == (1 if c["elastic"] else 0) and bound["natom"] == c["natom"] and bound["mtref"] == 222, "thermr for bound scattering {}", {k: v for k, v in bound.items() if k not in ("reads", "writes")})
    for x in (free, bound):
        require(abs(x["emax"] - c["emax"]) < 1e-9 and abs(x["tol"] - c["error"]) < 1e-12, "thermr limits {} {}", x["tol"], x["emax"])
    for x in mods[4:]:
        require(x["iopt"] == 2 and x["name"] == name and x["zaids"] == zaids[:3], "acer {} {} {}", x["iopt"], x["name"], x["zaids"])
        v = [float(y) for y in x["thermal"]]
        want = [222, 64, 223 if c["elastic"] else 0, c["elastic"] - 1 if c["elastic"] else 0, nmix, c["emax"], 2]
        require(close(v, want) or all(abs(p - q) < 1e-9 for p, q in zip(v, want)) and len(v) == len(want), "acer thermal card {} instead of {}", v, want)
        require([y["module"] for y in tapes[x["reads"][1][1]]["history"]] == ["reconr", "broadr", "thermr", "thermr"], "acer reads the wrong tape")
    require(open("ace").read() == "".join("ace table %d at %s\n" % (k, T) for k, T in enumerate(ts)), "ACE file: {!r}", open("ace").read())
    require(open("xsdir").read() == "".join("xsdir entry %d at %s\n" % (k, T) for k, T in enumerate(ts)), "xsdir file: {!r}", open("xsdir").read())
    left = set(os.listdir(".")) - {"ace", "xsdir", "eval.endf", "thermal.endf", "sub"}
    require(not left, "files left behind: {}", sorted(left))


SUBS = [Sub("ace", case_ace(), f_ace, 480, 12000, "several temperatures, or NJOY failing"),
        Sub("thermal", case_thermal(), f_thermal, 160, 4000, "always")]
