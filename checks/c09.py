import os
import numpy as np
from hypothesis import strategies as st
from lib.core import Sub, require
from lib import boxer as bx

ASSUMPTIONS = ["BOXER format as described in the program's header and NJOY's COVR manual; gfortran as in the Makefile"]
MATS = [9228, 125, 1]
MTS = [1, 2, 18, 102]


@st.composite
def section(draw, big=False):
    itype = draw(st.sampled_from([3, 3, 4, 0, 1, 2]))
    nvf = draw(st.integers(7, 14))
    ncf = draw(st.integers(2, 6))
    mat, mt = draw(st.sampled_from(MATS)), draw(st.sampled_from(MTS))
    s = {"itype": itype, "mat": mat, "mt": mt, "mat1": mat, "mt1": mt, "nvf": nvf, "ncf": ncf}
    if itype >= 3:
        s["mat1"], s["mt1"] = draw(st.sampled_from([mat, mat, MATS[0]])), draw(st.sampled_from([mt, mt, 2, 18] + ([0] if itype == 4 else [])))
        sym = draw(st.booleans())
        n = draw(st.integers(1, 7)) if not big else draw(st.integers(45, 60))
        m = n if sym else draw(st.integers(1, 6)) if not big else draw(st.integers(45, 60))
        s["ncolh"] = 0 if sym else m
    else:
        sym = False
        n, m = (draw(st.integers(1, 30)) if not big else draw(st.integers(300, 800))), 1
        s["ncolh"] = 1
    s["nrow"] = n
    s["title"] = draw(st.sampled_from(["", " corr  -a-238", " u-235", "abc def"]))
    s["pages"] = draw(st.booleans())
    vals = draw(st.lists(bx.value(nvf), min_size=1, max_size=5))
    vals = [bx.as_printed(v, nvf) for v in vals]
    s["vals"] = vals
    # index into vals; -1: as the element above; -2: as the element before
    N = n * m if not big else 400
    s["cells"] = draw(st.lists(st.integers(-2, len(vals) - 1), min_size=N, max_size=N))
    s["choices"] = draw(st.lists(st.integers(0, 59), max_size=40))
    if draw(st.integers(0, 7)) == 7:
        s["cells"] = [-2] * N
        s["vals"] = [0.0]
        s["ncf"] = draw(st.integers(1, 6))
    return s


def matrix(s):
    n = s["nrow"]
    m = s["ncolh"] or n
    C = np.zeros((n, m))
    cells = s["cells"]
    prev = 0.0
    k = 0
    for i in range(n):
        for j in range(m):
            c = cells[k % len(cells)] if k < len(cells) else cells[(k * 7 + k // len(cells)) % len(cells)]
            k += 1
            if s["ncolh"] == 0 and j < i:
                continue
            v = prev if c == -2 else (C[i - 1, j] if i else 0.0) if c == -1 else s["vals"][c]
            C[i, j] = prev = v
            if s["ncolh"] == 0:
                C[j, i] = v
    return C


@st.composite
def case(draw, big=False):
    secs = draw(st.lists(section(big), min_size=1, max_size=2 if big else 6))
    # requests in tape order (each names a section), possibly one that is missing at the end
    picks = draw(st.lists(st.integers(0, len(secs) - 1), min_size=1, max_size=len(secs), unique=True))
    return {"sections": secs, "picks": sorted(picks), "missing": draw(st.sampled_from([None, None, "type", "mat", "mt", "mt1"])),
            "style": draw(st.sampled_from(["comma", "fixed"])), "toc": draw(st.booleans()), "end9": draw(st.booleans())}


def matches(s, r):
    if s["itype"] != r[0]:
        return False
    if r[0] == 0:
        return True
    if (s["mat"], s["mt"]) != (r[1], r[2]):
        return False
    return r[0] in (1, 2) or (s["mat1"], s["mt1"]) == (r[3], r[4])


def check(c, ctx):
    secs = c["sections"]
    mats = [matrix(s) for s in secs]
    tape = []
    npages = 0
    for s, C in zip(secs, mats):
        lines = bx.encode(s, C.tolist(), s["choices"])
        tape += lines
        npages += sum(1 for l in lines if len(l) == 80 and l[0] in "01234" and l[1:36] == ("%-35.35s" % s["title"])) > 1
    if c["end9"]:
        tape.append("9" + " " * 79)
    reqs = [[secs[k]["itype"], secs[k]["mat"], secs[k]["mt"], secs[k]["mat1"], secs[k]["mt1"]] for k in c["picks"]]
    if c["missing"]:
        r = list(reqs[-1])
        if c["missing"] == "type":
            r[0] = 5
        elif c["missing"] == "mat":
            r[1] = 4444
        elif c["missing"] == "mt":
            r[2] = 77
        else:
            r[4] = 99
        reqs.append(r)
    # forward search, as the tape is read once
    want, pos = [], 0
    for r in reqs:
        k = next((k for k in range(pos, len(secs)) if matches(secs[k], r)), None)
        if k is None:
            want.append(("error", r))
            break
        want.append(("data", k))
        pos = k + 1
    d = ctx.dir()
    p = bx.run_boxer(bx.EXE, d, tape, reqs, c["style"])
    require(p.returncode == 0, "boxer2mat ended with status {}: {}\ntape:\n{}", p.returncode, p.stdout[-500:], "\n".join(tape)[:1500])
    got = bx.read_out(os.path.join(d, "fort.21"))
    require(len(got) == len(want), "{} results for {} requests {}\n{}", len(got), len(want), reqs, [x[1] for x in got])
    for x, w in zip(got, want):
        if w[0] == "error":
            require(x[0] == "error" and x[1].split()[-5:] == [str(v) for v in w[1]], "request {} is not on the tape, result {}", w[1], x[:2])
            ctx.label("missing request")
            continue
        s, C = secs[w[1]], mats[w[1]]
        require(x[0] == "data", "request {}: {}", w, x[1])
        h = x[1]
        ids = [int(h[0]), int(h[36:41]), int(h[41:45]), int(h[45:50]), int(h[50:54])]
        require(ids == [s["itype"], s["mat"], s["mt"], s["mat1"], s["mt1"]], "header {} for section {}", h, w[1])
        transfer = s["itype"] == 4 and s["mt1"] == 0
        R = C if transfer and C.shape[1] > 1 else C[::-1, ::-1]
        rows = [list(R[:, 0])] if R.shape[1] == 1 else [list(r) for r in R]
        lines = [row[k:k + 8] for row in rows for k in range(0, len(row), 8)]
        require([len(l) for l in lines] == [len(l) for l in x[2]], "section {}: line lengths {} instead of {}", ids, [len(l) for l in x[2]], [len(l) for l in lines])
        for a, b in zip(x[2], lines):
            for u, v in zip(a, b):
                require(bx.close(u, v), "section {}: value {!r} instead of {!r}\n printed {}\n tape line {}", ids, u, v, a, b)
        ctx.label("itype %d" % s["itype"], "symmetric" if s["ncolh"] == 0 else "vector" if s["ncolh"] == 1 else "full")
    if npages:
        ctx.label("several pages")
    if c["toc"]:
        d2 = ctx.dir()
        p = bx.run_boxer(bx.EXE, d2, tape, [[-1, 0, 0, 0, 0]], c["style"])
        require(p.returncode == 0, "table of contents: status {}", p.returncode)
        lst = [[int(l[k:k + 6]) for k in range(0, len(l), 6)] for l in open(os.path.join(d2, "fort.22")).read().split("\n") if l.strip()]
        heads = []
        for s, C in zip(secs, mats):
            n = sum(1 for l in bx.encode(s, C.tolist(), s["choices"]) if len(l) == 80 and l[1:36] == ("%-35.35s" % s["title"]) and l[36:54] == "%5d%4d%5d%4d" % (s["mat"], s["mt"], s["mat1"], s["mt1"]))
            heads += [[s["itype"], s["mat"], s["mt"], s["mat1"], s["mt1"]]] * n
        require(lst == heads + [[0, 0]], "table of contents {} instead of {}", lst, heads)
        ctx.label("table of contents")
    ctx.nontrivial(any(w[0] == "data" and np.unique(mats[w[1]]).size > 1 for w in want))


SUBS = [Sub("tapes", case(), check, 1600, 60000, "a requested section with at least two different values"),
        Sub("large", case(True), check, 64, 3000, "a requested section with at least two different values")]
