"""Independent BOXER tape writer, reader of the decompressed text, and runner of the compiled program."""
import os, subprocess, sys
import numpy as np
from hypothesis import strategies as st
from lib.core import Violation, require

# value formats: number -> (values per line, printf)
VFMT = {7: (11, "%7.4f"), 8: (10, "%8.5f"), 9: (8, "%9.2E"), 10: (8, "%10.3E"), 11: (7, "%11.4E"), 12: (6, "%12.5E"), 13: (6, "%13.6E"), 14: (5, "%14.7E")}
CFMT = {1: 80, 2: 40, 3: 26, 4: 20, 5: 16, 6: 13}


def fmt_value(x, nvf):
    s = VFMT[nvf][1] % x
    w = int(VFMT[nvf][1][1:].split(".")[0])
    if len(s) > w:
        raise ValueError("does not fit: " + s)
    return s


def header(s, nval, ncon, more):
    title = s.get("title", "")
    h = "%1d%-35.35s%5d%4d%5d%4d%4d%3d%4d%3d%4d%4d%4d" % (s["itype"], title, s["mat"], s["mt"], s["mat1"], s["mt1"], nval, s["nvf"], ncon, s["ncf"],
                                                     more, s["nrow"], s["ncolh"])
    assert len(h) == 80, h
    return h


def encode(s, data, choices):
    """Lines of one section. data[i][j]: values as strings parse to; choices: list of ints steering run lengths, copies and page breaks."""
    n, m = len(data), len(data[0])
    sym = s["ncolh"] == 0
    it = iter(choices)

    def choose():
        return next(it, 0)
    maxneg = 10 ** (s["ncf"] - 1) - 1
    maxpos = 10 ** s["ncf"] - 1
    out = []
    page_vals, page_cons = [], []
    state = {"start": 0}

    def flush(more):
        lines = [header(s, len(page_vals), len(page_cons), more)]
        per = VFMT[s["nvf"]][0]
        for k in range(0, len(page_vals), per):
            lines.append("".join(fmt_value(v, s["nvf"]) for v in page_vals[k:k + per]))
        per = CFMT[s["ncf"]]
        for k in range(0, len(page_cons), per):
            lines.append("".join("%*d" % (s["ncf"], c) for c in page_cons[k:k + per]))
        out.extend(lines)
        page_vals.clear()
        page_cons.clear()
    # cells in order, cut into pages at row ends
    rows = []
    for i in range(n):
        rows.append([(i, j) for j in range(i if sym else 0, m)])
    pages, cur = [], []
    for i in range(n):
        cur.append(i)
        cells_if_more = sum(len(rows[k]) for k in cur) + (len(rows[i + 1]) if i + 1 < n else 0)
        if i + 1 < n and (cells_if_more > 1800 or (s.get("pages") and choose() % 4 == 0)):
            pages.append(cur)
            cur = []
    pages.append(cur)
    for pi, pg in enumerate(pages):
        first = pg[0]
        cells = [c for i in pg for c in rows[i]]
        k = 0
        while k < len(cells):
            i, j = cells[k]

            def above(c):
                return data[c[0] - 1][c[1]] if c[0] > first else 0.0
            # longest copy run and longest repeat run from here
            a = 0
            while k + a < len(cells) and data[cells[k + a][0]][cells[k + a][1]] == above(cells[k + a]):
                a += 1
            r = 1
            while k + r < len(cells) and data[cells[k + r][0]][cells[k + r][1]] == data[i][j]:
                r += 1
            w = choose()
            if a and (w % 3 != 0 or maxneg == 0):
                ln = min(a, maxpos)
                if w % 5 == 4:
                    ln = max(1, ln // 2)
                page_cons.append(ln)
            else:
                ln = min(r, maxneg)
                if w % 5 == 4:
                    ln = max(1, ln // 2)
                page_cons.append(-ln)
                page_vals.append(data[i][j])
            k += ln
        flush(1 if pi + 1 < len(pages) else 0)
    return out


def as_printed(x, nvf):
    """value a format-nvf field holds, in single precision"""
    return float(np.float32(float(fmt_value(x, nvf))))


@st.composite
def value(draw, nvf, kinds=("zero", "pos", "neg")):
    k = draw(st.sampled_from(kinds))
    if k == "zero":
        return 0.0
    sign = -1 if k == "neg" else 1
    if nvf <= 8:
        v = draw(st.integers(1, 9999)) / 10 ** draw(st.integers(4 if nvf == 7 else 5, 6) if sign < 0 else st.integers(3, 5))
    else:
        v = draw(st.integers(1000000, 9999999)) * 10.0 ** (draw(st.integers(-30, 30)) - 6)
    return sign * v


def run_boxer(exe, folder, tape_lines, requests, style="comma"):
    with open(os.path.join(folder, "fort.20"), "w") as f:
        f.write("\n".join(tape_lines) + ("\n" if tape_lines else ""))
    if style == "comma":
        inp = "".join(",".join(str(x) for x in r) + "\n" for r in requests) + "0,0\n"
    else:
        inp = "".join("".join("%6d" % x for x in r) + "\n" for r in requests) + "%6d%6d\n" % (0, 0)
    try:
        p = subprocess.run([exe], input=inp, cwd=folder, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=20)
    except subprocess.TimeoutExpired:
        raise Violation("boxer2mat did not end within 20 s")
    return p


def read_out(path):
    """list of ("error", line) and ("data", header, [[row strings]...])"""
    if not os.path.exists(path):
        return []
    out = []
    for line in open(path).read().split("\n"):
        if not line.strip():
            continue
        if "***ERROR" in line:
            out.append(["error", line])
        elif line[:1].isdigit():
            out.append(["data", line, []])
        else:
            require(len(out) and out[-1][0] == "data", "unexpected line {!r}", line)
            line = line.rstrip("\r")
            require(len(line) % 10 == 0 and len(line) <= 80, "data line {!r}", line)
            out[-1][2].append([float(line[k:k + 10]) for k in range(0, len(line), 10)])
    return out


def close(got, want):
    """got: printed with 3 decimals; want: exact"""
    if want == 0:
        return got == 0
    if got == 0:
        return abs(want) < 1e-37
    return abs(got - want) <= 0.50001 * 10.0 ** (np.floor(np.log10(abs(want)) + 1e-12) - 3) or abs(got / want - 1) < 1e-7


EXE = os.path.join(os.environ.get("VERIF_SCRATCH", ""), "boxer2mat")


def compile_boxer():
    src = os.path.join(os.environ["VERIF_REPO"], "boxer2mat", "boxer2mat.f")
    r = subprocess.run(["gfortran", "-w", src, "-o", EXE], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        sys.stderr.write(r.stdout)
        sys.exit(3)
