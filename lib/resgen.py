"""Resonance parameters (MF2 MT151) and their covariances (MF32 MT151) as ENDF text."""
import numpy as np
from lib.endfgen import val, cont, fields
from lib.endfdata import Writer, head

NEUTRON_MASS = 1.00866491588


def spins(w, n):
    return [float(w.rs.randint(0, 9)) / 2 for _ in range(n)]


def widths(w, n, zero=False):
    return [0.0] * n if zero else w.pos(n, -4, 0)


def radius(awri):
    return 0.123 * (NEUTRON_MASS * awri) ** (1 / 3) + 0.08


def radii(r, ap, ape, a):
    """(scattering, channel) by NRO and NAPS; numbers or tables"""
    if r["nro"] == 0:
        return ap, a if r["naps"] == 0 else ap
    return ape, {0: a, 1: ape, 2: ap}[r["naps"]]


def resolved(w, r, lo, hi):
    """LRF 1, 2, 3; r: {lrf, nro, naps, ls: [number of resonances per l], lx, fission, apl}"""
    lines = [cont(lo, hi, 1, r["lrf"], r["nro"], r["naps"])]
    d = {"kind": {1: "SingleLevelBreitWigner", 2: "MultiLevelBreitWigner", 3: "ReichMoore"}[r["lrf"]], "lo": lo, "hi": hi, "rows": [], "scat": {}, "chan": {}, "q": {}}
    ape = None
    if r["nro"]:
        l, ape = w.table(2, lo, hi, ylo=-1, yhi=0)
        lines += l
    d["spin"], ap = spins(w, 1)[0], w.one(-1, 0)
    d["lad"], d["nlsc"] = int(w.rs.randint(0, 2)), int(w.rs.randint(0, 5))
    lines.append(cont(d["spin"], ap, 0, d["lad"], len(r["ls"]), d["nlsc"]))
    if r.get("distinct"):
        pool = w.increasing(sum(r["ls"]) + 1, lo, hi)[1:]
        pool = [pool[k] for k in w.rs.permutation(len(pool))]
    for k, n in enumerate(r["ls"]):
        l = k + r.get("l0", 0)
        awri = w.one(0, 2.3)
        e = w.increasing(n, lo, hi) if n > 1 else w.pos(1, 0, 3)
        if r.get("distinct"):
            e, pool = sorted(pool[:n]), pool[n:]
        if r.get("bound") and n > 1:
            e = [-e[1]] + e[1:]
        j = spins(w, n)
        if r["lrf"] == 3:
            apl = w.one(-1, 0) if r["apl"] else 0.0
            j = [-x if w.rs.randint(4) == 0 else x for x in j]
            cols = [e, j, widths(w, n), widths(w, n), widths(w, n, not r["fission"]), widths(w, n, not r["fission"])]
            cols[4] = [-v if w.rs.randint(2) else v for v in cols[4]]
            lines += w.list([v for q in zip(*cols) for v in q], awri, apl, l, 0, n)
            sc = apl or ap
            rows = [[q[0], l] + list(q[1:]) for q in zip(*cols)]
        else:
            gn, gg, gf = widths(w, n), widths(w, n), widths(w, n, not r["fission"])
            gx = widths(w, n) if r["lx"] else [0.0] * n
            gt = [val(a + b + c + x) for a, b, c, x in zip(gn, gg, gf, gx)]
            q = w.signed(1, 1e5)[0] if r["lx"] else 0.0
            d["q"][l] = q
            lines += w.list([v for t in zip(e, j, gt, gn, gg, gf) for v in t], awri, q, l, int(r["lx"]), n)
            sc = ap
            rows = [[E, l, J, t, a, b, f, (t - (a + b + f)) if r["lx"] else 0.0] for E, J, t, a, b, f in zip(e, j, gt, gn, gg, gf)]
        d["scat"][l], d["chan"][l] = radii(r, sc, ape, radius(awri))
        d["rows"] += rows
        d["awri"] = awri
    return lines, d


def rml(w, r, lo, hi):
    lines = [cont(lo, hi, 1, 7, 0, int(w.rs.randint(0, 3)))]
    d = {"kind": "RMatrixLimited", "lo": lo, "hi": hi, "ifg": int(w.rs.randint(0, 2)), "krm": int(w.rs.randint(1, 5)), "pairs": [], "groups": []}
    lines.append(cont(0.0, 0.0, d["ifg"], d["krm"], len(r["groups"]), 0))
    flat = []
    for mt in r["pairs"]:
        p = [w.one(0, 2), w.one(0, 2), float(w.rs.randint(0, 3)), float(w.rs.randint(1, 93)), spins(w, 1)[0], spins(w, 1)[0], w.signed(1, 1e6)[0],
             float(w.rs.choice([-1, 0, 1])), float(w.rs.choice([-1, 0, 1])), float(mt), float(w.rs.choice([-1, 1])), float(w.rs.choice([-1, 0, 1]))]
        flat += p
        d["pairs"].append(p)
    lines += w.list(flat, 0.0, 0.0, len(r["pairs"]), 0, 2 * len(r["pairs"]))
    for nch, nres in r["groups"]:
        aj = spins(w, 1)[0]
        neg = bool(w.rs.randint(2))
        j, pj = (-aj if neg else aj, 0.0) if aj else (0.0, -1.0 if neg else 1.0)
        chans = [[float(w.rs.randint(1, len(r["pairs"]) + 1)), float(w.rs.randint(0, 4)), spins(w, 1)[0], w.signed(1)[0], w.one(-1, 0), w.one(-1, 0)] for _ in range(nch)]
        ext = [int(w.rs.randint(1, 4)) if w.rs.randint(3) == 0 else 0 for _ in range(2)]       # background R-matrix, phase shifts
        lines += w.list([v for c in chans for v in c], j, pj, int(ext[0] > 0), int(ext[1] > 0), nch)
        per = -(-(nch + 1) // 6)
        rows = [[x] + w.signed(nch) for x in (w.increasing(nres, lo, hi) if nres > 1 else w.pos(nres))]
        flat = [v for row in rows for v in row + [0.0] * (6 * per - nch - 1)]
        lines += w.list(flat if nres else [0.0] * 6, 0.0, 0.0, 0, nres, per * nres if nres else 1)
        for x in ext:
            if x:
                lines += [cont(w.one(0, 2), w.one(3, 4), 0, 0, x, 1)] + fields(w.signed(5) + [0.0])
                if x == 1:
                    lines += w.table(1, lo, hi)[0] + w.table(2, lo, hi)[0]
        d["groups"].append({"J": aj, "parity": "-" if neg else "+", "channels": chans, "rows": rows})
    return lines, d


def unresolved(w, r, lo, hi, lfw):
    """case A (lfw 0, lrf 1), B (lfw 1, lrf 1), C (lrf 2); r: {lrf, nro, njs: [number of J per l], ne}"""
    lines = [cont(lo, hi, 2, r["lrf"], r["nro"], 0)]
    d = {"kind": "Unresolved", "lo": lo, "hi": hi, "case": "C" if r["lrf"] == 2 else "B" if lfw else "A", "lssf": int(w.rs.randint(0, 2))}
    ape = None
    if r["nro"]:
        l, ape = w.table(2, lo, hi, ylo=-1, yhi=0)
        lines += l
    d["spin"], ap = spins(w, 1)[0], w.one(-1, 0)
    d["scat"] = ape if r["nro"] else ap
    awri = w.one(0, 2.3)
    es = w.increasing(max(r["ne"], 2), lo, hi)[:r["ne"]]
    d["energies"] = es
    if d["case"] == "B":
        lines += w.list(es, d["spin"], ap, d["lssf"], 0, len(r["njs"]))
        d["rows"] = [[] for _ in es]
    else:
        lines.append(cont(d["spin"], ap, d["lssf"], 0, len(r["njs"]), 0))
        d["rows"] = []
    for l, njs in enumerate(r["njs"]):
        js = [float(k) + 0.5 for k in range(njs)]
        if d["case"] == "A":
            rows = [[w.one(0, 2), j, float(w.rs.randint(1, 3)), w.one(-5, -2), w.one(-3, 0)] for j in js]
            lines += w.list([v for q in rows for v in q + [0.0]], awri, 0.0, l, 0, njs)
            d["rows"] += [[l, q[1], q[0]] + q[2:] + [0.0] for q in rows]
            continue
        lines.append(cont(awri, 0.0, l, 0, njs, 0))
        for j in js:
            if d["case"] == "B":
                q = [w.one(0, 2), j, float(w.rs.randint(1, 3)), w.one(-5, -2), w.one(-3, 0)]
                gf = w.pos(len(es), -3, 0)
                lines += w.list(q + [0.0] + gf, 0.0, 0.0, l, int(w.rs.randint(1, 5)), 0)
                for k, g in enumerate(gf):
                    d["rows"][k].append([l, j, q[0], q[2], q[3], q[4], g])
            else:
                dof = [float(w.rs.randint(0, 4)) for _ in range(4)]
                rows = [[e] + w.pos(5, -4, 1) for e in es]
                lines += w.list([0.0, 0.0] + dof + [v for q in rows for v in q], j, 0.0, int(w.rs.randint(1, 6)), 0, len(es))
                d["rows"] += [[l, j] + q for q in rows]
    return lines, d


def radius_only(w, lo, hi, awr):
    d = {"kind": "ResonanceRange", "lo": lo, "hi": hi, "spin": spins(w, 1)[0]}
    ap = w.one(-1, 0)
    d["scat"], d["chan"] = {0: ap}, {0: radius(awr)}
    return [cont(lo, hi, 0, 0, 0, 0), cont(d["spin"], ap, 0, 0, 0, 0)], d


COLS = {"bw": ['energy', 'L', 'J', 'totalWidth', 'neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth'],
        "rm": ['energy', 'L', 'J', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB']}
PARS = {"bw": ['energy', 'neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth'],
        "rm": ['energy', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB']}
DIGITS = {2: 18, 3: 13, 4: 11, 5: 9, 6: 8}


def correlation(w, n, size):
    """positive definite, unit diagonal; size: how strong"""
    a = w.rs.normal(size=(n, n + 1))
    c = a @ a.T
    s = np.sqrt(np.diag(c))
    c = c / np.outer(s, s)
    return (1 - size) * np.eye(n) + size * c


def intg(corr, nd):
    """INTG lines of a correlation matrix and the matrix they stand for"""
    n, width, lines = len(corr), DIGITS[nd], []
    want = np.eye(n)
    for a in range(n):
        k = np.clip(np.trunc(np.abs(corr[a, :a]) * 10 ** nd), 0, 10 ** nd - 1).astype(int)
        sign = np.where(corr[a, :a] < 0, -1, 1)
        cols = [b for b in range(a) if k[b]]
        for b in cols:
            want[a, b] = want[b, a] = sign[b] * (k[b] + 0.5) / 10 ** nd
        while cols:
            j0 = cols[0]
            cells = []
            while cols and cols[0] < j0 + width:
                cells += [" " * (nd + 1)] * (cols[0] - j0 - len(cells))
                cells.append("%*d" % (nd + 1, sign[cols[0]] * k[cols[0]]))
                cols.pop(0)
            lines.append(("%5d%5d" % (a + 1, j0 + 1) + (" " if nd < 6 else "") + "".join(cells)).ljust(66))
    return [cont(0.0, 0.0, nd, n, len(lines), 0)] + lines, want


def covariance(w, r, d):
    """one range of MF32; r: {lrf, lcomp, mpar, shuffle, blocks, digits, isr}, d: the facts of the MF2 range.
    Returns lines and {rows (in the order of the file), mpar, cov (full)}"""
    kind = "rm" if r["lrf"] == 3 else "bw"
    cols, pars = COLS[kind], PARS[kind]
    lines = [cont(d["lo"], d["hi"], 1, r["lrf"], r["nro"], 0)]
    if r["nro"]:
        # relative covariances of the scattering radius, NI lists as in File 33
        ni = int(w.rs.randint(1, 3))
        lines.append(cont(0.0, 0.0, 0, 0, 0, ni))
        for _ in range(ni):
            lines += w.list([d["lo"], w.one(-3, -2), d["hi"], 0.0], 0.0, 0.0, 0, 1, 2)
    lines.append(cont(d["spin"], w.one(-1, 0), 0, r["lcomp"], len(r["ls"]), r["isr"]))
    if r["isr"]:
        lines += w.list(w.pos(len(r["ls"])), 0.0, 0.0, 0, 0, 1) if kind == "rm" else [cont(0.0, w.one(-2, -1), 0, 0, 0, 0)]
    rows = list(d["rows"])
    if r["shuffle"] and r["lcomp"]:
        rows = [rows[k] for k in w.rs.permutation(len(rows))]
    printed = [[q[0]] + q[2:7] for q in rows]
    mpar = 4 if r["lcomp"] == 0 else r["mpar"]
    n = mpar * len(rows)
    where = [cols.index(p) for p in pars[:mpar]]
    std = []
    for q in rows:
        for c in where:
            v = abs(q[c]) if q[c] else 0.0
            std.append(val((v or 1e-3) * 10.0 ** w.rs.uniform(-2, -0.7)))
    std = np.array(std)
    corr = correlation(w, n, 0.8)
    cov = np.zeros((n, n))
    if r["lcomp"] == 0:
        k = 0
        for i, count in enumerate(r["ls"]):
            flat = []
            for _ in range(count):
                s = slice(4 * k, 4 * k + 4)
                b = corr[s, s] * np.outer(std[s], std[s])
                b[0, 1:] = b[1:, 0] = 0.0
                if not r["fission"]:
                    b[3, :] = b[:, 3] = 0.0
                b = np.array([[val(v) for v in row] for row in b])
                cov[s, s] = b
                flat += printed[k] + [b[0, 0], b[1, 1], b[1, 2], b[2, 2], b[1, 3], b[2, 3], b[3, 3]] + [0.0] * 5
                k += 1
            lines += w.list(flat, d["awri"], 0.0, i + r.get("l0", 0), 0, count)
    elif r["lcomp"] == 1:
        lines.append(cont(d["awri"], 0.0, 0, 0, len(r["blocks"]), 0))
        cuts = [int(round(c * len(rows))) for c in np.cumsum(r["blocks"]) / sum(r["blocks"])]
        lo = 0
        for hi in cuts:
            s = slice(mpar * lo, mpar * hi)
            b = corr[s, s] * np.outer(std[s], std[s])
            b = np.array([[val(v) for v in row] for row in b]).reshape(mpar * (hi - lo), mpar * (hi - lo))
            cov[s, s] = b
            lines += w.list([v for q in printed[lo:hi] for v in q] + list(b[np.triu_indices(len(b))]), 0.0, 0.0, mpar, 0, hi - lo)
            lo = hi
    else:
        flat = []
        for k, q in enumerate(printed):
            u = list(std[mpar * k:mpar * (k + 1)]) + [0.0] * (5 - mpar)
            flat += q + ([u[0], 0.0, 0.0, u[1], u[2], u[3]] if kind == "bw" else [u[0], 0.0] + u[1:])
        lines += w.list(flat, d["awri"], 0.0, 0, 0, len(rows))
        l, c = intg(corr, r["digits"])
        lines += l
        cov = c * np.outer(std, std)
    return lines, {"rows": rows, "mpar": mpar, "cov": cov, "kind": kind, "lo": d["lo"], "hi": d["hi"], "lcomp": r["lcomp"]}


def mf32(m, isotopes, facts, seed):
    """covariances for the ranges of mf2 (resolved ones with LRF 1-3)"""
    w = Writer(seed)
    lines, out, k = [head(m, 0, 0, len(isotopes), 0)], [], 0
    for iso in isotopes:
        lines.append(cont(m["Z"] * 1000.0 + m["A"], val(1.0 / len(isotopes)), 0, iso["lfw"], len(iso["ranges"]), 0))
        for r in iso["ranges"]:
            if r["type"] == "urr":          # its covariances are not part of the result
                lines.append(cont(facts[k]["lo"], facts[k]["hi"], 2, 1, 0, 0))
                lines.append(cont(facts[k]["spin"], 0.5, 0, 0, len(r["njs"]), 0))
                for l, njs in enumerate(r["njs"]):
                    lines += w.list([v for q in range(njs) for v in (w.one(0, 2), q + 0.5, w.one(-5, -2), w.one(-3, 0), 0.0, 0.0)], 233.0, 0.0, l, 0, njs)
                n = 3 * sum(r["njs"])
                lines += w.list(w.pos(n * (n + 1) // 2, -4, -2), 0.0, 0.0, 3, 0, n)
            else:
                l, d = covariance(w, r, facts[k])
                d["index"] = k
                lines += l
                out.append(d)
            k += 1
    return lines, out


def mf2(m, isotopes, seed):
    """isotopes: [{lfw, ranges: [..]}] -> (lines, facts per range in order)"""
    w = Writer(seed)
    lines, facts = [head(m, 0, 0, len(isotopes), 0)], []
    for iso in isotopes:
        lines.append(cont(m["Z"] * 1000.0 + m["A"], val(1.0 / len(isotopes)), 0, iso["lfw"], len(iso["ranges"]), 0))
        lo = 1e-5
        for r in iso["ranges"]:
            hi = val(max(lo, 0.1) * 10.0 ** w.rs.uniform(1, 2.5))
            if r["type"] == "radius":
                l, d = radius_only(w, lo, hi, m["awr"])
            elif r["type"] == "rml":
                l, d = rml(w, r, lo, hi)
            elif r["type"] == "urr":
                l, d = unresolved(w, r, lo, hi, iso["lfw"])
            else:
                l, d = resolved(w, r, lo, hi)
            lines += l
            facts.append(d)
            lo = hi
    return lines, facts
