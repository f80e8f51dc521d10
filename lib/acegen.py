"""Writer of ACE neutron tables from a small structural description (independent of the readers under test).

build(spec) -> Table with nxs, jxs, xss (all zero-based lists of what the file holds), kinds (int or real per XSS entry) and facts: the physical
content in eV that the table encodes.  Values come from a numpy generator seeded by spec["seed"], structure from the spec.
"""
import struct
import numpy as np
from hypothesis import strategies as st

MEV = 1.0e6
K_MEV = 8.617333262145e-11


def r11(x):
    return float("%.11E" % x)


class Table:
    pass


class Builder:
    def __init__(self, spec):
        self.s = spec
        self.rs = np.random.RandomState([spec["seed"] % 2 ** 31, 11])
        self.xss, self.isint = [], []
        self.facts = {"rx": {}}

    # ---- primitives
    def i(self, *vals):
        for v in vals:
            self.xss.append(int(v))
            self.isint.append(True)

    def f(self, vals):
        for v in vals:
            self.xss.append(float(v))
            self.isint.append(False)

    def here(self):
        return len(self.xss) + 1          # one-based position of the next entry

    def pos(self, n, lo=-4, hi=3):
        return [r11(v) for v in 10.0 ** self.rs.uniform(lo, hi, n)]

    def increasing(self, n, lo, hi):
        """n increasing values, relative spacing at least 1e-3"""
        v = np.sort(self.rs.uniform(np.log(lo), np.log(hi), n))
        gap = (np.log(hi) - np.log(lo)) / (n + 1)
        v = v * 0.5 + 0.5 * (np.log(lo) + gap * np.arange(1, n + 1))
        return [r11(x) for x in np.exp(v)]

    def tab1(self, x, y, regions):
        """writes NR NBT INT NE x y; returns (x, y, breakpoints, interpolation)"""
        n = len(x)
        if not regions or n < 2:
            self.i(0)
            bp, it = [n], [2]
        else:
            k = min(len(regions), n - 1)
            bp = sorted(self.rs.choice(np.arange(2, n), k - 1, replace=False).tolist()) + [n] if k > 1 else [n]
            it = regions[:k]
            self.i(len(bp), *bp)
            self.i(*it)
        self.i(n)
        self.f(x)
        self.last_y = len(self.xss)
        self.f(y)
        return bp, it

    def cdf(self, x, p, hist):
        c = [0.0]
        for a in range(1, len(x)):
            w = x[a] - x[a - 1]
            c.append(c[-1] + w * (p[a - 1] if hist else 0.5 * (p[a] + p[a - 1])))
        return c

    def spectrum(self, n, lo, hi, hist):
        """outgoing energies (MeV), density, cumulative: normalised and rounded as printed"""
        x = self.increasing(n, lo, hi)
        p = (10.0 ** self.rs.uniform(-2, 1, n)).tolist()
        if self.rs.randint(3) == 0:
            p[0] = 0.0
        if hist:
            p[-1] = 0.0
        c = self.cdf(x, p, hist)
        if c[-1] == 0:
            p = [1.0] * n
            c = self.cdf(x, p, hist)
        p = [r11(v / c[-1]) for v in p]
        c = [r11(v / c[-1]) for v in c]
        c[0], c[-1] = 0.0, 1.0
        if self.s.get("cend"):
            # cumulative distributions that do not quite end at one
            c = [r11(v * self.s["cend"]) for v in c]
        return x, p, c

    # ---- distributions; each returns a description in eV
    def out_table(self, base, extra=0, lo=1e-8, hi=15.0):
        """INTT', NP, E, P, C (+ extra columns); returns dict"""
        nd = int(self.rs.randint(3)) if self.s.get("discrete") and self.rs.randint(3) == 0 else 0
        hist = bool(self.rs.randint(2))
        ncont = int(self.rs.randint(2, 7)) + self.s.get("longer", 0)
        d = {"hist": hist, "nd": nd}
        x, p, c = self.spectrum(ncont, lo, hi, hist)
        if nd:
            pd = [r11(v) for v in self.rs.uniform(0.01, 0.2, nd)]
            xd = sorted(self.increasing(nd, lo, hi), reverse=True)
            tot = sum(pd)
            p = [r11(v * (1 - tot)) for v in p]
            c = [r11(tot + v * (1 - tot)) for v in c]
            c[-1] = 1.0
            cd = [r11(v) for v in np.cumsum(pd)]
            d["discrete"] = {"x": [v * MEV for v in xd], "p": pd, "c": cd}
            x, p, c = xd + x, pd + p, cd + c
        if extra and self.s.get("neg_pdf"):
            # slightly negative densities occur in real correlated distributions
            k = len(p) - ncont + int(self.rs.randint(ncont))
            p[k] = -p[k]
        d["x"], d["p"], d["c"] = x, p, c
        # an invalid interpolation is read as linear-linear
        self.i(10 * nd + (1 if hist else 3 if int(c[len(c) // 2] * 1e9) % 16 == 5 else 2), len(x))
        self.f(x)
        d["at_p"] = len(self.xss)
        self.f(p)
        self.f(c)
        if extra == 2:
            d["r"] = [r11(v) for v in self.rs.uniform(0, 1, len(x))]
            d["a"] = [r11(v) for v in self.rs.uniform(0, 3, len(x))]
            self.f(d["r"])
            self.f(d["a"])
        elif extra == 1:
            at = len(self.xss)
            self.i(*[0] * len(x))
            d["mu"] = []
            for j in range(len(x)):
                if self.rs.randint(4) == 0:
                    d["mu"].append(None)
                else:
                    self.xss[at + j] = self.here() - base + 1
                    d["mu"].append(self.mu_table())
        return d

    def mu_table(self):
        n = int(self.rs.randint(2, 6))
        hist = bool(self.rs.randint(2))
        mid = np.sort(self.rs.uniform(-0.9, 0.9, n - 2)).tolist() if n > 2 else []
        x = [-1.0] + [r11(v) for v in mid] + [1.0]
        p = self.rs.uniform(0.1, 2, n).tolist()
        c = self.cdf(x, p, hist)
        p = [r11(v / c[-1]) for v in p]
        c = [r11(v / c[-1]) for v in c]
        c[0], c[-1] = 0.0, 1.0
        self.i(1 if hist else 2, n)
        self.f(x)
        self.f(p)
        self.f(c)
        return {"hist": hist, "x": x, "p": p, "c": c}

    def law(self, law, base, emin, emax, regions):
        """data of one law at the current position"""
        d = {"law": law}
        ne = max(int(self.rs.randint(1, 4)) + 1, len(regions or []) + 2 if self.rs.randint(2) else 0)
        E = self.increasing(ne, emin, emax)
        if law == 3:
            v = self.pos(2, -3, 1)
            self.f(v)
            d.update(threshold=v[0] * MEV, mass_ratio=v[1])
        elif law in (4, 44, 61):
            n = len(E)
            if regions and n > 1:
                self.i(1, n, regions[0] if regions[0] in (1, 2) else 2)
                bp, it = [n], [regions[0] if regions[0] in (1, 2) else 2]
            else:
                self.i(0)
                bp, it = [n], [2]
            self.i(n)
            self.f(E)
            at = len(self.xss)
            self.i(*[0] * n)
            d.update(energy=[e * MEV for e in E], bp=bp, it=it, out=[])
            for k in range(n):
                self.xss[at + k] = self.here() - base + 1
                d["out"].append(self.out_table(base, {4: 0, 44: 2, 61: 1}[law]))
        elif law in (7, 9):
            y = self.pos(ne, -2, 1)
            bp, it = self.tab1(E, y, regions)
            u = r11(self.rs.uniform(-20, 5))
            self.f([u])
            d.update(x=[e * MEV for e in E], y=[v * MEV for v in y], bp=bp, it=it, u=u * MEV)
        elif law == 11:
            y = self.pos(ne, -2, 1)
            bp, it = self.tab1(E, y, regions)
            d.update(x=[e * MEV for e in E], y=[v * MEV for v in y], bp=bp, it=it)
            E2 = self.increasing(3, emin, emax)
            y = self.pos(3, -2, 1)
            bp, it = self.tab1(E2, y, regions)
            u = r11(self.rs.uniform(-20, 5))
            self.f([u])
            d.update(x2=[e * MEV for e in E2], y2=[v / MEV for v in y], bp2=bp, it2=it, u=u * MEV)
        elif law == 66:
            n = int(self.rs.randint(3, 6))
            a = self.pos(1, 0, 1)[0]
            self.i(n)
            self.f([a])
            d.update(n=n, mass=a)
        elif law == 2:
            lp = int(self.rs.randint(3))
            e = self.pos(1, -3, 1)[0]
            self.i(lp)
            self.f([e])
            d.update(primary=lp, energy=e * MEV)
        else:
            raise ValueError(law)
        return d

    def laws(self, base, laws, emin, emax, regions):
        """chain of laws (LNW LAW IDAT applicability data); returns (locator, [applicability], [law])"""
        first = self.here() - base + 1
        out, app = [], []
        for k, law in enumerate(laws):
            at = len(self.xss)
            self.i(0, law, 0)
            E = [emin, emax] if emin < emax else [emax, emax * 2]
            y = [1.0, 1.0] if len(laws) == 1 else [r11(1.0 / len(laws))] * 2
            self.tab1(E, y, [])
            app.append({"x": [e * MEV for e in E], "y": y})
            self.xss[at + 2] = self.here() - base + 1
            out.append(self.law(law, base, emin, emax, regions))
            if k + 1 < len(laws):
                self.xss[at] = self.here() - base + 1
        return first, app, out

    def angles(self, base, kinds, emin, emax):
        first = self.here() - base + 1
        n = len(kinds)
        E = self.increasing(n, emin, emax)
        self.i(n)
        self.f(E)
        at = len(self.xss)
        self.i(*[0] * n)
        out = []
        for k, kind in enumerate(kinds):
            loc = self.here() - base + 1
            if kind == "iso":
                out.append({"kind": "iso"})
            elif kind == "bins":
                self.xss[at + k] = loc
                mu = np.sort(self.rs.uniform(-0.99, 0.99, 31))
                mu = 0.5 * mu + 0.5 * np.linspace(-1, 1, 33)[1:-1]
                mu = [-1.0] + [r11(v) for v in mu] + [1.0]
                self.f(mu)
                out.append({"kind": "bins", "mu": mu})
            else:
                self.xss[at + k] = -loc
                out.append({"kind": "tab", **self.mu_table()})
        return first, {"energy": [e * MEV for e in E], "mu": out}

    def nu_block(self, kind, regions, emin, emax):
        if kind == "poly":
            n = int(self.rs.randint(1, 4))
            c = [r11(v) for v in self.rs.uniform(0.1, 3, n)]
            self.i(1, n)
            self.f(c)
            return {"kind": "poly", "coef": [v * MEV ** (-k) for k, v in enumerate(c)]}
        n = int(self.rs.randint(2, 9))
        x = self.increasing(n, emin, emax)
        y = [r11(v) for v in self.rs.uniform(1.0, 5.0, n)]
        self.i(2)
        bp, it = self.tab1(x, y, regions)
        return {"kind": "tab", "x": [v * MEV for v in x], "y": y, "bp": bp, "it": it, "raw_x": x, "at": self.last_y}


def build(spec):
    b = Builder(spec)
    s = spec
    F = b.facts
    N = s["nes"]
    grid = b.increasing(N, 1e-11, 20.0)
    if s.get("fine"):
        # points that are close together, as they occur at thresholds and narrow resonances
        rs = np.random.RandomState([s["seed"], 77])
        for k in range(1, N):
            if rs.randint(3) == 0:
                grid[k] = r11(grid[k - 1] * (1 + 10.0 ** rs.uniform(-8, -5)))
    emin, emax = grid[0], grid[-1]
    jxs = [0] * 33
    nxs = [0] * 17
    total, elastic, heat = b.pos(N), b.pos(N), b.pos(N, -1, 2)
    absorb = [0.0] * N if s.get("zero_abs") else b.pos(N)
    for z in s.get("neg_el", []):
        elastic[z % N] = -elastic[z % N]
    jxs[1] = b.here()
    for a in (grid, total, absorb, elastic, heat):
        b.f(a)
    F.update(grid=[e * MEV for e in grid], total=total, absorption=absorb, elastic=elastic, heating=heat)
    rxs = s["reactions"]
    neutron = [r for r in rxs if r.get("laws")]
    others = [r for r in rxs if not r.get("laws")]
    rxs = neutron + others
    fission = [r for r in neutron if r.get("fission")]
    nu = s.get("nu") if fission else None
    if nu:
        jxs[2] = b.here()
        F["nu"] = {}
        if nu["mode"] == "both":
            at = len(b.xss)
            b.i(0)
            F["nu"]["prompt"] = b.nu_block(nu["prompt"], nu.get("regions"), emin, emax)
            b.xss[at] = -(len(b.xss) - at - 1)
            F["nu"]["total"] = b.nu_block(nu["total"], nu.get("regions"), emin, emax)
        else:
            F["nu"]["prompt" if nu.get("delayed") else "single"] = b.nu_block(nu["prompt"], nu.get("regions"), emin, emax)
    NTR, NR = len(rxs), len(neutron)
    jxs[3] = b.here()
    b.i(*[r["mt"] for r in rxs])
    jxs[4] = b.here()
    for r in rxs:
        q = r11(b.rs.uniform(-15, 190 if r["mt"] == 18 else 8))
        b.f([q])
        F["rx"][str(r["mt"])] = {"q": q * MEV, "neutron": bool(r.get("laws")), "fission": bool(r.get("fission"))}
    jxs[5] = b.here()
    ty_at = {}
    for r in rxs:
        f = F["rx"][str(r["mt"])]
        if r.get("fission"):
            t = 19
        elif r.get("laws"):
            t = r.get("ty", 1) * (-1 if r.get("com") else 1)
            if r.get("ytab"):
                ty_at[r["mt"]] = len(b.xss)
        else:
            t = 0
        f["com"] = t < 0
        f["yield"] = abs(t) if t != 19 else None
        b.i(t)
    jxs[6] = b.here()
    at = len(b.xss)
    b.i(*[0] * NTR)
    jxs[7] = b.here()
    for k, r in enumerate(rxs):
        b.xss[at + k] = b.here() - jxs[7] + 1
        th = min(r["thr"], N - 1)
        n = N - th if not r.get("short") else max(1, N - th - r["short"])
        b.i(th + 1, n)
        xs = b.pos(n)
        if s.get("only_capture") and r["mt"] == 102:
            xs = list(absorb[th:th + n])
        if r.get("first_zero") and n > 1:
            xs[0] = 0.0
        for z in r.get("zeros", []):
            if z < n:
                xs[z] = 0.0
        for z in r.get("tiny", []):
            if z < n:
                xs[z] = r11(xs[z] * 1e-120)
        for z in r.get("neg", []):
            if z < n:
                xs[z] = -xs[z]
        b.f(xs)
        F["rx"][str(r["mt"])].update(thr=th, x=F["grid"][th:th + n], xs=xs, at=len(b.xss) - n)
    # angular distributions
    jxs[8] = b.here()
    at = len(b.xss)
    b.i(*[0] * (NR + 1))
    jxs[9] = b.here()
    F["angle"] = {}
    ang = [s.get("elastic_angle", [])] + [r.get("angle", []) for r in neutron]
    for k, kinds in enumerate(ang):
        key = "2" if k == 0 else str(neutron[k - 1]["mt"])
        corr = k > 0 and any(l in (44, 61) for l in neutron[k - 1]["laws"])
        if corr:
            b.xss[at + k] = -1
            F["angle"][key] = None
        elif not kinds:
            F["angle"][key] = None
        else:
            b.xss[at + k], F["angle"][key] = b.angles(jxs[9], kinds, emin, emax)
    # energy distributions
    jxs[10] = b.here()
    at = len(b.xss)
    b.i(*[0] * NR)
    jxs[11] = b.here()
    for k, r in enumerate(neutron):
        f = F["rx"][str(r["mt"])]
        if r["mt"] in ty_at:
            loc = b.here() - jxs[11] + 101
            b.xss[ty_at[r["mt"]]] = -loc if r.get("com") else loc
            x = b.increasing(3, emin, emax)
            y = b.pos(3, -1, 1)
            bp, it = b.tab1(x, y, [2])
            f["yield"] = {"x": [v * MEV for v in x], "y": y}
        lo = f["x"][0] / MEV
        b.xss[at + k], f["app"], f["dist"] = b.laws(jxs[11], r["laws"], r11(lo), max(emax, r11(lo * 2)), r.get("regions"))
        if r.get("shared"):
            pass
    # photon production
    ph = s.get("photons", [])
    F["photon"] = []
    if ph:
        jxs[12] = b.here()
        F["gpd"] = b.pos(N)
        b.f(F["gpd"])
        jxs[13] = b.here()
        b.i(*[p["mt"] * 1000 + k + 1 for k, p in enumerate(ph)])
        jxs[14] = b.here()
        at = len(b.xss)
        b.i(*[0] * len(ph))
        jxs[15] = b.here()
        for k, p in enumerate(ph):
            b.xss[at + k] = b.here() - jxs[15] + 1
            f = {"mt": p["mt"], "mf": p["mf"]}
            b.i(p["mf"])
            if p["mf"] in (12, 16):
                b.i(p["mt"])
                x = b.increasing(3, emin, emax)
                y = b.pos(3, -2, 1)
                bp, it = b.tab1(x, y, [])
                f.update(x=[v * MEV for v in x], y=y)
            else:
                th = min(p.get("thr", 0), N - 1)
                b.i(th + 1, N - th)
                y = b.pos(N - th)
                b.f(y)
                f.update(thr=th, xs=y)
            F["photon"].append(f)
        jxs[16] = b.here()
        at = len(b.xss)
        b.i(*[0] * len(ph))
        jxs[17] = b.here()
        for k, p in enumerate(ph):
            if p.get("angle"):
                b.xss[at + k], F["photon"][k]["angle"] = b.angles(jxs[17], p["angle"], emin, emax)
        jxs[18] = b.here()
        at = len(b.xss)
        b.i(*[0] * len(ph))
        jxs[19] = b.here()
        for k, p in enumerate(ph):
            b.xss[at + k], _, F["photon"][k]["dist"] = b.laws(jxs[19], [p["law"]], emin, emax, None)
        jxs[20] = b.here()
        mts = sorted({p["mt"] for p in ph})
        b.i(len(mts), *mts)
    # unresolved resonance tables
    if s.get("urr"):
        u = s["urr"]
        jxs[23] = b.here()
        E = b.increasing(u["n"], 1e-3, 1e-1)
        b.i(u["n"], u["m"], u["int"], u["ilf"], u["ioa"], u["iff"])
        b.f(E)
        tab = []
        for _ in E:
            cum = np.sort(b.rs.uniform(0, 1, u["m"])).tolist()
            cum[-1] = 1.0
            rows = [[r11(v) for v in cum]] + [b.pos(u["m"]) for _ in range(5)]
            for row in rows:
                b.f(row)
            tab.append(rows)
        F["urr"] = {"energy": [e * MEV for e in E], "table": tab, **u}
    # delayed neutrons
    if nu and nu.get("delayed"):
        jxs[24] = b.here()
        b.i(2)
        x = b.increasing(3, emin, emax)
        y = [r11(v) for v in b.rs.uniform(0.005, 0.05, 3)]
        dbp, dit = b.tab1(x, y, nu.get("dregions"))
        F["nu"]["delayed"] = {"x": [v * MEV for v in x], "y": y, "bp": dbp, "int": dit}
        G = nu["delayed"]
        nxs[8] = G
        jxs[25] = b.here()
        w = b.rs.uniform(0.2, 1, G)
        w = [r11(v) for v in w / w.sum()]
        F["groups"] = []
        # probabilities that depend on energy for all or some groups, adding up to one
        free = [g for g in range(G) if nu.get("varying") == "all" or nu.get("varying") and (nu["varying"] is True or b.rs.randint(2))]
        if free:
            gx = sorted([emin] + b.increasing(1, emin * 10, emax / 10) + [emax])
            raw = b.rs.uniform(0.2, 1, (len(free), 3))
            raw *= (1 - sum(w[g] for g in range(G) if g not in free)) / raw.sum(axis=0)
            gys = {g: [r11(v) for v in raw[i]] for i, g in enumerate(free)}
        for g in range(G):
            lam = r11(10.0 ** b.rs.uniform(-10, -8))
            b.f([lam])
            px, py = (gx, gys[g]) if g in free else ([emin, emax], [w[g]] * 2)
            b.tab1(px, py, nu.get("gregions"))
            F["groups"].append({"decay": lam * 1e8, "x": [v * MEV for v in px], "p": py})
        jxs[26] = b.here()
        at = len(b.xss)
        b.i(*[0] * G)
        jxs[27] = b.here()
        for g in range(G):
            b.xss[at + g], _, F["groups"][g]["dist"] = b.laws(jxs[27], [4], emin, emax, None)
    jxs[22] = len(b.xss)
    nxs[1] = len(b.xss)
    nxs[2] = s["zaid"]
    nxs[3], nxs[4], nxs[5], nxs[6], nxs[7] = N, NTR, NR, len(ph), len({p["mt"] for p in ph})
    t = Table()
    t.name = "%d.%s" % (s["zaid"], s.get("suffix", "80c"))
    t.awr, t.kT = s.get("awr", 236.0058), s.get("kT", r11(300.0 * K_MEV))
    t.izaw = s.get("izaw") or [[0, 0.0]] * 16
    t.nxs, t.jxs, t.xss, t.isint = nxs[1:], jxs[1:], b.xss, b.isint
    t.facts = F
    t.order = [r["mt"] for r in rxs]
    return t


# ------------------------------------------------------------------ containers
def number(v, isint, style="E"):
    if isint:
        return "%20d" % v
    s = "%20.11E" % v
    if style == "short" and v != 0 and abs(np.log10(abs(v))) >= 99:
        m, e = s.split("E")
        s = (m + e).rjust(20)
    return s


def ascii_text(t, style="old", comment="generated table", eol_blank=False):
    L = []
    head = "%10s%12.6f%12.5E %10s" % (t.name, t.awr, t.kT, "10/20/2030")
    if style == "new":
        L.append("2.0.0 %20s   ENDFB-VII.1" % t.name)
        L.append("%12.6f %12.5E %10s%5d" % (t.awr, t.kT, "2030-10-20", 3))
        L.append("first comment line of the new header")
    L.append(head)
    L.append("%-70s%10s" % (comment[:70], "mat 9228"))
    for k in range(0, 16, 4):
        L.append("".join("%7d%11.6f" % (int(z), float(a)) for z, a in t.izaw[k:k + 4]))
    ints = list(t.nxs) + list(t.jxs)
    for k in range(0, 48, 8):
        L.append("".join("%9d" % v for v in ints[k:k + 8]))
    f = [number(v, i, getattr(t, "number_style", "short")) for v, i in zip(t.xss, t.isint)]
    for k in range(0, len(f), 4):
        L.append("".join(f[k:k + 4]))
    return "\n".join(L) + "\n"


def head_values(t):
    """weight ratio and temperature as the header prints them"""
    return float("%12.6f" % t.awr), float("%12.5E" % t.kT)


def binary_bytes(t):
    awr, kT = head_values(t)
    out = struct.pack("=10sdd10s70s10s", ("%10s" % t.name).encode(), awr, kT, b"10/20/2030", b"%-70s" % b"generated", b"%10s" % b"mat")
    for z, a in t.izaw:
        out += struct.pack("=id", int(z), float(a))
    out += struct.pack("=48i", *(list(t.nxs) + list(t.jxs)))
    out += b"\0" * (4096 - len(out))
    x = struct.pack("=%dd" % len(t.xss), *[float(v) for v in t.xss])
    x += b"\0" * (-len(x) % 4096)
    return out + x


# ------------------------------------------------------------------ generators
NEUTRON_MTS = [16, 17, 22, 28, 37, 91]
LEVELS = [51, 52, 53, 60, 90]
OTHER_MTS = [102, 103, 104, 105, 106, 107, 108, 111, 112]
GAS = [203, 204, 207, 444, 301]


@st.composite
def reaction(draw, mt, nes, simple=False):
    r = {"mt": mt, "thr": draw(st.sampled_from([0, 0, 1, 2, nes // 2, nes - 2])) if mt not in (18, 102) else 0}
    r["thr"] = max(0, min(r["thr"], nes - 2))
    if mt in (18, 19, 20, 21, 38):
        r["fission"] = True
        r["thr"] = 0
        r["laws"] = [4] if simple else draw(st.sampled_from([[4], [4], [4], [11], [7], [9], [61]]))
    elif mt in NEUTRON_MTS or mt in LEVELS or mt == 5 or 875 <= mt <= 891:
        if mt in LEVELS:
            r["laws"] = draw(st.sampled_from([[3], [3], [3], [44]]))
        elif simple:
            r["laws"] = draw(st.sampled_from([[4], [9]]))
        else:
            r["laws"] = draw(st.sampled_from([[4], [44], [61], [66], [9], [7], [11], [4, 9], [9, 4, 7]]))
        r["ty"] = {16: 2, 17: 3, 37: 4}.get(mt, 1)
        r["com"] = draw(st.booleans())
        if mt == 5 or draw(st.integers(0, 6)) == 3:
            r["ytab"] = True
    if r.get("laws") and not set(r["laws"]) & {44, 61, 66}:
        r["angle"] = draw(st.lists(st.sampled_from(["iso", "bins", "tab"]), max_size=3))
    if not simple:
        r["regions"] = draw(st.sampled_from([None, None, [1], [2], [2, 1], [5], [2, 4], [3, 2, 5], [2, 5, 4, 1]]))
    if draw(st.booleans()):
        r["first_zero"] = r["thr"] > 0
    if draw(st.integers(0, 5)) == 3:
        r["zeros"] = draw(st.lists(st.integers(0, nes - 1), max_size=3))
    if nes - r["thr"] > 2 and draw(st.integers(0, 7)) == 5:
        # ends below the top of the grid
        r["short"] = draw(st.integers(1, nes - r["thr"] - 2))
    return r


@st.composite
def spec(draw, simple=False, fissile=None, extra_mts=None, max_nes=12, levels=True):
    nes = draw(st.integers(3, max_nes))
    s = {"seed": draw(st.integers(0, 10 ** 6)), "nes": nes, "zaid": draw(st.sampled_from([92235, 92238, 1001, 26056, 94239, 8016, 13027])),
         "suffix": draw(st.sampled_from(["80c", "00c", "710nc"[:3], "31c"])), "kT": r11(draw(st.sampled_from([293.6, 300.0, 600.0, 2500.0, 77.0])) * K_MEV),
         "awr": draw(st.sampled_from([233.0248, 0.999167, 15.8575, 236.0058]))}
    mts = set(draw(st.lists(st.sampled_from(NEUTRON_MTS + LEVELS + OTHER_MTS + [5]), max_size=6, unique=True)))
    if draw(st.booleans()):
        mts.add(102)
    if levels and draw(st.integers(0, 3)) == 1:
        mts |= set(draw(st.lists(st.sampled_from([600, 601, 649, 650, 699, 700, 749, 750, 800, 801, 849, 875, 876, 891]), max_size=4, unique=True)))
    if extra_mts:
        mts |= set(extra_mts)
    fis = draw(st.booleans()) if fissile is None else fissile
    if fis:
        mts |= {18} if fissile or draw(st.integers(0, 4)) else set(draw(st.lists(st.sampled_from([19, 20, 21, 38]), min_size=1, max_size=3, unique=True)))
    fis = fis or bool(mts & {18, 19, 20, 21, 38})
    s["reactions"] = [draw(reaction(m, nes, simple)) for m in sorted(mts)]
    s["elastic_angle"] = draw(st.lists(st.sampled_from(["iso", "bins", "tab"]), max_size=3))
    if fis:
        s["nu"] = {"mode": "both", "prompt": "tab", "total": "tab"} if simple else {
            "mode": draw(st.sampled_from(["both", "both", "single"])), "prompt": draw(st.sampled_from(["tab", "tab", "poly"])), "total": draw(st.sampled_from(["tab", "tab", "poly"]))}
        if not simple:
            s["nu"]["regions"] = draw(st.sampled_from([None, [2], [1], [2, 5], [2, 3, 5], [1, 2, 4, 5]]))
        if draw(st.booleans()):
            s["nu"]["delayed"] = draw(st.sampled_from([1, 2, 6, 8]))
            s["nu"]["varying"] = draw(st.sampled_from([False, False, False, False, "all", "some"]))
            if not simple:
                # linear interpolation written out, and other laws where the tables are not put on a common grid
                s["nu"]["dregions"] = draw(st.sampled_from([None, [2]] if s["nu"]["varying"] else [None, [2], [1], [2, 5]]))
                s["nu"]["gregions"] = draw(st.sampled_from([None, [2]]))
    if draw(st.integers(0, 9)) == 4:
        s["zero_abs"] = True
    if draw(st.integers(0, 4)) == 2:
        s["fine"] = True
    if not simple:
        s["discrete"] = draw(st.booleans())
        if draw(st.integers(0, 2)) == 1:
            s["urr"] = {"n": draw(st.integers(1, 3)), "m": draw(st.integers(2, 5)), "int": draw(st.sampled_from([2, 5])), "ilf": draw(st.sampled_from([-1, 0, 51])),
                        "ioa": draw(st.sampled_from([-1, 0, 102])), "iff": draw(st.sampled_from([0, 1]))}
        if draw(st.integers(0, 2)) == 1:
            pool = sorted({m for m in mts if m < 200} | {3, 4, 102})
            # sums that the file gives photons for but no cross section
            absent = [p for p, a, b in ((4, 50, 92), (16, 875, 892), (103, 600, 650), (104, 650, 700), (105, 700, 750), (106, 750, 800), (107, 800, 850)) if p not in mts and any(a <= m < b for m in mts)]
            if absent and draw(st.booleans()):
                pool = absent + pool[:1]
            ph = []
            for _ in range(draw(st.integers(1, 3))):
                m = draw(st.sampled_from(pool))
                ph.append({"mt": m, "mf": draw(st.sampled_from([12, 13, 16])), "law": draw(st.sampled_from([2, 4])), "thr": draw(st.integers(0, nes - 2)),
                           "angle": draw(st.lists(st.sampled_from(["iso", "bins", "tab"]), max_size=2))})
            s["photons"] = ph
        if draw(st.integers(0, 3)) == 1:
            for m in draw(st.lists(st.sampled_from(GAS), min_size=1, max_size=3, unique=True)):
                s["reactions"].append({"mt": m, "thr": 0})
        if draw(st.integers(0, 5)) == 3:
            s["neg_pdf"] = True
        if draw(st.integers(0, 9)) == 6:
            s["neg_el"] = draw(st.lists(st.integers(0, nes - 1), min_size=1, max_size=2))
        if draw(st.integers(0, 5)) == 2 and s["reactions"]:
            s["reactions"][0]["neg"] = draw(st.lists(st.integers(0, nes - 1), min_size=1, max_size=2))
    return s
