"""Contents of ENDF-6 sections, written from values; each writer returns (lines, what the section says)."""
import numpy as np
from lib import endfgen as eg

val, cont, fields = eg.val, eg.cont, eg.fields


def head(m, l1=0, l2=0, n1=0, n2=0):
    return cont(m["Z"] * 1000.0 + m["A"], m["awr"], l1, l2, n1, n2)


class Writer:
    """values from a seed; everything printed is exactly representable"""
    def __init__(self, seed):
        self.rs = np.random.RandomState(seed)

    def pos(self, n, lo=-3, hi=3):
        return [val(v) for v in 10.0 ** self.rs.uniform(lo, hi, n)]

    def one(self, lo=-3, hi=3):
        return self.pos(1, lo, hi)[0]

    def signed(self, n, size=1.0):
        return [val(v) for v in self.rs.uniform(-size, size, n)]

    def increasing(self, n, lo=1e-5, hi=2e7):
        """n different printed values from lo to hi (both included)"""
        while True:
            v = 10.0 ** np.sort(self.rs.uniform(np.log10(lo), np.log10(hi), n))
            v[0], v[-1] = lo, hi
            v = [val(x) for x in v]
            if len(set(v)) == n and v == sorted(v):
                return v

    def regions(self, n, nr, laws=(1, 2, 3, 4, 5)):
        nr = max(1, min(nr, n - 1))
        cuts = sorted(self.rs.choice(np.arange(2, n), nr - 1, replace=False).tolist()) if nr > 1 else []
        return [int(c) for c in cuts] + [n], [int(self.rs.choice(laws)) for _ in range(nr)]

    def tab1(self, x, y, nr=1, c1=0.0, c2=0.0, l1=0, l2=0, laws=(1, 2, 3, 4, 5)):
        bp, it = self.regions(len(x), nr, laws)
        lines = [cont(c1, c2, l1, l2, len(bp), len(x))]
        lines += fields([int(v) for p in zip(bp, it) for v in p])
        lines += fields([float(v) for p in zip(x, y) for v in p])
        return lines, {"x": list(x), "y": list(y), "bp": bp, "it": it}

    def table(self, nr=1, lo=1e-5, hi=2e7, n=None, ylo=-3, yhi=3, **kw):
        n = n or int(self.rs.randint(2, 9))
        return self.tab1(self.increasing(n, lo, hi), self.pos(n, ylo, yhi), nr, **kw)

    def tab2(self, n, c1=0.0, c2=0.0, l1=0, l2=0, nr=1):
        bp, it = self.regions(n, nr) if n > 1 else ([1], [2])
        return [cont(c1, c2, l1, l2, len(bp), n)] + fields([int(v) for p in zip(bp, it) for v in p]), {"bp": bp, "it": it}

    def list(self, vals, c1=0.0, c2=0.0, l1=0, l2=0, n2=0):
        return [cont(c1, c2, l1, l2, len(vals), n2)] + fields([float(v) for v in vals])

    def function(self, kind, nr=1):
        """the two forms of nu-bar: polynomial (LNU 1) or table (LNU 2)"""
        if kind == "poly":
            c = self.pos(int(self.rs.randint(1, 5)), -2, 1)
            return 1, self.list(c), {"poly": c}
        lines, d = self.table(nr, ylo=-1, yhi=1)
        return 2, lines, d

    # ---------------------------------------------------------------- angular distributions (MF4)
    def legendre_list(self, e):
        a = self.signed(int(self.rs.randint(1, 9)), 0.3)
        a[-1] = a[-1] or 0.1
        return self.list(a, 0.0, e), {"kind": "legendre", "a": [1.0] + a}

    def mu_tab1(self, e):
        n = int(self.rs.randint(2, 7))
        x = [-1.0] + sorted(set(val(v) for v in self.rs.uniform(-0.99, 0.99, n - 2))) + [1.0]
        y = self.pos(len(x), -2, 0)
        lines, d = self.tab1(x, y, 1, 0.0, e, laws=(1, 2, 4))
        d["kind"] = "tab"
        return lines, d

    def mf4(self, m, kind):
        """kind: iso, leg, tab, mixed"""
        lct = int(self.rs.randint(1, 3))
        if kind == "iso":
            return [head(m, 0, 0), cont(0.0, m["awr"], 1, lct, 0, 0)], {"energy": [0.0, m["emax"]], "mu": [{"kind": "iso"}] * 2, "lct": lct}
        # the obsolete transformation matrix, to be skipped
        nk = int(self.rs.choice([4, 9, 12, 13])) if self.rs.randint(12) == 5 else 0
        lines = [head(m, 1 if nk else 0, {"leg": 1, "tab": 2, "mixed": 3}[kind]), cont(0.0, m["awr"], 0, lct, nk, int(self.rs.randint(0, 9)))]
        if nk:
            lines += fields(self.signed(nk, 1.0))
        n = int(self.rs.randint(2, 5))
        e = self.increasing(2 * n, 1e-5, 2e7)
        parts = [("leg", e[:n]), ("tab", e[n:])] if kind == "mixed" else [(kind, e[:n])]
        d = {"energy": [], "mu": [], "lct": lct}
        for k, es in parts:
            lines += self.tab2(len(es), nr=int(self.rs.randint(1, 3)))[0]
            for x in es:
                l, mu = self.legendre_list(x) if k == "leg" else self.mu_tab1(x)
                lines += l
                d["energy"].append(x)
                d["mu"].append(mu)
        return lines, d

    # ---------------------------------------------------------------- energy distributions (MF5)
    def mf5_law(self, lf):
        """one subsection: (lines, applicability, distribution)"""
        u = self.signed(1, 2e7)[0]
        app, a = self.tab1(*self._app(), int(self.rs.randint(1, 3)), u, 0.0, 0, lf)
        d = {"lf": lf, "u": u}
        nr = int(self.rs.randint(1, 4))
        if lf == 1:
            n = int(self.rs.randint(1, 5)) + 1
            lines, _ = self.tab2(n, nr=int(self.rs.randint(1, 3)))
            d["energy"], d["pdf"] = self.increasing(n), []
            for e in d["energy"]:
                l, t = self.table(int(self.rs.randint(1, 4)), 1e-5, 3e7, c2=e, ylo=-9, yhi=-6)
                lines += l
                d["pdf"].append(t)
        elif lf in (7, 9):
            lines, d["theta"] = self.table(nr, ylo=5, yhi=7)
        elif lf == 11:
            lines, d["a"] = self.table(nr, ylo=5, yhi=7)
            l, d["b"] = self.table(int(self.rs.randint(1, 4)), ylo=-7, yhi=-5)
            lines += l
        elif lf == 5:
            lines, d["theta"] = self.table(nr, ylo=5, yhi=7)
            l, d["g"] = self.table(int(self.rs.randint(1, 4)), 1e-3, 20.0)
            lines += l
        elif lf == 12:
            d["efl"], d["efh"] = self.pos(2, 5, 7)
            lines, d["tm"] = self.table(nr, ylo=5, yhi=7, c1=d["efl"], c2=d["efh"])
        return app + lines, a, d

    def _app(self):
        n = int(self.rs.randint(2, 6))
        x = self.increasing(n)
        return x, [1.0] * n if self.rs.randint(2) else [val(v) for v in self.rs.uniform(0.01, 1, n)]

    def mf5(self, m, laws):
        lines, apps, dists = [head(m, 0, 0, len(laws), 0)], [], []
        for lf in laws:
            l, a, d = self.mf5_law(lf)
            lines += l
            apps.append(a)
            dists.append(d)
        return lines, {"applicability": apps, "dist": dists}

    # ---------------------------------------------------------------- product distributions (MF6)
    def mf6_law(self, law, lang):
        n = int(self.rs.randint(1, 4)) + 1
        d = {"law": law, "lang": lang}
        if law in (0, 3, 4):
            return [], d
        if law == 6:
            d["mass"], d["n"] = self.one(0, 2), int(self.rs.randint(3, 6))
            return [cont(d["mass"], 0.0, 0, 0, 0, d["n"])], d
        d["energy"] = self.increasing(n)
        if law == 1:
            lep = int(self.rs.randint(1, 3))
            d["lep"] = lep
            lines, t = self.tab2(n, 0.0, 0.0, lang, lep, nr=int(self.rs.randint(1, 3)))
            d.update(t)
            d["out"] = []
            for e in d["energy"]:
                na = int(self.rs.randint(0, 5)) if lang == 1 else int(self.rs.randint(1, 3))
                k = int(self.rs.randint(2, 7))
                x, p = self.increasing(k, 1e-5, 3e7), self.pos(k, -8, -6)
                b = [self.signed(na, 0.5) if lang == 1 else [val(v) for v in self.rs.uniform(0.01, 1, na)] for _ in range(k)]
                rows = [[x[i], p[i]] + b[i] for i in range(k)]
                lines += self.list([v for r in rows for v in r], 0.0, e, 0, na, k)
                d["out"].append({"x": x, "p": p, "b": b, "na": na})
            return lines, d
        if law == 2:
            lines, t = self.tab2(n, nr=int(self.rs.randint(1, 3)))
            d["mu"] = []
            for e in d["energy"]:
                g = int(self.rs.choice([0, 12, 14]))
                if g == 0:
                    a = self.signed(int(self.rs.randint(1, 7)), 0.3)
                    lines += self.list(a, 0.0, e, 0, 0, len(a))
                    d["mu"].append({"kind": "legendre", "a": [1.0] + a})
                else:
                    k = int(self.rs.randint(2, 6))
                    x = sorted(set(val(v) for v in self.rs.uniform(-1, 1, k)))
                    y = self.pos(len(x), -2, 0)
                    lines += self.list([v for q in zip(x, y) for v in q], 0.0, e, g, 0, len(x))
                    d["mu"].append({"kind": "tab", "x": x, "y": y, "name": {12: "linear-linear", 14: "log-linear"}[g]})
            return lines, d
        lines, t = self.tab2(n, nr=int(self.rs.randint(1, 3)))                  # law 7
        d.update(t)
        d["mu"] = []
        for e in d["energy"]:
            k = int(self.rs.randint(2, 5))
            x = [-1.0] + sorted(set(val(v) for v in self.rs.uniform(-0.9, 0.9, k - 2))) + [1.0]
            l, _ = self.tab2(len(x), 0.0, e)
            lines += l
            tabs = []
            for mu in x:
                l, t = self.table(1, 1e-5, 3e7, c2=mu, ylo=-8, yhi=-6, laws=(2,))
                lines += l
                tabs.append(t)
            d["mu"].append({"x": x, "out": tabs})
        return lines, d

    PRODUCT = {0: "photon", 1: "neutron", 1000: "electron", 1001: "H1", 1002: "H2", 2004: "He4", 26055: "Fe55", 92236: "U236"}

    def mf6(self, m, products):
        """products: [(za, law, lang)]"""
        lct = int(self.rs.randint(1, 4))
        lines, out = [head(m, 0, lct, len(products), 0)], []
        for za, law, lang in products:
            yl, y = self.table(int(self.rs.randint(1, 3)), c1=float(za), c2=1.0, l1=0, l2=law, ylo=-1, yhi=1)
            l, d = self.mf6_law(law, lang)
            lines += yl + l
            out.append({"particle": self.PRODUCT[za], "yield": y, "dist": d, "lct": lct})
        return lines, out

    # ---------------------------------------------------------------- photons (MF12 / MF13) and activation (MF8-10)
    def photons(self, m, mf, n):
        """(lines, [{"table", "energy", "primary"}])"""
        lines = [head(m, 1 if mf == 12 else 0, 0, n, 0)]
        if n > 1:
            lines += self.table(1)[0]
        out = []
        for k in range(n):
            lf = int(self.rs.randint(1, 3)) if k == n - 1 else 2
            lp = int(self.rs.randint(0, 3))
            eg_ = self.one(4, 7) if lf == 2 else 0.0
            l, t = self.table(int(self.rs.randint(1, 3)), 1e-5, 2e7, c1=eg_, c2=0.0, l1=lp, l2=lf, laws=(2,) if mf == 13 else (1, 2, 3, 4, 5))
            lines += l
            out.append({"table": t, "lf": lf, "energy": eg_, "primary": lp})
        return lines, out

    def activation(self, m, states, decay_sublib):
        """states: [(zap, lfs, lmf)]; returns {mf: lines}, expected products in the order MF9, MF10"""
        l8 = [head(m, 0, 0, len(states), 1 if decay_sublib else 0)]
        for zap, lfs, lmf in states:
            if decay_sublib:
                l8.append(cont(float(zap), 0.0, lmf, lfs, 0, 0))
            else:
                l8 += self.list(self.pos(6), float(zap), 0.0, lmf, lfs, 1)
        out = {8: l8}
        products = []
        for mf in (9, 10):
            sel = [s for s in states if s[2] == mf]
            if not sel:
                continue
            lines = [head(m, 0, 0, len(sel), 0)]
            for zap, lfs, _ in sel:
                l, t = self.table(int(self.rs.randint(1, 3)), 1e-5, 2e7, c1=0.0, c2=0.0, l1=zap, l2=lfs, laws=(2,) if mf == 10 else (1, 2, 3, 4, 5))
                lines += l
                products.append({"mf": mf, "zap": zap, "lfs": lfs, "table": t})
            out[mf] = lines
        return out, products
