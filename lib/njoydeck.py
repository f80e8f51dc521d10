"""Reader of NJOY input decks (list-directed cards per module) and a model of the tapes the modules read and write.

Independent of the code that writes decks: it follows the NJOY2016 input descriptions of the modules ASAPy uses.
"""


class DeckError(Exception):
    pass


class Cards:
    def __init__(self, text):
        self.lines = [l for l in text.splitlines()]
        self.i = 0

    def module(self):
        """next module name (first word of the next non-blank, non-comment line)"""
        while self.i < len(self.lines):
            l = self.lines[self.i].strip()
            self.i += 1
            if not l or l.startswith("--"):
                continue
            return l.split()[0].rstrip("/")
        return None

    def _line(self):
        if self.i >= len(self.lines):
            raise DeckError("deck ends inside a card")
        l = self.lines[self.i]
        self.i += 1
        return l

    def card(self, n=None, need=0):
        """one list-directed read of n values: goes on over lines until n values or a slash"""
        out = []
        while True:
            l = self._line()
            if len(l) > 80 and n is not None:
                raise DeckError("line longer than 80 columns: %r" % l)
            k = 0
            done = False
            while k < len(l) and not done:
                c = l[k]
                if c in " \t,":
                    k += 1
                elif c == "/":
                    done = True
                elif c == "'":
                    e = l.find("'", k + 1)
                    if e < 0:
                        raise DeckError("unclosed quote: %r" % l)
                    out.append(l[k + 1:e])
                    k = e + 1
                else:
                    e = k
                    while e < len(l) and l[e] not in " \t,/":
                        e += 1
                    out.append(l[k:e])
                    k = e
                if n is not None and len(out) == n:
                    done = True
            if done:
                break
            if n is None:
                raise DeckError("card without slash: %r" % l)
        if len(out) < need:
            raise DeckError("card has %d values, needs %d: %r" % (len(out), need, out))
        return out

    def text(self):
        return self._line()


def num(s):
    return float(s)


def ints(vals, n, default=0):
    r = [int(v) for v in vals[:n]]
    return r + [default] * (n - len(r))


def parse(text):
    """list of dicts, one per module; raises DeckError"""
    c = Cards(text)
    mods = []
    stopped = False
    while True:
        name = c.module()
        if name is None:
            break
        if stopped:
            raise DeckError("input after stop: " + name)
        if name == "stop":
            stopped = True
            continue
        if name not in PARSERS:
            raise DeckError("not a module name: %r (module %d)" % (name, len(mods)))
        m = PARSERS[name](c)
        m["module"] = name
        mods.append(m)
    if not stopped:
        raise DeckError("deck does not end with stop")
    return mods


def p_reconr(c):
    nendf, npend = ints(c.card(2, 2), 2)
    label = c.card(1, 1)[0]
    mats = []
    while True:
        v = c.card(3) if not mats else c.card(3)
        mat = int(v[0])
        if mat == 0:
            break
        ncards = int(v[1]) if len(v) > 1 else 0
        err = num(c.card(4, 1)[0])
        cards = [c.card(1, 1)[0] for _ in range(ncards)]
        mats.append((mat, err, cards))
    if len(mats) != 1:
        raise DeckError("reconr materials %r" % mats)
    return {"reads": [("endf", nendf)], "writes": [("pendf", npend)], "mat": mats[0][0], "err": mats[0][1], "label": label, "cards": mats[0][2]}


def p_broadr(c):
    nendf, nin, nout = ints(c.card(3, 3), 3)
    v = c.card(5, 2)
    mat, nt = int(v[0]), int(v[1])
    err = num(c.card(3, 1)[0])
    temps = [num(x) for x in c.card(nt, nt)]
    if int(c.card(1, 1)[0]) != 0:
        raise DeckError("broadr: expected 0/ after the temperatures")
    return {"reads": [("endf", nendf), ("pendf", nin)], "writes": [("pendf", nout)], "mat": mat, "temps": temps, "err": err}


def p_heatr(c):
    nendf, nin, nout = ints(c.card(4, 3)[:3], 3)
    v = c.card(7, 1)
    npk = int(v[1]) if len(v) > 1 else 0
    mtk = [int(x) for x in c.card(npk, npk)]
    return {"reads": [("endf", nendf), ("pendf", nin)], "writes": [("pendf", nout)], "mat": int(v[0]), "mtk": mtk}


def p_purr(c):
    nendf, nin, nout = ints(c.card(3, 3), 3)
    v = c.card(7, 5)
    mat, nt, nsig, nbin, nlad = ints(v, 5)
    temps = [num(x) for x in c.card(nt, nt)]
    sig = [num(x) for x in c.card(nsig, nsig)]
    if int(c.card(1, 1)[0]) != 0:
        raise DeckError("purr: expected 0/")
    return {"reads": [("endf", nendf), ("pendf", nin)], "writes": [("pendf", nout)], "mat": mat, "temps": temps, "sigz": sig}


def p_acer(c):
    nendf, npend, ngend, nace, ndir = ints(c.card(5, 5), 5)
    v = c.card(5, 1)
    iopt = int(v[0])
    suffix = v[3] if len(v) > 3 else None
    title = c.card(1, 1)[0]
    m = {"iopt": iopt, "suffix": suffix, "title": title}
    if iopt == 1:
        v = c.card(2, 2)
        m["mat"], m["temp"] = int(v[0]), num(v[1])
        c.card(3)
        c.card(3)
    elif iopt == 2:
        v = c.card(4, 3)
        m["mat"], m["temp"], m["name"] = int(v[0]), num(v[1]), v[2]
        m["zaids"] = [int(x) for x in c.card(3)]
        m["thermal"] = c.card(8, 5)
    else:
        raise DeckError("acer iopt %d" % iopt)
    m.update(reads=[("endf", nendf), ("pendf", npend)] + ([("gendf", ngend)] if ngend else []), writes=[("ace", nace), ("xsdir", ndir)])
    return m


def flux(c):
    """TAB1 weight function: list-directed, one read of everything (c1 c2 l1 l2 nr np, nbt int pairs, x y pairs)"""
    vals = []
    while True:
        l = c._line()
        if len(l) > 80:
            raise DeckError("line longer than 80 columns")
        slash = "/" in l
        vals += l.split("/")[0].split()
        if slash:
            break
    if len(vals) < 8:
        raise DeckError("weight function too short")
    nr, npt = int(vals[4]), int(vals[5])
    if nr != 1 or int(vals[6]) != npt:
        raise DeckError("weight function regions: %r" % vals[:8])
    xy = [num(x) for x in vals[8:]]
    if len(xy) != 2 * npt:
        raise DeckError("weight function has %d numbers for %d points" % (len(xy), npt))
    return {"int": int(vals[7]), "xy": xy}


def p_groupr(c):
    nendf, npend, ngin, ngout = ints(c.card(4, 4), 4)
    v = c.card(8, 6)
    mat, ign, igg, iwt, lord, ntemp = ints(v, 6)
    title = c.card(1)
    temps = [num(x) for x in c.card(ntemp, ntemp)]
    sig = [num(x) for x in c.card(1, 1)]
    m = {"mat": mat, "iwt": iwt, "temps": temps, "sigz": sig, "ign": ign}
    if ign == 1:
        ng = int(c.card(1, 1)[0])
        m["ngroups"] = ng
        m["bounds"] = [num(x) for x in c.card(ng + 1, ng + 1)]
        rest(c)
    if iwt == 1:
        m["flux"] = flux(c)
    rxn = []
    for _ in range(ntemp):
        r = []
        while True:
            v = c.card(3, 1)
            if int(v[0]) == 0:
                break
            r.append((int(v[0]), int(v[1]) if len(v) > 1 else None))
        rxn.append(r)
    if int(c.card(1, 1)[0]) != 0:
        raise DeckError("groupr: expected 0/ after the reactions of %d temperatures" % ntemp)
    m.update(reads=[("endf", nendf), ("pendf", npend)], writes=[("gendf", ngout)], rxn=rxn)
    return m


def rest(c):
    """skip a line that holds only the slash closing a long card"""
    if c.i < len(c.lines) and c.lines[c.i].strip() == "/":
        c.i += 1


def p_errorr(c):
    v = ints(c.card(6, 4), 6)
    nendf, npend, ngout, nout = v[:4]
    v = c.card(5, 3)
    mat, ign, iwt = ints(v, 3)
    irelco = int(v[4]) if len(v) > 4 else 1
    v = c.card(2, 2)
    temp = num(v[1])
    v = c.card(7, 2)
    m = {"mat": mat, "ign": ign, "iwt": iwt, "temp": temp, "irelco": irelco, "iread": int(v[0]), "mfcov": int(v[1])}
    if ign == 1:
        ng = int(c.card(1, 1)[0])
        m["ngroups"] = ng
        m["bounds"] = [num(x) for x in c.card(ng + 1, ng + 1)]
        rest(c)
    if iwt == 1:
        m["flux"] = flux(c)
    m.update(reads=[("endf", nendf)] + ([("pendf", npend)] if npend else []) + ([("gendf", ngout)] if ngout else []), writes=[("errorr", nout)])
    if not npend and not ngout:
        raise DeckError("errorr has neither PENDF nor GENDF input")
    return m


def p_covr(c):
    v = ints(c.card(3, 1), 3)
    nin, nout, nplot = v
    m = {"reads": [("errorr", nin)], "writes": []}
    ncase = 1
    if nplot:
        c.card(1)
        c.card(1)
        v = c.card(5)
        ncase = int(v[1]) if len(v) > 1 else 1
        m["writes"].append(("plot", nplot))
    if nout:
        v = c.card(2, 1)
        m["matype"] = int(v[0])
        if not nplot:
            ncase = int(v[1]) if len(v) > 1 else 1
        m["libid"] = c.card(1)
        c.card(1)
        m["writes"].append(("boxer", nout))
    if not nplot and not nout:
        raise DeckError("covr writes nothing")
    m["cases"] = []
    for _ in range(ncase):
        v = ints(c.card(4, 1), 4)
        m["cases"].append(v)
    m["mat"] = m["cases"][0][0] if m["cases"] else None
    return m


def p_viewr(c):
    v = ints(c.card(2, 2), 2)
    return {"reads": [("plot", v[0])], "writes": [("eps", v[1])]}


def p_thermr(c):
    nendf, nin, nout = ints(c.card(3, 3), 3)
    v = ints(c.card(10, 9), 10)
    nt = v[3]
    temps = [num(x) for x in c.card(nt, nt)]
    t = c.card(2, 2)
    return {"reads": ([("thermal", nendf)] if nendf else []) + [("pendf", nin)], "writes": [("pendf", nout)], "matde": v[0], "mat": v[1],
            "nbin": v[2], "temps": temps, "inelastic": v[4], "elastic": v[5], "iform": v[6], "natom": v[7], "mtref": v[8], "tol": num(t[0]), "emax": num(t[1])}


PARSERS = {"reconr": p_reconr, "broadr": p_broadr, "heatr": p_heatr, "purr": p_purr, "acer": p_acer, "groupr": p_groupr, "errorr": p_errorr,
           "covr": p_covr, "viewr": p_viewr, "thermr": p_thermr}


def dataflow(mods, tapein):
    """tapes: number -> dict(kind, by, history); checks kinds and single assignment. tapein: number -> kind"""
    tapes = {n: {"kind": k, "by": None, "history": []} for n, k in tapein.items()}
    for i, m in enumerate(mods):
        where = "%s (module %d)" % (m["module"], i + 1)
        hist = []
        for kind, t in m["reads"]:
            if abs(t) not in tapes:
                raise DeckError("%s reads tape %d, which nothing has written" % (where, t))
            if tapes[abs(t)]["kind"] != kind:
                raise DeckError("%s reads tape %d as %s, but it holds %s data" % (where, t, kind, tapes[abs(t)]["kind"]))
            hist += tapes[abs(t)]["history"]
        for kind, t in m["writes"]:
            if abs(t) in tapes:
                raise DeckError("%s writes tape %d, which is already in use" % (where, t))
            if not 20 <= abs(t) <= 99:
                raise DeckError("%s writes tape %d outside NJOY's tape range" % (where, t))
            tapes[abs(t)] = {"kind": kind, "by": m, "history": hist + [m]}
    return tapes
