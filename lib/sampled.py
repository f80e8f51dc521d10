"""What a sampled ACE file must hold, computed from the base table and the group factors (used by C18 and C25)."""
import glob, os
import numpy as np
import pandas as pd
from ASAPy.data import ace
from checks.c15 import State, chi_after
from lib.core import require


def factor_at(e, bounds, f):
    """factor of the group (low, high] that contains e; bounds decreasing, f per group in the same order; the lowest bound itself belongs to the lowest group"""
    for i in range(len(f)):
        if bounds[i + 1] < e <= bounds[i]:
            return f[i]
    return f[-1] if e == bounds[-1] else 1.0


def mapped(energies, bounds, f):
    return np.array([factor_at(float(e), bounds, f) for e in energies])


def chi_norm(s, bounds, f):
    out = []
    for x, (p, c) in zip(s.chi_x, s.chi):
        w = p * mapped(x, bounds, f)
        out.append(c[-1] + np.sum((w - p)[1:] * np.diff(x)))
    return min(out)


def perturbed(t, sampled):
    """State after multiplying the reactions of `sampled` [(mt, bounds, factors)] in that order, sums updated each time"""
    s = State(t)
    for mt, bounds, f in sampled:
        if mt == 452:
            s.nu = s.nu * mapped(s.nu_e, bounds, f)
            s.extra.add(452)
        elif mt == 1018:
            want = [p * mapped(x, bounds, f) for x, (p, _) in zip(s.chi_x, s.chi)]
            s.chi = [chi_after(x, p, c, w) for x, (p, c), w in zip(s.chi_x, s.chi, want)]
            s.extra.add(1018)
        else:
            s.m.set(mt, s.m.now[mt] * mapped(s.m.energy[mt], bounds, f))
        s.m.apply()
    return s


def expected_xss(t, s):
    """values and allowances; allowance 0 where the file must keep the base number"""
    v = np.array([float(x) for x in t.xss])
    tol = np.zeros(len(v))
    what = [None] * len(v)

    def put(at, new, scale, name):
        v[at:at + len(new)] = new
        tol[at:at + len(new)] = 1e-11 * np.abs(new) + 1e-13 * scale
        what[at:at + len(new)] = [name] * len(new)

    n = len(t.facts["grid"])
    for mt in s.m.adjusted - s.made:
        at = {1: n, 101: 2 * n, 2: 3 * n}.get(mt)
        put(t.facts["rx"][str(mt)]["at"] if at is None else at, s.m.now[mt], s.m.scale[mt], "MT%d" % mt)
    if 452 in s.extra:
        put(t.facts["nu"]["total"]["at"], s.nu, np.abs(s.nu), "nu-bar")
    if 1018 in s.extra:
        for k, (o, (p, c)) in enumerate(zip(t.facts["rx"]["18"]["dist"][0]["out"], s.chi)):
            put(o["at_p"], p * 1e6, np.abs(p * 1e6), "chi density %d" % k)
            put(o["at_p"] + len(p), c, np.ones(len(c)), "chi cumulative %d" % k)
    return v, tol, what


def verify_file(path, t, sampled, label):
    s = perturbed(t, sampled)
    v, tol, what = expected_xss(t, s)
    a = ace.get_table(path)
    require(list(a.nxs[1:]) == list(t.nxs) and list(a.jxs[1:]) == list(t.jxs), "{}: the pointers changed", label)
    got = np.asarray(a.xss[1:], float)
    require(len(got) == len(v), "{}: {} numbers instead of {}", label, len(got), len(v))
    base = np.array([float(x) for x in t.xss])
    bad = np.where(~(np.abs(got - v) <= tol))[0]
    if len(bad):
        i = bad[0]
        require(False, "{}: number {} ({}) is {!r} instead of {!r} (base {!r}); {} numbers wrong; reactions sampled {}", label, i + 1, what[i] or "not sampled", got[i], v[i], base[i], len(bad), [m for m, _, _ in sampled])
    return s


def verify_head(path, base_text):
    n = 15 if base_text.split("\n")[0].split()[0][1] == "." else 12
    require(open(path).read().split("\n")[:n] == base_text.split("\n")[:n], "{}: the header changed", os.path.basename(path))


def read_csv(path, entry, label):
    """returns the factor columns {sample number: factors} after checking the descriptive columns"""
    d = pd.read_csv(path, index_col=0, float_precision="round_trip")
    G = len(entry["mean"])
    require(list(d.index) == list(range(1, G + 1)), "{}: groups {}", label, list(d.index))
    m, sd = np.array(entry["mean"], float), np.array(entry["std"], float)
    want = {"e low": entry["bounds"][1:], "e high": entry["bounds"][:-1], "xsec": m, "rel std": np.where(m != 0, sd / np.where(m == 0, 1, m), 1e-7)}
    for k, w in want.items():
        require(k in d.columns and np.allclose(d[k].values, w, rtol=1e-12, atol=0), "{}: column {!r} is {} instead of {}", label, k, list(d[k]) if k in d.columns else None, list(w))
    out = {}
    for k in d.columns:
        if k not in want:
            out[int(k)] = d[k].values.astype(float)
    return out
