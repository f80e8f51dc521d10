"""Generated covariance data and stores (built with pandas directly, not with the code under test)."""
import contextlib, os, warnings
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from lib import gens as g

COLS = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']


@st.composite
def bounds(draw, G, lo=-5):
    """G+1 strictly decreasing energies in eV"""
    steps = draw(st.lists(st.sampled_from([1.001, 1.1, 1.5, 2.0, 5.0, 30.0]), min_size=G, max_size=G))
    e = [float("%.6g" % (draw(st.integers(1, 9)) * 10.0 ** lo))]
    for s in steps:
        e.append(float("%.6g" % (e[-1] * s)))
    return e[::-1]


@st.composite
def entry(draw, min_groups=2, max_groups=8, rel=None, corr=None, zero_mean=False):
    G = draw(st.integers(min_groups, max_groups))
    mean = draw(st.lists(g.log_float(-5, 4), min_size=G, max_size=G))
    rels = draw(st.lists(rel if rel is not None else g.log_float(-4, 0), min_size=G, max_size=G))
    std = [float("%.6g" % (m * r)) for m, r in zip(mean, rels)]
    if zero_mean:
        for i in range(G):
            if draw(st.integers(0, 5)) == 0:
                mean[i], std[i] = 0.0, 1e-7
    return {"bounds": draw(bounds(G)), "mean": mean, "std": std, "corr": draw(corr(G) if corr else g.any_corr(G))}


def frames(c):
    G = len(c["mean"])
    sd = pd.DataFrame(index=pd.Index(range(1, G + 1), name='groups'), columns=COLS, dtype=float)
    m, s = np.array(c["mean"], float), np.array(c["std"], float)
    rel = np.where(m != 0, s / np.where(m == 0, 1, m), 1e-7)
    b = c["bounds"]
    sd['e high'], sd['e low'] = b[:-1], b[1:]
    # the second reaction of a pair has values of its own
    sd['x-sec(1)'], sd['x-sec(2)'] = m, m * 1.5
    sd['s.d.(1)'], sd['s.d(2)'] = s, s * 0.4
    sd['rel.s.d.(1)'], sd['rel.s.d(2)'] = rel, rel * 0.4 / 1.5
    corr = pd.DataFrame(np.array(c["corr"], float) * c.get("scale", 1.0), index=range(1, G + 1), columns=list(range(1, G + 1)))
    if c.get("swapped"):
        sd['e high'], sd['e low'] = sd['e low'].values.copy(), sd['e high'].values.copy()
    return sd, corr


def put(h, zaid, mt, c, zaid2=None, mt2=None):
    sd, corr = frames(c)
    key = '{}/{}/{}/{}'.format(zaid, mt, zaid2 if zaid2 is not None else zaid, mt2 if mt2 is not None else mt)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        h.put(key + '/std_dev', sd)
        h.put(key + '/corr', corr)


@contextlib.contextmanager
def build(folder, entries, name="store.h5"):
    with pd.HDFStore(os.path.join(folder, name), 'w') as h:
        for (zaid, mt), c in entries.items():
            put(h, zaid, mt, c)
        yield h
