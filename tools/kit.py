"""helpers of the demonstrations"""
import contextlib, io, sys, types, warnings
import numpy as np
import pandas as pd
try:
    import hypothesis                       # acegen imports it only for generators that are not used here
except ImportError:
    h = types.ModuleType("hypothesis")
    h.strategies = types.SimpleNamespace(composite=lambda f: f, text=None)
    sys.modules["hypothesis"] = h
import acegen

warnings.simplefilter("ignore")


def ace(path, mts=(102,), fission=False, nes=12, seed=3, thr=None, photons=None, style="old", **kw):
    """writes an ACE file, returns what it holds"""
    rx = []
    for m in mts:
        r = {"mt": m, "thr": (thr or {}).get(m, 0)}
        if m in (16, 17, 22, 28, 51, 52, 91):
            r.update(laws=[3] if m in (51, 52) else [4], ty=2 if m == 16 else 1, com=False, angle=[])
        rx.append(r)
    spec = {"seed": seed, "nes": nes, "zaid": 92235, "suffix": "80c", "kT": acegen.r11(293.6 * acegen.K_MEV), "awr": 233.0248, "reactions": rx, "elastic_angle": []}
    if fission:
        rx.append({"mt": 18, "thr": 0, "fission": True, "laws": [4]})
        rx.sort(key=lambda r: r["mt"])
        spec["nu"] = {"mode": "both", "prompt": "tab", "total": "tab"}
    if photons:
        spec["photons"] = photons
    spec.update(kw)
    t = acegen.build(spec)
    open(path, "w").write(acegen.ascii_text(t, style=style))
    return t


COLS = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']


def put(h, zaid, mt, bounds, mean, std, corr):
    """bounds: decreasing energies"""
    G = len(mean)
    sd = pd.DataFrame(index=pd.Index(range(1, G + 1), name='groups'), columns=COLS, dtype=float)
    sd['e high'], sd['e low'] = bounds[:-1], bounds[1:]
    sd['x-sec(1)'] = sd['x-sec(2)'] = np.array(mean, float)
    sd['s.d.(1)'] = sd['s.d(2)'] = np.array(std, float)
    sd['rel.s.d.(1)'] = sd['rel.s.d(2)'] = np.array(std, float) / np.array(mean, float)
    h.put('%s/%s/%s/%s/std_dev' % (zaid, mt, zaid, mt), sd)
    h.put('%s/%s/%s/%s/corr' % (zaid, mt, zaid, mt), pd.DataFrame(np.array(corr, float), index=range(1, G + 1), columns=list(range(1, G + 1))))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
