"""Sum rules of the ENDF-6 reactions that ACE files carry, as an own model of what a summed cross section contains."""
import numpy as np

R = range
PARTS = {103: R(600, 650), 104: R(650, 700), 105: R(700, 750), 106: R(750, 800), 107: R(800, 850),
         101: [*R(102, 110), *R(111, 118), 155, 182, 191, 192, 193, 197], 18: [19, 20, 21, 38], 27: [18, 101], 16: R(875, 892), 4: R(50, 92),
         3: [4, 5, 11, 16, 17, 18, *R(22, 27), *R(28, 38), 41, 42, 44, 45, *R(102, 118)], 1: [2, 3]}
ORDER = [107, 106, 105, 104, 103, 101, 18, 27, 16, 4, 3, 1]


def parts(mt, have):
    """reactions of the file that make up a sum: a sum that the file does not give stands for its own parts"""
    out = []
    for p in PARTS[mt]:
        if p in have:
            out.append(p)
        elif p in PARTS:
            out += parts(p, have)
    return out


class Model:
    """cross sections of one file: base and current values per reaction, each on its own energies (a tail of the common grid)"""
    def __init__(self, base, energy):
        self.base = {m: np.array(v, float) for m, v in base.items()}
        self.now = {m: v.copy() for m, v in self.base.items()}
        self.energy = {m: np.array(e, float) for m, e in energy.items()}
        self.adjusted = set()
        self.scale = {m: np.abs(v) for m, v in self.base.items()}    # magnitude that went into each value, for the rounding allowance

    def set(self, mt, v):
        self.now[mt] = np.array(v, float)
        self.scale[mt] = np.abs(self.base[mt]) + np.abs(self.now[mt])
        self.adjusted.add(mt)

    def on(self, mt, values, energy):
        """values of reaction mt at energies of the common grid, zero outside its range"""
        d = dict(zip(self.energy[mt].tolist(), np.asarray(values).tolist()))
        return np.array([d.get(e, 0.0) for e in energy.tolist()])

    def apply(self):
        for s in ORDER:
            if s not in self.base:
                continue
            p = [m for m in parts(s, set(self.base)) if m in self.adjusted]
            if not p:
                continue
            v, sc = self.base[s].copy(), np.abs(self.base[s])
            for m in p:
                v = v + self.on(m, self.now[m] - self.base[m], self.energy[s])
                sc = sc + self.on(m, self.scale[m], self.energy[s])
            self.now[s], self.scale[s] = v, sc + np.abs(v)
            self.adjusted.add(s)
