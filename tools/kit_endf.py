"""evaluations and stand-in programs for the demonstrations"""
import os, sys
import kit, endfgen


def material(mat, Z=92, A=235, liso=0, sections=((3, 1, 1, 0), (33, 102, 1, 0)), **kw):
    m = {"mat": mat, "Z": Z, "A": A, "awr": 233.0, "lrp": 1, "lfi": 1 if Z > 89 else 0, "nlib": 0, "nmod": 1, "elis": 0.0, "sta": 0, "lis": liso, "liso": liso, "awi": 1.0,
         "emax": 2e7, "lrel": 0, "nsub": 10, "nver": 8, "temp": 0.0, "ldrv": 0, "text": ["".ljust(66)] * 5, "sections": [list(s) for s in sections]}
    m.update(kw)
    return m


def write(path, mat, **kw):
    open(path, "w").write(endfgen.tape([material(mat, **kw)])[0])


def thermal(path, mat, temps):
    m = material(mat, Z=0, A=100 + mat, nsub=12, sections=[])
    c, f = endfgen.cont, endfgen.fields
    body = [c(100.0 + mat, 1.0, 0, 1, 0, 0), c(0.0, 0.0, 0, 0, 6, 0)] + f([20.0, 195.0, 1.0, 4.0, 0.0, 2.0])
    body += [c(0.0, 0.0, 0, 0, 1, 1), endfgen.integer(1) + endfgen.integer(4) + " " * 44]
    body += [c(temps[0], 0.0, len(temps) - 1, 0, 1, 2), endfgen.integer(2) + endfgen.integer(4) + " " * 44] + f([0.1, 1.0, 0.2, 2.0])
    for t in temps[1:]:
        body += [c(t, 0.0, 4, 0, 2, 0)] + f([1.0, 2.0])
    endfgen.set_body(m, 7, 4, [l.ljust(66) for l in body])
    open(path, "w").write(endfgen.tape([m])[0])


def exe(path, text):
    open(path, "w").write("#!%s -SE\n" % sys.executable + text)
    os.chmod(path, 0o755)
