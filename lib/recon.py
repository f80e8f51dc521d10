"""Builds ASAPy/data/reconstruct.pyx of the tree under test outside of it and makes it importable as ASAPy.data.reconstruct."""
import fcntl, hashlib, importlib.abc, importlib.machinery, importlib.util, os, shutil, subprocess, sys, sysconfig
from lib.core import REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAME = "ASAPy.data.reconstruct"


def build():
    """path of the compiled module for the current source"""
    src = os.path.join(REPO, "ASAPy", "data", "reconstruct.pyx")
    text = open(src, "rb").read()
    key = hashlib.sha256(text + sys.version.encode()).hexdigest()[:24]
    base = os.path.join(HERE, ".deps", "reconstruct")
    os.makedirs(base, exist_ok=True)
    out = os.path.join(base, key + ".so")
    with open(os.path.join(base, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out):
            import numpy
            tmp = os.path.join(base, key)
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            open(os.path.join(tmp, "reconstruct.pyx"), "wb").write(text)
            from Cython.Compiler.Main import compile as cy, CompilationOptions
            res = cy(os.path.join(tmp, "reconstruct.pyx"), CompilationOptions(language_level=2))
            if res.num_errors:
                raise RuntimeError("reconstruct.pyx does not compile")
            subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include(), os.path.join(tmp, "reconstruct.c"), "-o", os.path.join(tmp, "r.so")], check=True)
            os.rename(os.path.join(tmp, "r.so"), out)
            shutil.rmtree(tmp)
    return out


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == NAME:
            p = build()
            return importlib.util.spec_from_file_location(name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))


def install():
    if "ASAPy.data.resonance" in sys.modules:
        raise RuntimeError("ASAPy.data was imported before the reconstruction module")
    sys.meta_path.insert(0, Finder())
