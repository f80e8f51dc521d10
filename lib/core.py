"""Shared vocabulary of the checks."""
import os, shutil, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = os.environ.get("VERIF_SCRATCH", "")


class Violation(Exception):
    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


def require(cond, msg, *fmt, finding=None):
    if not cond:
        raise Violation(msg.format(*fmt) if fmt else msg, finding)


class Sub:
    """One executable statement of (part of) a property.

    strategy  builds a JSON-able case
    func      func(case, ctx): runs it, raises Violation; calls ctx.label(..)/ctx.nontrivial()
    quick, thorough  number of cases over all shards
    rule      what makes a case non-trivial
    """
    def __init__(self, name, strategy, func, quick, thorough=None, rule="", shards=None):
        self.name, self.strategy, self.func = name, strategy, func
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 20
        self.rule, self.shards = rule, shards


class Ctx:
    def __init__(self, root):
        self.root = root
        self.labels = []
        self._nontrivial = False
        self._dirs = []

    def label(self, *names):
        self.labels += [str(n) for n in names]

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def dir(self):
        d = tempfile.mkdtemp(prefix="case_", dir=self.root)
        self._dirs.append(d)
        return d

    def close(self):
        os.chdir(self.root)
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)


def expect_raises(func, what):
    """func() must refuse its input by raising an ordinary exception."""
    try:
        func()
    except Exception:
        return
    raise Violation("accepted although it must be refused: " + what)
