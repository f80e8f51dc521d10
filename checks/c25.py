import os, subprocess, sys, warnings
from hypothesis import strategies as st
from lib.core import Sub, require
from checks import c18

warnings.simplefilter("ignore")


def run(c, ctx):
    d = ctx.dir()
    t, text, entries, cmd, mts = c18.command(c, d)
    before = set(os.listdir(d))
    env = dict(os.environ, TMPDIR=d)
    for k in [k for k in env if k.startswith(("OMPI_", "PMIX_", "PRTE_", "ORTE_")) and "ALLOW_RUN_AS_ROOT" not in k]:
        del env[k]                                                                # the worker itself is an MPI singleton
    env["OMPI_MCA_btl_vader_single_copy_mechanism"] = "none"
    r = subprocess.run(["mpiexec", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", str(c["ranks"]), sys.executable, "-W", "ignore", "-m", "ASAPy.XsecSampler"] + cmd,
                       cwd=d, env=env, capture_output=True, text=True, timeout=300)
    before |= {f for f in os.listdir(d) if f.startswith("ompi.")}
    n = c18.verify_run(c, ctx, d, t, text, entries, mts, r, before)
    ctx.label("%d processes" % c["ranks"])
    if n < c["ranks"]:
        ctx.label("more processes than samples")
    ctx.nontrivial(n > 1)


@st.composite
def case(draw):
    return draw(c18.cli_case(mpi=True))


SUBS = [Sub("processes", case(), run, 16, 600, "two or more files were written by two or more processes")]
