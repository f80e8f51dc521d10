#!/usr/bin/env python3
"""plant.py PLANTS.py [id ...]   development tool: makes and confirms planted bugs in scratch copies of /repo and saves them under /verif/seeded

PLANTS.py defines P = [dict(id, prop, needs, breaks, edits=[(file, old, new), ..], demo=python source), ..].
For each: a copy of /repo is patched, the stable tests must pass, demo must exit 0 on the clean copy and non-zero on the patched one.
With --check the property's check is run against the patched copy as well (it must print a VIOLATION line for the property).
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/w/pl"
DEMO = """#!/bin/bash
# exit 0: the property holds on the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
export REPO=$PWD PYTHONPATH=$PWD:$here PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl_vader_single_copy_mechanism=none
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export MPLCONFIGDIR=$W/mpl TMPDIR=$W HOME=$W
mkdir -p "$W/run" && cd "$W/run"
/opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, cwd, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)


def stable_ok(repo, tag):
    script = open("/opt/vp/test.sh").read().replace("/repo", repo)
    f = os.path.join(BASE, tag + "_test.sh")
    open(f, "w").write(script)
    out = os.path.join(BASE, tag + "_test.json")
    sh("bash %s %s" % (f, out), BASE)
    d = json.load(open(out))
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    text = json.dumps(d)
    passed = set(d.get("passed", []))
    return sorted(want - passed) if passed else text[:500]


def make(p):
    tag = p["id"]
    clean, work = os.path.join(BASE, "clean_" + tag), os.path.join(BASE, "work_" + tag)
    for d in (clean, work):
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", os.environ.get("PLANT_REPO", "/repo"), d], check=True)
    for f, old, new in p["edits"]:
        path = os.path.join(work, f)
        s = open(path).read()
        if s.count(old) != 1:
            return tag, "edit of %s matches %d times: %r" % (f, s.count(old), old[:60])
        open(path, "w").write(s.replace(old, new))
    diff = sh("git diff", work).stdout
    sd = os.path.join(HERE, "seeded", tag)
    shutil.rmtree(sd, ignore_errors=True)
    os.makedirs(sd)
    open(os.path.join(sd, "patch.diff"), "w").write(diff)
    open(os.path.join(sd, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(sd, "demo.sh"), 0o755)
    open(os.path.join(sd, "demo.py"), "w").write(p["demo"].lstrip("\n"))
    if "from kit import" in p["demo"] or "import kit" in p["demo"]:
        shutil.copy(os.path.join(HERE, "tools", "kit.py"), sd)
        shutil.copy(os.path.join(HERE, "lib", "acegen.py"), sd)
    if "import kit_endf" in p["demo"]:
        shutil.copy(os.path.join(HERE, "tools", "kit_endf.py"), sd)
        shutil.copy(os.path.join(HERE, "lib", "endfgen.py"), sd)
    if re.search(r"from (lib|checks)\b", p["demo"]):
        os.makedirs(os.path.join(sd, "lib"), exist_ok=True)
        for f in ["__init__.py", "core.py", "endfgen.py", "endfdata.py"] + p.get("lib", []):
            shutil.copy(os.path.join(HERE, "lib", f), os.path.join(sd, "lib"))
    json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(sd, "meta.json"), "w"), indent=1)
    bad = None
    if sh("bash -n " + os.path.join(sd, "demo.sh"), clean).returncode:
        bad = "demo.sh"
    a = sh("bash " + os.path.join(sd, "demo.sh"), clean)
    b = sh("bash " + os.path.join(sd, "demo.sh"), work)
    if a.returncode != 0:
        bad = "demo fails on the clean copy:\n" + (a.stdout + a.stderr)[-1500:]
    elif b.returncode == 0:
        bad = "demo passes on the patched copy"
    else:
        miss = stable_ok(work, tag)
        if miss:
            bad = "stable tests: %s" % (miss,)
    shutil.rmtree(clean, ignore_errors=True)
    if bad:
        shutil.rmtree(sd, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)
        return tag, bad
    return tag, "ok: " + (b.stdout + b.stderr).strip().splitlines()[-1][:150]


def check(tag, prop):
    work = os.path.join(BASE, "work_" + tag)
    r = subprocess.run([sys.executable, os.path.join(HERE, "run_check.py"), prop], cwd=HERE, capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=work, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
    hit = r.returncode == 1 and ("VIOLATION property=%s " % prop) in r.stdout
    msg = ""
    m = re.search(r"^--- .*\n((?:.*\n){1,3})", r.stdout, re.M)
    if m:
        msg = m.group(0)[:400]
    return hit, r.returncode, msg if hit else (r.stdout + r.stderr)[-600:]


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    P = [p for p in ns["P"] if not ids or p["id"] in ids]
    os.makedirs(BASE, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        res = dict(ex.map(make, P))
    for p in P:
        print("[%s] %s" % (p["id"], res[p["id"]]), flush=True)
        if res[p["id"]].startswith("ok"):
            if "--check" in sys.argv:
                hit, rc, msg = check(p["id"], p["prop"])
                print("    %s %s rc=%d\n        %s" % (p["prop"], "CAUGHT" if hit else "MISSED", rc, msg.replace("\n", "\n        ")), flush=True)
            shutil.rmtree(os.path.join(BASE, "work_" + p["id"]), ignore_errors=True)
