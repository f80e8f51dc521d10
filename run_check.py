#!/usr/bin/env python3
"""Runs the property checks: run_check.py <ID> [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..": broken.
Anything else: error of the check itself.
"""
import argparse, hashlib, importlib, json, os, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
WHEELS = "/opt/veriftools/wheels"


# ----------------------------------------------------------------------------- bootstrap
def ensure_deps(fallback):
    """A folder with hypothesis for the repository's interpreter (it is not installed there)."""
    marker = ".ok"
    target = os.path.join(HERE, ".deps")
    if os.path.exists(os.path.join(target, marker)):
        return target
    import glob, zipfile
    tmp = tempfile.mkdtemp(prefix=".deps_", dir=HERE if os.access(HERE, os.W_OK) else fallback)
    for pat in ("hypothesis-6*-cp312-cp312-*.whl", "sortedcontainers-*.whl"):
        found = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if not found:
            raise RuntimeError("wheel not found: " + pat)
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(tmp)
    open(os.path.join(tmp, marker), "w").close()
    try:
        os.rename(tmp, target)
        return target
    except OSError:
        if os.path.exists(os.path.join(target, marker)):
            shutil.rmtree(tmp, ignore_errors=True)
            return target
        return tmp


def child_env(scratch, deps):
    env = dict(os.environ)
    env.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
               PYTHONPATH=os.pathsep.join([REPO, HERE, deps]), VERIF_REPO=REPO,
               HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
               OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
               OMPI_MCA_btl_vader_single_copy_mechanism="none", TMPDIR=scratch, VERIF_SCRATCH=scratch)
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    return env


# ----------------------------------------------------------------------------- known findings
def known_findings(pid):
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                body = line[len("known:"):].strip()
                parts = body.split(None, 2)
                kv = dict(x.split("=", 1) for x in parts[:2])
                if kv["property"] == pid:
                    out[kv["key"]] = parts[2] if len(parts) > 2 else ""
    return out


# ----------------------------------------------------------------------------- parent
def parent(args):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    scratch = tempfile.mkdtemp(prefix="asapy_verif_")
    procs = []
    try:
        deps = ensure_deps(scratch)
        env = child_env(scratch, deps)
        env["VERIF_SEED"], env["VERIF_TIER"] = str(seed), tier
        n = args.workers
        if args.replay:
            n = 1
        prep = os.path.join(HERE, "checks", args.id.lower() + "_prep.py")
        if os.path.exists(prep):
            r = subprocess.run([PY, prep], env=env, cwd=scratch)
            if r.returncode:
                print("preparation failed", file=sys.stderr)
                return 3
        for k in range(n):
            wd = os.path.join(scratch, "w%d" % k)
            os.makedirs(wd)
            wenv = dict(env, TMPDIR=wd)
            cmd = [PY, os.path.abspath(__file__), args.id, "--worker", str(k), str(n), "--tier", tier]
            if args.replay:
                cmd += ["--replay", os.path.abspath(args.replay)]
            if args.sub:
                cmd += ["--sub", args.sub]
            if args.scale != 1.0:
                cmd += ["--scale", str(args.scale)]
            log = open(os.path.join(wd, "log"), "w")
            procs.append((k, wd, subprocess.Popen(cmd, env=wenv, cwd=wd, stdout=log, stderr=log,
                                                  stdin=subprocess.DEVNULL, start_new_session=True)))
        results, errors = [], []
        limit = 840 if tier == "quick" else 6 * 3600
        for k, wd, p in procs:
            try:
                p.wait(timeout=max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                errors.append("worker %d timed out" % k)
                continue
            out = os.path.join(wd, "result.json")
            if os.path.exists(out):
                results.append(json.load(open(out)))
                if results[-1].get("error"):
                    errors.append("worker %d: %s" % (k, results[-1]["error"]))
            else:
                errors.append("worker %d died (rc %s): %s" % (k, p.returncode, open(os.path.join(wd, "log")).read()[-3000:]))
        return report(args, results, errors, seed, tier, time.time() - t0)
    finally:
        for _, _, p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            try:
                p.wait(timeout=10)
            except Exception:
                pass
        shutil.rmtree(scratch, ignore_errors=True)


def report(args, results, errors, seed, tier, wall):
    pid = args.id
    subs, known = {}, {}
    failures = []
    for r in results:
        for name, s in r["subs"].items():
            d = subs.setdefault(name, {"evaluations": 0, "hashes": set(), "labels": {}, "samples": [], "rule": s["rule"], "skipped_after_budget": 0})
            d["evaluations"] += s["evaluations"]
            d["skipped_after_budget"] += s["skipped"]
            d["hashes"].update(s["hashes"])
            for l, c in s["labels"].items():
                d["labels"][l] = d["labels"].get(l, 0) + c
            d["samples"] += s["samples"]
        failures += r["failures"]
        for key, what in r.get("known", {}).items():
            known[key] = what
    kf = known_findings(pid)
    for key in sorted(known):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, key, kf.get(key, known[key])))
    if args.replay:
        if errors:
            print("\n".join(errors), file=sys.stderr)
            return 3
        if failures:
            print(failures[0]["message"])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(args.replay)))
            return 1
        print("replay passes")
        return 0
    import_meta = {}
    mp = os.path.join(HERE, "MANIFEST.json")
    if os.path.exists(mp):
        for c in json.load(open(mp)).get("checks", []):
            import_meta[c["property"]] = c
    ev = sum(d["evaluations"] for d in subs.values())
    dn = sum(len(d["hashes"]) for d in subs.values())
    samples = []
    for name in sorted(subs):
        for s in subs[name]["samples"][:2]:
            samples.append({"sub": name, "case": s})
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": import_meta.get(pid, {}).get("level", "exploration"),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dn,
            "rule": "Cases are drawn by Hypothesis strategies (seed = VERIF_SEED, sub-check, shard); non-trivial per sub-check: "
                    + "; ".join("%s: %s" % (k, subs[k]["rule"]) for k in sorted(subs)),
            "samples": samples[:40],
            "sub_checks": {k: {"evaluations": subs[k]["evaluations"], "distinct_nontrivial": len(subs[k]["hashes"]),
                               "labels": dict(sorted(subs[k]["labels"].items())),
                               "skipped_after_budget": subs[k]["skipped_after_budget"]} for k in sorted(subs)},
        },
        "assumptions": sorted({a for r in results for a in r.get("assumptions", [])}),
        "wall_s": round(wall, 2), "violations": len(failures),
    }
    if not args.sub:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    for name in sorted(subs):
        d = subs[name]
        print("%s/%s: %d cases, %d distinct non-trivial %s" % (pid, name, d["evaluations"], len(d["hashes"]),
              json.dumps(dict(sorted(d["labels"].items())))))
    print("%s: %d cases in %.1f s" % (pid, ev, wall))
    if failures:
        seen = {}
        for f in failures:
            if f["sub"] not in seen or len(json.dumps(f["case"])) < len(json.dumps(seen[f["sub"]]["case"])):
                seen[f["sub"]] = f
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for name in sorted(seen):
            path = os.path.join(HERE, "replays", "%s-%s.json" % (pid, name.replace(" ", "_")))
            with open(path, "w") as fh:
                json.dump({"property": pid, "sub": name, "case": seen[name]["case"], "message": seen[name]["message"],
                           "note": seen[name].get("note", "")}, fh, indent=1)
            print("--- %s/%s" % (pid, name))
            print(seen[name]["message"][:3000])
            print("case: " + json.dumps(seen[name]["case"])[:2000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 3
    if ev == 0:
        print("no cases were run", file=sys.stderr)
        return 3
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier")
    ap.add_argument("--replay")
    ap.add_argument("--sub", help="run only this sub-check (development)")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply case counts (development)")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--worker", nargs=2, type=int)
    args = ap.parse_args()
    if args.worker:
        sys.path.insert(0, HERE)
        from lib import worker
        sys.exit(worker.run(args))
    if args.id == "setup":
        tmp = tempfile.mkdtemp(prefix="asapy_verif_")
        try:
            d = ensure_deps(tmp)
            env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1")
            sys.exit(subprocess.run([PY, "-c", "import hypothesis; print('hypothesis', hypothesis.__version__)"], env=env, cwd=tmp).returncode)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(parent(args))


if __name__ == "__main__":
    main()
