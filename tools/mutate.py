#!/usr/bin/env python3
"""mutate.py OUT.jsonl FILE[:N] ...   development tool: mutation testing of the checks

Makes up to N small changes (sampled over the file) to each source file in scratch copies of the repository, runs the checks that should notice
(first failure only, one process each, reduced case numbers) and writes which survived. Survivors are read by a person.
"""
import ast, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
D = "ASAPy/data/"
CHECKS = {
    "ASAPy/XsecSampler.py": "C07 C05 C08 C18 C25 C41", "ASAPy/CovManipulation.py": "C03 C04 C05 C01 C02 C07", "ASAPy/AsapyCovStorage.py": "C06 C05 C10 C12",
    "ASAPy/EndfToCov.py": "C10 C12 C09", "ASAPy/AceIO.py": "C15 C16 C17 C19 C18", "ASAPy/njoy.py": "C11 C26 C12", "ASAPy/endf.py": "C21",
    D + "ace.py": "C13 C22 C14", D + "endf.py": "C21 C27 C28 C29", D + "function.py": "C39 C20 C23 C27 C14 C28 C35", D + "reaction.py": "C39 C14 C27 C23 C16 C34",
    D + "neutron.py": "C14 C23 C27 C16 C34 C35", D + "product.py": "C39 C14 C27 C23", D + "urr.py": "C39 C14 C23", D + "grid.py": "C24", D + "data.py": "C22 C38 C33 C14 C27",
    D + "angle_distribution.py": "C39 C14 C23 C27", D + "energy_distribution.py": "C39 C14 C23 C27", D + "kalbach_mann.py": "C39 C14 C23 C27", D + "correlated.py": "C39 C14 C23 C27",
    D + "nbody.py": "C39 C14 C23 C27", D + "laboratory.py": "C39 C27 C23", D + "uncorrelated.py": "C39 C14 C23 C27", D + "angle_energy.py": "C39 C14 C23", D + "njoy.py": "C26 C30 C34",
    D + "resonance.py": "C28 C29 C35", D + "resonance_covariance.py": "C29", D + "thermal.py": "C30 C26", D + "fission_energy.py": "C31 C34", D + "decay.py": "C32",
    D + "photon.py": "C33", D + "univariate.py": "C39 C37 C23 C14 C27", D + "library.py": "C37", D + "multipole.py": "C36", D + "reconstruct.pyx": "C35", D + "mixin.py": "C40 C42", D + "checkvalue.py": "C42 C39", D + "_xml.py": "C37",
}
SKIP = re.compile(r"^(plot|__repr__|__str__|_repr)|plot")
OPS = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*"}


def mutants(src, tree):
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n, end=False: off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    seg = lambda n: b[pos(n):pos(n, True)].decode()
    out = []

    def put(n, new, kind):
        out.append((pos(n), pos(n, True), new, kind, n.lineno))

    def visit(n, fn, doc):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if SKIP.search(n.name):
                return
            if isinstance(n, ast.FunctionDef) and any("setter" in ast.dump(d) for d in n.decorator_list):
                return
        if isinstance(n, ast.If) and "__name__" in seg(n.test):
            return
        if isinstance(n, (ast.Raise, ast.Assert)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = seg(n.value.func)
            if t.startswith(("cv.", "check_", "warn", "print", "plt.", "warnings.", "logging")):
                return
            put(n, "pass", "drop call")
        if isinstance(n, ast.AugAssign):
            put(n, "pass", "drop augassign")
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            put(n, "pass", "drop assignment")
        if isinstance(n, ast.Break):
            put(n, "continue", "break->continue")
        if isinstance(n, ast.Continue):
            put(n, "pass", "continue->pass")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in OPS:
            put(n, "%s %s %s" % (seg(n.left), OPS[type(n.ops[0])], seg(n.comparators[0])), "compare")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            put(n, "%s %s %s" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "binop")
        if isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + w.join("(" + seg(v) + ")" for v in n.values) + ")", "boolop")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(" + seg(n.operand) + ")", "not")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, "(" + seg(n.operand) + ")", "minus")
        if isinstance(n, (ast.If, ast.IfExp)) and not isinstance(n.test, (ast.Compare, ast.UnaryOp)):
            put(n.test, "(not (" + seg(n.test) + "))", "negate")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "int")
                if n.value:
                    put(n, str(n.value - 1), "int")
            elif isinstance(n.value, float):
                put(n, repr(n.value * 1.01 if n.value else 1.0), "float")
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.arguments):
                continue
            visit(c, fn, doc)

    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            visit(n, None, None)
    return b, out


def main():
    outp, files = sys.argv[1], sys.argv[2:]
    base = tempfile.mkdtemp(prefix="mut_", dir="/tmp/w")
    vcopy = os.path.join(base, "verif")
    os.makedirs(vcopy)
    for x in ("run_check.py", "checks", "lib", "MANIFEST.json", "known_findings.txt", ".deps"):
        subprocess.run(["cp", "-a", os.path.join(HERE, x), vcopy], check=True)
    jobs = []
    rnd = random.Random(int(os.environ.get("MUT_SEED", "1")))
    for f in files:
        f, _, n = f.partition(":")
        src = open(os.path.join(REPO, f)).read()
        if f.endswith(".pyx"):
            continue
        b, ms = mutants(src, ast.parse(src))
        rng = re.match(r"(\d+)-(\d+)$", n)
        if rng:
            ms = [m for m in ms if int(rng.group(1)) <= m[4] <= int(rng.group(2))]
        elif n and int(n) < len(ms):
            ms = rnd.sample(ms, int(n))
        for m in sorted(ms):
            new = b[:m[0]] + m[2].encode() + b[m[1]:]
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            jobs.append((f, m, new, b[m[0]:m[1]].decode()))
    print(len(jobs), "mutants", flush=True)
    pool, lock = list(range(8)), threading.Lock()
    par = int(os.environ.get("MUT_PAR", "7"))
    for k in range(par):
        subprocess.run(["cp", "-a", REPO, os.path.join(base, "r%d" % k)], check=True)
    pool = list(range(par))
    scale = os.environ.get("MUT_SCALE", "0.3")

    def one(job):
        f, m, new, old = job
        with lock:
            k = pool.pop()
        repo = os.path.join(base, "r%d" % k)
        path = os.path.join(repo, f)
        orig = open(path, "rb").read()
        try:
            open(path, "wb").write(new)
            for c in CHECKS[f].split():
                if not os.path.exists(os.path.join(vcopy, "checks", c.lower() + ".py")):
                    continue
                try:
                    r = subprocess.run([sys.executable, "run_check.py", c, "--scale", scale, "--workers", "1"], cwd=vcopy, capture_output=True, text=True, timeout=500,
                                       env=dict(os.environ, VERIF_REPO=repo, VERIF_FIRST="1", VERIF_TIER="quick", VERIF_SEED="1"))
                except subprocess.TimeoutExpired:
                    return dict(file=f, line=m[4], kind=m[3], old=old, new=m[2], by=c, how="timeout")
                if r.returncode:
                    return dict(file=f, line=m[4], kind=m[3], old=old, new=m[2], by=c, how="rc%d" % r.returncode)
            return dict(file=f, line=m[4], kind=m[3], old=old, new=m[2], by=None)
        finally:
            open(path, "wb").write(orig)
            with lock:
                pool.append(k)

    alive = 0
    with concurrent.futures.ThreadPoolExecutor(par) as ex, open(outp, "a") as fh:
        for i, r in enumerate(ex.map(one, jobs)):
            fh.write(json.dumps(r) + "\n")
            fh.flush()
            alive += r["by"] is None
            if i % 50 == 49:
                print(i + 1, "done", alive, "alive", flush=True)
    print("done", len(jobs), "alive", alive, flush=True)
    shutil.rmtree(base, ignore_errors=True)


main()
