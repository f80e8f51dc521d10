"""Stand-ins for the NJOY executable: scripts that read the deck as NJOY would and write the tapes it asks for.

write_njoy(path, data, evaluation, ...): the script copies data/<mf>_<T>.boxer to every covariance library tape asked for at that MF and
temperature, data/ace_<T> and data/xsdir_<T> to ACE tapes, and puts a line naming the producer on every other tape.
"""
import os, stat, sys

HERE = os.path.dirname(os.path.abspath(__file__))

SCRIPT = r'''#!{py} -SE
import sys, os, hashlib, signal
sys.dont_write_bytecode = True
sys.path.insert(0, {here!r})
CFG = {cfg!r}
lines = []
for line in sys.stdin:
    lines.append(line)
    if line.strip() == "stop":
        break
deck = "".join(lines)
n = len([f for f in os.listdir(CFG["log"]) if f.startswith("deck")])
open(os.path.join(CFG["log"], "deck%d" % n), "w").write(deck)
sys.stdout.write(" njoy stand-in\n" + ("x" * 79 + "\n") * CFG["chatter"])
sys.stdout.flush()
if CFG["fail"] == "signal":
    os.kill(os.getpid(), signal.SIGKILL)
if CFG["fail"]:
    print(" ***error in stand-in***" + CFG["message"])
    sys.stdout.flush()
    sys.exit(CFG["fail"])
import njoydeck
try:
    mods = njoydeck.parse(deck)
    tapes = njoydeck.dataflow(mods, {{int(k): v for k, v in CFG["tapein"].items()}})
except Exception as e:
    print("DECK NOT VALID: %s" % e)
    sys.stdout.flush()
    sys.exit(77)
for t, sha in CFG["sha"].items():
    p = "tape%s" % t
    if not os.path.exists(p) or hashlib.sha256(open(p, "rb").read()).hexdigest() != sha:
        print("WRONG INPUT TAPE %s" % t)
        sys.stdout.flush()
        sys.exit(78)
for t, d in tapes.items():
    if d["by"] is None:
        continue
    src = None
    if d["kind"] == "boxer":
        e = [m for m in d["history"] if m["module"] == "errorr"][-1]
        src = "%d_%g.boxer" % (e["mfcov"], e["temp"])
    elif d["kind"] in ("ace", "xsdir"):
        src = "%s_%g" % (d["kind"], d["by"]["temp"])
    elif d["kind"] == "pendf" and d["by"]["module"] == "reconr":
        src = "pendf"
    if src is not None and os.path.exists(os.path.join(CFG["data"], src)):
        body = open(os.path.join(CFG["data"], src)).read()
    else:
        body = "%s tape by %s\n" % (d["kind"], " ".join(m["module"] for m in d["history"]))
    if t in CFG["omit"]:
        continue
    open("tape%d" % t, "w").write(body)
open("output", "w").write("njoy listing\n")
sys.exit(0)
'''

def executable(path, text):
    with open(path, "w") as f:
        f.write(text)
    os.chmod(path, 0o755)
    return path


def write_njoy(path, log, data, tapein, sha, fail=0, message="", chatter=0, omit=()):
    os.makedirs(log, exist_ok=True)
    cfg = {"log": log, "data": data, "tapein": tapein, "sha": sha, "fail": fail, "message": message, "chatter": chatter, "omit": list(omit)}
    return executable(path, SCRIPT.format(py=sys.executable, here=HERE, cfg=cfg))


def write_boxer(path, log, exe, at, code, message):
    """the real program, except that call number `at` fails after taking its input"""
    os.makedirs(log, exist_ok=True)
    body = r'''#!{py} -SE
import os, sys, signal
log = {log!r}
n = len([f for f in os.listdir(log) if f.startswith("call")])
open(os.path.join(log, "call%d" % n), "w").write(os.getcwd())
if n == {at}:
    for line in sys.stdin:
        if line.replace(" ", "").strip() == "0,0":
            break
    print(" boxer stand-in: " + {message!r})
    sys.stdout.flush()
    sys.exit({code})
os.execv({exe!r}, [{exe!r}])
'''
    return executable(path, body.format(py=sys.executable, log=log, at=at, message=message, code=code, exe=exe))
