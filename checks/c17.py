import os, warnings
import numpy as np
from hypothesis import strategies as st
from ASAPy import AceIO
from ASAPy.data import ace
from lib.core import Sub, require, expect_raises
from lib import acegen

warnings.simplefilter("ignore")
@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 40]))
    pool = draw(st.sampled_from([2, 3, 5, 50]))
    c = {"n": n, "pool": pool, "seed": draw(st.integers(0, 10 ** 6)), "style": draw(st.sampled_from(["old", "new"])), "ints": draw(st.booleans()), "wide": draw(st.sampled_from([0, 0, 1, 2])), "letter": draw(st.booleans()), "home": draw(st.sampled_from(["", "", "", "~/"]))}
    ops = []
    for _ in range(draw(st.integers(0, 4))):
        ops.append({"op": draw(st.sampled_from(["slice", "slice", "slice", "pool", "flip", "short", "absent"])), "at": draw(st.integers(0, n - 1)), "len": draw(st.integers(1, 6)),
                    "max": draw(st.sampled_from([None, 1, 1, 2, 3, 9999])), "with": draw(st.sampled_from(["scale", "random", "same", "negative", "zero", "pool"])), "seed": draw(st.integers(0, 10 ** 6)),
                    "kind": draw(st.sampled_from(["array", "list"]))})
    c["ops"] = ops
    return c


def text(v):
    return "%.11E" % v


def occurrences(tokens, want, most):
    out, i = [], 0
    while i + len(want) <= len(tokens) and len(out) < most:
        if tokens[i:i + len(want)] == want:
            out.append(i)
            i += len(want)
        else:
            i += 1
    return out


def check(c, ctx):
    os.chdir(ctx.dir())
    os.environ["HOME"] = os.getcwd()
    rs = np.random.RandomState([c["seed"], 6])
    pool = [acegen.r11(s * 10.0 ** rs.uniform(-30, 30)) for s in rs.choice([-1, 1, 1], c["pool"])]
    for k in range(min(c.get("wide", 0), len(pool))):
        pool[-1 - k] = acegen.r11(rs.choice([-1, 1]) * rs.uniform(1, 9.9) * 10.0 ** float(rs.randint(-290, -99)))
    pool[0] = rs.choice([0.0, pool[0]])
    if c["pool"] > 2:
        pool[1] = -pool[2]
    t = acegen.Table()
    n = c["n"]
    vals = [pool[k] for k in rs.randint(0, len(pool), n)]
    t.isint = [bool(c["ints"] and rs.randint(4) == 0) for _ in vals]
    t.xss = [int(rs.randint(-5, 3000)) if i else v for v, i in zip(vals, t.isint)]
    t.nxs, t.jxs, t.izaw = [n] + [0] * 15, list(range(32)), [[1001, 0.999167]] + [[0, 0.0]] * 15
    t.name, t.awr, t.kT = "92235.80c", 236.0058, 2.53e-8
    t.number_style = "E" if c.get("letter") else "short"
    src = acegen.ascii_text(t, c["style"])
    open("a.ace", "w").write(src)
    head = src.split("\n")[:15 if c["style"] == "new" else 12]
    w = AceIO.WriteAce(c["home"] + "a.ace")
    model = [str(v) if i else text(v) for v, i in zip(t.xss, t.isint)]

    def written(what):
        w.write_ace(c["home"] + "b.ace")
        lines = open("b.ace").read().split("\n")
        require(lines[:len(head)] == head, "{}: header {}", what, lines[:len(head)])
        body = [x for x in lines[len(head):] if x.strip()]
        require(len(body) == (n + 3) // 4 and not any(x.strip() for x in lines[len(head) + len(body):]), "{}: {} lines for {} values", what, len(body), n)
        got = []
        for k, x in enumerate(body):
            want = 80 if k < n // 4 else 20 * (n % 4)
            require(len(x) == want, "{}: line {!r} is not in columns of 20", what, x)
            got += [x[i:i + 20] for i in range(0, len(x), 20)]
        require(all(len(g.split()) == 1 for g in got), "{}: columns {}", what, got)
        bad = [k for k in range(n) if float(got[k]) != float(model[k])]
        require(not bad, "{}: value {} is {} instead of {}\n{}", what, bad[:1], bad and got[bad[0]], bad and model[bad[0]], [g.strip() for g in got])
        a = ace.get_table("b.ace")
        require(a.nxs[1] == n and len(a.xss) == n + 1 and all(float(x) == float(y) for x, y in zip(a.xss[1:], model)), "{}: the file reads back as {}", what, a.xss)

    written("no replacement")
    done = []
    for o in c["ops"]:
        rs = np.random.RandomState([o["seed"], 7])
        k = o["op"]
        at = o["at"]
        if k in ("slice", "short"):
            arr = [float(x) for x in model[at:at + o["len"]]]
        elif k == "pool":
            arr = [pool[i] for i in rs.randint(0, len(pool), o["len"])]
        elif k == "flip":
            arr = [float(x) for x in model[at:at + o["len"]]]
            arr[0] = -arr[0]
        else:
            arr = [float(x) for x in model[at:at + o["len"]]]
            arr[-1] = arr[-1] * 1.001 + 0.001
        arr = [v + 0.0 for v in arr]
        m = len(arr)
        new = {"scale": [v * 1.37 for v in arr], "random": [s * 10.0 ** e for s, e in zip(rs.choice([-1, 1], m), rs.uniform(-40, 40, m) * (4 if c.get("wide") else 1))], "same": list(arr),
               "negative": [0.0 - v for v in arr], "zero": [0.0] * m, "pool": [pool[i] for i in rs.randint(0, len(pool), m)]}[o["with"]]
        new = [v if 1e-300 < abs(v) < 1e300 else 0.0 for v in new]
        want = [text(v) for v in arr]
        kw = {} if o["max"] is None else {"max_replaces": o["max"]}
        a, b = (np.array(arr), np.array(new)) if o["kind"] == "array" else (arr, new)
        if k == "short":
            b = b[:-1] if rs.randint(2) else (np.append(b, 1.0) if o["kind"] == "array" else b + [1.0])
            expect_raises(lambda: w.replace_array(a, b, **kw), "%d values for an array of %d" % (len(b), m))
            written("refused length")
            continue
        occ = occurrences(model, want, o["max"] or 1)
        if not occ:
            expect_raises(lambda: w.replace_array(a, b, **kw), "array that is not in the file: %s in %s" % (want, model))
            written("refused array")
            done.append("absent")
            continue
        w.replace_array(a, b, **kw)
        for i in occ:
            model[i:i + m] = [text(v) for v in new]
        done.append("%d replaced" % min(len(occ), 3))
        written("replaced %s by %s (%s times)" % (want, [text(v) for v in new], len(occ)))
    require(open("a.ace").read() == src, "the source file was modified")
    ctx.label(*set(done))
    ctx.nontrivial(any(d.endswith("replaced") for d in done))


SUBS = [Sub("replacements", case(), check, 4000, 150000, "at least one array was replaced")]
