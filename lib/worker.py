import hashlib, importlib, json, os, signal, sys, time, traceback, warnings
from lib.core import Ctx, Violation, REPO


class Stop(BaseException):
    pass


class HarnessError(Exception):
    pass


class TooLong(BaseException):
    pass


T0 = time.time()
CASE_LIMIT = 200        # seconds; the slowest ordinary case takes a few


def _alarm(*_):
    raise TooLong()


def case_hash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


def in_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root) and not fn.startswith(here):
            return True
        tb = tb.tb_next
    return False


def run_case(sub, case, root):
    """Returns ctx; raises Violation for a broken property, HarnessError for our own mistakes."""
    ctx = Ctx(root)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sub.func(json.loads(json.dumps(case)), ctx)
    except Violation:
        raise
    except (KeyboardInterrupt, Stop):
        raise
    except TooLong as e:
        v = Violation("no result within %d s\n%s" % (CASE_LIMIT, "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]))
        v.hang = True
        raise v
    except BaseException as e:
        if in_repo(e.__traceback__):
            tail = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
            raise Violation("the code raised on an input it must handle: %s: %s\n%s" % (type(e).__name__, e, tail))
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if isinstance(e, (TypeError, AttributeError, LookupError, ValueError, ArithmeticError)):
            # the judgement fails on what the code handed out: a value of another kind, a missing entry, a wrong shape
            raise Violation("the result does not have the form it must have: %s: %s\n%s" % (type(e).__name__, e, text[-1500:]))
        raise HarnessError(text)
    finally:
        signal.alarm(0)
        ctx.close()
    return ctx


def run(args):
    k, n = args.worker
    root = os.getcwd()
    sys.stdout.flush()
    res = {"subs": {}, "failures": [], "known": {}, "error": None, "assumptions": []}
    try:
        import numpy as np
        import ASAPy
        real = os.path.realpath(ASAPy.__file__)
        if not real.startswith(os.path.realpath(REPO) + os.sep):
            raise HarnessError("ASAPy imported from " + real)
        mod = importlib.import_module("checks." + args.id.lower())
        res["assumptions"] = getattr(mod, "ASSUMPTIONS", [])
        from run_check import known_findings
        kf = known_findings(args.id)
        if args.replay:
            rep = json.load(open(args.replay))
            subs = [s for s in mod.SUBS if s.name == rep["sub"]]
            try:
                run_case(subs[0], rep["case"], root)
            except Violation as v:
                res["failures"].append({"sub": rep["sub"], "case": rep["case"], "message": str(v)})
        else:
            todo = [s for s in mod.SUBS if not args.sub or s.name == args.sub]
            rot = k % max(1, len(todo))
            for s in todo[rot:] + todo[:rot]:
                shards = min(n, s.shards or n)
                if k >= shards:
                    continue
                explore(s, args, k, shards, root, res, kf)
    except HarnessError as e:
        res["error"] = str(e)
    except Exception as e:
        res["error"] = traceback.format_exc()
    with open(os.path.join(root, "result.json.tmp"), "w") as f:
        json.dump(res, f)
    os.rename(os.path.join(root, "result.json.tmp"), os.path.join(root, "result.json"))
    sys.stdout.flush()
    os._exit(0)


def explore(s, args, k, shards, root, res, kf):
    import hypothesis
    from hypothesis import given, settings, Phase, HealthCheck, Verbosity
    total = s.quick if args.tier == "quick" else s.thorough
    count = max(1, int(-(-total * args.scale // shards)))
    seed = int.from_bytes(hashlib.blake2b(("%s/%s/%s/%d" % (os.environ["VERIF_SEED"], args.id, s.name, k)).encode(),
                                          digest_size=6).digest(), "big")
    rec = {"evaluations": 0, "hashes": [], "labels": {}, "samples": [], "rule": s.rule, "skipped": 0}
    res["subs"][s.name] = rec
    hashes = set()
    state = {"fail": None, "t_fail": None}
    t0 = time.time()
    budget = max(5, 450 - (t0 - T0)) if args.tier == "quick" else 3 * 3600
    shrink_budget = 25 if args.tier == "quick" else 120
    if os.environ.get("VERIF_FIRST"):       # development (tools/mutate.py): the first failure is enough
        shrink_budget = -1
        if res["failures"]:
            return

    def body(case):
        now = time.time()
        if state["fail"] is None and now - t0 > budget:
            rec["skipped"] += 1
            return
        if state["fail"] is not None and now - state["t_fail"] > shrink_budget:
            raise Stop()
        if state["fail"] is None:
            rec["evaluations"] += 1
        try:
            ctx = run_case(s, case, root)
        except Violation as v:
            if v.finding and v.finding in kf:
                res["known"][v.finding] = str(v)[:300]
                rec["labels"]["known-finding " + v.finding] = rec["labels"].get("known-finding " + v.finding, 0) + 1
                return
            if state["fail"] is None:
                state["t_fail"] = time.time() if not getattr(v, "hang", False) else 0
            state["fail"] = (case, str(v))
            raise
        if state["fail"] is None:
            for l in set(ctx.labels):
                rec["labels"][l] = rec["labels"].get(l, 0) + 1
            if ctx._nontrivial:
                rec["labels"]["nontrivial"] = rec["labels"].get("nontrivial", 0) + 1
                h = case_hash(case)
                if h not in hashes:
                    hashes.add(h)
                    js = json.dumps(case)
                    if len(rec["samples"]) < 2 and len(js) < 3000:
                        rec["samples"].append(case)

    test = settings(max_examples=count, deadline=None, database=None, derandomize=False,
                    phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, verbosity=Verbosity.quiet,
                    print_blob=False, suppress_health_check=list(HealthCheck))(given(s.strategy)(body))
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except (Stop, Violation):
        pass
    except hypothesis.errors.Flaky:
        pass
    except BaseException as e:
        if state["fail"] is None or isinstance(e, HarnessError):
            if state["fail"] is None:
                raise
    finally:
        rec["hashes"] = sorted(hashes)
    if state["fail"] is not None:
        case, msg = state["fail"]
        note = ""
        try:
            if state["t_fail"]:
                run_case(s, case, root)
                note = "did not fail when re-run alone in the same process; seed %s shard %d" % (os.environ["VERIF_SEED"], k)
        except Violation as v:
            msg = str(v)
        except HarnessError as e:
            note = "re-run raised a harness error: " + str(e)[-500:]
        res["failures"].append({"sub": s.name, "case": case, "message": msg, "note": note})
