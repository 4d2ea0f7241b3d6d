"""One worker: drives Hypothesis over the strategy of a check, single process."""
import gc
import faulthandler
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

from . import bootstrap, Skip, Violation

CASE_TIMEOUT = 120  # seconds; cases take milliseconds, so this means a hang
SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK", "40"))


class Stop(BaseException):
    pass


class Hang(Exception):
    pass


def signature(exc):
    tb = exc.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return f"{type(exc).__name__} {tb.tb_frame.f_code.co_filename} {tb.tb_frame.f_code.co_name}"


def main():
    prop, index, seed, tier, out = sys.argv[1:6]
    index, seed = int(index), int(seed)
    bootstrap()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from .runner import load
    from .shrink import shrink

    mod = load(prop)
    budget = dict(mod.BUDGET[tier])
    budget["seconds"] = float(os.environ.get("VERIF_SECONDS", budget["seconds"]))
    start = time.monotonic()
    stats = {"evaluations": 0, "skipped": 0, "nontrivial": set(), "samples": [], "classes": {},
             "violation": None, "error": None}
    state = {"first": None, "kind": None}
    crashy = getattr(mod, "CRASHY", False)
    if crashy:
        faulthandler.enable()
        current = open(out + ".current", "w")

    def on_alarm(signum, frame):
        raise Hang(f"case did not finish within {CASE_TIMEOUT} s")

    signal.signal(signal.SIGALRM, on_alarm)

    def fail(case, message):
        v = {"case": case, "message": message}
        stats.setdefault("first_message", message)
        best = stats["violation"]
        if best is None or len(json.dumps(case)) <= len(json.dumps(best["case"])):
            stats["violation"] = v
            # (in case the worker doesn't survive what comes next)
            with open(out + ".best.tmp", "w") as fh:
                json.dump(v, fh, default=str)
            os.rename(out + ".best.tmp", out + ".best")
        if state["first"] is None:
            state["first"] = time.monotonic()

    def one(case):
        now = time.monotonic()
        if state["first"] is not None and now - state["first"] > SHRINK_SECONDS:
            raise Stop()
        if state["first"] is None and now - start > budget["seconds"]:
            raise Stop()
        shrinking = state["first"] is not None
        if crashy:
            # (all of them, because a crash might be due to earlier ones)
            current.write(json.dumps(case) + "\n")
            current.flush()
        signal.alarm(CASE_TIMEOUT)
        try:
            info = mod.run(case)
        except Skip:
            stats["skipped"] += not shrinking
            return
        except Violation as e:
            if state["kind"] in (None, "violation"):
                state["kind"] = "violation"
                fail(case, f"{e}")
                raise
            return
        except Exception as e:
            # Code under test that makes the harness stumble is at fault as well: on
            # the unchanged tree this doesn't happen.  While shrinking only look for
            # the same failure (others might be due to malformed cases).
            kind = signature(e)
            if state["kind"] in (None, kind):
                state["kind"] = kind
                fail(case, "unexpected exception: " + traceback.format_exc()[-2500:])
                raise Violation("exception") from e
            return
        finally:
            signal.alarm(0)
        if shrinking:
            return
        stats["evaluations"] += 1
        for c in info.get("classes", ()):
            stats["classes"][c] = stats["classes"].get(c, 0) + 1
        if info.get("nontrivial"):
            digest = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
            if digest not in stats["nontrivial"]:
                stats["nontrivial"].add(digest)
                n = len(stats["nontrivial"])
                if n in (1, 10, 100, 1000) or (n < 40 and n % 13 == 0):
                    text = json.dumps(case)
                    stats["samples"].append(case if len(text) < 3000 else text[:3000] + "...")

    test_seed = seed * 1000003 + index * 7919 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16)

    def generate():
        """Own generators (the module has gen(random)) are much faster than strategies"""
        for n in range(budget["cases"]):
            case = mod.gen(random.Random(f"{test_seed}-{n}"))
            try:
                one(json.loads(json.dumps(case)))
            except Violation:
                break
        else:
            return

        def fails(case):
            try:
                one(case)
            except Violation:
                return True
            return False

        try:
            shrink(stats["violation"]["case"], fails, SHRINK_SECONDS)
        except Stop:
            pass

    strategy = mod.strategy() if hasattr(mod, "strategy") else hypothesis.strategies.none()

    @hypothesis.seed(test_seed)
    @settings(
        max_examples=budget["cases"], database=None, deadline=None,
        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), print_blob=False,
    )
    @given(strategy)
    def test(case):
        one(case)

    random.seed(test_seed)
    if hasattr(mod, "fixed_cases") and index == 0:
        fixed = mod.fixed_cases()
    else:
        fixed = []
    try:
        for case in fixed:
            try:
                one(case)
            except Violation:
                break
        else:
            generate() if hasattr(mod, "gen") else test()
    except Stop:
        pass
    except Violation:
        pass
    except BaseException as e:  # noqa
        # Hypothesis may wrap (Flaky etc.) what happened while shrinking
        if stats["violation"] is None and stats["error"] is None:
            stats["error"] = f"{type(e).__name__}: {traceback.format_exc()}"
    stats["nontrivial"] = sorted(stats["nontrivial"])
    tmp = out + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(stats, fh, default=str)
    os.rename(tmp, out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
