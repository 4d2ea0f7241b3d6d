"""Runs one check: spawns workers, merges their results, writes the evidence file.

exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: harness error.
"""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

from . import VERIF, REPO, bootstrap, Violation

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def load(prop):
    return importlib.import_module(f"vh.checks.{prop.lower()}")


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        with open(path) as fh:
            return json.load(fh)["findings"]
    return []


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.monotonic()
    bootstrap()
    mod = load(prop)
    budget = dict(mod.BUDGET[tier])  # {"cases": per worker, "seconds": soft limit}
    budget["seconds"] = float(os.environ.get("VERIF_SECONDS", budget["seconds"]))
    workers = min(WORKERS, getattr(mod, "MAX_WORKERS", WORKERS))
    scratch = tempfile.mkdtemp(prefix=f"vh-{prop}-")
    procs = []
    for i in range(workers):
        out = os.path.join(scratch, f"w{i}.json")
        log = open(os.path.join(scratch, f"w{i}.log"), "wb")
        p = subprocess.Popen(
            [sys.executable, "-m", "vh.worker", prop, str(i), str(seed), tier, out],
            stdout=log, stderr=subprocess.STDOUT, cwd=scratch,
            env={**os.environ, "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONPATH": VERIF},
        )
        procs.append((i, p, out, log))
    hard = budget["seconds"] * 2 + 240
    violations, errors, results, crashed = [], [], [], []
    for i, p, out, log in procs:
        try:
            rc = p.wait(timeout=max(1, hard - (time.monotonic() - start)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        log.close()
        res = None
        if os.path.exists(out):
            with open(out) as fh:
                res = json.load(fh)
            results.append(res)
            if res.get("violation"):
                violations.append(res["violation"])
                if os.environ.get("VERIF_DEBUG"):
                    print("FIRST:", res.get("first_message"), "\n-----")
            if res.get("error"):
                errors.append(res["error"])
        if res is None and os.path.exists(out + ".best"):
            with open(out + ".best") as fh:
                violations.append(json.load(fh))
        elif res is None:
            current = out + ".current"
            with open(os.path.join(scratch, f"w{i}.log"), errors="replace") as fh:
                tail = fh.read()[-4000:]
            if os.path.exists(current) and isinstance(rc, int) and rc < 0:
                crashed.append((current, f"interpreter crashed ({rc}): {tail[-3000:]}"))
            else:
                errors.append(f"worker {i} ended with {rc}: {tail}")
    for current, message in crashed:
        found = crash(prop, current, scratch, message)
        if found:
            violations.append(found)
            break
        print("note: a worker crashed, but its last cases don't: " + message[:1000])
    merged = merge(results)
    wall = time.monotonic() - start
    coverage = {
        "evaluations": merged["evaluations"],
        "distinct_nontrivial": len(merged["nontrivial"]),
        "rule": mod.RULE,
        "samples": merged["samples"][:5] or ["none"],
        "classes": merged["classes"],
        "skipped": merged["skipped"],
        "workers": workers,
        "budget": budget,
    }
    known = [f for f in known_findings() if f["property"] == prop]
    kf_lines = []
    if known:
        kf_lines = run_known(mod, known)
        coverage["known_findings_checked"] = len(known)
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)
    subprocess.run(["/bin/rm", "-rf", scratch])
    for line in kf_lines:
        print(line)
    print(f"{prop} {tier} seed={seed} evaluations={coverage['evaluations']} "
          f"nontrivial={coverage['distinct_nontrivial']} skipped={coverage['skipped']} wall={wall:.1f}s")
    if violations:
        best = min(violations, key=lambda v: len(json.dumps(v["case"])))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        digest = hashlib.sha1(json.dumps(best["case"], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", f"{prop}-{digest}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, **best}, fh, indent=1)
        print(best["message"][:3000])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("HARNESS ERROR")
        for e in errors[:3]:
            print(e)
        return 2
    if merged["evaluations"] == 0:
        print("HARNESS ERROR: nothing was evaluated")
        return 2
    return 0


def crashes(prop, cases, scratch):
    """Whether the interpreter crashes on these cases"""
    path = os.path.join(scratch, "crash.json")
    with open(path, "w") as fh:
        json.dump({"property": prop, "case": cases[-1], "before": cases[:-1]}, fh)
    try:
        p = subprocess.run([sys.executable, "-m", "vh.runner", "--replay", path], cwd=scratch, timeout=60,
                           env={**os.environ, "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONPATH": VERIF}, capture_output=True)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode < 0


def crash(prop, current, scratch, message, seconds=40):
    """The last case of a worker that crashed: find out what is needed to reproduce it"""
    from .shrink import shrink

    with open(current) as fh:
        cases = [json.loads(line) for line in fh if line.endswith("\n")]
    end = time.monotonic() + seconds
    for size in (1, 2, 10, 100):
        if not crashes(prop, cases[-size:], scratch):
            continue
        case, before = cases[-1], cases[-size:-1]
        while len(before) > 1 and time.monotonic() < end:
            if crashes(prop, before[1:] + [case], scratch):
                before = before[1:]
            else:
                break
        case = shrink(case, lambda x: crashes(prop, before + [x], scratch), max(1, end - time.monotonic()))
        return {"case": case, "before": before, "message": message}
    return None


def run_known(mod, known):
    """Replay each listed finding: it has to fail still, in the listed way."""
    lines = []
    for f in known:
        try:
            mod.run(f["case"])
        except Violation:
            lines.append(f"KNOWN-FINDING: property={f['property']} {f['what']}")
        except Exception:  # noqa
            lines.append(f"KNOWN-FINDING: property={f['property']} {f['what']}")
        else:
            lines.append(f"note: listed finding of {f['property']} no longer fails: {f['what']}")
    return lines


def merge(results):
    out = {"evaluations": 0, "skipped": 0, "nontrivial": set(), "samples": [], "classes": {}}
    for r in results:
        out["evaluations"] += r["evaluations"]
        out["skipped"] += r["skipped"]
        out["nontrivial"].update(r["nontrivial"])
        out["samples"].extend(r["samples"][:2])
        for k, v in r["classes"].items():
            out["classes"][k] = out["classes"].get(k, 0) + v
    return out


def replay(path):
    bootstrap()
    with open(path) as fh:
        data = json.load(fh)
    mod = load(data["property"])
    for case in data.get("before", ()):
        try:
            mod.run(case)
        except Exception:  # noqa
            pass
    try:
        info = mod.run(data["case"])
    except Violation as e:
        print(f"{e}")
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    except Exception:
        traceback.print_exc()
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    print("holds:", info, flush=True)
    os._exit(0)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
