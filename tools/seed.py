"""Makes /verif/seeded/<id> from a description, after having confirmed it in a scratch copy.

usage: seed.py FILE...   every file defines SEEDS = [dict(id, property, needs, breaks, edits, demo)]
edits: [(path, old, new)], demo: source of demo.py (exit 0 when the property holds)
"""
import json
import os
import subprocess
import sys

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
WT = "/tmp/seedwt"
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/sh
# run with cwd /repo: exit 0 when the property holds
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 QT_QPA_PLATFORM=offscreen
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(*cmd, **kw):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "E  timed out", "")


def make(seed):
    sh("/bin/rm", "-rf", WT)
    sh("git", "-C", "/repo", "worktree", "prune")
    r = sh("git", "clone", "-q", "--shared", "/repo", WT)
    assert r.returncode == 0, r.stderr
    folder = os.path.join(OUT, seed["id"])
    os.makedirs(folder, exist_ok=True)
    base = sh("git", "-C", WT, "rev-list", "--max-parents=0", "HEAD").stdout.split()[0]
    with open(os.path.join(folder, "demo.py"), "w") as fh:
        fh.write(seed["demo"].lstrip("\n"))
    with open(os.path.join(folder, "demo.sh"), "w") as fh:
        fh.write(DEMO_SH)
    os.chmod(os.path.join(folder, "demo.sh"), 0o755)
    with open(os.path.join(folder, "meta.json"), "w") as fh:
        json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]}, fh, indent=1)
        fh.write("\n")
    ok = sh(os.path.join(folder, "demo.sh"), cwd=WT, timeout=300)
    if ok.returncode:
        return f"demo fails on the unchanged tree: {ok.stdout[-1500:]}{ok.stderr[-1500:]}"
    for path, old, new in seed["edits"]:
        full = os.path.join(WT, path)
        text = open(full).read()
        if text.count(old) != 1:
            return f"{path}: {text.count(old)} occurrences of {old!r}"
        first = text[:text.index(old)].count("\n") + 1
        with open(full, "w") as fh:
            fh.write(text.replace(old, new))
    diff = sh("git", "-C", WT, "diff").stdout
    with open(os.path.join(folder, "patch.diff"), "w") as fh:
        fh.write(diff)
    # are lines of the original repository changed?
    removed = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    original = 0
    for path in {e[0] for e in seed["edits"]}:
        old = sh("git", "-C", WT, "show", f"{base}:{path}").stdout.splitlines()
        blame = sh("git", "-C", WT, "blame", "-s", "HEAD", "--", path).stdout.splitlines()
        mine = {l.split(") ", 1)[1] for l in blame if l.startswith("^") and ") " in l}
        original += sum(1 for l in removed if l[1:] in mine)
    env = {**os.environ, "PYTHONPATH": WT, "QT_QPA_PLATFORM": "offscreen", "PYTHONDONTWRITEBYTECODE": "1"}
    t = sh(PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", cwd=WT, env=env, timeout=60)
    last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
    bad = sh(os.path.join(folder, "demo.sh"), cwd=WT, timeout=300)
    notes = []
    if t.returncode:
        notes.append("TESTS FAIL: " + "; ".join(l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR", "E  ")))[:400])
    if not bad.returncode:
        notes.append("DEMO DOES NOT FAIL")
    if not original:
        notes.append("NO ORIGINAL LINE CHANGED (%r)" % removed)
    tail = (bad.stdout + bad.stderr).strip().splitlines()
    if notes:
        sh("/bin/rm", "-rf", folder)
    return (notes or ["ok"]) and "; ".join(notes or ["ok"]) + f" [{last}] demo: {tail[-1] if tail else ''}"


for name in sys.argv[1:]:
    scope = {}
    exec(open(name).read(), scope)
    for seed in scope["SEEDS"]:
        print(seed["id"], seed["property"], make(seed), flush=True)
sh("/bin/rm", "-rf", WT)
