"""C21: the command line starts exactly the component and state it was given."""
import contextlib
import io
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

from .. import REPO, Skip, Violation, plain_locale
from ..app import raw

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("A case is a folder with component files and JSON files and a command line: state as JSON text of any size and "
        "nesting, as (relative or absolute) name of a file, broken JSON, JSON that is no object, names of folders or of "
        "nothing; existing, missing and wrong component files; an option for the renderer. The component records the "
        "props it gets and what it renders to. Either exactly the named component runs with exactly the JSON object, or "
        "the command fails and nothing runs. Some cases run in a process of their own, among which those with the Qt "
        "and pygfx renderers (the scene that is drawn has to contain the element of the component). Non-trivial: state was given.")
ASSUMPTIONS = ["names in the state don't start with 'on_' (those are handlers)", "pygfx draws on a stand-in canvas, by a stand-in for its WgpuRenderer"]

CHARS = ["a", "b", " ", "é", "😀", '"', "\\", "\n", "/", "{", "}", "%", "%s", "<", "\u2028", "'", "0", ".", "$HOME", "~"]
FILES = ["state.json", "a b.json", "é.json", "noext", "sub/state.json", "{}", "[]", "100%.json", "-dash.json"]


def gen_value(r, depth):
    k = r.choice(["int", "float", "str", "null", "bool", "list", "dict"] if depth else ["int", "str", "null", "bool", "float"])
    if k == "int":
        return r.choice([0, 1, -1, 10**20, 7, -(2**63)])
    if k == "float":
        return r.choice([0.5, -0.0, 1.0, 1e300, 1e-7, 3.14])
    if k == "str":
        return gen_str(r)
    if k == "null":
        return None
    if k == "bool":
        return r.random() < 0.5
    if k == "list":
        return [gen_value(r, depth - 1) for _ in range(r.randint(0, 3))]
    return gen_dict(r, depth - 1)


def gen_str(r):
    return "".join(r.choice(CHARS) for _ in range(r.randint(0, 5)))


def gen_dict(r, depth):
    return {gen_str(r) or "k": gen_value(r, depth) for _ in range(r.randint(0, 4))}


def gen_json(r):
    """-> text, size of padding"""
    value = gen_dict(r, 3)
    if r.random() < 0.4:
        value = {"a": gen_value(r, 1), "b": gen_value(r, 0), "state": gen_value(r, 1)}
    text = json.dumps(value, ensure_ascii=r.random() < 0.5, indent=r.choice([None, None, 2]),
                      separators=r.choice([None, (",", ":")]))
    pad = r.choice([0] * 6 + [100, 300, 5000, 70000])
    return text, pad


COMPS = ["one.cgx", "two.cgx", "sub/one.cgx", "a b.cgx", "one.two.cgx", "..cgx.cgx", "é.cgx"]
# Files with a component, which don't have the name of one
WRONG = ["one.txt", "one.xcgx", "onecgx", "one.cgx.bak", "one.cgxx", "one.cg"]


def gen(r):
    text, pad = gen_json(r)
    how = r.choice(["text"] * 5 + ["file"] * 4 + ["none", "broken", "brokenfile", "scalar", "scalarfile", "folder", "missing"])
    scalar = r.choice(["1", "[]", '[{"a": 1}]', '"{}"', "null", "true", "false", "0", '""', "1.5", '[["a", 1]]'])
    broken = r.choice(["", " ", "{", "{a: 1}", "{'a': 1}", text + "}", text[:-1], '{"a": 1,}', "{}{}", "None", "\\x00", "state"])
    return {"how": how, "text": text, "pad": pad, "scalar": scalar, "broken": broken, "file": r.choice(FILES),
            "absolute": r.random() < 0.3, "equals": r.random() < 0.3,
            "component": r.choice(["ok"] * 12 + ["missing", "folder", "suffix", "none", "other"] + WRONG),
            "comp": r.choice(COMPS),
            "renderer": r.choice(["dict"] * 12 + ["bogus"]), "order": r.random() < 0.5,
            "process": r.choice(["dict", "pyside", "pygfx"]) if r.random() < 0.006 else None}


def padded(text, pad):
    """The same object with a long value"""
    if not pad:
        return text
    head = '{"padding": "' + "x" * pad + '"'
    rest = text.strip()[1:].strip()
    return head + ("}" if rest == "}" else ", " + rest)


COMPONENT = '''<template>
<{tag} />
</template>
<script>
import json
import os
import collagraph as cg
from observ import to_raw

class Comp(cg.Component):
    def __init__(self, props=None, parent=None):
        super().__init__(props, parent)
        self.report("init", self.props)

    def mounted(self):
        self.report("mounted", [t.__name__ for t in type(self.element).__mro__])

    def report(self, what, value):
        with open(os.environ["VH_C21_OUT"], "a", encoding="utf-8") as fh:
            fh.write(json.dumps([what, {name!r}, to_raw(value)]) + "\\n")
</script>
'''

PROCESS = '''
import runpy, sys
sys.path.insert(0, sys.argv.pop(1))
sys.breakpointhook = lambda *a, **k: None
try:
    from PySide6 import QtWidgets
except ImportError:
    pass
else:
    def execute(*args):
        app = QtWidgets.QApplication.instance()
        for _ in range(20):
            app.processEvents()
            import asyncio, time
            time.sleep(0.002)
    QtWidgets.QApplication.exec = execute
if "pygfx" in sys.argv:
    import asyncio, json, os, types
    import pygfx as gfx

    class Canvas:
        def __init__(self, *args, **kwargs):
            Canvas.last = self
            self.draw = None

        def request_draw(self, draw=None):
            self.draw = draw or self.draw

        def get_logical_size(self):
            return 600, 400

        def get_physical_size(self):
            return 600, 400

        def get_pixel_ratio(self):
            return 1

        def __getattr__(self, name):
            return lambda *args, **kwargs: None

    class Stand(gfx.renderers.Renderer):
        def __init__(self, canvas, *args, **kwargs):
            self.canvas = self.target = canvas

        def render(self, scene, camera, *args, **kwargs):
            if not isinstance(camera, gfx.Camera):
                raise TypeError("no camera")
            with open(os.environ["VH_C21_OUT"], "a", encoding="utf-8") as fh:
                fh.write(json.dumps(["drawn", type(scene).__name__, [x.name for x in scene.children]]) + "\\n")

        def __getattr__(self, name):
            return lambda *args, **kwargs: None

    Stand.__abstractmethods__ = frozenset()
    gfx.renderers.WgpuRenderer = gfx.WgpuRenderer = Stand

    def run():
        loop = asyncio.get_event_loop()
        loop.call_later(0.1, loop.stop)
        loop.run_forever()
        if Canvas.last.draw:
            Canvas.last.draw()

    auto = types.ModuleType("wgpu.gui.auto")
    auto.WgpuCanvas, auto.run = Canvas, run
    sys.modules["wgpu.gui.auto"] = auto
sys.argv[0] = "collagraph"
runpy.run_module("collagraph", run_name="__main__", alter_sys=False)
import os
sys.stdout.flush()
os._exit(0)
'''


def run_process(argv, cwd, env):
    script = os.path.join(cwd, "process.py")
    with open(script, "w") as fh:
        fh.write(PROCESS)
    p = subprocess.run([sys.executable, script, REPO, *argv], cwd=cwd, env={**env, "QT_QPA_PLATFORM": "offscreen"},
                       capture_output=True, timeout=100)
    return p.returncode, p.stderr.decode(errors="replace")


def run_here(argv, cwd, env, plain):
    saved = sys.argv, os.getcwd(), sys.breakpointhook, dict(os.environ)
    err = io.StringIO()
    try:
        sys.argv = ["collagraph", *argv]
        os.chdir(cwd)
        os.environ.update(env)
        sys.breakpointhook = lambda *a, **k: None
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
            try:
                with plain_locale(plain):
                    runpy.run_module("collagraph", run_name="__main__", alter_sys=False)
            except SystemExit as e:
                return (0 if e.code is None else e.code), err.getvalue()
            except Exception as e:
                return repr(e), err.getvalue()
        return 0, err.getvalue()
    finally:
        sys.argv, sys.breakpointhook = saved[0], saved[2]
        os.chdir(saved[1])
        os.environ.clear()
        os.environ.update(saved[3])


def run(case):
    text = padded(case["text"], case["pad"])
    how = case["how"]
    try:
        if not isinstance(json.loads(text), dict):
            raise Skip("text")
    except ValueError:
        raise Skip("text")
    scratch = tempfile.mkdtemp(prefix="vh-c21-")
    renderer = case["process"] or case["renderer"]
    try:
        os.makedirs(os.path.join(scratch, "sub", "folder.cgx"))
        os.mkdir(os.path.join(scratch, "folder.json"))
        tag = {"pyside": "label", "pygfx": 'group name="top"'}.get(renderer, "item")
        for comp in COMPS:
            with open(os.path.join(scratch, comp), "w") as fh:
                fh.write(COMPONENT.format(tag=tag, name=comp))
        for wrong in WRONG:
            shutil.copy(os.path.join(scratch, "one.cgx"), os.path.join(scratch, wrong))
        out = os.path.join(scratch, "out.txt")
        name = case["file"]
        arg, want, content = None, None, None
        if how == "text":
            arg, want = text, json.loads(text)
        elif how == "file":
            content, want = text, json.loads(text)
        elif how == "none":
            want = {}
        elif how == "broken":
            arg = case["broken"]
        elif how == "brokenfile":
            content = case["broken"]
        elif how == "scalar":
            arg = case["scalar"]
        elif how == "scalarfile":
            content = case["scalar"]
        elif how == "folder":
            arg = "folder.json"
        elif how == "missing":
            arg = "missing.json"
        if how in ("broken", "brokenfile"):
            try:
                json.loads(case["broken"])
                raise Skip("not broken")
            except ValueError:
                pass
        if content is not None:
            path = os.path.join(scratch, name)
            with open(path, "w", encoding="utf-8") as fh:
                fh.write(content)
            arg = path if case["absolute"] else name
        if arg is not None and arg.encode(errors="replace").find(b"\0") >= 0:
            raise Skip("nul")
        comp = {"ok": case["comp"], "missing": "nothing.cgx", "folder": "sub/folder.cgx", "suffix": "one.txt",
                "none": None, "other": "sub", **{w: w for w in WRONG}}[case["component"]]
        # (Qt is the default)
        argv = [] if renderer == "pyside" and case["order"] else ["--renderer", renderer]
        if arg is not None:
            # (values that start with a dash have to be given that way)
            argv += [f"--state={arg}"] if case["equals"] or arg.startswith("-") else ["--state", arg]
        if comp is not None:
            argv = [comp, *argv] if case["order"] else [*argv, comp]
        if case["process"] and sum(map(len, argv)) > 100000:
            raise Skip("too long for a process")
        ok = want is not None and case["component"] == "ok" and renderer != "bogus"
        env = {**os.environ, "VH_C21_OUT": out}
        rc, err = run_process(argv, scratch, env) if case["process"] else run_here(argv, scratch, env, len(text) % 2)
        records = []
        if os.path.exists(out):
            with open(out, encoding="utf-8") as fh:
                records = [json.loads(line) for line in fh]
    finally:
        shutil.rmtree(scratch)
    drawn = [x for x in records if x[0] == "drawn"]
    records = [x for x in records if x[0] != "drawn"]
    what = f"collagraph {' '.join(argv)[:600]} -> {rc} {err[-800:]}"
    if not ok:
        if records:
            raise Violation(f"{what}\nran {str(records)[:400]}")
        if rc == 0:
            raise Violation(f"{what}\nno error was reported")
    else:
        if rc != 0:
            raise Violation(f"{what}\nfailed")
        if [x[:2] for x in records] != [["init", comp], ["mounted", comp]]:
            raise Violation(f"{what}\nran {str(records)[:400]}")
        got = records[0][2]
        if json.dumps(got, sort_keys=True) != json.dumps(want, sort_keys=True):
            raise Violation(f"{what}\nprops are {str(got)[:600]} instead of {str(want)[:600]}")
        kind = {"pyside": "QLabel", "pygfx": "Group"}.get(renderer, "dict")
        if renderer == "pygfx" and drawn != [["drawn", "Scene", ["top"]]]:
            raise Violation(f"{what}\nthe scene that was drawn is {drawn}")
        if kind not in records[1][2]:
            raise Violation(f"{what}\nrendered to {records[1][2]}")
    return {"nontrivial": how != "none", "classes": [f"state-{how}", "runs" if ok else "fails",
                                                     f"process-{case['process']}", f"component-{case['component']}"]}


def fixed_cases():
    case = {"how": "text", "text": '{"a": [1, {"b": null}]}', "pad": 0, "scalar": "1", "broken": "{", "file": "state.json",
            "absolute": False, "equals": False, "component": "ok", "comp": "one.cgx", "renderer": "dict", "order": True}
    return [{**case, "process": p} for p in ("pygfx", "pyside", "dict")]
