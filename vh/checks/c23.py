"""C23: freezing an application takes along what its component files import."""
import importlib.util
import os
import shutil
import sys
import tempfile
import types
from pathlib import Path

from .. import Skip, Violation, plain_locale

BUDGET = {"quick": {"cases": 100000, "seconds": 15}, "thorough": {"cases": 10000000, "seconds": 300}}
RULE = ("A case is a set of packages with component files in nested folders; the scripts import in all forms (plain, "
        "dotted, aliased, several at once, from, star, relative) in any place of the script (module level, functions, "
        "methods, classes, try/if/with/loops, lambdas' neighbours), next to code and templates that only look like "
        "imports (strings, comments, attributes, texts). The hook is run with stand-ins for the parts of PyInstaller that "
        "it is given. Every absolute import has to be added, nothing that isn't imported may be added, and every "
        "component file has to be among the data files. Non-trivial: there is an import of a dotted or aliased name, or "
        "one that isn't at the top of a script.")
ASSUMPTIONS = ["PyInstaller isn't installed here: stand-ins for collect_data_files and the hook API are used",
               "relative imports have no absolute name and needn't be added"]

MODULES = ["os", "json", "os.path", "xml.dom.minidom", "email.mime.text", "nosuch", "nosuch.sub", "más", "a.b.c.d", "collagraph", "app1.x"]
NAMES = ["join", "x", "Foo", "_y", "é"]


FILES = ["comp", "comp", "Comp", "my-comp", "my comp", "comp.part", "_comp", "é"]


def gen_import(r):
    k = r.choice(["plain", "plain", "alias", "many", "from", "from", "from_many", "many_more", "from_more", "from_alias", "star", "rel", "rel_name", "rel_many"])
    return [k, [r.randrange(len(MODULES)) for _ in range(2)], [r.randrange(len(NAMES)) for _ in range(2)], r.randint(1, 3)]


def gen(r):
    files = []
    for _ in range(r.randint(1, 4)):
        files.append({
            "pkg": r.randint(0, 2), "dir": r.choice([[], [], ["sub"], ["sub", "é"], ["a b"], ["Sub"], ["_x", "1"], list("abcdefg")]),
            "imports": [[gen_import(r), r.choice(PLACES)] for _ in range(r.choice([0, 1, 2, 3, 4]))],
            "noise": [r.choice(NOISE) for _ in range(r.choice([0, 0, 1, 2]))],
            "template": r.randint(0, len(TEMPLATES) - 1), "name": r.choice(FILES), "first": r.random() < 0.5, "crlf": r.random() < 0.1,
        })
    return {"files": files, "users": [r.random() < 0.8 for _ in range(3)]}


PLACES = ["top", "top", "end", "function", "method", "class", "try", "except", "if", "else", "with", "for", "while", "async",
          "nested", "match", "finally"]
NOISE = ["s = 'import noise'", "# import noise", '"""\nimport noise\nfrom noise import noise\n"""', "noise = 1", "x = 'é😀'",
         "importlib = None", "def import_noise(): pass", "text = '<script>import noise'"]
TEMPLATES = ["<widget />", "<widget><label text=\"import noise\" /></widget>", "<widget>import noise</widget>",
             "<widget :a=\"[x for x in noise]\"><!-- import noise --><Item.Sub v-for=\"noise in noises\" /></widget>",
             "<widget a=\"é😀\"\n  :b=\"{\n 'c': 1}\"\n/>"]


def statement(imp):
    """-> statement, required names, allowed names"""
    kind, (m1, m2), (n1, n2), level = imp
    m1, m2, n1, n2 = MODULES[m1], MODULES[m2], NAMES[n1], NAMES[n2]
    if kind == "plain":
        return f"import {m1}", {m1}, set()
    if kind == "alias":
        return f"import {m1} as alias", {m1}, set()
    if kind == "many":
        return f"import {m1}, {m2} as alias", {m1, m2}, set()
    if kind == "many_more":
        return "import " + ", ".join([*MODULES[::level], m1]), {*MODULES[::level], m1}, set()
    if kind == "from_more":
        return f"from {m1} import (" + ", ".join(NAMES) + ")", {m1, *(f"{m1}.{n}" for n in NAMES)}, set()
    # (a name that is imported from a module can be a module as well)
    if kind == "from":
        return f"from {m1} import {n1}", {m1, f"{m1}.{n1}"}, set()
    if kind == "from_many":
        return f"from {m1} import (\n  {n1},\n  {n2} as alias)", {m1, f"{m1}.{n1}", f"{m1}.{n2}"}, set()
    if kind == "from_alias":
        return f"from {m1} import {n1} as alias", {m1, f"{m1}.{n1}"}, set()
    if kind == "star":
        return f"from {m1} import *", {m1}, {f"{m1}.*"}
    dots = "." * level
    if kind == "rel":
        return f"from {dots} import {n1}", set(), set()
    if kind == "rel_name":
        return f"from {dots}{m1} import {n1}", set(), set()
    if kind == "rel_many":
        return f"from {dots} import {n1}, {n2} as alias", set(), set()
    raise Skip("malformed")


def place(code, where, n):
    def block(head, *tail):
        return "\n".join([head, *("    " + line for line in code.split("\n")), *tail])

    if where in ("top", "end"):
        return code
    heads = {
        "function": (f"def f{n}(a, b=1):",), "class": (f"class C{n}:",), "try": ("try:", "except ImportError:", "    pass"),
        "if": ("if True:",), "with": ("with open('x') as fh:",), "for": ("for i in ():",), "while": ("while False:",),
        "async": (f"async def g{n}():",), "else": ("if False:\n    pass\nelse:",), "except": ("try:\n    pass\nexcept KeyError:",),
        "finally": ("try:\n    pass\nfinally:",),
    }
    if where in heads:
        return block(*heads[where])
    if where == "method":
        inner = "\n".join("        " + line for line in code.split("\n"))
        return f"class M{n}:\n    def method(self):\n{inner}"
    if where == "nested":
        inner = "\n".join("            " + line for line in code.split("\n"))
        return f"def h{n}():\n    def inner():\n        if 1:\n{inner}\n    return inner"
    if where == "match":
        inner = "\n".join("            " + line for line in code.split("\n"))
        return f"match 1:\n    case _:\n        if 1:\n{inner}"
    raise Skip("malformed")


def source(f):
    """-> text, required names, allowed names"""
    head, tail, required, allowed = [], [], set(), set()
    for n, (imp, where) in enumerate(f["imports"]):
        code, req, more = statement(imp)
        if imp[0] == "star" and where not in ("top", "end", "if", "try", "for", "while", "with", "else", "except", "finally", "match"):
            raise Skip("malformed")
        required |= req
        allowed |= req | more
        (tail if where == "end" else head).append(place(code, where, n))
    for noise in f["noise"]:
        if noise not in NOISE:
            raise Skip("malformed")
        head.append(noise)
    script = "\n".join(["import collagraph as cg", *head, "class Comp(cg.Component):", "    pass", *tail])
    try:
        compile(script, "script", "exec")
    except SyntaxError:
        raise Skip("malformed")
    required |= {"collagraph"}
    allowed |= {"collagraph"}
    template = f"<template>\n{TEMPLATES[f['template']]}\n</template>"
    script = f"<script>\n{script}\n</script>"
    parts = [template, script] if f["first"] else [script, template]
    text = "\n".join(parts) + "\n"
    return text.replace("\n", "\r\n") if f["crlf"] else text, required, allowed


def load_hook():
    import collagraph

    hooks = types.ModuleType("PyInstaller.utils.hooks")
    hooks.collect_data_files = collect_data_files
    utils, top = types.ModuleType("PyInstaller.utils"), types.ModuleType("PyInstaller")
    top.utils, utils.hooks = utils, hooks
    sys.modules.update({"PyInstaller": top, "PyInstaller.utils": utils, "PyInstaller.utils.hooks": hooks})
    from collagraph.__pyinstaller import get_hook_dirs

    found = []
    for folder in get_hook_dirs():
        path = os.path.join(str(folder), "hook-collagraph.py")
        if os.path.exists(path):
            found.append(path)
    if len(found) != 1:
        raise Violation(f"{len(found)} hooks for collagraph in {get_hook_dirs()}: {collagraph.__file__}")
    spec = importlib.util.spec_from_file_location("hook_collagraph", found[0])
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def collect_data_files(package, include_py_files=False, subdir=None, excludes=None, includes=None):
    """As the one of PyInstaller: (source, destination) of data files in a package"""
    root = Path(CURRENT[package])
    if subdir is not None:
        root = root / subdir

    def matches(patterns):
        out = {}
        for pattern in patterns:
            for path in root.glob(pattern):
                for x in path.rglob("*") if path.is_dir() else [path]:
                    if x.is_file():
                        out[x] = True
        return out

    unwanted = matches([*(excludes or ()), *([] if include_py_files else ["**/*.py", "**/*.pyc"])])
    base = Path(package.replace(".", os.sep))
    out = [(str(x), str(base / x.parent.relative_to(CURRENT[package]))) for x in matches(includes or ["**/*"]) if x not in unwanted]
    return out


CURRENT = {}
HOOK = []


class Api:
    """The part of PyInstaller's PostGraphAPI that concerns imports and data files"""

    __name__ = "collagraph"

    def __init__(self, uses):
        self.imports, self.datas = [], []

        class Graph:
            def get_code_using(self, name):
                if name != "collagraph":
                    raise KeyError(name)
                return dict(uses)

        self.graph = Graph()
        self.analysis = types.SimpleNamespace(graph=self.graph)

    def add_imports(self, *names):
        self.imports += names

    def add_datas(self, datas):
        for src, dest in datas:
            self.datas.append((src, dest))


def run(case):
    if not HOOK:
        HOOK.append(load_hook())
    folder = tempfile.mkdtemp(prefix="vh-c23-")
    try:
        return execute(case, folder)
    except (KeyError, TypeError, IndexError, AttributeError):
        raise Skip("malformed")
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def execute(case, folder):
    uses, required, allowed, data = {}, set(), set(), []
    CURRENT.clear()
    classes = set()
    interesting = False
    texts = {}
    for i, user in enumerate(case["users"]):
        if user:
            name = f"app{i}"
            root = os.path.join(folder, name)
            os.makedirs(root)
            init = os.path.join(root, "__init__.py")
            with open(init, "w") as fh:
                fh.write("import collagraph\n")
            CURRENT[name] = root
            uses[name] = compile("import collagraph\n", init, "exec")
    for n, f in enumerate(case["files"]):
        text, req, allow = source(f)
        name = f"app{f['pkg']}"
        if name not in uses:
            continue
        where = os.path.join(folder, name, *f["dir"])
        if "/" in f["name"] or any("/" in x or ".." in x for x in f["dir"]):
            raise Skip("malformed")
        os.makedirs(where, exist_ok=True)
        path = os.path.join(where, f"{f['name']}{n}.cgx")
        with open(path, "w", encoding="utf-8", newline="") as fh:
            fh.write(text)
        texts[path] = text
        data.append((path, os.path.join(name, *f["dir"])))
        required |= req
        allowed |= allow
        for imp, w in f["imports"]:
            classes.update({imp[0], w})
            interesting |= w != "top" or imp[0] in ("alias", "many", "from_alias", "from_many", "many_more", "from_more")
    api = Api(uses)
    try:
        with plain_locale(len(data) % 2):
            HOOK[0].hook(api)
    except Exception as e:
        raise Violation(f"the hook raises {e!r}\n" + "\n".join(texts.values()))
    added = set(api.imports)
    what = "\n" + "\n".join(f"--- {p}\n{t}" for p, t in texts.items())
    missing = required - added
    if missing and data:
        raise Violation(f"not added: {sorted(missing)}{what}")
    # (parents of what is imported are imported as well)
    parents = {".".join(n.split(".")[:i]) for n in allowed for i in range(1, n.count(".") + 1)}
    if extra := added - allowed - parents:
        raise Violation(f"added without being imported: {sorted(extra)}{what}")
    have = {(os.path.realpath(s), os.path.normpath(d)) for s, d in api.datas}
    for src, dest in data:
        if (os.path.realpath(src), os.path.normpath(dest)) not in have:
            raise Violation(f"{src} isn't added as data for {dest}: {api.datas}")
    return {"nontrivial": bool(interesting and data), "classes": sorted(classes)}
