"""C16: component files import like Python modules."""
import importlib
import importlib.util
import os
import pathlib
import shutil
import sys
import tempfile
import types

import collagraph as cg  # noqa: F401 (installs the importer)

from .. import Skip, Violation, plain_locale

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("A case is a layout of directories on the search path with modules, packages, namespace packages and component "
        "files under (often the same) few names, the statements in those files (imports of each other in all forms, "
        "relative ones, circular ones, failing ones), and a sequence of import statements. The oracle is Python's own "
        "import system on a second layout in which every component file that isn't hidden by a regular module or "
        "package is a Python module with the very same script: results, exceptions, the content of sys.modules and of "
        "every module and the order of execution have to be the same after every statement. Non-trivial: a component "
        "file was executed.")
ASSUMPTIONS = ["scripts are well-formed component scripts", "names of modules contain no path separators"]

NAMES = ["vhm_a", "vhm_b", "vhm_c", "vhm_é"]
FORMS = ["import {0}", "import {0} as alias", "from {0} import marker", "from {0} import marker as other", "from {0} import *",
         "from {0} import nothing", "from {0} import Comp", "from {1} import {2}", "from {1} import {2} as x, Comp",
         "m = importlib.import_module({0!r})", "s = importlib.util.find_spec({0!r})", "importlib.reload(sys.modules[{0!r}])",
         "__import__({0!r})", "import {0}; importlib.reload(sys.modules[{0!r}])"]
RELATIVE = ["from . import {0}", "from .{0} import marker as rel_{0}", "from .. import {0}", "from .{0} import Comp as C{0}"]
WEIRD = ["vhm\0x", "vhm_" + "x" * 300, "vhm-x", "vhm_a.", ".vhm_a", "vhm_a..vhm_b", "vhm_none", "vhm_a.vhm_none.x", "vhm a"]


def gen_name(r):
    return ".".join(r.choice(NAMES) for _ in range(r.choice([1, 1, 1, 2, 2, 3])))


def gen_statement(r, relative):
    if relative and r.random() < 0.4:
        return r.choice(RELATIVE).format(r.choice(NAMES))
    name = gen_name(r)
    head, _, last = name.rpartition(".")
    form = r.choice(FORMS)
    if "{1}" in form and not head:
        form = FORMS[0]
    return form.format(name, head, last)


def gen_file(r):
    return {"imports": [gen_statement(r, True) for _ in range(r.choice([0, 0, 0, 1, 1, 2]))],
            "late": r.random() < 0.3, "guard": r.random() < 0.6,
            "end": r.choice(["", "", "", "", "raise", "all", "doc", "rebind", "syntax", "nopath", "nopath", "tuplepath"])}


def gen_dir(r, depth):
    out = {}
    for n in NAMES:
        for kind in r.sample(["py", "cgx", "cgx", "cgx", "dir", "cgxdir"], r.choice([0, 0, 1, 1, 2])):
            if kind == "py":
                out[n + ".py"] = gen_file(r)
            elif kind == "cgx":
                out[n + ".cgx"] = gen_file(r)
            elif kind == "cgxdir":
                if r.random() < 0.1:
                    out.setdefault(n + ".cgx", {})
            elif depth:
                out[n] = gen_dir(r, depth - 1)
                if r.random() < 0.6:
                    out[n]["__init__.py"] = gen_file(r)
    return out


def gen(r):
    ops = []
    for _ in range(r.randint(1, 6)):
        if r.random() < 0.12:
            ops.append(f"importlib.import_module({r.choice(WEIRD)!r})")
        else:
            ops.append(gen_statement(r, False))
    return {"path": [gen_dir(r, 2) for _ in range(r.choice([1, 1, 2, 3]))], "ops": ops,
            "extra": r.random() < 0.3}


# --------------------------------------------------------------------------- layouts
def is_file(x):
    return "end" in x


def script(spec, ident):
    lines = []
    end = spec["end"]
    if end == "doc":
        lines.append(f"'doc of {ident}'")
    lines += ["import collagraph as cg", "import importlib, importlib.util, sys", "import vh_c16_log", "vh_c16_log.LOG.append(__name__)",
              f"marker = {ident!r}",
              "here = (__name__, __package__, __spec__.name, __spec__.parent, vh_c16_log.rel(__file__), sys.modules[__name__].__dict__ is globals())"]
    imports = []
    for s in spec["imports"]:
        if spec["guard"]:
            imports += ["try:", f"    {s}" if "import *" not in s else "    pass", "except Exception as e:",
                        "    vh_c16_log.LOG.append(type(e).__name__)"]
        else:
            imports.append(s)
    if not spec["late"]:
        lines += imports
    lines += ["class Comp(cg.Component):", f"    which = {ident!r}", "    def method(self):", "        return marker"]
    if spec["late"]:
        lines += imports
    if end == "raise":
        lines.append("raise KeyError('no')")
    elif end == "all":
        lines.append("__all__ = ['Comp']")
    elif end == "rebind":
        lines.append("marker = marker + '!'")
    elif end == "nopath":
        lines.append("__path__ = []")  # a package without any folder
    elif end == "tuplepath":
        lines.append(("__path__ = (*__path__, 3)" if spec["guard"] else "__path__ = (3, *__path__)") if ident.endswith("__init__") else "marker += '?'")
    elif end == "syntax":
        lines.append("x = = 2")
    else:
        lines.append("_private = 1")
    return "\n".join(lines) + "\n"


def write(root, tree, convert, prefix=""):
    """convert: set of the relative paths of component files that become modules, or None to write them as they are"""
    os.makedirs(root, exist_ok=True)
    for name, x in tree.items():
        rel = f"{prefix}/{name}"
        if is_file(x):
            code = script(x, rel.rpartition(".")[0])
            if name.endswith(".cgx"):
                if convert is None:
                    code = f"<template>\n<item />\n</template>\n<script>\n{code}</script>\n"
                elif rel in convert:
                    name = name[:-4] + ".py"
                else:
                    continue
            with open(os.path.join(root, name), "w", encoding="utf-8") as fh:
                fh.write(code)
        else:
            write(os.path.join(root, name), x, convert, rel)


def visible(dirs):
    """dirs: list of (tree, relative path) that are searched in order -> paths of component files that can be found"""
    found = set()
    names = {n.partition(".")[0] for tree, _ in dirs for n in tree}
    for n in names:
        portions = []
        for tree, rel in dirs:
            sub = tree.get(n)
            if sub is not None and "__init__.py" in sub and is_file(sub["__init__.py"]):
                found |= visible([(sub, f"{rel}/{n}")])
                break
            if n + ".py" in tree:
                break
            if sub is not None:
                portions.append((sub, f"{rel}/{n}"))
        else:
            if portions:
                found |= visible(portions)
            else:
                for tree, rel in dirs:
                    x = tree.get(n + ".cgx")
                    if x is not None and is_file(x):
                        found.add(f"{rel}/{n}.cgx")
    return found


# --------------------------------------------------------------------------- running
def clean():
    for name in [n for n in sys.modules if n.partition(".")[0].startswith("vhm")]:
        del sys.modules[name]
    importlib.invalidate_caches()


def describe_value(v, rel):
    if isinstance(v, types.ModuleType):
        return ("module", v.__name__)
    if isinstance(v, type):
        return ("class", v.__module__, v.__qualname__, getattr(v, "which", None))
    if isinstance(v, importlib.machinery.ModuleSpec):
        return ("spec", v.name, rel(v.origin), v.has_location, v.parent,
                v.submodule_search_locations is None)
    return repr(v)


def describe_module(m, rel):
    d = vars(m)
    out = {k: describe_value(v, rel) for k, v in d.items()
           if k not in ("__builtins__", "__cached__", "__loader__", "__spec__", "__file__", "__path__")}
    out["file"] = rel(d.get("__file__"))
    out["spec"] = describe_value(d["__spec__"], rel)
    try:
        out["path"] = [rel(p) for p in d.get("__path__", [])]
    except KeyError:  # (parent of a namespace package isn't there anymore)
        out["path"] = "broken"
    return out


def play(case, root, collect):
    log = types.ModuleType("vh_c16_log")
    log.LOG = collect

    def rel(p):
        if not isinstance(p, str) or p in ("namespace", "built-in", "frozen"):
            return p
        p = os.path.relpath(p, root)
        return p.rpartition(".")[0] if p.endswith((".py", ".cgx")) else p

    log.rel = rel
    sys.modules["vh_c16_log"] = log
    saved = list(sys.path)
    clean()
    paths = [os.path.join(root, str(i)) for i in range(len(case["path"]))]
    if case["extra"]:
        # (entries that are of no use)
        paths[1:1] = [os.path.join(root, "missing"), os.path.join(root, "file.txt")]
        paths[:0] = [3, pathlib.Path(root, "0"), os.fsencode(os.path.join(root, "0")), None]
        with open(os.path.join(root, "file.txt"), "w"):
            pass
    sys.path[:0] = paths
    out = []
    try:
        for op in case["ops"]:
            ns = {"importlib": importlib, "sys": sys}
            try:
                exec(op, ns)
                result = {k: describe_value(v, rel) for k, v in ns.items()
                          if k not in ("__builtins__", "importlib", "sys")}
            except Exception as e:
                result = (type(e).__name__, getattr(e, "name", None) if isinstance(e, ImportError) else None)
            mods = {n: describe_module(m, rel) for n, m in sys.modules.items() if n.startswith("vhm")}
            out.append({"result": result, "log": list(collect), "modules": mods})
    finally:
        sys.path[:] = saved
        clean()
        del sys.modules["vh_c16_log"]
    return out


def run(case):
    if any(not isinstance(o, str) for o in case["ops"]) or not case["path"]:
        raise Skip("shape")
    sys.dont_write_bytecode = True
    scratch = tempfile.mkdtemp(prefix="vh-c16-")
    try:
        a, b = os.path.join(scratch, "a"), os.path.join(scratch, "b")
        convert = visible([(tree, f"/{i}") for i, tree in enumerate(case["path"])])
        for i, tree in enumerate(case["path"]):
            write(os.path.join(a, str(i)), tree, None, f"/{i}")
            write(os.path.join(b, str(i)), tree, convert, f"/{i}")
        log_a, log_b = [], []
        plain = len(case["ops"]) % 2 == 0
        with plain_locale(plain):
            want = play(case, b, log_b)
            got = play(case, a, log_a)
        cgx_run = any(m["file"] and f"/{m['file']}.cgx" in convert for x in want for m in x["modules"].values())
        for i, (g, w) in enumerate(zip(got, want)):
            for part in ("result", "log"):
                if g[part] != w[part]:
                    raise Violation(f"{part} of {case['ops'][:i + 1]}: {g[part]} instead of {w[part]}\n{files(case)}")
            if set(g["modules"]) != set(w["modules"]):
                raise Violation(f"sys.modules after {case['ops'][:i + 1]}: {sorted(g['modules'])} instead of "
                                f"{sorted(w['modules'])}\n{files(case)}")
            for n in g["modules"]:
                if g["modules"][n] != w["modules"][n]:
                    raise Violation(f"module {n} after {case['ops'][:i + 1]}:\n{g['modules'][n]}\ninstead of\n"
                                    f"{w['modules'][n]}\n{files(case)}")
    finally:
        shutil.rmtree(scratch)
    classes = []
    if cgx_run:
        classes.append("component file was imported")
    if any("raise" in str(x["result"]) or isinstance(x["result"], tuple) for x in want):
        classes.append("failing import")
    if len(case["path"]) > 1:
        classes.append("several directories")
    return {"nontrivial": cgx_run, "classes": classes}


def files(case):
    out = []

    def walk(tree, rel):
        for n, x in sorted(tree.items()):
            if is_file(x):
                out.append(f"{rel}/{n} {x}")
            else:
                walk(x, f"{rel}/{n}")

    for i, tree in enumerate(case["path"]):
        walk(tree, str(i))
    return "\n".join(out)
