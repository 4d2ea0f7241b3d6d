"""C15: component files are read faithfully."""
import os
import pathlib
import random
import shutil
import tempfile
import traceback
import types

import collagraph as cg
from collagraph.cgx import cgx

from .. import Skip, Violation, plain_locale
from ..app import raw

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("A case is a component file: a template tree with tags in any casing, dotted tags, self-closing tags, attributes "
        "with any characters in any quoting and with character references, texts, comments, and a script that is put "
        "together from pieces of code in a random order; sections in either order, with random layout, loaded from a "
        "string or from a file. What is rendered has to be the tree that was written; everything that the script "
        "defines has to be what Python itself makes of the script, including code objects with their file name and "
        "lines, and exceptions raised by its functions have to point to the line in the file. Files that are damaged "
        "in one of several ways have to be rejected. Non-trivial: the file has at least three elements, attributes or "
        "texts with special characters, or is a damaged file.")
ASSUMPTIONS = ["names of attributes are lower-case, as in HTML", "'</script>' doesn't appear within the script",
               "no elements which have a special meaning for HTML parsers (script, style) within the template"]

LOWER = ["a", "item", "my-el", "fooBar", "x1", "h1", "boxLayout", "wideElement"]
UPPER = ["Foo", "FooBar", "FOO", "X_1", "ns.Foo", "ns.lower", "Ns.sub.Deep", "ns.Sub.Deep", "A"]
ATTRS = ["x", "data-y", "a_b", "position.x", "xlink:href", "x1", "class", "name"]
CHARS = ["<", ">", "&", '"', "'", "=", "/", " ", "\n", "\t", "é", "©", "😀", "{", "}", "a", "b", "Z", "0", "\\", "`", "#",
         "&amp;", "&lt", "&#65;", "--", "-->", "<b>", "</b>", "<!--", "%", "v-if", ":x", "@y", "{ {", "None", "$", "\\n",
         "</template>", "<script>", "/>", "]]>", "<3", "< "]
ENTITIES = {"©": "&copy;", "é": "&eacute;", "<": "&lt;", ">": "&gt;", "&": "&amp;", '"': "&quot;"}


def gen_string(r, n=6):
    return "".join(r.choice(CHARS) for _ in range(r.randint(0, n)))


def gen_node(r, depth, root=False):
    tag = r.choice(LOWER + LOWER + UPPER)
    comp = tag in UPPER
    node = {"t": "el", "tag": tag, "attrs": [[n, None if r.random() < 0.15 else gen_string(r)]
                                              for n in r.sample(ATTRS, r.choice([0, 0, 1, 2, 3]))], "kids": []}
    if depth > 0 and not comp:
        prev = None
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            k = r.choice(["el", "el", "text", "com"])
            if k != "el" and prev in ("text", "com"):
                continue
            prev = k
            if k == "el":
                kid = gen_node(r, depth - 1)
                if kid["tag"] in LOWER and r.random() < 0.1:
                    kid["tag"], kid["attrs"] = "template", []
                node["kids"].append(kid)
            elif k == "text":
                s = gen_string(r, 8)
                if s.strip():
                    node["kids"].append({"t": "text", "s": s})
                else:
                    prev = "el"
            else:
                node["kids"].append({"t": "com", "s": r.choice([" c ", "<a>", " -- ", "</item>", ' v-if="x" ', "\n\n", "</template>", "<script>"])})
    return node


PIECES = [
    'v{i} = {i}\n',
    'v{i} = "<b>&amp; {{{{ x }}}} </div>"\n',
    'v{i} = """multi\n  <template>\n   line </template> \\n\n"""\n',
    "def f{i}(a, b=2, *c, d: int = 4, **e):\n    '''doc <b>'''\n    return (a, b, c, d, e, {i})\n",
    "def f{i}():\n    def inner(x):\n        # comment </b>\n        return [y < x for y in range(3)]\n\n    return inner({i})\n",
    "class K{i}:\n    attr = {i}\n\n    def meth(self):\n        return self.attr, '&lt;'\n",
    "import math as m{i}\n",
    "from functools import (\n    wraps,\n    partial as p{i},\n)\n",
    "def deco{i}(fn):\n    fn.marked = {i}\n    return fn\n\n\n@deco{i}\ndef f{i}():\n    return 1\n",
    "if True:\n    v{i} = [x * 2 for x in range(4) if x > 1]\nelse:\n    v{i} = None\n",
    "try:\n    v{i} = 1 / 0\nexcept ZeroDivisionError:\n    v{i} = 'caught'\n",
    "async def f{i}():\n    return {i}\n",
    "f{i} = lambda x: x if x < {i} else -x\n",
    "v{i}: int = {i}\n",
    "v{i} = f'{{1 + {i}}} < {{2!r:>4}}'\n",
    "for i{i} in range(3):\n    pass\n",
    "# just a comment with 'quote and <tag\n",
    "\n\n",
    "v{i} = __name__, __file__ if '__file__' in globals() else None\n",
    "v{i} = (1 <\n     2)\n",
    "def boom{i}():\n    x = 1\n\n    raise KeyError({i})\n",
    "class B{i}(cg.Component):\n    def helper(self):\n        raise KeyError({i})\n\n    def render(self):\n        return None\n",
    "def boom{i}():\n    return (1\n            + 2\n            + undefined_name{i})\n",
    "v{i} = '\\u00e9é😀'\n",
    "with open(__import__('os').devnull) as v{i}:\n    pass\nv{i} = None\n",
    "def f{i}():\n\tif True:\n\t\treturn 'tabs'\n",
]
DAMAGE = ["none", "two", "text", "notcomp", "noclass", "notemplate", "noscript", "syntax"]
LAST = ["class Last:\n    pass\n", "class Last(dict):\n    pass\n", "class Last(Exception):\n    x = 1\n",
        "class Mixin:\n    pass\n\n\nclass Last(Mixin):\n    pass\n", "class Last(object, metaclass=type):\n    pass\n",
        "class Last:\n    def render(self):\n        return None\n", "class Component:\n    pass\n\n\nclass Last(Component):\n    pass\n"]
BAD = ["def f(:\n    pass\n", "x = = 3\n", "class\n", "if True:\nx = 1\n", "return 5\n", "x = (1,\n", "'abc\n"]


def gen(r):
    n = r.randint(0, 5)
    return {"root": gen_node(r, r.choice([0, 1, 2, 3])),
            "pieces": [r.randrange(len(PIECES)) for _ in range(n)],
            "tail": [r.randrange(len(PIECES)) for _ in range(r.choice([0, 0, 1, 2]))],
            "comp": r.randint(0, 3), "first": r.choice(["template", "script"]), "layout": r.randint(0, 10**6),
            "file": r.random() < 0.4, "damage": [r.choice(DAMAGE), r.randrange(len(BAD))] if r.random() < 0.12 else None}


# ------------------------------------------------------------------------ writing
def write_attr_value(r, s):
    style = r.choice(["'", '"', "u"])
    if style == "u":
        if s and not any(c in " \n\t\"'=<>`&/\\" for c in s) and s.isprintable():
            return s
        style = '"'
    out = []
    for c in s:
        if c == "&" or c == style or (c in ENTITIES and r.random() < 0.3):
            out.append(f"&#{ord(c)};" if c == "'" or r.random() < 0.3 else ENTITIES[c])
        elif r.random() < 0.05:
            out.append(f"&#x{ord(c):x};")
        else:
            out.append(c)
    return style + "".join(out) + style


def write_text(r, s):
    out = []
    for i, c in enumerate(s):
        nxt = s[i + 1] if i + 1 < len(s) else "/"
        if c == "&" and not (nxt == " " and r.random() < 0.5):
            out.append("&amp;")
        elif c == "<" and not (nxt in " 3" and r.random() < 0.5):
            out.append("&lt;")
        elif c in ENTITIES and c not in "<&" and r.random() < 0.3:
            out.append(ENTITIES[c])
        elif c.isalnum() and r.random() < 0.03:
            out.append(f"&#{ord(c)};")
        else:
            out.append(c)
    return "".join(out)


def write_node(r, node):
    if node["t"] == "text":
        return write_text(r, node["s"])
    if node["t"] == "com":
        return f"<!--{node['s']}-->"
    parts = [node["tag"]]
    for n, v in node["attrs"]:
        parts.append(r.choice([" ", "  ", "\n    ", " \t "]) + (n if v is None else f"{n}={write_attr_value(r, v)}"))
    head = "".join(parts)
    kids = node["kids"]
    quoted = head[-1] in "\"'" or not node["attrs"]
    if not kids and r.random() < 0.5:
        return f"<{head}{'' if quoted and r.random() < 0.5 else ' '}/>"
    out = [f"<{head}{r.choice(['', ' ', chr(10)])}>"]
    prev = None
    for kid in [*kids, None]:
        if not any(k is not None and k["t"] == "text" for k in (prev, kid)):
            out.append(r.choice(["", " ", "\n   "]))
        if kid is not None:
            out.append(write_node(r, kid))
        prev = kid
    out.append(f"</{node['tag']}{r.choice(['', '', ' '])}>")
    return "".join(out)


COMPS = [
    "class Comp(cg.Component):\n    pass\n",
    "class Comp(cg.Component):\n    '''doc < & >'''\n\n    value = '<b>'\n\n    def method(self, x=1):\n        return self.value, x\n",
    "class First:\n    pass\n\n\nclass Comp(  # comment\n    cg.Component\n):\n    def boom(self):\n        raise KeyError('x')\n",
    "class Base(cg.Component):\n    base = 1\n\n\nclass Comp(Base):\n    @property\n    def prop(self):\n        return 1 < 2\n\n    @staticmethod\n    def stat():\n        return '&'\n",
]


def parts(case):
    """-> text of the file, the script, line in the file of the first line of the script"""
    r = random.Random(case["layout"])
    damage, which = case["damage"] or ["", 0]
    pieces = [PIECES[k % len(PIECES)].format(i=i) for i, k in enumerate(case["pieces"])]
    comp = COMPS[case["comp"] % len(COMPS)]
    tail = [PIECES[k % len(PIECES)].format(i=100 + i) for i, k in enumerate(case["tail"])]
    # (the last class is the component)
    tail = [t for t in tail if "class " not in t]
    if damage == "notcomp":
        tail.append(LAST[which % len(LAST)])
    if damage == "noclass":
        comp = ""
        pieces = [p for p in pieces if "class " not in p]
    sep = r.choice(["", "\n", "\n\n"])
    head = r.choice(["", "", "", "'doc < &'\n", "from __future__ import annotations\n",
                     '"""doc\n  string"""\nfrom __future__ import annotations\n'])
    body = sep.join([head, "import collagraph as cg\n", *pieces, comp, *tail])
    if damage == "syntax":
        body += BAD[which % len(BAD)]
    script = r.choice(["\n", "\n", "\n\n\n", ""]) + body + r.choice(["", "\n", "\n\n  "])
    root = write_node(r, case["root"])
    if damage == "none":
        root = r.choice(["", "<!-- c -->"])
    elif damage == "two":
        root = root + "\n" + r.choice([root, "<a />", "<b></b>"])
    elif damage == "text":
        root = "only text"
    template = f"<template>{r.choice(['', chr(10), '  ', '<!-- c -->'])}{root}{r.choice(['', chr(10)])}</template>"
    pre = f"<script>{script}"
    sections = {"template": template, "script": pre + "</script>"}
    if damage == "notemplate":
        sections["template"] = ""
    if damage == "noscript":
        sections["script"] = ""
    order = [case["first"], "script" if case["first"] == "template" else "template"]
    glue = [r.choice(["", "\n", "\n\n", "<!-- comment <script> -->\n"]) for _ in range(3)]
    text = glue[0] + sections[order[0]] + glue[1] + sections[order[1]] + glue[2]
    before = glue[0] + (sections[order[0]] + glue[1] if order[1] == "script" else "")
    return text, script, before.count("\n") + 1


# ------------------------------------------------------------------------ comparing
def components():
    def make(tag):
        def render(self):
            return cg.h("shown", {"tag": tag, **{f"p {k}": v for k, v in self.props.items()}})

        return type("Shown", (cg.Component,), {"render": render})

    ns = types.SimpleNamespace
    return {"Foo": make("Foo"), "FooBar": make("FooBar"), "FOO": make("FOO"), "X_1": make("X_1"), "A": make("A"),
            "ns": ns(Foo=make("ns.Foo"), lower=make("ns.lower"), Sub=ns(Deep=make("ns.Sub.Deep"))),
            "Ns": ns(sub=ns(Deep=make("Ns.sub.Deep")))}


def expected(node):
    attrs = {n: True if v is None else v for n, v in node["attrs"]}
    if node["tag"] in UPPER:
        return {"type": "shown", "attrs": {"tag": node["tag"], **{f"p {k}": v for k, v in attrs.items()}}, "kids": []}
    kids = []
    for k in node["kids"]:
        if k["t"] == "text":
            kids.append({"type": "TEXT_ELEMENT", "text": k["s"]})
        elif k["t"] == "el":
            kids += expected(k)["kids"] if k["tag"] == "template" else [expected(k)]
    return {"type": node["tag"], "attrs": attrs, "kids": kids}


def plain(el):
    if el["type"] == "TEXT_ELEMENT":
        return {"type": "TEXT_ELEMENT", "text": el["text"]}
    return {"type": el["type"], "attrs": raw(el.get("attrs", {})), "kids": [plain(k) for k in el.get("children", [])]}


def same_code(a, b, shift, what):
    for name in ("co_name", "co_qualname", "co_argcount", "co_kwonlyargcount", "co_posonlyargcount", "co_flags",
                 "co_varnames", "co_names", "co_freevars", "co_cellvars", "co_filename", "co_code"):
        if getattr(a, name) != getattr(b, name):
            raise Violation(f"{what}: {name} is {getattr(a, name)!r} instead of {getattr(b, name)!r}")
    if a.co_firstlineno != b.co_firstlineno + shift:
        raise Violation(f"{what}: line {a.co_firstlineno} instead of {b.co_firstlineno + shift}")
    la = [x[2] for x in a.co_lines()]
    lb = [x[2] and x[2] + shift for x in b.co_lines()]
    if la != lb:
        raise Violation(f"{what}: lines {la} instead of {lb}")
    if len(a.co_consts) != len(b.co_consts):
        raise Violation(f"{what}: constants {a.co_consts} instead of {b.co_consts}")
    for x, y in zip(a.co_consts, b.co_consts):
        if isinstance(x, types.CodeType) and isinstance(y, types.CodeType):
            same_code(x, y, shift, what + "." + x.co_name)
        elif x != y or type(x) is not type(y):
            raise Violation(f"{what}: constant {x!r} instead of {y!r}")


def same(a, b, shift, what, skip=()):
    if a is b:
        return
    if isinstance(b, types.FunctionType):
        if not isinstance(a, types.FunctionType):
            raise Violation(f"{what} is {a!r}")
        same_code(a.__code__, b.__code__, shift, what)
        for name in ("__defaults__", "__kwdefaults__", "__doc__", "__dict__", "__annotations__"):
            if getattr(a, name) != getattr(b, name):
                raise Violation(f"{what}: {name}")
    elif isinstance(b, type):
        if not isinstance(a, type) or a.__name__ != b.__name__ or a.__doc__ != b.__doc__:
            raise Violation(f"{what} is {a!r}")
        names = {k for k in vars(b) if not k.startswith("__")} - set(skip)
        if {k for k in vars(a) if not k.startswith("__")} - set(skip) != names:
            raise Violation(f"{what} has {sorted(vars(a))} instead of {sorted(vars(b))}")
        if [x.__name__ for x in a.__mro__] != [x.__name__ for x in b.__mro__]:
            raise Violation(f"{what} has bases {a.__mro__} instead of {b.__mro__}")
        for k in names:
            same(vars(a)[k], vars(b)[k], shift, f"{what}.{k}")
    elif isinstance(b, property):
        same(a.fget, b.fget, shift, what)
    elif isinstance(b, staticmethod):
        same(a.__func__, b.__func__, shift, what)
    elif a != b:
        raise Violation(f"{what} is {a!r} instead of {b!r}")


def position(fn, filename):
    try:
        fn()
    except Exception as e:
        frames = [f for f in traceback.extract_tb(e.__traceback__) if f.filename == filename]
        return (repr(e), [(f.filename, f.lineno, f.name) for f in frames])
    raise Skip("no error")


def check_structure(node, root=False):
    if root and node["t"] != "el":
        raise Skip("root")
    if node["t"] == "text" and (not node["s"].strip() or "{{" in node["s"]):
        raise Skip("text")
    kids = node.get("kids", [])
    if any(len(a) != 2 or a[0] not in ATTRS for a in node.get("attrs", [])):
        raise Skip("attrs")
    for a, b in zip(kids, kids[1:]):
        if a["t"] in ("text", "com") and b["t"] in ("text", "com"):
            raise Skip("adjacent texts")
    if kids and node["tag"] in UPPER:
        raise Skip("content")
    for k in kids:
        check_structure(k)


def run(case):
    case["damage"], case["tail"], case["pieces"], case["comp"]
    check_structure(case["root"], True)
    text, script, line = parts(case)
    damage = (case["damage"] or [None])[0]
    scratch = None
    try:
        if case["file"]:
            scratch = tempfile.mkdtemp(prefix="vh-c15-")
            path = pathlib.Path(scratch) / "some_name.cgx"
            path.write_text(text, encoding="utf-8")
            filename = str(path)
            base = {"__name__": "some_name", "__file__": filename}
        else:
            path, filename, base = None, "<template>", {"__name__": "given"}
        given = {**base, **components()}
        error = None
        try:
            if path is None:
                comp, namespace = cgx.load_from_string(text, namespace=given)
            else:
                with plain_locale(len(text) % 2):
                    comp, namespace = cgx.load(path, given)
        except Exception as e:
            error = e
        shift = line - 1
        if damage:
            if error is None:
                raise Violation(f"damaged file ({damage}) is accepted\n{text}")
            if damage == "syntax":
                try:
                    compile(script, filename, "exec")
                except SyntaxError as e:
                    want = (e.lineno + shift, filename)
                    if not isinstance(error, SyntaxError):
                        raise Violation(f"{error!r} instead of a syntax error\n{text}")
                    if (error.lineno, error.filename) != want:
                        raise Violation(f"syntax error at {error.lineno}, {error.filename} instead of {want}\n{text}")
            return {"nontrivial": True, "classes": [f"damaged-{damage}"]}
        if error is not None:
            try:
                exec(compile(script, filename, "exec"), {**base, **components()})
            except Exception:
                raise Skip("script")
            raise Violation(f"not accepted: {error!r}\n{text}")
        reference = {**base, **components()}
        fixed = set(reference) - set(base)
        exec(compile(script, filename, "exec"), reference)
        ignore = {"__builtins__"} | fixed
        if set(namespace) - ignore != set(reference) - ignore:
            raise Violation(f"names {sorted(set(namespace) ^ set(reference))}\n{text}")
        try:
            for name in sorted(set(reference) - ignore):
                a, b = namespace[name], reference[name]
                same(a, b, shift, name, ["render"] if a is comp else [])
            if comp is not namespace["Comp"] or comp.__name__ != "Comp":
                raise Violation(f"component is {comp}")
            for name, value in reference.items():
                if name.startswith("boom"):
                    want = position(value, filename)
                    want = (want[0], [(f, n + shift, fn) for f, n, fn in want[1]])
                    got = position(namespace[name], filename)
                    if got != want:
                        raise Violation(f"{name}: traceback {got} instead of {want}")
            gui = cg.Collagraph(cg.DictRenderer(), event_loop_type=cg.EventLoopType.SYNC)
            container = {"root": None}
            gui.render(cg.h(comp, {}), container)
            got = [plain(x) for x in container.get("children", [])]
            want = [expected(case["root"])]
            if got != want:
                raise Violation(f"rendered\n{got}\ninstead of\n{want}")
        except Violation as e:
            raise Violation(f"{e}\n{text}")
    finally:
        if scratch:
            shutil.rmtree(scratch)
    count = [0, 0]

    def walk(n):
        count[0] += 1
        values = [v for _, v in n.get("attrs", []) if v] + [n.get("s", "")]
        count[1] += any(c in v for v in values for c in "<>&\"'{}©é\n")
        for k in n.get("kids", []):
            walk(k)

    walk(case["root"])
    return {"nontrivial": count[0] >= 3 or count[1] > 0,
            "classes": [case["first"] + "-first", "from-file" if case["file"] else "from-string"]}
