"""Applications of components with slots: generator, builders (Python API and CGX) and reference model.

A case has a list of component definitions; component i only uses components with a higher index (also as content of
slots), and every definition is either a CGX template ("cgx"), a class with a render method ("cls") or a function ("fn").

nodes ("t"):
  el    {"type", "attrs", "kids", "on"}
  text  {"s", "e"}
  tpl   {"kids"}
  slot  {"name", "kids" (fallback, CGX only), "sp" (slot props, Python only), "wrap"}
  comp  {"c", "attrs", "slots": {name: [nodes]}, "loose"}
each but text with optionally "if" (an expression) and "else" (a node), or "for" (a variable) and "key".

All instances of a class have the same local state, such that the reference model is just a function of the case and
that state; which instance an element belongs to is compared by means of the attribute 'by'.
"""
import copy
import re
import types

from observ import reactive

import collagraph as cg
from collagraph import h
from collagraph.cgx import cgx

from . import Skip, Violation
from .app import raw
from .sched import owned, run_until_idle

SLOTS = ["default", "x", "y"]
MANY_SLOTS = [*SLOTS, "z", "a-b", "slot", "x1", "props"]
STATE = {"a": 1, "b": 0, "l": [1, 2], "m": [3]}
PROVIDED = [0, None, "", False, [], 1, "v", [0], 0.0, {"d": 1}, {}]
KEYS = ["k", "j", "", "a", "props"]
EL_TYPES = ["a", "b", "c"]


# --------------------------------------------------------------------- generation
class Gen:
    def __init__(self, r, inject):
        self.r, self.inject = r, inject
        self.budget = 60
        self.slots = SLOTS if r.random() < 0.9 else MANY_SLOTS

    def expr(self, sc):
        """sc: {"vars", "kind", "content"}"""
        r = self.r
        kinds = ["const", "state", "state", "prop", "prop"] + ["var"] * 3 * bool(sc["vars"])
        if sc["sprops"]:
            kinds += ["sprop"] * 2
        if self.inject and not self.late and sc["kind"] != "fn":
            kinds += ["inj", "injr"] * 2
        k = r.choice(kinds)
        if k == "const":
            return [k, r.choice([0, 1, 2, "s", ""])]
        if k == "state":
            return [k, r.choice("ab")]
        if k == "prop":
            return [k, r.choice("pq")]
        if k == "var":
            return [k, r.choice(sc["vars"])]
        if k == "sprop":
            return [k, r.choice("uv")]
        if k == "inj":
            return [k, r.choice(KEYS)]
        return [k, r.choice("ab")]

    def attrs(self, names, sc, n=2):
        r = self.r
        return {k: self.expr(sc) for k in r.sample(names, r.randint(0, n))}

    def nodes(self, c, sc, depth, most=3):
        out = []
        for _ in range(self.r.choice([0, 1, 1, 2, 2, 3][:most + 3])):
            text = not out or out[-1]["t"] != "text"
            out.append(self.node(c, sc, depth, text))
        return out

    def node(self, c, sc, depth, text=True, directives=True):
        r = self.r
        self.budget -= 1
        deep = depth > 0 and self.budget > 0
        kinds = ["el", "el"] + ["text"] * 2 * text
        if deep:
            kinds += ["el", "tpl"] + ["comp"] * 5 * (c + 1 < self.count)
        kinds += ["slot"] * (3 if c > 0 else 0)
        t = r.choice(kinds)
        if t == "text":
            return {"t": t, "s": r.choice(["p", "q", "r"]), "e": self.expr(sc) if r.random() < 0.5 else None}
        node = {"t": t}
        if directives:
            k = r.random()
            if k < 0.2:
                node["if"] = self.expr(sc)
                if r.random() < 0.4:
                    node["else"] = self.node(c, sc, depth - 1, False, False)
            elif k < 0.32 and len(sc["vars"]) < 2:
                var = f"i{len(sc['vars'])}"
                node["for"] = [var, r.choice("lm")]
                sc = {**sc, "vars": [*sc["vars"], var]}
        if t == "el":
            node["type"] = r.choice(EL_TYPES)
            node["attrs"] = self.attrs(["f", "g"], sc)
            node["on"] = [self.expr(sc)] if r.random() < 0.25 else []
            node["kids"] = self.nodes(c, sc, depth - 1) if deep else []
            if "for" in node and not sc["content"]:
                node["key"] = r.random() < 0.5
        elif t == "tpl":
            node["kids"] = self.nodes(c, sc, depth - 1)
        elif t == "slot":
            node["name"] = r.choice(self.slots)
            node["kids"] = self.nodes(c, {**sc, "content": True}, depth - 1) if deep and r.random() < 0.7 else []
            node["sp"] = self.attrs(["u", "v"], sc) if r.random() < 0.5 else None
            node["wrap"] = r.random() < 0.5
        else:
            node["c"] = r.randint(c + 1, self.count - 1) if r.random() < 0.5 else min(c + 1, self.count - 1)
            node["attrs"] = self.attrs(["p", "q"], sc)
            inner = {**sc, "content": True, "sprops": sc["kind"] != "cgx"}
            node["slots"] = {name: self.nodes(c, inner, depth - 1) for name in self.slots
                             if r.random() < (0.7 if name in self.names[node["c"]] else 0.15)}
            node["loose"] = r.random() < 0.6
            node["bare"] = r.random() < 0.5
        return node

    def case(self):
        r = self.r
        self.count = r.choice([2, 2, 3, 3, 4])
        # What is provided isn't reactive, so an element might show a value from before it was provided
        self.late = self.inject and r.random() < 0.3
        defs = [None] * self.count
        self.names = [["default"]] * self.count  # slots that the components have
        for c in reversed(range(self.count)):
            kind = r.choice(["cgx", "cgx", "cls", "fn"] if not self.inject else ["cgx", "cgx", "cls", "cls", "fn"])
            sc = {"vars": [], "kind": kind, "content": False, "sprops": False}
            self.budget = 25
            node = self.node(c, sc, 3, False, False)
            while node["t"] == "el" and not node["kids"] or c == 0 and not any(n["t"] == "comp" for n in walk(node)):
                self.budget = 25
                node = self.node(c, sc, 3, False, False)
            state = {"a": r.randint(0, 2), "b": r.randint(0, 1), "l": r.sample(range(5), r.randint(0, 3)),
                     "m": r.sample(range(5), r.randint(0, 2))}
            d = {"kind": kind, "root": node, "state": state}
            if self.inject:
                d["provides"] = [[k, r.choice(["own", "own"] + [["v", i] for i in range(len(PROVIDED))])]
                                 for k in KEYS if r.random() < 0.35]
                d["r"] = r.random() < 0.4
            defs[c] = d
            self.names[c] = [n["name"] for n in walk(node) if n["t"] == "slot"]
        ops = [self.op() for _ in range(r.randint(1, 7))]
        return {"defs": defs, "ops": ops, "ticks": r.choice([None, None, [1], [20], [4, 8, 0]])}

    def op(self):
        r = self.r
        c = r.randint(0, self.count - 1)
        k = r.choice(["set"] * 3 + ["list"] * 2 + ["provide"] * 2 * self.late + ["batch"])
        if k == "set":
            return [k, c, r.choice("ab"), r.choice([0, 1, 2, "s"])]
        if k == "list":
            return [k, c, r.choice("lm"), r.sample(range(5), r.randint(0, 3))]
        if k == "provide":
            return [k, c, r.choice(KEYS), r.choice(["own"] + [["v", i] for i in range(len(PROVIDED))])]
        return [k, [op for op in (self.op() for _ in range(r.randint(2, 3))) if op[0] not in ("batch", "provide")]]


def gen_case(r, inject=False):
    case = Gen(r, inject).case()
    if inject:
        case["late"] = any(op[0] == "provide" for op in case["ops"])
    return case


def walk(node):
    yield node
    for kid in node.get("kids", ()):
        yield from walk(kid)
    if node.get("else"):
        yield from walk(node["else"])
    for nodes in node.get("slots", {}).values():
        for kid in nodes:
            yield from walk(kid)


def exprs(node):
    if node["t"] == "text":
        if node["e"]:
            yield node["e"]
        return
    yield from node.get("attrs", {}).values()
    yield from node.get("on", ())
    yield from (node.get("sp") or {}).values()
    if "if" in node:
        yield node["if"]


def check_case(case):
    """Raises Skip for what doesn't make sense (after shrinking)"""
    def check(node, c, sc, text_before=False, root=False, directives=True):
        if not isinstance(node, dict) or "t" not in node:
            raise Skip("node")
        t = node["t"]
        if t == "text":
            if text_before or root or not node["s"]:
                raise Skip("text")
            check_expr(node["e"] or ["const", 0], sc)
            return
        if "if" in node:
            check_expr(node["if"], sc)
            if node.get("else"):
                if node["else"]["t"] == "text":
                    raise Skip("else")
                check(node["else"], c, sc, directives=False)
        elif "else" in node:
            raise Skip("else")
        if "for" in node:
            var = node["for"][0]
            if "if" in node or var in sc["vars"] or node["for"][1] not in "lm":
                raise Skip("for")
            sc = {**sc, "vars": [*sc["vars"], var]}
        elif node.get("key"):
            raise Skip("key")
        if not directives and ("if" in node or "for" in node):
            raise Skip("directives")
        for e in exprs({k: v for k, v in node.items() if k != "if"}):
            check_expr(e, sc)
        if t == "el":
            node["type"]
            if node.get("key") and sc["content"]:
                raise Skip("key")
            check_all(node["kids"], c, sc)
        elif t == "tpl":
            check_all(node["kids"], c, sc)
        elif t == "slot":
            node["name"], node["wrap"]
            check_all(node["kids"], c, {**sc, "content": True})
        else:
            if not c < node["c"] < len(case["defs"]):
                raise Skip("component")
            for nodes in node["slots"].values():
                check_all(nodes, c, {**sc, "content": True, "sprops": sc["kind"] != "cgx"})

    def check_all(nodes, c, sc):
        before = False
        for node in nodes:
            check(node, c, sc, before)
            before = node["t"] == "text"

    def check_expr(e, sc):
        k, n = e
        if k == "var" and n not in sc["vars"] or k == "sprop" and not sc["sprops"]:
            raise Skip("var")
        if k in ("inj", "injr") and sc["kind"] == "fn":
            raise Skip("inject")
        if k in ("inj", "injr") and case.get("late"):
            raise Skip("late")

    if not case["defs"]:
        raise Skip("empty")
    for v in [p[1] for d in case["defs"] for p in d.get("provides", ())] + [op[3] for op in case["ops"] if op[0] == "provide"]:
        if v != "own" and PROVIDED[v[1]] is ...:
            raise Skip("value")
    late = any(op[0] == "provide" for op in case["ops"])
    if case.get("late", False) != late:
        raise Skip("late")
    for c, d in enumerate(case["defs"]):
        check(d["root"], c, {"vars": [], "kind": d["kind"], "content": False, "sprops": False}, root=True, directives=False)
        for name in "ablm":
            d["state"][name]
        for name in "lm":
            if len(set(d["state"][name])) != len(d["state"][name]):
                raise Skip("list")


# --------------------------------------------------------------------- CGX
def source_expr(e):
    k, n = e
    if k == "const":
        return repr(n)
    if k in ("state", "var"):
        return n
    if k == "prop":
        return f"props.get('{n}', 'none')"
    if k == "inj":
        return f"inject('{n}', 'none')"
    return f"inject('R', NOTHING)['{n}']"


def attribute(name, value):
    return f' {name}="{value}"'


def template(node, extra=""):
    """-> source of the template"""
    t = node["t"]
    if t == "text":
        return node["s"] + ("{{ " + source_expr(node["e"]) + " }}" if node["e"] else "")
    head, tail = extra, ""
    if "if" in node:
        head += attribute("v-if", source_expr(node["if"]))
        if node.get("else"):
            tail = template(node["else"], " v-else")
    elif "for" in node:
        head += attribute("v-for", f"{node['for'][0]} in {node['for'][1]}")
    for name, e in node.get("attrs", {}).items():
        head += attribute(f":{name}", source_expr(e))
    kids = "".join(template(kid) for kid in node.get("kids", ()))
    if t == "el":
        head += attribute(":by", "uid")
        if node.get("key"):
            head += attribute(":key", f"'k%s' % {node['for'][0]}")
        for e in node["on"]:
            head += attribute("@click", f"lambda: record({source_expr(e)})")
        tag = node["type"]
    elif t == "tpl":
        tag = "template"
    elif t == "slot":
        tag = "slot"
        if node["name"] != "default" or node["wrap"]:
            head += attribute("name", node["name"])
    else:
        tag = ("ns." if node.get("bare") and node["loose"] else "") + f"C{node['c']}"
        for i, (name, nodes) in enumerate(node["slots"].items()):
            inner = "".join(template(kid) for kid in nodes)
            direct = ["", ":default", " #default"] if name == "default" else [f":{name}", f"#{name}"]
            direct = direct[i % len(direct)]
            if node.get("bare") and len(nodes) == 1 and nodes[0]["t"] != "text" and not {"if", "for"} & set(nodes[0]):
                # The directive is on the element itself instead of on a template around it
                kids += template(nodes[0], f" {direct.strip()}" if "#" in direct else f" v-slot{direct}")
            elif name == "default" and node["loose"] and nodes:
                kids += inner
            elif name == "default" and i % 2:
                kids += f"<template v-slot>{inner}</template>"
            elif i % 2:
                kids += f"<template #{name}>{inner}</template>"
            else:
                kids += f"<template v-slot:{name}>{inner}</template>"
    return f"<{tag}{head}>{kids}</{tag}>{tail}"


SCRIPT = """
import collagraph as cg

class Comp(Base):
    pass
"""


# --------------------------------------------------------------------- application
class Data:
    """The state for the model"""

    def __init__(self, case):
        self.case = case
        self.defs = case["defs"]
        # current state of all the instances of a class
        self.state = [copy.deepcopy({k: d["state"][k] for k in "ablm"}) for d in self.defs]
        self.provides = [{k: v for k, v in d.get("provides", ())} for d in self.defs]

    def instances(self, c):
        return []

    def change(self, op):
        k, *args = op
        if k == "batch":
            return any([self.change(o) for o in args[0]])
        c = args[0] % len(self.defs)
        if k == "provide":
            self.provides[c] = {**self.provides[c], args[1]: args[2]}
            for inst in self.instances(c):
                inst.give(args[1], args[2])
            return True
        name, value = args[1:]
        if k == "list" and len(set(value)) != len(value):
            raise Skip("list")
        if self.state[c][name] == value:
            return False
        self.state[c] = {**self.state[c], name: value}
        self.write(c, name, value)
        return True

    def write(self, c, name, value):
        pass


class App(Data):
    def __init__(self, case):
        super().__init__(case)
        self.uid = self.step = 0
        self.live = {}  # uid -> instance
        self.log = []
        self.stores = [reactive(copy.deepcopy(s)) for s in self.state]
        self.nothing = {"a": "none", "b": "none"}
        self.types = [None] * len(self.defs)
        self.sources = []
        for c in reversed(range(len(self.defs))):
            self.types[c] = self.make(c)

    def make(app, c):
        d = app.defs[c]
        if d["kind"] == "fn":
            def function(props, slots=None):
                return app.root(c, None, lambda n: props.get(n, "none"), app.stores[c],
                                lambda name, sp: cg.render_slot(name, sp, slots or {}))

            return function

        class Base(cg.Component):
            def __init__(self, props=None, parent=None):
                super().__init__(props, parent)
                app.uid += 1
                self.uid = app.uid
                self.c = c
                self.step = app.step
                self.given = {}
                for k, v in app.state[c].items():
                    self.state[k] = copy.deepcopy(v)
                self.at_init = {k: self.inject(k, "none") for k in KEYS}
                self.parent_at_init = self.parent
                for k, v in app.provides[c].items():
                    self.give(k, v)
                if d.get("r"):
                    self.provide("R", self.state)

            def give(self, k, v):
                value = ["own", self.uid] if v == "own" else PROVIDED[v[1]]
                self.given[k] = value
                self.provide(k, value)

            def record(self, value):
                app.log.append((self.uid, raw(value)))

            def mounted(self):
                app.live[self.uid] = self

            def before_unmount(self):
                app.live.pop(self.uid, None)

        if d["kind"] == "cls":
            class Comp(Base):
                def render(self):
                    return app.root(c, self, lambda n: self.props.get(n, "none"), self.state, self.render_slot)

            return Comp
        code = f"<template>{template(d['root'])}</template><script>{SCRIPT}</script>"
        app.sources.append(code.replace(SCRIPT, "..."))
        names = {f"C{i}": t for i, t in enumerate(app.types)}
        try:
            return cgx.load_from_string(code, namespace={**names, "ns": types.SimpleNamespace(**names), "Base": Base, "NOTHING": app.nothing})[0]
        except Exception as e:
            raise Violation(f"template is not accepted: {e!r}\n{code}")

    # the render functions of the Python API
    def root(self, c, inst, prop, state, render_slot):
        ctx = {"inst": inst, "prop": prop, "state": state, "render_slot": render_slot}
        return self.build(self.defs[c]["root"], ctx, {}, None)[0]

    def value(self, e, ctx, env, sp):
        k, n = e
        if k == "const":
            return n
        if k == "state":
            return ctx["state"][n]
        if k == "prop":
            return ctx["prop"](n)
        if k == "var":
            return env[n]
        if k == "sprop":
            return (sp or {}).get(n, "none")
        if k == "inj":
            return ctx["inst"].inject(n, "none")
        return ctx["inst"].inject("R", self.nothing)[n]

    def build(self, node, ctx, env, sp):
        """-> list"""
        if "if" in node:
            if self.value(node["if"], ctx, env, sp):
                return self.single(node, ctx, env, sp)
            return self.single(node["else"], ctx, env, sp) if node.get("else") else []
        if "for" in node:
            var, name = node["for"]
            return [x for item in ctx["state"][name] for x in self.single(node, ctx, {**env, var: item}, sp)]
        return self.single(node, ctx, env, sp)

    def all(self, nodes, ctx, env, sp):
        return [x for node in nodes for x in self.build(node, ctx, env, sp)]

    def single(self, node, ctx, env, sp):
        t = node["t"]
        if t == "text":
            return [node["s"] + (str(self.value(node["e"], ctx, env, sp)) if node["e"] else "")]
        if t == "tpl":
            return [h("template", {}, *self.all(node["kids"], ctx, env, sp))]
        if t == "slot":
            props = node["sp"] and {k: self.value(e, ctx, env, sp) for k, e in node["sp"].items()}
            if props is None:
                content = ctx["render_slot"](node["name"], None)
            else:
                content = ctx["render_slot"](node["name"], props)
            # (the content might be a single node for the root)
            return [h("slot", {}, *content)] if node["wrap"] or node is self.is_root(node) else list(content)
        attrs = {k: self.value(e, ctx, env, sp) for k, e in node["attrs"].items()}
        if t == "comp":
            def content(nodes):
                if len(nodes) == 1 and node["loose"] and not {"if", "for"} & set(nodes[0]) and nodes[0]["t"] != "slot":
                    return lambda props: self.build(nodes[0], ctx, env, props)[0]  # a single node or text
                return lambda props: self.all(nodes, ctx, env, props)

            slots = {name: content(nodes) for name, nodes in node["slots"].items()}
            if not slots:
                return [h(self.types[node["c"]], attrs)]
            if list(slots) == ["default"] and node["loose"]:
                return [h(self.types[node["c"]], attrs, slots["default"])]
            return [h(self.types[node["c"]], attrs, slots)]
        if ctx["inst"] is not None:
            attrs["by"] = ctx["inst"].uid
        if node.get("key"):
            attrs["key"] = "k%s" % env[node["for"][0]]
        for e in node["on"]:
            attrs["on_click"] = self.handler(e, ctx, env, sp)
        return [h(node["type"], attrs, *self.all(node["kids"], ctx, env, sp))]

    def handler(self, e, ctx, env, sp):
        # (capture just what it uses, because parts of the context are new for every render)
        k, n = e
        inst, state, prop = ctx["inst"], ctx["state"], ctx["prop"]
        if k in ("var", "sprop", "const"):
            value = self.value(e, ctx, env, sp)
            return lambda: self.log.append((inst.uid if inst is not None else None, raw(value)))
        if k == "state":
            return lambda: self.log.append((inst.uid if inst is not None else None, raw(state[n])))
        if k == "prop":
            value = prop(n)
            return lambda: self.log.append((inst.uid if inst is not None else None, raw(value)))
        return lambda: inst.record(self.value(e, {"inst": inst}, {}, None))

    def is_root(self, node):
        for d in self.defs:
            if d["root"] is node:
                return node

    # changes
    def instances(self, c):
        return [x for x in list(self.live.values()) if x.c == c]

    def write(self, c, name, value):
        self.stores[c][name] = copy.deepcopy(value)
        for inst in self.instances(c):
            if raw(inst.state[name]) != value:
                inst.state[name] = copy.deepcopy(value)


# --------------------------------------------------------------------- model
class Scope:
    """An instance of a component in the model"""

    def __init__(self, app, c, props, slots, parent):
        self.app, self.c, self.props, self.slots, self.parent = app, c, props, slots, parent
        self.kind = app.defs[c]["kind"]
        self.uid = None

    def ancestors(self):
        scope = self.parent
        while scope:
            yield scope
            scope = scope.parent


class Model:
    def __init__(self, app):
        self.app = app

    def tree(self):
        self.scopes = []
        self.slots = self.size = 0
        return self.component(0, {}, {}, None)

    def component(self, c, props, slots, parent):
        """parent: nearest class component in the rendered tree"""
        scope = Scope(self.app, c, props, slots, parent)
        if scope.kind != "fn":
            self.scopes.append(scope)
            parent = scope
        return self.expand(self.app.defs[c]["root"], scope, {}, None, parent)

    def value(self, e, scope, env, sp):
        k, n = e
        if k == "const":
            return n
        if k == "state":
            return self.app.state[scope.c][n]
        if k == "prop":
            return scope.props.get(n, "none")
        if k == "var":
            return env[n]
        if k == "sprop":
            return (sp or {}).get(n, "none")
        if k == "inj":
            return self.inject(scope, n)
        for s in scope.ancestors():
            if self.app.defs[s.c].get("r"):
                return self.app.state[s.c][n]
        return "none"

    def inject(self, scope, key):
        for s in scope.ancestors():
            if key in self.app.provides[s.c]:
                v = self.app.provides[s.c][key]
                return ("own", s) if v == "own" else PROVIDED[v[1]]
        return "none"

    def expand(self, node, scope, env, sp, parent):
        if "if" in node:
            if self.value(node["if"], scope, env, sp):
                return self.single(node, scope, env, sp, parent)
            return self.single(node["else"], scope, env, sp, parent) if node.get("else") else []
        if "for" in node:
            var, name = node["for"]
            return [x for item in self.app.state[scope.c][name]
                    for x in self.single(node, scope, {**env, var: item}, sp, parent)]
        return self.single(node, scope, env, sp, parent)

    def all(self, nodes, scope, env, sp, parent):
        return [x for node in nodes for x in self.expand(node, scope, env, sp, parent)]

    def single(self, node, scope, env, sp, parent):
        t = node["t"]
        self.size += 1
        if self.size > 300:
            raise Skip("large")
        if t == "text":
            return [{"text": [node["s"]] + ([self.value(node["e"], scope, env, sp)] if node["e"] else [])}]
        if t == "tpl":
            return self.all(node["kids"], scope, env, sp, parent)
        if t == "slot":
            if node["name"] in scope.slots:
                self.slots += 1
                nodes, owner, owner_env, cgx_owner = scope.slots[node["name"]]
                props = None
                if node["sp"] is not None and scope.kind != "cgx":
                    props = {k: self.value(e, scope, env, sp) for k, e in node["sp"].items()}
                return self.all(nodes, owner, owner_env, props, parent)
            return self.all(node["kids"], scope, env, sp, parent) if scope.kind == "cgx" else []
        attrs = {k: self.value(e, scope, env, sp) for k, e in node["attrs"].items()}
        if t == "comp":
            slots = {name: (nodes, scope, env, scope.kind == "cgx") for name, nodes in node["slots"].items()}
            return self.component(node["c"], attrs, slots, parent)
        if node.get("key"):
            attrs["key"] = "k%s" % env[node["for"][0]]
        on = [(scope, self.value(e, scope, env, sp)) for e in node["on"]]
        return [{"type": node["type"], "attrs": attrs, "kids": self.all(node["kids"], scope, env, sp, parent),
                 "on": on, "scope": scope}]


# --------------------------------------------------------------------- comparison
class Match:
    """Which instance is which one of the model"""

    def __init__(self, app, model):
        self.app, self.model = app, model
        self.expected = model.tree()
        self.by_uid = {}

    def same(self, scope, uid, what):
        if scope.kind == "fn":
            if uid is not None:
                raise Violation(f"{what}: belongs to instance {uid} instead of to a function")
            return
        if scope.uid is None:
            if uid in self.by_uid or uid not in self.app.live or self.app.live[uid].c != scope.c:
                raise Violation(f"{what}: belongs to instance {uid} instead of to one of C{scope.c}")
            scope.uid = uid
            self.by_uid[uid] = scope
        elif scope.uid != uid:
            raise Violation(f"{what}: belongs to instance {uid} instead of {scope.uid}")

    def shape(self, want, got, path="root"):
        if [x.get("type", "TEXT_ELEMENT") for x in want] != [x["type"] for x in got]:
            raise Violation(f"children of {path} are {show_actual(got)} instead of {show(want)}")
        for i, (w, g) in enumerate(zip(want, got)):
            if "text" in w:
                continue
            where = f"{path}/{w['type']}[{i}]"
            self.same(w["scope"], g.get("attrs", {}).get("by"), where)
            self.shape(w["kids"], g.get("children", []), where)

    def close(self):
        """Ancestors of which no element is in the tree; checks the parents on the way"""
        todo = [s for s in self.model.scopes if s.uid is not None]
        while todo:
            s = todo.pop()
            parent = self.app.live[s.uid].parent
            self.parent(s, parent)
            if s.parent is not None and s.parent.uid is None:
                self.same(s.parent, parent.uid, f"parent of instance {s.uid}")
                todo.append(s.parent)

    def parent(self, s, parent):
        if s.parent is None:
            if parent is not None:
                raise Violation(f"parent of instance {s.uid} of C{s.c} is {parent.uid} (C{parent.c}) instead of None")
        elif parent is None or parent.c != s.parent.c or s.parent.uid not in (None, parent.uid):
            got = None if parent is None else f"{parent.uid} (C{parent.c})"
            raise Violation(f"parent of instance {s.uid} of C{s.c} is {got} instead of {s.parent.uid} (C{s.parent.c})")

    def real(self, value, actual):
        """actual: text that contains the value, to recognize an instance that has no elements"""
        if isinstance(value, tuple):
            if value[1].uid is None:
                found = re.search(r"\['own', (\d+)\]", str(actual))
                if not found:
                    return f"value of instance of C{value[1].c}"
                self.same(value[1], int(found.group(1)), f"the one that provided {actual!r}")
            return ["own", value[1].uid]
        return value

    def content(self, want, got, path="root"):
        for i, (w, g) in enumerate(zip(want, got)):
            if "text" in w:
                text = w["text"][0] + "".join(str(self.real(x, g["text"])) for x in w["text"][1:])
                if text != g["text"]:
                    raise Violation(f"{path}: text {g['text']!r} instead of {text!r}")
                continue
            where = f"{path}/{w['type']}[{i}]"
            actual = {k: v for k, v in raw(g.get("attrs", {})).items() if k != "by"}
            attrs = {k: self.real(v, actual.get(k)) for k, v in w["attrs"].items()}
            # (attributes of elements that are None are not set)
            attrs = {k: v for k, v in attrs.items() if v is not None}
            if repr(sorted(attrs.items())) != repr(sorted(actual.items())):
                raise Violation(f"{where}: attributes {actual} instead of {attrs}")
            self.content(w["kids"], g.get("children", []), where)
            handlers = [f for fs in g.get("handlers", {}).values() for f in fs]
            if len(handlers) != len(w["on"]):
                raise Violation(f"{where}: {len(handlers)} handlers")
            for handler, (scope, value) in zip(handlers, w["on"]):
                del self.app.log[:]
                handler()
                value = self.real(value, self.app.log)
                if repr(self.app.log) != repr([(scope.uid, value)]):
                    raise Violation(f"{where}: handler recorded {self.app.log} instead of {(scope.uid, value)}")


def show(want):
    return [x["type"] if "type" in x else repr("".join(map(str, x["text"]))) for x in want]


def show_actual(got):
    return [repr(x.get("text")) if x["type"] == "TEXT_ELEMENT" else x["type"] for x in got]


def run_case(case, inject):
    try:
        check_case(case)
    except (KeyError, IndexError, TypeError, ValueError):
        raise Skip("malformed")
    # (raises Skip for cases that are too large)
    data = Data(case)
    model = Model(data)
    model.tree()
    for op in case["ops"]:
        for o in op[1] if op[0] == "batch" else [op]:
            if data.change(o):
                model.tree()
    app = App(case)
    if case["ticks"]:
        with owned(case["ticks"]) as loop:
            return history(case, app, inject, loop)
    return history(case, app, inject, None)


def history(case, app, inject, loop):
    import json
    renderer = cg.DictRenderer()
    stats = {"slots": 0, "injected": 0, "depth": 0, "changed": False}
    trees = []
    classes = set()
    model = Model(app)
    container = {"type": "root"}
    what = "initially"

    def check():
        match = Match(app, model)
        got = container.get("children", [])
        match.shape(match.expected, got)
        match.close()
        if len(app.live) != len(model.scopes):
            raise Violation(f"{len(app.live)} live instances instead of {len(model.scopes)}")
        match.content(match.expected, got)
        stats["slots"] = max(stats["slots"], model.slots)
        if inject:
            for s in model.scopes:
                if s.uid is None:
                    continue
                inst = app.live[s.uid]
                stats["depth"] = max(stats["depth"], len(list(s.ancestors())))
                for key in KEYS:
                    want = match.real(model.inject(s, key), inst.inject(key))
                    first = [("on creation", inst.at_init[key])] if inst.step == app.step else []
                    for when, value in [("", inst.inject(key, "none")), *first]:
                        if repr(value) != repr(want):
                            raise Violation(f"inject({key!r}) of instance {s.uid} of C{s.c} {when} gives {value!r} instead of {want!r}")
                    stats["injected"] += want != "none"
                    owner = next((o for o in s.ancestors() if key in app.provides[o.c]), None)
                    if owner is not None and owner.uid is not None and inst.inject(key) is not app.live[owner.uid].given[key]:
                        raise Violation(f"inject({key!r}) of instance {s.uid} of C{s.c} is not the object that was provided")
                if inst.parent_at_init is not inst.parent:
                    raise Violation(f"parent of instance {s.uid} of C{s.c} changed")
                try:
                    inst.parent = inst
                except Exception:  # noqa
                    pass
                if inst.parent is not inst.parent_at_init:
                    raise Violation(f"parent of instance {s.uid} of C{s.c} can be replaced")
                for default in (None, 7, 0, "", False, inst):
                    if inst.inject("nothing", default) is not default:
                        raise Violation(f"default of inject: {inst.inject('nothing', default)!r} instead of {default!r}")
                if inst.inject("nothing") is not None:
                    raise Violation("default of inject")
        trees.append(json.dumps(plain(got)))

    try:
        gui = cg.Collagraph(renderer, event_loop_type=cg.EventLoopType.DEFAULT if loop else cg.EventLoopType.SYNC)
        renderer.register_asyncio = lambda: None
        gui.render(h(app.types[0], {}), container)
        if loop:
            run_until_idle(loop)
        check()
        for i, op in enumerate(case["ops"]):
            what = f"after {case['ops'][:i + 1]}"
            app.step += 1
            if not app.change(op):
                continue
            if loop:
                run_until_idle(loop)
            check()
    except Skip:
        raise
    except Violation as e:
        raise Violation(f"{what}: {e}\n" + describe(case, app, trees))
    except Exception as e:
        import traceback

        raise Violation(f"{what}: {e!r}\n" + describe(case, app, trees) + traceback.format_exc()[-1500:])
    for d in case["defs"]:
        classes.add("kind-" + d["kind"])
        classes.add("root-" + d["root"]["t"])
        for node in walk(d["root"]):
            if node["t"] in ("slot", "comp"):
                classes.add(node["t"] + "".join("-" + k for k in ("if", "for") if k in node))
            if node["t"] == "comp" and any(n["t"] == "slot" for ns in node["slots"].values() for n in ns):
                classes.add("slot-passed-on")
    stats["changed"] = len(set(trees)) > 1
    return stats, sorted(classes)


def plain(got):
    return [[x["type"], x.get("text"), raw(x.get("attrs", {})), plain(x.get("children", []))] for x in got]


def describe(case, app, trees):
    return "\n".join(app.sources) + "\nlast tree: " + (trees[-1] if trees else "none") + "\n"
