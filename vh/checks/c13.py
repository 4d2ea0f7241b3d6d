"""C13: a compiled template renders what its directives say."""
import copy
import math
import random
import types

from observ import reactive

import collagraph as cg
from collagraph.cgx import cgx

from .. import Skip, Violation
from ..app import raw
from ..cgxgen import ATTRS, EVENTS, INITIAL, PROPS, SCOPE, Gen, Ref, Writer, check_syntax, kinds_of

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("A case is a random template (elements, templates, components, plain/flag/bound/bulk attributes, handlers, "
        "text with moustaches, comments, if groups, nested loops; typed random Python expressions with lambdas, "
        "comprehensions and shadowed names), written with random layout, and a history of changes of state and props "
        "and of fired handlers. After loading and after every change the rendered tree and the effect of every handler "
        "are compared with an interpreter of the template which evaluates the same expressions with Python's eval. "
        "Non-trivial: the template has a directive and the rendered tree changed during the history.")
ASSUMPTIONS = ["templates within the supported syntax as listed in DESIGN.md (one of v-for/v-if per element, ...)"]

SCRIPT = '''
import collagraph as cg
from math import floor

CONST = 4
nothing = None


def helper(x):
    return x + 100


class Comp(cg.Component):
    extra = {"x": "ex", "y": 1}

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        for key, value in make_initial().items():
            self.state[key] = value
        self.factor = 3
        self.odd = ODD
        INSTANCES.append(self)

    def double(self, x):
        return x * 2

    def record(self, *args):
        LOG.append(args)

    def bump(self, *args):
        self.state["n"] += 1
'''


class Odd:
    """Texts are made with str"""

    def __str__(self):
        return "odd {thing}"

    def __format__(self, spec):
        return "formatted"

    def __repr__(self):
        return "repr"


ODD = Odd()
COMPONENTS = ["Child", "ns.Other", "Func"]


def shown(props):
    return {k: v for k, v in props.items() if not k.startswith("on_")}


def gen_value_op(r):
    k = r.choice(["n", "n", "m", "s", "flag", "flag", "items", "items", "recs", "recs", "d", "p", "title", "fire",
                  "fire", "set_items", "set_recs", "name", "tags"])
    if k in ("n", "m", "p"):
        return [k, r.randint(0, 5)]
    if k in ("s", "title"):
        return [k, r.choice(["s", "q", "", "<x>", "a b"])]
    if k == "flag":
        return [k]
    if k in ("items", "recs"):
        return [k, r.choice(["add", "insert", "pop", "set", "reverse"]), r.randint(0, 5), r.randint(0, 9)]
    if k == "set_items":
        return [k, [r.randint(0, 5) for _ in range(r.randint(0, 4))]]
    if k == "set_recs":
        return [k, r.sample(range(11, 18), r.randint(0, 4))]
    if k == "d":
        return [k, r.choice(["k1", "k2"]), r.randint(0, 9)]
    if k == "name":
        return [k, r.randint(0, 5), r.choice("ABCD")]
    if k == "tags":
        return [k, r.randint(0, 5), r.sample(["t1", "t2", "t3"], r.randint(0, 3))]
    return [k, r.randint(0, 20)]


def gen(r):
    g = Gen(r, COMPONENTS)
    d = r.choice([1, 2, 3, 3, 4])
    root = g.element(SCOPE, d)
    while not root["kids"] and r.random() < 0.9:
        root = g.element(SCOPE, d)
    return {"root": root, "layout": r.randint(0, 10**6), "order": r.random() < 0.5,
            "ops": [gen_value_op(r) for _ in range(r.randint(2, 8))]}


def rec(i, name="N", tags=()):
    return {"id": i, "name": name, "tags": list(tags)}


def change(op, state, props, plain):
    """plain: the data of the model, for decisions"""
    k, *args = op
    # (observ doesn't notice that a value is replaced with an equal one)
    if k in ("n", "m", "s"):
        state[k] = args[0]
    elif k == "flag":
        state["flag"] = not plain["flag"]
    elif k in ("p", "title"):
        props[k] = args[0]
    elif k in ("items", "recs"):
        how, i, v = args
        size = len(plain[k])
        used = [x["id"] for x in plain["recs"]]
        new = v if k == "items" else rec(next(x for x in range(11 + v, 40) if x not in used))
        if how == "add":
            state[k].append(new)
        elif how == "insert":
            state[k].insert(i % (size + 1), new)
        elif size and how == "pop":
            state[k].pop(i % size)
        elif size and how == "set":
            state[k][i % size] = new
        elif how == "reverse":
            state[k].reverse()
    elif k == "set_items" and plain["items"] != args[0]:
        state["items"] = list(args[0])
    elif k == "set_recs" and [x["id"] for x in plain["recs"]] != args[0]:
        old = {x["id"]: x for x in plain["recs"]}
        state["recs"] = [copy.deepcopy(old.get(i)) or rec(i) for i in args[0]]
    elif k == "d":
        state["d"][args[0]] = args[1]
    elif k == "name" and plain["recs"]:
        state["recs"][args[0] % len(plain["recs"])]["name"] = args[1]
    elif k == "tags" and plain["recs"] and plain["recs"][args[0] % len(plain["recs"])]["tags"] != args[1]:
        state["recs"][args[0] % len(plain["recs"])]["tags"] = list(args[1])


class Self:
    pass


class Model:
    def __init__(self):
        self.state = copy.deepcopy(INITIAL)
        self.props = copy.deepcopy(PROPS)
        self.log = []
        this = self.this = Self()
        this.state, this.props, this.factor = self.state, self.props, 3
        this.odd = ODD
        this.double = lambda x: x * 2
        this.record = lambda *a: self.log.append(a)
        this.extra = {"x": "ex", "y": 1}

        def bump(*args):
            self.state["n"] += 1

        this.bump = bump

    def env(self):
        env = {"CONST": 4, "nothing": None, "helper": lambda x: x + 100}
        env.update(vars(self.this))
        env.update(self.state)
        env.update(self.props)
        env["floor"] = math.floor
        env["self"] = self.this
        return env


def ref_component(tag):
    def expected(ref, props, kids):
        return [ref.host(tag, props, [{"type": "TEXT_ELEMENT", "text": tag}])]

    return expected


def plain(el):
    if el["type"] == "TEXT_ELEMENT":
        return {"type": "TEXT_ELEMENT", "text": el["text"]}
    return {"type": el["type"], "attrs": raw(el.get("attrs", {})), "kids": [plain(k) for k in el.get("children", [])],
            "on": sorted(k for k, v in el.get("handlers", {}).items() if v)}


def plain_ref(el):
    if el["type"] == "TEXT_ELEMENT":
        return dict(el)
    return {"type": el["type"], "attrs": raw(el["attrs"]), "kids": [plain_ref(k) for k in el["kids"]],
            "on": sorted(el["on"])}


def flat(nodes, kids):
    out = []
    for n in nodes:
        out.append(n)
        out += flat(n.get(kids, []), kids)
    return out


def source(case, script=SCRIPT):
    w = Writer(random.Random(case["layout"]))
    template = f"<template>\n  {w.node(case['root'])}\n</template>\n"
    script = f"<script>{script}</script>\n"
    return script + template if case.get("order") else template + script


def make_components():
    """Components that show their props and listen on behalf of whoever made them"""
    def show(tag):
        class Shows(cg.Component):
            def render(self):
                # What it emits are the events of its only element
                props = shown(self.props)
                events = {k: self.forward(k[3:]) for k, v in self.props.items() if k.startswith("on_") and v is not None}
                return cg.h(tag, {**props, **events}, tag)

            def forward(self, event):
                return lambda *args: self.emit(event, *args)

        return Shows

    def func(props):
        return cg.h("Func", {**props}, "Func")

    return {"Child": show("Child"), "ns": types.SimpleNamespace(Other=show("ns.Other")), "Func": func}


def run(case):
    if case["root"]["t"] != "el":
        raise Skip("root")
    case["layout"]
    if not all(case["ops"]):
        raise Skip("empty")
    check_syntax(case["root"])
    model = Model()
    components = {tag: ref_component(tag) for tag in COMPONENTS}
    ref = Ref(components, model.env)
    expected = ref.tree(case["root"])  # (raises Skip)
    text = code = source(case)
    text = text.replace(SCRIPT, "...")
    log, instances = [], []
    namespace = {"LOG": log, "INSTANCES": instances, "ODD": ODD, "make_initial": lambda: copy.deepcopy(INITIAL), **make_components()}
    try:
        component, _ = cgx.load_from_string(code, namespace=namespace)
    except Exception as e:
        raise Violation(f"template is not accepted: {e!r}\n{text}")
    props = reactive(copy.deepcopy(PROPS))
    gui = cg.Collagraph(cg.DictRenderer(), event_loop_type=cg.EventLoopType.SYNC)
    container = {"root": None}
    what = "initially"

    def check():
        nonlocal expected
        expected = ref.tree(case["root"])
        want = [plain_ref(x) for x in expected]
        got = [plain(x) for x in container.get("children", [])]
        if got != want:
            raise Violation(f"{what}\n{text}\nexpected:\n{show_all(want)}\nrendered:\n{show_all(got)}")
        return want

    def fire(el, event, node):
        """the same handler for real and in the model"""
        before = len(log), len(model.log)
        real = list(el["handlers"][event])
        if len(real) != 1:
            raise Violation(f"{what}: {len(real)} handlers for {event}\n{text}")
        handler = ref.eval(*node["on"][event])
        try:
            handler()
        except Exception as e:
            raise Skip(repr(e))
        ref.tree(case["root"])  # (raises Skip)
        real[0]()
        a, b = [raw(x) for x in log[before[0]:]], [raw(x) for x in model.log[before[1]:]]
        if a != b:
            raise Violation(f"{what}: {node['on'][event][0]} recorded {a} instead of {b}\n{text}")

    def handlers():
        reals = flat(container.get("children", []), "children")
        return [(el, ev, node) for el, node in zip(reals, flat(expected, "kids")) for ev in node.get("on", {})]

    try:
        gui.render(cg.h(component, props), container)
        first = check()
        changed = False
        for i, op in enumerate(case["ops"]):
            what = f"after {case['ops'][:i + 1]}"
            if op[0] == "fire":
                found = handlers()
                if not found:
                    continue
                fire(*found[op[1] % len(found)])
            else:
                before = copy.deepcopy(model.state)
                change(op, model.state, model.props, before)
                ref.tree(case["root"])  # (raises Skip)
                change(op, instances[0].state, props, before)
            changed = check() != first or changed
        what += " and all handlers"
        for i in range(min(len(handlers()), 12)):
            found = handlers()
            if i < len(found):
                fire(*found[i])
                check()
    except (Violation, Skip):
        raise
    except Exception as e:
        import traceback

        raise Violation(f"{what}: {e!r}\n{text}\n{traceback.format_exc()[-1500:]}")
    if len(instances) != 1:
        raise Violation(f"{len(instances)} instances\n{text}")
    kinds = kinds_of(case["root"])
    return {"nontrivial": changed and bool(kinds & {"for", "if-1", "if-2", "if-3", "if-4", "attr-bind", "attr-bulk", "attr-on"}),
            "classes": sorted(kinds) + (["changed"] if changed else [])}


def show_all(nodes, indent=0):
    lines = []
    for n in nodes:
        if n["type"] == "TEXT_ELEMENT":
            lines.append(" " * indent + repr(n["text"]))
        else:
            lines.append(" " * indent + f"{n['type']} {n['attrs']} {n['on']}")
            lines += show_all(n["kids"], indent + 2).split("\n") if n["kids"] else []
    return "\n".join(lines)
