"""C10: every change that matters triggers an update, and no other change does."""
import copy

from observ import reactive

from .. import Violation
from ..app import check_equal, gen_attrs, gen_case, gen_node, raw, shape_classes
from ..hist import History, Sliced

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("Random descriptions with branches and attributes that depend on separate cells of reactive data, and "
        "histories that change the cells, items in branches that are not shown, items that were removed before and "
        "the state of unmounted instances, next to the changes of C01. After every change the tree is compared with "
        "the reference model; when what changed is not read by anything in the tree, no render function may run and "
        "no renderer call or hook may be made. Non-trivial: the history has both kinds of changes.")
ASSUMPTIONS = ["observ notifies watchers of every change that is not equal to the old value"]


def gen(r):
    opts = {"keyed": r.choice([0, 0.5]), "handlers": r.random() < 0.2, "cells": True, "modes": ["fn", "cls"]}
    opts["extra"] = ["cell"] * 14
    case = gen_case(r, opts, max_ops=10)
    ops = []
    for op in case["ops"]:
        ops.append(op)
        if r.random() < 0.3:
            ops.append([r.choice(["touch", "touch", "dead"]), r.randint(0, 20),
                        r.choice(["attrs", "kids", "kid", "key"]), gen_attrs(r), gen_node(r, 1, True, opts)])
    case["ops"] = ops
    if r.random() < 0.3:
        case["mirror"] = r.sample(range(4), 2)
    if r.random() < 0.25:
        case["ticks"] = [20]
    return case


def reads(hist):
    """Everything that might be read for the current tree: items and cells"""
    items, cells = set(), set()
    shadow = hist.app.shadow

    def walk(node):
        while node["t"] == "if":
            cells.add(node["cell"])
            items.add(node["n"])
            node = node["a"] if shadow.cells[f"c{node['cell']}"] else node["b"]
        items.add(node["n"])
        cells.update(node.get("cells", {}).values())
        for kid in node.get("kids", ()):
            walk(kid)
        if "kid" in node:
            walk(node["kid"])

    walk(shadow.state["root"])
    return items, cells


class SlicedHistory:
    """Every change is followed by all the work that it causes"""

    def __init__(self, case):
        self.sliced = Sliced(case, "rec")

    def __enter__(self):
        self.sliced.__enter__()
        self.sliced.settle()
        return self

    def __exit__(self, *args):
        self.sliced.__exit__(*args)

    @property
    def app(self):
        return self.sliced.app

    @property
    def renderer(self):
        return self.sliced.renderer

    def step(self, op):
        done = self.app.apply(op)
        self.sliced.settle()
        return done

    def settle(self):
        self.sliced.settle()

    def check_tree(self, what):
        check_equal(self.sliced.plain(), self.sliced.update_model(), what)


def run(case):
    if "ticks" in case:
        with SlicedHistory(case) as hist:
            return execute(case, hist, hist.settle)
    return execute(case, History(case, "rec"), lambda: None)


def execute(case, hist, settle):
    app = hist.app
    classes = shape_classes(case["root"])
    hist.check_tree("after the first render")
    removed = []  # (still reactive) items that aren't described any more
    kinds = set()
    for i, op in enumerate(case["ops"]):
        what = f"op {i} {op[0]}"
        items, cells = reads(hist)
        nodes = {n["n"]: n for n in app.nodes()}
        del hist.renderer.calls[:]
        del app.renders[:]
        del app.log[:]
        quiet = False
        if op[0] == "touch":
            if not removed:
                continue
            node = removed[op[1] % len(removed)]
            if not touch(node, op):
                continue
            settle()
            quiet = True
            classes.add("change of removed item")
        elif op[0] == "dead":
            dead = [x for x in app.instances if x.unmounts]
            if not dead:
                continue
            dead[op[1] % len(dead)].state["n"] += 1
            settle()
            quiet = True
            classes.add("change of unmounted instance")
        else:
            app.shadow.target = None
            if not hist.step(op):
                continue
            if op[0] == "cell":
                changed = {op[1] % 4}
                if app.mirror and op[1] % 4 == case["mirror"][0] % 4:
                    changed.add(case["mirror"][1] % 4)
                    classes.add("mirrored")
                quiet = not changed & cells
                classes.add("cell read" if not quiet else "cell not read")
            elif app.shadow.target is not None and op[0] not in ("bump", "rerender"):
                quiet = app.shadow.target not in items
                if quiet:
                    classes.add("change of item that is not shown")
            now = {n["n"] for n in app.nodes()}
            removed.extend(node for n, node in nodes.items() if n not in now)
        if quiet and (app.renders or hist.renderer.calls or app.log):
            raise Violation(f"{what}: nothing reads what changed, but: render functions {app.renders}, "
                            f"renderer calls {hist.renderer.calls}, hooks {app.log}")
        kinds.add(quiet)
        app.check_mirror()
        hist.check_tree(f"after {what}")
    return {"nontrivial": len(kinds) == 2, "classes": classes}


def touch(node, op):
    _, _, kind, attrs, new = op
    if kind == "attrs" and "attrs" in node:
        if raw(node["attrs"]) == attrs:
            return False
        node["attrs"] = copy.deepcopy(attrs)
    elif kind == "kids" and "kids" in node:
        node["kids"] = [] if len(node["kids"]) else [{"t": "text", "s": "new", "n": -1}]
    elif kind == "kid" and "kid" in node:
        node["kid"] = {"t": "tpl", "key": None, "kids": [], "n": -2}
    elif kind == "key" and "key" in node:
        node["key"] = "touched" if node["key"] != "touched" else None
    else:
        return False
    return True
