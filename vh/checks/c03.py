"""C03: renderers only ever see well-formed instructions."""
from .. import Violation
from ..app import gen_case, shape_classes
from ..hist import History, Sliced, elements

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("Random descriptions and histories (with handlers, half of them rendered in slices with state changes in "
        "between) on a renderer that checks every instruction against its own tree and whose elements are plain, "
        "falsy, all equal, or can't be compared at all. Non-trivial: the history contains moves or removals after "
        "the first render.")
ASSUMPTIONS = ["anchors and parents are compared by identity"]


def gen(r):
    opts = {"keyed": r.choice([0, 0.5, 0.9]), "handlers": r.random() < 0.5, "cells": r.random() < 0.2}
    opts["extra"] = ["perm", "move", "newkids", "retype", "rekey"] + ["cell"] * opts["cells"] * 5
    case = {**gen_case(r, opts), "flavour": r.choice(["plain", "falsy", "equal", "raising"])}
    if r.random() < 0.5:
        case["ticks"] = [r.choice([0, 0, 4, 20]) for _ in range(r.randint(1, 8))]
        case["steps"] = [r.randint(0, 4) for _ in case["ops"]]
    return case


class Watchdog:
    """Elements that were removed for good are never touched again"""

    def __init__(self, hist):
        self.hist = hist
        self.dead = set()
        hist.renderer.on_call = self.on_call

    def on_call(self, name, el, *args):
        if id(el) in self.dead:
            raise Violation(f"{name} {el} {args}: was removed in an earlier update")
        if name == "insert" and id(args[0]) in self.dead:
            raise Violation(f"{name} {el} into {args[0]}, which was removed in an earlier update")

    def settle(self):
        alive = {id(x) for x in elements(self.hist.container, "rec")}
        self.dead = {id(x) for x in self.hist.renderer.created} - alive


def run(case):
    classes = shape_classes(case["root"]) | {case["flavour"]}
    if "ticks" in case:
        with Sliced(case, "rec", case["flavour"]) as hist:
            dog = Watchdog(hist)
            hist.settle()
            dog.settle()
            for op, steps in zip(case["ops"], case["steps"]):
                if hist.apply(op):
                    classes.add("op-" + op[0])
                hist.run(steps)
                if hist.idle():
                    dog.settle()
            hist.settle()
            calls = hist.renderer.calls
        classes.add("sliced")
    else:
        hist = History(case, "rec", case["flavour"])
        dog = Watchdog(hist)
        dog.settle()
        for op in case["ops"]:
            if hist.step(op):
                classes.add("op-" + op[0])
                dog.settle()
        calls = hist.renderer.calls
    if any(c[0] == "unset" for c in calls):
        classes.add("attribute removed")
    if any(c[0] == "unlisten" for c in calls):
        classes.add("listener removed")
    return {"nontrivial": any(c[0] == "remove" for c in calls), "classes": classes}
