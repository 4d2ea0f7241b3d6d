"""C22: what is removed from the tree is let go of."""
import gc

from observ.watcher import Watcher

from .. import Violation
from ..app import gen_case, gen_node, shape_classes
from ..hist import History, elements
from .. import letgo

CRASHY = True
BUDGET = {"quick": {"cases": 100000, "seconds": 22}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("Random descriptions and histories with a renderer and application that only keep weak references. After "
        "every change and one more update the elements and instances that are alive have to be just those of the "
        "current tree. Then a cycle of changes that ends with the description it began with is repeated 8 times, "
        "and the numbers of live objects of collagraph and of watchers may not grow from the 4th to the 8th time. "
        "Partly the trees and histories of C17 and C19 on Qt and pygfx: live wrappers, Qt objects that aren't destroyed "
        "and handlers have to be those of the current tree. "
        "Non-trivial: elements or instances were removed.")
ASSUMPTIONS = ["CPython: objects are gone after gc.collect() when nothing refers to them"]


def gen(r):
    if r.random() < 0.3:
        return letgo.gen(r)
    opts = {"keyed": r.choice([0, 0.5]), "handlers": r.random() < 0.5, "cells": r.random() < 0.5}
    case = gen_case(r, opts, max_ops=5)
    cycle = []
    for _ in range(r.randint(1, 3)):
        k = r.choice(["cell", "root", "kids", "rerender", "attrs"])
        sel = r.randint(0, 20)
        if k == "cell":
            cycle += [["cell", sel, 1], ["cell", sel, 0]]
        elif k == "root":
            cycle += [["root", 0, gen_node(r, 2, False, opts)]]
        elif k == "kids":
            node = gen_node(r, 1, True, opts)
            cycle += [["insert", sel, 0, node], ["remove", sel, 0]]
        elif k == "attrs":
            cycle += [["set_attr", sel, "x", 5], ["del_attr", sel, "x"]]
        else:
            cycle += [["rerender", 0]]
    # ends with what it began with
    case["reset"] = gen_node(r, 2, False, opts)
    case["cycle"] = cycle
    return case


frozen = []


def run(case):
    if "toolkit" in case:
        return letgo.run(case)
    if not frozen:
        gc.collect()
        gc.freeze()
        frozen.append(True)
    try:
        return execute(case)
    finally:
        gc.collect()


def execute(case):
    hist = History(case, "rec", weak=True)
    classes = shape_classes(case["root"])
    removed = 0
    for i, op in enumerate(case["ops"]):
        total = len(hist.renderer.created)
        if not hist.step(op):
            continue
        hist.app.render()  # one more update
        removed += alive(hist, f"after op {i} {op[0]}")
        classes.add("op-" + op[0])
    counts = []
    for n in range(8):
        for op in case["cycle"]:
            hist.step(op)
        for i in range(4):
            hist.step(["cell", i, 0])
        hist.step(["root", 0, case["reset"]])
        hist.app.render()
        hist.app.render()
        removed += alive(hist, f"in cycle {n}")
        if n in (3, 7):
            # (observ lets go of nested data one level at a time)
            for _ in range(6):
                gc.collect()
            counts.append(census(hist))
    for kind, number in counts[1].items():
        if number > counts[0].get(kind, 0):
            raise Violation(f"number of live {kind} grows: {[c.get(kind, 0) for c in counts]} after 4 and 8 cycles")
    for op in case["cycle"]:
        classes.add("cycle-" + op[0])
    return {"nontrivial": removed > 0, "classes": classes}


def alive(hist, what):
    tree = {id(x) for x in elements(hist.container, "rec")}
    gc.collect()
    extra = [x for x in hist.renderer.created if id(x) not in tree]
    if extra:
        raise Violation(f"{what}: removed elements are still alive: {extra}")
    models = hist.model.components()
    instances = list(hist.app.instances)
    if len(instances) != len(models):
        raise Violation(f"{what}: {len(instances)} instances are alive instead of {len(models)}")
    return len(hist.renderer.created) - len(tree) + len(hist.app.instances) - len(models)


def census(hist):
    out = {}
    for x in gc.get_objects():
        t = type(x)
        # (not the bookkeeping of observ itself, which lets go of nested data one level at a time)
        if isinstance(x, Watcher) or ((t.__module__ or "").split(".")[0] == "collagraph" and not isinstance(x, type)):
            name = "watchers" if isinstance(x, Watcher) else t.__qualname__
            out[name] = out.get(name, 0) + 1
    out["handlers"] = len(list(hist.app.handlers))
    out["elements"] = len(list(hist.renderer.created))
    return out
