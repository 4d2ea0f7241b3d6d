"""C01: a settled tree is exactly the tree that the current description describes."""
import copy

from ..app import App, check_equal, gen_case, shape_classes
from ..hist import History, make, plain, shape
from ..wide import gen_wide, run_wide

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("A case is a random description (elements, text, templates, function and class components, keyed or "
        "not, up to 4 levels) plus up to 8 random changes of the reactive state it reads; after every change the "
        "rendered tree is compared with a recursive reference renderer and at the end with a fresh render of the "
        "same state. Non-trivial: at least one change altered the sequence of elements and the description has an "
        "element-less node (template or component). Some cases have 400 to 1600 children at once.")
ASSUMPTIONS = ["observ notifies watchers of every change that is not equal to the old value",
               "keys are unique among siblings and are strings or ints"]


def gen(r):
    if r.random() < 0.002:
        return gen_wide(r)
    opts = {"cells": r.random() < 0.3}
    if opts["cells"]:
        opts["extra"] = ["cell"] * 5
    return {**gen_case(r, opts), "renderer": r.choice(["dict", "rec"])}


def run(case):
    if "wide" in case:
        return run_wide(case)
    kind = case["renderer"]
    hist = History(case, kind)
    hist.check_tree("after the first render")
    changed = 0
    classes = shape_classes(case["root"])
    before = shape(hist.plain())
    for i, op in enumerate(case["ops"]):
        if not hist.step(op):
            continue
        classes.add("op-" + op[0])
        hist.check_tree(f"after op {i} {op[0]}")
        after = shape(hist.plain())
        changed += after != before
        before = after
    # A fresh render of the current state has to give the same tree
    if all(m.n == 0 for m in hist.model.components()):
        renderer, container = make(kind)
        fresh = App({**case, "root": copy.deepcopy(hist.app.shadow.state["root"])}, renderer, container)
        fresh.cells.update(hist.app.shadow.cells)
        fresh.render()
        check_equal(hist.plain(), plain(container, kind), "differs from a fresh render of the same state")
    return {"nontrivial": changed > 0 and bool(classes & {"has-tpl", "has-fn", "has-cls"}), "classes": classes}


def fixed_cases():
    return [{"wide": {"n": 1300, "kinds": "el", "keyed": False, "around": "list", "steps": [["hide", 0], ["show", 0], ["drop", 1]]}}]
