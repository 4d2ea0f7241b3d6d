"""C09: sliced and interleaved work loses no update and shows no half-done tree."""
from .. import Violation
from ..app import check_equal, gen_case, shape_classes
from ..hist import Sliced, flat

BUDGET = {"quick": {"cases": 100000, "seconds": 22}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("Random descriptions and histories; the harness owns the event loop and the clock: a case contains the "
        "speed of the clock (which decides after which units of work a slice ends) and how many slices run between "
        "state changes, renders, and changes made by hooks and by the completion callback. Non-trivial: a state "
        "change or render happened while work was pending, or in a hook or callback, and there was more than one slice.")
ASSUMPTIONS = ["work is scheduled with call_soon (or call_later) of the current asyncio event loop"]


def gen(r):
    opts = {"keyed": r.choice([0, 0.5, 0.9]), "handlers": r.random() < 0.3, "cells": r.random() < 0.3}
    opts["extra"] = ["bump"] * 5 + ["cell"] * opts["cells"] * 5
    case = gen_case(r, opts, max_ops=10)
    case["ticks"] = [r.choice([0, 1, 4, 8, 20]) for _ in range(r.randint(1, 8))]
    if r.random() < 0.4:
        case["ticks"] = [20]
    if opts["cells"] and r.random() < 0.5:
        case["mirror"] = r.sample(range(4), 2)
    if r.random() < 0.08:
        case = {**gen_case(r, opts), "ops": [], "ticks": [r.choice([20, 40])]}
    # number of slices after each of the changes
    case["steps"] = [r.choice([0, 0, 1, 1, 2, 3, 5, 8, 13, 1000]) for _ in range(len(case["ops"]) + 1)]
    # changes from within hooks and callback: [moment, change]
    case["inner"] = []
    if r.random() < 0.6:
        from ..app import gen_op
        for _ in range(r.randint(1, 3)):
            case["inner"].append([r.choice(["mounted", "updated", "before_unmount", "callback"]), r.randint(0, 3),
                                  gen_op(r, opts)])
    return case


def slow(case):
    return all(t >= 20 for t in case["ticks"])


def run(case):
    classes = shape_classes(case["root"])
    with Sliced(case, "rec") as hist:
        app = hist.app
        inner = [list(x) for x in case["inner"]]
        interleaved = [0]
        seen = []  # tree at the last time that the callback was called

        def at(moment):
            """Do the changes that are planned for this moment"""
            for item in list(inner):
                if item[0] == moment:
                    if item[1] > 0:
                        item[1] -= 1
                        continue
                    inner.remove(item)
                    if item[2][0] == "rerender" and moment != "callback":
                        continue  # rendering another root from within a hook is not specified
                    if case["mode"] in ("bare", "static") and moment != "callback":
                        # (likewise, as these changes are shown with a render)
                        if item[2][0] != "bump":
                            continue
                    if item[2][0] == "bump" and moment == "before_unmount":
                        continue
                    if app.apply(item[2]):
                        interleaved[0] += 1
                        classes.add("change in " + moment)

        def on_hook(name, inst):
            if inst.mounts > 1 or inst.unmounts > 1 or (name != "mounted" and not inst.mounts) or (
                name != "before_unmount" and inst.unmounts
            ):
                raise Violation(f"{name} with {inst.mounts} mounts and {inst.unmounts} unmounts")
            at(name)

        def on_settled():
            actual = hist.plain()
            check_equal(actual, hist.update_model(), "the callback was called while the tree is")
            seen[:] = [actual]
            at("callback")

        def on_mirror():
            interleaved[0] += 1
            classes.add("change in watcher")

        app.on_hook = on_hook
        app.on_mirror = on_mirror
        hist.on_settled = on_settled
        clean = None  # tree before the current changes, if it was settled
        prev = hist.plain()
        slices = 0
        for op, steps in zip([["none"]] + case["ops"], case["steps"]):
            if op[0] != "none":
                busy = not hist.idle()
                before = hist.plain()
                if app.apply(op):
                    classes.add("op-" + op[0])
                    if busy:
                        interleaved[0] += 1
                        classes.add("change while busy")
                if hist.plain() != before:
                    raise Violation(f"{op[0]}: the tree changed right away instead of in the event loop")
                clean = None if busy else before
            else:
                clean = []
            count = interleaved[0]
            for _ in range(steps):
                was = hist.plain()
                if not hist.loop.step():
                    break
                slices += 1
                now = hist.plain()
                if now != was and clean is not None and interleaved[0] == count:
                    # Nothing else happened since the tree was settled: all in one go
                    check_equal(now, hist.update_model(), "half-done tree is shown")
            prev = hist.plain()
        if not case["ops"] and slow(case):
            # Nothing but the first render, of which every unit of work takes longer than a slice
            while not hist.settled and hist.loop.step():
                slices += 1
            hist.update_model()
            if len(flat(hist.model.expected())) >= 8 and slices < 2:
                raise Violation(f"{slices} slices, although every unit of work takes longer than a slice")
            classes.add("slow clock")
        hist.settle()
        check_equal(hist.plain(), hist.update_model(), "idle, but the tree isn't")
        app.check_mirror()
        if not hist.settled:
            raise Violation("the callback was never called")
        check_equal(hist.plain(), seen[0], "the callback wasn't called for the last change of the tree")
        for inst in app.instances:
            if inst.unmounts > inst.mounts:
                raise Violation("unmounted without having been mounted")
        if len(app.live_instances()) != len(hist.model.components()):
            raise Violation(f"{len(app.live_instances())} live instances instead of {len(hist.model.components())}")
        return {"nontrivial": interleaved[0] > 0 and slices > 1, "classes": classes}
