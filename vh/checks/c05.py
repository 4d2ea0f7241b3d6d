"""C05: events reach exactly the handlers of the current description."""
from .. import Violation
from ..app import EVENTS, gen_case, shape_classes, listeners
from ..hist import History, elements, flat

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("Random descriptions and histories with handlers on elements and components (lambdas with captured values, "
        "default values or captured objects, bound methods of receivers that all compare equal, partials, plain "
        "functions; also in reactive props that are changed in place); after every update each event is fired on "
        "every element and emitted by every component. Non-trivial: the handlers of a retained element or instance "
        "changed at least once.")
ASSUMPTIONS = ["an element or component has at most one handler per event in its description"]


def gen(r):
    opts = {"keyed": r.choice([0, 0.5]), "handlers": True, "cells": r.random() < 0.1}
    opts["extra"] = ["on"] * 8 + ["rerender"]
    return {**gen_case(r, opts), "renderer": r.choice(["dict", "rec"])}


def fire_element(kind, el, event, args, kwargs):
    if kind == "rec":
        handlers = [el.on[event]] if event in el.on else []
    else:
        handlers = list(el.get("handlers", {}).get(event, ()))
    for handler in handlers:
        handler(*args, **kwargs)


def check(hist, what, counter, classes):
    actual = elements(hist.container, hist.kind)
    expected = flat(hist.expected)
    if len(actual) != len(expected):
        raise Violation(f"{what}: {len(actual)} elements instead of {len(expected)}")
    targets = []
    for el, e in zip(actual, expected):
        if e["type"] != "TEXT_ELEMENT":
            targets.append((e["uid"], e["on"], lambda ev, a, k, el=el: fire_element(hist.kind, el, ev, a, k), repr(el)))
    for inst in hist.app.live_instances():
        m = hist.model_of(inst)
        on = listeners(m.node) if "on" in m.node else {}
        targets.append((m.uid, dict(on), lambda ev, a, k, inst=inst: inst.emit(ev, *a, **k), f"component {m.node['n']}"))
    fired = hist.app.fired
    result = {}
    for uid, on, fire, name in targets:
        result[uid] = on
        for event in EVENTS + ["other"]:
            counter[0] += 1
            args = (counter[0], "x")[: counter[0] % 3]
            kwargs = {"z": counter[0]} if counter[0] % 2 else {}
            del fired[:]
            fire(event, args, kwargs)
            want = [((on[event]["k"], on[event]["v"]), args, kwargs)] if event in on else []
            if fired != want:
                raise Violation(f"{what}: {event} of {name} called {fired} instead of {want}")
            if want:
                classes.add("fired " + on[event]["k"])
    return result


def run(case):
    hist = History(case, case["renderer"])
    counter, classes = [0], shape_classes(case["root"])
    before = check(hist, "after the first render", counter, classes)
    nontrivial = False
    for i, op in enumerate(case["ops"]):
        if not hist.step(op):
            continue
        classes.add("op-" + op[0])
        after = check(hist, f"after op {i} {op[0]}", counter, classes)
        for uid in set(before) & set(after):
            if before[uid] != after[uid]:
                nontrivial = True
                classes.add("handlers of retained item changed")
        before = after
    return {"nontrivial": nontrivial, "classes": classes}
