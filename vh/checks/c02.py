"""C02: elements and component instances keep their identity across updates."""
from .. import Violation
from ..app import gen_case, shape_classes
from ..hist import History, elements, flat

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("Random descriptions and histories as for C01, with more keys, moves, insertions and type changes. A "
        "reference model pairs the items of the previous and the current description by key and type and gives "
        "every retained item the same id; rendered elements and live component instances have to correspond one "
        "to one with these ids over the whole history. Non-trivial: an update in which some elements or instances "
        "were kept while others in the same tree appeared or disappeared or changed places.")
ASSUMPTIONS = ["keys are unique among siblings and are strings or ints"]


def gen(r):
    opts = {"keyed": r.choice([0, 0.5, 0.9]), "cells": r.random() < 0.2, "flavour": "plain"}
    opts["extra"] = ["perm", "move", "newkids", "retype", "rekey", "insert", "remove", "bump"] + ["cell"] * opts["cells"] * 5
    return {**gen_case(r, opts), "renderer": r.choice(["dict", "rec", "rec"]),
            "flavour": r.choice(["plain", "plain", "falsy", "equal", "raising"])}


def run(case):
    hist = History(case, case["renderer"], case["flavour"])
    els, instances, seen = {}, {}, []
    classes = shape_classes(case["root"])
    check(hist, els, instances, seen, "after the first render")
    nontrivial = False
    for i, op in enumerate(case["ops"]):
        before = [e["uid"] for e in flat(hist.expected)]
        comps = {m.uid for m in hist.model.components()}
        if not hist.step(op):
            continue
        classes.add("op-" + op[0])
        check(hist, els, instances, seen, f"after op {i} {op[0]}")
        after = [e["uid"] for e in flat(hist.expected)]
        if before != after and set(before) & set(after):
            nontrivial = True
            classes.add("elements kept while others changed")
        if comps != {m.uid for m in hist.model.components()} and comps & {m.uid for m in hist.model.components()}:
            classes.add("instances kept while others changed")
    return {"nontrivial": nontrivial, "classes": classes}


def check(hist, els, instances, seen, what):
    actual = elements(hist.container, hist.kind)
    expected = flat(hist.expected)
    if len(actual) != len(expected):
        raise Violation(f"{what}: {len(actual)} elements instead of {len(expected)}")
    for el, e in zip(actual, expected):
        uid = e["uid"]
        if uid in els:
            if els[uid] is not el:
                raise Violation(f"{what}: {e['type']} {e.get('attrs', e.get('text'))} should have kept its element")
        else:
            if any(x is el for x in seen):
                raise Violation(f"{what}: new item {e['type']} {e.get('attrs', e.get('text'))} got the element of another item")
            els[uid] = el
            seen.append(el)
    live = hist.app.live_instances()
    models = hist.model.components()
    if len(live) != len(models):
        raise Violation(f"{what}: {len(live)} live component instances instead of {len(models)}")
    for inst in live:
        m = hist.model_of(inst)
        if m.uid in instances:
            if instances[m.uid] is not inst:
                raise Violation(f"{what}: component of node {m.node['n']} should have kept its instance")
        else:
            if any(x is inst for x in instances.values()):
                raise Violation(f"{what}: component of node {m.node['n']} got the instance of another item")
            instances[m.uid] = inst
        if inst.state["n"] != m.n:
            raise Violation(f"{what}: local state is {inst.state['n']} instead of {m.n}")
