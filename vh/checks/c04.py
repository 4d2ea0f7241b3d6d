"""C04: updates touch only what changed."""
from .. import Violation
from ..app import gen_case, shape_classes
from ..hist import History, elements, flat

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("Random descriptions and histories as for C01 with event handlers that are created anew in every render; "
        "all renderer calls of an update are compared with the differences between the previous and the current "
        "description as given by the reference model. Non-trivial: an update with at least one renderer call in a "
        "tree of which other elements did not change, or a re-render of the same description.")
ASSUMPTIONS = ["handlers that are created by the same expression with identical captured values count as unchanged"]


def gen(r):
    opts = {"keyed": r.choice([0, 0.5, 0.9]), "handlers": r.random() < 0.6, "cells": r.random() < 0.3,
            # (one change of the data leads to one update in these modes)
            "modes": ["fn", "cls", "static"]}
    opts["extra"] = ["rerender", "perm", "move", "newkids", "set_attr"] + ["cell"] * opts["cells"] * 5
    return gen_case(r, opts)


def order_changes(old, new):
    """ids of items of which the place relative to one of the other (kept) items changed"""
    new_index = {u: i for i, u in enumerate(new)}
    old = [u for u in old if u in new_index]
    changed = set()
    for i, u in enumerate(old):
        for v in old[i + 1:]:
            if new_index[u] > new_index[v]:
                changed.add(u)
                changed.add(v)
    return changed


def snapshot(hist):
    """What is described: per host item, and the order of all items"""
    items, parent, order, virtual = {}, {}, {}, {}
    for e in flat(hist.expected):
        items[e["uid"]] = {k: e.get(k) for k in ("attrs", "text", "on", "type")}
    for m in hist.model.all():
        order[m.uid] = [k.uid for k in m.kids]
        virtual[m.uid] = m.uid not in items
        for k in m.kids:
            parent[k.uid] = m.uid
    return {"items": items, "parent": parent, "order": order, "virtual": virtual}


def may_move(uid, before, after, moved):
    while uid is not None:
        if uid in moved:
            return True
        uid = after["parent"].get(uid)
        if uid is None or not after["virtual"][uid]:
            return False
    return False


def run(case):
    hist = History(case, "rec")
    classes = shape_classes(case["root"])
    calls = hist.renderer.calls
    nontrivial = False
    uids = {}  # id of element -> uid
    for el, e in zip(elements(hist.container, "rec"), flat(hist.expected)):
        uids[id(el)] = e["uid"]
    for i, op in enumerate(case["ops"]):
        before = snapshot(hist)
        del calls[:]
        if not hist.step(op):
            if calls:
                raise Violation(f"op {i} {op[0]}: renderer calls without any change: {calls}")
            continue
        after = snapshot(hist)
        actual = elements(hist.container, "rec")
        expected = flat(hist.expected)
        if len(actual) != len(expected):
            raise Violation(f"op {i}: wrong number of elements")
        for el, e in zip(actual, expected):
            uids[id(el)] = e["uid"]
        verify(f"op {i} {op[0]}", calls, before, after, uids)
        classes.add("op-" + op[0])
        kept = set(before["items"]) & set(after["items"])
        touched = {uids.get(id(c[1])) for c in calls}
        if (calls and kept - touched) or op[0] == "rerender":
            nontrivial = True
        if not calls:
            classes.add("update without calls")
    return {"nontrivial": nontrivial, "classes": classes}


def verify(what, calls, before, after, uids):
    moved = set()
    for uid, new in after["order"].items():
        if uid in before["order"]:
            moved |= order_changes(before["order"][uid], new)
    created = 0
    for name, el, *args in calls:
        uid = uids.get(id(el))
        here = f"{what}: {name} {el} {args}"
        if name == "create":
            created += 1
            continue
        if uid is None:
            raise Violation(f"{here}: on an element that is not in the tree")
        old, new = before["items"].get(uid), after["items"].get(uid)
        if new is None:
            if name != "remove":
                raise Violation(f"{here}: on an element that is no longer described")
            continue
        if old is None:
            if name in ("remove", "unset", "unlisten"):
                raise Violation(f"{here}: on a new element")
            continue
        if name in ("insert", "remove"):
            if not may_move(uid, before, after, moved):
                raise Violation(f"{here}: its place among its siblings did not change")
        elif name == "text":
            if old["text"] == new["text"]:
                raise Violation(f"{here}: text did not change")
        elif name in ("set", "unset"):
            attr = args[0]
            same = (attr in old["attrs"]) == (attr in new["attrs"]) and old["attrs"].get(attr) == new["attrs"].get(attr)
            if same:
                raise Violation(f"{here}: attribute did not change ({old['attrs']} -> {new['attrs']})")
        elif name in ("listen", "unlisten"):
            if old["on"].get(args[0]) == new["on"].get(args[0]):
                raise Violation(f"{here}: listener did not change")
    expected = len(set(after["items"]) - set(before["items"]))
    if created != expected:
        raise Violation(f"{what}: {created} elements were created instead of {expected}")
    # the same thing is not done twice
    once = [(name, id(el), args[0]) for name, el, *args in calls if name in ("set", "unset", "listen", "unlisten")]
    if len(once) != len(set(once)):
        raise Violation(f"{what}: the same thing is done twice: {calls}")
