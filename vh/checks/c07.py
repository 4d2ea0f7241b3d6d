"""C07: life-cycle hooks run once, at the right moment and in the right order."""
import copy

from .. import Violation
from ..app import gen_case, shape_classes, listeners
from ..hist import History, elements, flat, plain
from .c04 import may_move, order_changes
from ..wide import gen_wide, run_wide

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("Random trees of nested components and histories; every hook call is logged together with the tree as it is "
        "at that moment, and compared with what the reference model says appeared, changed and disappeared. In a "
        "part of the cases hooks change local state themselves. Non-trivial: components were mounted or unmounted "
        "after the first render, or updated called on one component but not on another.")
ASSUMPTIONS = ["updated may or may not be called on a component of which only the root element of a nested component "
               "changed, or of which only the order of its items without elements changed"]


def gen(r):
    if r.random() < 0.002:
        return gen_wide(r)
    opts = {"keyed": r.choice([0, 0.5]), "handlers": r.random() < 0.3, "cells": r.random() < 0.3,
            "modes": ["fn", "cls", "cls", "static"]}
    opts["extra"] = ["set_attr"] * 3 + ["bump"] * 3 + ["cell"] * opts["cells"] * 5
    case = gen_case(r, opts)
    case["inner"] = []
    if r.random() < 0.3:
        for _ in range(r.randint(1, 3)):
            case["inner"].append([r.choice(["mounted", "updated"]), r.randint(0, 4), r.randint(0, 5)])
    return case


def attached(el, container):
    while el is not None:
        if el is container:
            return True
        el = el.parent
    return False


def describe(hist):
    """Per component (uid): what its own elements are, and what is somewhere in it"""
    out = {}
    items, parent, virtual, order, comp_of = {}, {}, {}, {}, {}
    for e in flat(hist.expected):
        items[e["uid"]] = e

    def walk(m, comp):
        comp_of[m.uid] = comp
        virtual[m.uid] = m.uid not in items
        order[m.uid] = [k.uid for k in m.kids]
        inside = comp
        if m.tid[0] == "cls" or (m.tid == ("app",) and hist.model.mode == "cls"):
            inside = m.uid
            node = m.node
            props = {"key": m.key, "raw": repr(node if node["n"] else hist.app.shadow.state)}
            if "attrs" in node:
                props["attrs"] = hist.attrs(node)
                props["on"] = listeners(node)
            out[m.uid] = {"n": node["n"], "props": props, "own": {}, "all": [], "hosts": {}, "live": False,
                          "root": None}
            # props that are the item itself: anything in it belongs to the props
            # (or that are not read by its render method)
            if node.get("live") or "held" in node:
                out[m.uid]["live"] = True
        if m.uid in items:
            e = items[m.uid]
            data = {k: copy.deepcopy(e.get(k)) for k in ("attrs", "text", "on", "type")}
            if comp in out:
                out[comp]["own"][m.uid] = data
        for k in m.kids:
            parent[k.uid] = m.uid
            walk(k, inside)

    walk(hist.model.root, None)

    def hosts(forest, parent_uid):
        for e in forest:
            comp = comp_of[e["uid"]]
            if comp in out:
                out[comp]["hosts"].setdefault(parent_uid, []).append(e["uid"])
            hosts(e.get("kids", []), e["uid"])

    hosts(hist.expected, None)
    for uid in out:
        # everything below it
        below = []

        def collect(u):
            below.append((u, {k: copy.deepcopy(items[u].get(k)) for k in ("attrs", "text", "on", "type")}
                          if u in items else None, tuple(order[u])))
            for v in order[u]:
                collect(v)

        collect(uid)
        out[uid]["all"] = below
    nested = {u: [v for v in out if v != u and u in ancestors(v, parent)] for u in out}
    return {"comps": out, "parent": parent, "virtual": virtual, "order": order, "nested": nested}


def ancestors(uid, parent):
    while uid in parent:
        uid = parent[uid]
        yield uid


def first(forest_of, hist, m):
    forest = hist.model.host(m)
    return forest[0]["uid"] if forest else None


def must_update(before, after):
    """uids of components that have to be told about the update"""
    out = set()
    for uid, new in after["comps"].items():
        old = before["comps"].get(uid)
        if old is None:
            continue
        if old["own"] != new["own"]:
            out.add(uid)
        elif not new["live"] and not old["live"] and (
            old["props"]["attrs" if "attrs" in new["props"] else "key"] != new["props"]["attrs" if "attrs" in new["props"] else "key"]
            or old["props"].get("on") != new["props"].get("on")
        ):
            out.add(uid)
        else:
            for host, uids in new["hosts"].items():
                if order_changes(old["hosts"].get(host, []), uids):
                    out.add(uid)
    return out


def may_update(before, after):
    """uids of components for which anything changed within, in its props, or in its place"""
    moved = set()
    for uid, new in after["order"].items():
        if uid in before["order"]:
            moved |= order_changes(before["order"][uid], new)
    out = set()
    for uid, new in after["comps"].items():
        old = before["comps"].get(uid)
        if old is None:
            continue
        if old["all"] != new["all"] or old["props"] != new["props"] or may_move(uid, before, after, moved):
            out.add(uid)
        elif new["live"] != old["live"]:
            out.add(uid)
        else:
            # something inside of it was moved
            for v, _, _ in new["all"]:
                if v in moved:
                    out.add(uid)
    return out


def run(case):
    if "wide" in case:
        return run_wide(case)
    log = []  # (name, inst, tree at that moment)
    inner = [list(x) for x in case["inner"]]
    hist = LoggedHistory(case, log, inner)
    classes = shape_classes(case["root"])
    first_element(hist, "after the first render")
    verify("first render", hist, log, None, describe(hist), hist.bumped)
    nontrivial = False
    for i, op in enumerate(case["ops"]):
        before = describe(hist)
        roots = hist.element_roots()
        del log[:]
        hist.bumped = False
        hist.live_before = set(map(id, hist.app.live_instances()))
        if not hist.step(op):
            if log:
                raise Violation(f"op {i}: hooks without a change: {log}")
            continue
        what = f"op {i} {op[0]}"
        after = describe(hist)
        first_element(hist, what)
        names = verify(what, hist, log, before, after, hist.bumped or hist.app.writes > 1)
        if hist.bumped:
            classes.add("state changed in hook")
        if "mounted" in names or "before_unmount" in names:
            nontrivial = True
        updated = names.count("updated")
        if updated and updated < len(before["comps"]):
            nontrivial = True
            classes.add("some updated")
        classes.add("op-" + op[0])
        for n in set(names):
            classes.add("hook " + n)
        if hist.element_roots() != roots:
            classes.add("root elements changed")
    return {"nontrivial": nontrivial, "classes": classes}


class LoggedHistory(History):
    def __init__(self, case, log, inner):
        self.log, self.inner, self.bumped, self.live_before = log, inner, False, set()
        self.loose = set()
        super().__init__(case, "rec")

    def on_hook(self, name, inst):
        tree = plain(self.container, "rec")
        app = self.app
        if inst.mounts != 1 or inst.unmounts != (name == "before_unmount"):
            raise Violation(f"{name} called with {inst.mounts} mounted and {inst.unmounts} before_unmount calls")
        el = inst.element
        if el is not None and not attached(el, self.container):
            raise Violation(f"{name}: the element of the component is not in the tree")
        self.log.append((name, inst, tree))
        for item in self.inner:
            if item[0] == name:
                if item[1]:
                    item[1] -= 1
                    continue
                self.inner.remove(item)
                live = app.live_instances()
                target = live[item[2] % len(live)]
                # (the model is not up to date at this point)
                self.pending.append(target)
                self.bumped = True
                target.state["n"] += 1
                break

    def start(self):
        self.pending = []
        self.app.on_hook = self.on_hook
        super().start()
        self.after()

    def step(self, op):
        done = super().step(op)
        self.after()
        return done

    def after(self):
        for inst in self.pending:
            if inst.mounts > inst.unmounts:
                self.model_of(inst).n += 1
        self.pending = []
        self.expected = self.model.expected()

    def attrs(self, node):
        from ..app import resolve_attrs
        return copy.deepcopy(resolve_attrs(node, self.app.shadow.cells))

    def element_roots(self):
        return [id(i.element) for i in self.app.live_instances()]


def first_element(hist, what):
    """element refers to the current root element"""
    by_uid = {e["uid"]: el for el, e in zip(elements(hist.container, "rec"), flat(hist.expected))}
    for inst in hist.app.live_instances():
        m = hist.model_of(inst)
        forest = hist.model.host(m)
        want = by_uid.get(forest[0]["uid"]) if forest else None
        if inst.element is not want:
            raise Violation(f"{what}: element of component {m.node['n']} is {inst.element} instead of {want}")
        # That can't be changed by the component
        try:
            inst.element = None
        except Exception:  # noqa
            pass
        if inst.element is not want:
            raise Violation(f"{what}: element of component {m.node['n']} can be replaced")


def verify(what, hist, log, before, after, bumped):
    app = hist.app
    names = [n for n, _, _ in log]
    # every instance in the tree is mounted once, every other is unmounted once
    live = app.live_instances()
    if len(live) != len(after["comps"]):
        raise Violation(f"{what}: {len(live)} mounted instances instead of {len(after['comps'])}")
    for inst in app.instances:
        if inst.mounts != 1 or inst.unmounts > 1:
            raise Violation(f"{what}: {inst.mounts} mounted and {inst.unmounts} before_unmount calls")
    uid_of = {id(i): hist.model_of(i).uid for i in live}
    position = {}
    for idx, (name, inst, tree) in enumerate(log):
        if name == "before_unmount":
            continue
        if id(inst) in uid_of:
            position.setdefault((uid_of[id(inst)], name), []).append(idx)
    # descendants come first
    new = {u for u in after["comps"] if before is None or u not in before["comps"]}
    for uid in new:
        at = position.get((uid, "mounted"), [])
        if len(at) != 1:
            raise Violation(f"{what}: mounted called {len(at)} times")
        for v in after["nested"][uid]:
            inner = position.get((v, "mounted"), [])
            if not inner or inner[0] > at[0]:
                raise Violation(f"{what}: mounted of component {after['comps'][uid]['n']} is called before that of the "
                                f"nested component {after['comps'][v]['n']}")
    if before is not None:
        for uid in set(before["comps"]) & set(after["comps"]):
            if position.get((uid, "mounted")):
                raise Violation(f"{what}: mounted called again on component {after['comps'][uid]['n']}")
    if bumped:
        hist.loose.update(after["comps"])
        return names
    # when hooks run, all is in place
    final = hist.plain()
    for name, inst, tree in log:
        if name != "before_unmount" and tree != final:
            raise Violation(f"{what}: {name} was called while the tree was not complete yet")
    if before is None:
        if "updated" in names or "before_unmount" in names:
            raise Violation(f"{what}: {names}")
        return names
    must, may = must_update(before, after), may_update(before, after) | hist.loose
    for uid, comp in after["comps"].items():
        # props may have changed (deep inside) without a need for an update; so it might come later
        if position.get((uid, "updated")):
            hist.loose.discard(uid)
        elif uid in before["comps"] and before["comps"][uid]["props"] != comp["props"]:
            hist.loose.add(uid)
    for uid, comp in after["comps"].items():
        calls = position.get((uid, "updated"), [])
        if uid in must and not calls:
            raise Violation(f"{what}: updated is not called on component {comp['n']}")
        if calls and uid not in may:
            raise Violation(f"{what}: updated is called on component {comp['n']} for which nothing changed")
        if len(calls) > 1:
            raise Violation(f"{what}: updated is called {len(calls)} times on component {comp['n']}")
        for v in after["nested"][uid]:
            for inner in position.get((v, "updated"), []) + position.get((v, "mounted"), []):
                if calls and inner > calls[0]:
                    raise Violation(f"{what}: hook of nested component {after['comps'][v]['n']} is called after "
                                    f"updated of component {comp['n']}")
    return names


def fixed_cases():
    return [{"wide": {"n": 1300, "kinds": "cls", "keyed": False, "around": "list", "steps": [["hide", 0], ["show", 0], ["drop", 1]]}}]
