"""C08: a component sees exactly its current props and keeps its state to itself."""
import copy

from observ import reactive

import collagraph as cg
from collagraph import h

from .. import Violation
from ..app import gen_case, raw, resolve_attrs, shape_classes
from ..hist import History
from ..rec import RecRenderer

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("Two kinds of cases. 'tree': random descriptions and histories as for C01; after every update the props of "
        "every live instance are compared with what its parent's description gives. 'pool': a list of keyed "
        "instances that get their props from a pool of (nested, plain or reactive, possibly shared) objects, show "
        "them or pass them on whole or in part to a nested instance; the pool is changed at any depth, instances are "
        "reordered and given other props, and local state is changed. All data of the user is compared with an "
        "independent copy, and attempts of components to write to their props have to be refused. Non-trivial: props "
        "of a retained instance changed.")
ASSUMPTIONS = ["lists and dicts that are passed as value of a host attribute are not part of this property"]

POOL = 3
NAMES = ["a", "b", "c", "key2", "x y"]


def gen_value(r, depth=2):
    kind = r.choice(["int", "str", "none", "dict", "list", "falsy"] if depth else ["int", "str", "none", "falsy"])
    if kind == "int":
        return r.randint(2, 9)
    if kind == "str":
        return r.choice(["s", "t", "uu"])
    if kind == "none":
        return None
    if kind == "falsy":
        return r.choice([0, "", [], {}])
    if kind == "list":
        return [gen_value(r, depth - 1) for _ in range(r.randint(0, 3))]
    return {n: gen_value(r, depth - 1) for n in r.sample(NAMES, r.randint(0, 3))}


def gen_props(r):
    return {n: gen_value(r) for n in r.sample(NAMES, r.randint(0, 4))}


def gen_items(r):
    keys = r.sample(range(6), r.randint(0, 5))
    keyed = r.random() < 0.7
    return [{"key": k if keyed else None, "p": r.randint(0, POOL - 1), "c": r.randint(0, 1),
             "how": r.choice(["self", "copy", "spread", "nested"])} for k in keys]


def gen(r):
    if r.random() < 0.4:
        opts = {"keyed": r.choice([0, 0.5, 0.9]), "cells": r.random() < 0.4}
        opts["extra"] = ["set_attr", "del_attr", "replace_attrs"] * 3 + ["bump"] * 2 + ["perm"] * 2
        return {"kind": "tree", **gen_case(r, opts)}
    ops = []
    for _ in range(r.randint(1, 8)):
        k = r.choice(["set", "set", "set", "del", "deep", "deep", "deep", "replace", "items", "perm", "bump", "render", "equal"])
        op = [k, r.randint(0, 11)]
        if k in ("set", "deep"):
            op += [r.choice(NAMES), gen_value(r)]
        elif k == "del":
            op += [r.choice(NAMES)]
        elif k == "replace":
            op += [gen_props(r)]
        elif k == "items":
            op += [gen_items(r)]
        elif k == "perm":
            op += [[r.randint(0, 5) for _ in range(5)]]
        ops.append(op)
    return {"kind": "pool", "pool": [gen_props(r) for _ in range(POOL)], "items": gen_items(r),
            "forms": [r.choice(["show", "element", "pass", "part", "watch"]) for _ in range(2)],
            "reactive": r.random() < 0.8, "ops": ops}


def run(case):
    return run_tree(case) if case["kind"] == "tree" else run_pool(case)


def refuse(inst, what):
    """Components can't write to their props, at any depth"""
    def attempts(props, depth):
        # (what the component gets isn't a dict or list itself, but it looks like one)
        if hasattr(props, "items"):
            yield lambda: props.__setitem__("new", 1)
            yield lambda: props.update({"new": 1})
            yield lambda: props.setdefault("new2", 1)
            if len(props):
                name = next(iter(props))
                yield lambda: props.popitem()
                yield lambda: props.pop(name)
                yield lambda: props.clear()
                yield lambda: props.__delitem__(name)
                yield lambda: props.__setitem__(name, "other")
            if depth:
                for v in list(props.values()):
                    yield from attempts(v, depth - 1)
        elif hasattr(props, "append"):
            yield lambda: props.append(1)
            yield lambda: props.extend([1])
            yield lambda: props.insert(0, 1)
            if len(props):
                yield lambda: props.pop()
                yield lambda: props.reverse()
                yield lambda: props.clear()
                yield lambda: props.__setitem__(0, "other")
                yield lambda: props.__delitem__(0)
            if depth:
                for v in list(props):
                    yield from attempts(v, depth - 1)

    before = raw(inst.props)
    for attempt in attempts(inst.props, 2):
        try:
            attempt()
        except Exception:  # noqa
            continue
        raise Violation(f"{what}: component can write to its props")
    for name in ("props", "state"):
        try:
            setattr(inst, name, {})
        except RuntimeError:
            continue
        raise Violation(f"{what}: {name} can be replaced")
    if raw(inst.props) != before:
        raise Violation(f"{what}: component changed its props: {before} -> {raw(inst.props)}")


# ----------------------------------------------------------------------------- tree
def expected_props(hist, m):
    if m.node["n"] == 0:
        return hist.app.shadow.state
    node = m.node
    if "held" in node and m.key is None:
        return {"node": node, **{f"p_{k}": v for k, v in node["attrs"].items()}}
    if node["live"] and m.key == node.get("key"):
        return node
    props = {"ref": hist.app.ref(node)} if node.get("asref") else {"node": node}
    if m.key is not None:
        props["key"] = m.key
    props.update({f"p_{k}": v for k, v in resolve_attrs(node, hist.app.shadow.cells).items()})
    return props


def check_tree(hist, what):
    live = hist.app.live_instances()
    owners = [id(target(i.state)) for i in live]
    if len(set(owners)) != len(owners):
        raise Violation(f"{what}: instances share their state")
    for inst in live:
        m = hist.model_of(inst)
        actual, want = raw(inst.props), expected_props(hist, m)
        if actual != want:
            raise Violation(f"{what}: props of component {m.node['n']} are {actual} instead of {want}")
        if inst.state["n"] != m.n:
            raise Violation(f"{what}: local state is {inst.state['n']} instead of {m.n}")
    hist.check_data()


def target(x):
    while hasattr(x, "target"):
        x = x.target
    return x


def run_tree(case):
    hist = History(case, "rec")
    classes = shape_classes(case["root"]) | {"tree"}
    check_tree(hist, "after the first render")
    nontrivial = False
    for i, op in enumerate(case["ops"]):
        before = {m.uid: repr(expected_props(hist, m)) for m in hist.model.components()}
        if not hist.step(op):
            continue
        check_tree(hist, f"after op {i} {op[0]}")
        classes.add("op-" + op[0])
        for m in hist.model.components():
            if m.uid in before and before[m.uid] != repr(expected_props(hist, m)):
                nontrivial = True
    for inst in hist.app.live_instances():
        refuse(inst, "at the end")
    hist.check_data()
    return {"nontrivial": nontrivial, "classes": classes}


# ----------------------------------------------------------------------------- pool
class Pool:
    def __init__(self, case):
        self.case = case
        self.instances = []
        self.wrap = reactive if case["reactive"] else lambda x: x
        self.state = reactive({"items": copy.deepcopy(case["items"])})
        self.items = copy.deepcopy(case["items"])
        self.pool = [self.wrap(copy.deepcopy(p)) for p in case["pool"]]
        self.shadow = copy.deepcopy(case["pool"])
        self.renderer = RecRenderer()
        self.classes = [self.make_class(i, form) for i, form in enumerate(case["forms"])]
        self.inner = self.make_class(9, "show")
        self.gui = cg.Collagraph(self.renderer, event_loop_type=cg.EventLoopType.SYNC)

    def make_class(self, index, form):
        pool = self

        class Item(cg.Component):
            def __init__(self, *args, **kwargs):
                super().__init__(*args, **kwargs)
                self.state["n"] = 0
                self.index = index
                self.alive = None
                pool.instances.append(self)

            def mounted(self):
                self.alive = True

            def before_unmount(self):
                self.alive = False

            def render(self):
                if form == "show":
                    return h("show", {"v": repr(plain(self.props)), "n": self.state["n"]})
                if form == "element":
                    # the props object itself becomes the props of an element
                    return h("element", self.props)
                if form == "pass":
                    return h("pass", {"n": self.state["n"]}, h(pool.inner, self.props))
                if form == "watch":
                    # (get("a") won't do: observ forgets a dependency on a key that is being deleted)
                    value = self.props["a"] if "a" in self.props.keys() else "none"
                    return h("watch", {"v": repr(plain(value)), "n": self.state["n"]})
                part = self.props["a"] if "a" in self.props.keys() else None
                return h("part", {"n": self.state["n"]}, h(pool.inner, {"part": part, "none": None}))

        return Item

    def given(self, item):
        """The props object for the item"""
        p, how = self.pool[item["p"]], item["how"]
        key = {} if item["key"] is None else {"key": item["key"]}
        if how == "self" and not key:
            return p
        if how == "nested":
            return {**key, "nested": p}
        if how == "copy":
            return {**key, "one": 1, **{k: p[k] for k in p}}
        return {**key, **p}

    def expected_given(self, item):
        p, how = self.shadow[item["p"]], item["how"]
        key = {} if item["key"] is None else {"key": item["key"]}
        if how == "self" and not key:
            return {**p}
        if how == "nested":
            return {**key, "nested": p}
        if how == "copy":
            return {**key, "one": 1, **p}
        return {**key, **p}

    def render(self):
        def Root(props):
            return h("root", None, *[h(self.classes[i["c"]], self.given(i)) for i in props["items"]])

        self.root = getattr(self, "root", None) or Root
        self.gui.render(h(self.root, self.state), self.renderer.container)


def plain(value):
    """Reads everything, at any depth"""
    if hasattr(value, "items"):
        return {k: plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)) or hasattr(value, "append"):
        return [plain(v) for v in value]
    return value


def walk(value, path=()):
    """All containers in the value"""
    if isinstance(value, (dict, list)):
        yield value
        for v in value.values() if isinstance(value, dict) else value:
            yield from walk(v)


def put(data, name, value):
    if name in data and raw(data[name]) == value:
        return  # (observ doesn't notice)
    if value is None and name not in data:
        data[name] = 1  # (observ doesn't notice new keys with value None)
    data[name] = copy.deepcopy(value)


def deep_target(pool, sel):
    """Path to one of the containers in it"""
    paths = []

    def collect(value, path):
        if isinstance(value, (dict, list)):
            paths.append(path)
            for k in value if isinstance(value, dict) else range(len(value)):
                collect(value[k], path + [k])

    for i, p in enumerate(pool):
        collect(p, [i])
    return paths[sel % len(paths)]


def run_pool(case):
    pool = Pool(case)
    pool.render()
    retained = {}  # index in the model -> instance
    counts = {}
    slots = []

    def pair(items):
        """Same rule as in the reference model: by key (or in order) and type"""
        nonlocal slots
        avail = list(slots)
        new = []
        for item in items:
            match = next((s for s in avail if s["key"] == item["key"] and type(s["key"]) is type(item["key"])), None)
            if match is not None:
                avail.remove(match)
            if match is not None and match["c"] == item["c"]:
                new.append({**item, "id": match["id"], "n": match["n"], "old": match["props"]})
            else:
                counts["id"] = counts.get("id", 0) + 1
                new.append({**item, "id": counts["id"], "n": 0, "old": None})
        for s in new:
            s["props"] = copy.deepcopy(pool.expected_given(s))
        slots = new

    changed = False

    def check(what):
        nonlocal changed
        pair(pool.items)
        live = [i for i in pool.instances if i.alive and i.index != 9]
        root = pool.renderer.container.kids[0]
        if len(root.kids) != len(slots):
            raise Violation(f"{what}: {len(root.kids)} elements instead of {len(slots)}")
        if len(live) != len(slots):
            raise Violation(f"{what}: {len(live)} live instances instead of {len(slots)}")
        for el, slot in zip(root.kids, slots):
            inst = next((i for i in live if i.element is el), None)
            if inst is None:
                raise Violation(f"{what}: no live instance for {el}")
            if retained.setdefault(slot["id"], inst) is not inst:
                raise Violation(f"{what}: instance was not retained")
            if slot["old"] is not None and slot["old"] != slot["props"]:
                changed = True
            if raw(inst.props) != slot["props"]:
                raise Violation(f"{what}: props are {raw(inst.props)} instead of {slot['props']}")
            if inst.state != {"n": slot["n"]}:
                raise Violation(f"{what}: state is {inst.state} instead of {slot['n']}")
            form = case["forms"][slot["c"]]
            if form == "show" and el.attrs["v"] != repr(slot["props"]) and case["reactive"]:
                # (the order of keys depends on the history)
                if eval(el.attrs["v"]) != slot["props"]:
                    raise Violation(f"{what}: component shows {el.attrs['v']} instead of {slot['props']}")
            if form == "watch" and eval(el.attrs["v"]) != slot["props"].get("a", "none"):
                raise Violation(f"{what}: component shows {el.attrs['v']} instead of {slot['props']}")
            if form in ("pass", "part"):
                want = slot["props"] if form == "pass" else {"part": slot["props"].get("a"), "none": None}
                kid = el.kids[0]
                nested = next((i for i in pool.instances if i.alive and i.element is kid), None)
                if nested is None or raw(nested.props) != want:
                    raise Violation(f"{what}: props of nested component are {nested and raw(nested.props)} "
                                    f"instead of {want}")
                if eval(kid.attrs["v"]) != want:
                    raise Violation(f"{what}: nested component shows {kid.attrs['v']} instead of {want}")
            if form == "element":
                want = {k: v for k, v in slot["props"].items() if v is not None}
                if set(el.attrs) != set(want):
                    raise Violation(f"{what}: attributes are {el.attrs} instead of {want}")
                for k, v in want.items():
                    if not isinstance(v, (dict, list)) and el.attrs[k] != v:
                        raise Violation(f"{what}: attributes are {el.attrs} instead of {slot['props']}")
        if raw(pool.pool) != pool.shadow:
            raise Violation(f"{what}: data of the user is {raw(pool.pool)} instead of {pool.shadow}")
        if raw(pool.state["items"]) != pool.items:
            raise Violation(f"{what}: data of the user changed")

    check("after the first render")
    classes = {"pool"} | {"form " + f for f in case["forms"]}
    for i, op in enumerate(case["ops"]):
        k, sel, *args = op
        if k == "set":
            pool.shadow[sel % POOL][args[0]] = copy.deepcopy(args[1])
            put(pool.pool[sel % POOL], args[0], args[1])
        elif k == "del":
            if args[0] not in pool.shadow[sel % POOL]:
                continue
            del pool.shadow[sel % POOL][args[0]]
            del pool.pool[sel % POOL][args[0]]
        elif k == "deep":
            path = deep_target(pool.shadow, sel)
            for data in (pool.shadow, pool.pool):
                for step in path:
                    data = data[step]
                if isinstance(data, dict) or hasattr(data, "keys"):
                    put(data, args[0], args[1])
                elif len(data) and sel % 2:
                    if raw(data[sel % len(data)]) != args[1]:
                        data[sel % len(data)] = copy.deepcopy(args[1])
                else:
                    data.append(copy.deepcopy(args[1]))
        elif k == "replace":
            pool.shadow[sel % POOL] = copy.deepcopy(args[0])
            pool.pool[sel % POOL] = pool.wrap(copy.deepcopy(args[0]))
            pool.render()  # (the pool itself is not reactive)
            pool.state["items"] = copy.deepcopy(pool.items)
        elif k == "equal":
            # Other objects that are equal. This is not noticed by observ, so render again.
            data = pool.pool[sel % POOL]
            for name in list(data):
                data[name] = copy.deepcopy(raw(data[name]))
            pool.render()
        elif k == "items":
            if args[0] == pool.items:
                continue
            pool.items = copy.deepcopy(args[0])
            pool.state["items"] = copy.deepcopy(args[0])
        elif k == "perm":
            order = sorted(range(len(pool.items)), key=lambda j: (args[0][j % len(args[0])], j))
            pool.items = [pool.items[j] for j in order]
            pool.state["items"] = copy.deepcopy(pool.items)
        elif k == "bump":
            if not slots:
                continue
            slot = slots[sel % len(slots)]
            slot["n"] += 1
            retained[slot["id"]].state["n"] += 1
        if not case["reactive"]:
            # plain data: nothing is noticed until it is rendered again
            pool.state["items"] = []
            pool.items, items = [], pool.items
            check(f"op {i} {k} (emptied)")
            pool.items = items
            pool.state["items"] = copy.deepcopy(items)
        elif k == "render":
            pool.render()
        classes.add("pool-op-" + k)
        check(f"after op {i} {k}")
    for inst in pool.instances:
        if inst.alive:
            refuse(inst, "at the end")
    check("at the end")
    return {"nontrivial": changed, "classes": classes}
