"""Descriptions with very many children (used by C01 and C07)."""
import random

from observ import reactive

import collagraph as cg
from collagraph import h

from . import Skip, Violation

STEPS = ["hide", "show", "reverse", "rotate", "drop", "insert", "text"]


def gen_wide(r, low=400, high=1600):
    return {"wide": {"n": r.randint(low, high), "kinds": r.choice(["el", "text", "fn", "cls", "tpl", "el,cls", "el,tpl,fn"]),
                     "keyed": r.random() < 0.5, "around": r.choice(["list", "tpl", "cls", "fn"]),
                     "steps": [[r.choice(STEPS), r.randint(0, 10**6)] for _ in range(r.randint(1, 4))] + [["hide", 0], ["show", 0]]}}


def run_wide(case):
    """Returns the shown tree (checked against the expected one) and the hooks that were called"""
    spec = case["wide"]
    kinds = spec["kinds"].split(",")
    if not set(kinds) <= {"el", "text", "fn", "cls", "tpl"} or not 0 <= spec["n"] <= 5000:
        raise Skip("malformed")
    state = reactive({"items": list(range(spec["n"])), "shown": True, "text": "a"})
    hooks = []

    class Item(cg.Component):
        def mounted(self):
            hooks.append(("mounted", self.props["n"]))

        def before_unmount(self):
            hooks.append(("before_unmount", self.props["n"]))

        def render(self):
            return h("item", {"n": self.props["n"], "c": True})

    def func(props):
        return h("item", {"n": props["n"]})

    def item(n):
        kind = kinds[n % len(kinds)]
        if kind == "text" and not spec["keyed"]:
            return f"{state['text']}{n}"
        props = {"n": n, **({"key": n} if spec["keyed"] else {})}
        if kind == "tpl":
            return h("template", {"key": n} if spec["keyed"] else {}, h("item", {"n": n}))
        return h({"fn": func, "cls": Item}.get(kind, "item"), props)

    def want(n):
        kind = kinds[n % len(kinds)]
        if kind == "text" and not spec["keyed"]:
            return f"{plain['text']}{n}"
        got = {"n": n}
        if kind == "cls":
            got["c"] = True
        elif spec["keyed"] and kind not in ("fn", "tpl"):
            got["key"] = n
        return got

    class Around(cg.Component):
        def render(self):
            return h("list", {}, *[item(n) for n in state["items"]])

    def around(props):
        return h("list", {}, *[item(n) for n in state["items"]])

    def app(props):
        kids = []
        if state["shown"]:
            make = {"cls": lambda: h(Around), "fn": lambda: h(around), "list": lambda: around({}),
                    "tpl": lambda: h("template", {}, *[item(n) for n in state["items"]])}[spec["around"]]
            kids = [make()]
        return h("app", {}, h("first"), *kids, h("last"))

    container = {"root": None}
    gui = cg.Collagraph(cg.DictRenderer(), event_loop_type=cg.EventLoopType.SYNC)
    plain = {"items": list(range(spec["n"])), "shown": True, "text": "a"}

    def check(where):
        kids = container["children"][0].get("children", [])
        if [k["type"] for k in (kids[0], kids[-1])] != ["first", "last"]:
            raise Violation("order", f"{where}: first and last aren't")
        kids = kids[1:-1]
        if spec["around"] != "tpl":
            if len(kids) != plain["shown"]:
                raise Violation("tree", f"{where}: {len(kids)} lists")
            kids = kids[0].get("children", []) if kids else []
        got = [k["text"] if k["type"] == "TEXT_ELEMENT" or "text" in k else dict(k.get("attrs", {})) for k in kids]
        expected = [want(n) for n in plain["items"]] if plain["shown"] else []
        if got != expected:
            at = next((i for i, (a, b) in enumerate(zip(got, expected)) if a != b), min(len(got), len(expected)))
            raise Violation("tree", f"{where}: {len(got)} items, expected {len(expected)}; at {at}: {got[at:at + 2]}, expected {expected[at:at + 2]}")

    alive = set()

    def check_hooks(where):
        cls = {n for n in plain["items"] if kinds[n % len(kinds)] == "cls"} if plain["shown"] else set()
        if spec["keyed"] or not (cls and alive):
            called = sorted(hooks)
            expected = sorted([("mounted", n) for n in cls - alive] + [("before_unmount", n) for n in alive - cls])
            if called != expected:
                diff = [x for x in called if x not in expected][:3] + [x for x in expected if x not in called][:3]
                raise Violation("hooks", f"{where}: {len(called)} calls, expected {len(expected)}: {diff}")
        hooks.clear()
        alive.clear()
        alive.update(cls)

    gui.render(h(app), container)
    check("after the first render")
    check_hooks("after the first render")
    for i, (step, seed) in enumerate(spec["steps"]):
        r = random.Random(seed)
        items = plain["items"]
        if step in ("hide", "show"):
            plain["shown"] = step == "show"
            state["shown"] = plain["shown"]
        elif step == "text":
            plain["text"] = "b" if plain["text"] == "a" else "a"
            state["text"] = plain["text"]
        else:
            if step == "reverse":
                items = items[::-1]
            elif step == "rotate":
                k = r.randint(0, len(items))
                items = items[k:] + items[:k]
            elif step == "drop":
                items = items[:r.randint(0, 3)] if r.random() < 0.5 else [n for n in items if r.random() < 0.5]
            else:
                new = iter(range(10000, 10000 + r.randint(1, 600)))
                k = r.randint(0, len(items))
                items = items[:k] + list(new) + items[k:]
                if len(set(items)) != len(items):
                    continue
            plain["items"] = list(items)
            state["items"] = list(items)
        check(f"after step {i} {step}")
        check_hooks(f"after step {i} {step}")
    return {"nontrivial": True, "classes": {"wide", "wide-" + spec["around"]}}
