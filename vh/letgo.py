"""Qt elements and 3D objects that are removed are let go of (C22)."""
import copy
import gc
import weakref
from collections import Counter

from observ import reactive

import collagraph as cg
from collagraph import h

from . import Skip, Violation

EVENTS = ["leave", "enter", "user", "key_press"]


def gen(r):
    if r.random() < 0.6:
        from .checks.c17 import gen as gen_tree

        case = gen_tree(r)
        while "root" not in case:
            case = gen_tree(r)
        case = {k: case[k] for k in ("root", "keyed", "ops")}
        case["toolkit"] = "pyside"
    else:
        from .checks.c19 import gen as gen_scene

        case = {k: v for k, v in gen_scene(r).items() if k in ("root", "keyed", "ops")}
        case["toolkit"] = "pygfx"
    case["handlers"] = r.randint(0, 3)
    return case


class Handler:
    def __init__(self, n):
        self.n = n

    def __call__(self, event):
        pass

    def method(self, event):
        pass


def run(case):
    from .checks import c17, c19

    qt = case["toolkit"] == "pyside"
    kind = c17 if qt else c19
    try:
        keyed, per = bool(case["keyed"]), int(case["handlers"])
        if case["toolkit"] not in ("pyside", "pygfx"):
            raise Skip("toolkit")
        given = {"root": case["root"], "keyed": keyed}
        spec = kind.Spec(given)
        check = (lambda: c17.check_node(spec.root)) if qt else (lambda: c19.check_node(spec.root))
        check()
        if spec.root["k"] == "tpl":
            raise Skip("root")
        for op in case["ops"]:
            spec.change(op)
            check()
    except (KeyError, TypeError, ValueError, IndexError, AttributeError):
        raise Skip("malformed")
    spec = kind.Spec(given)
    c17.collect()
    gc.collect()
    gc.freeze()
    created, handlers, objects = [], [], Counter()
    state = reactive({"root": copy.deepcopy(spec.root), "tick": 0})

    def handler(n, e, signal=False):
        """All kinds of callables, for parts of the elements. PySide itself never
        lets go of the slots of signals, other than bound methods."""
        if (n + e) % 4 >= per:
            return None
        x = Handler(n)
        made = x.method if n % 3 == 1 or signal else x if n % 3 == 0 else lambda event: x
        handlers.append((n, weakref.ref(x)))
        return made

    if qt:
        import os

        os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
        from PySide6 import QtCore, QtWidgets

        app = QtWidgets.QApplication.instance() or QtWidgets.QApplication(["test"])
        QtCore.qInstallMessageHandler(lambda *args: None)
        base, container = cg.PySideRenderer, app
        options = {"autoshow": False}

        def extra(node, props):
            if node["k"] in ("item", "sitem", "model", "tpl"):
                return
            signal = node["k"] == "action"
            for e, event in enumerate(["triggered"] if signal else EVENTS):
                if (x := handler(node["n"], e, signal)) is not None:
                    props["on_" + event] = x

        def description():
            state["tick"]
            return c17.vnode(c17.raw(state["root"]), None, keyed, QtCore.Qt, extra=extra)
    else:
        import pygfx as gfx

        base, container, options = cg.PygfxRenderer, gfx.Scene(), {}

        def describe(node):
            props = {"key": node["n"]} if keyed else {}
            kids = [describe(kid) for kid in node["kids"]]
            if node["k"] == "tpl":
                return h("template", props, *kids)
            for a, i in node["p"].items():
                props[a] = c19.described_value(node["k"], a, i)
            for e, event in enumerate(c19.EVENTS):
                if (x := handler(node["n"], e)) is not None:
                    props["on_" + event] = x
            spellings = c19.SPELLINGS[node["k"]]
            return h(spellings[node["s"] % len(spellings)], props, *kids)

        def description():
            state["tick"]
            return describe(c17.raw(state["root"]))

    class Renderer(base):
        def create_element(self, type_name):
            el = super().create_element(type_name)
            if not qt and type_name.lower() == "mesh":
                el.material = gfx.MeshBasicMaterial()
            name = type_name.lower().replace("-", "")
            created.append((name, weakref.ref(el)))
            if qt and isinstance(el, QtCore.QObject):
                objects[name] += 1
                el.destroyed.connect(lambda *args: objects.subtract([name]))
            return el

    def App(props):
        return description()

    def settle():
        if qt:
            app.processEvents()
            app.sendPostedEvents(None, QtCore.QEvent.Type.DeferredDelete)
            app.processEvents()
        gc.collect()
        gc.collect()

    def nodes():
        def walk(n):
            if n["k"] != "tpl":
                yield n
            for kid in n.get("kids", ()):
                yield from walk(kid)

        return list(walk(spec.root))

    def check_alive():
        state["tick"] += 1
        settle()
        here = nodes()
        want = Counter((c17.TYPES[n["k"]] if qt else n["k"]).lower() for n in here)
        have = Counter(name for name, ref in created if ref() is not None)
        if have != want:
            raise Violation(f"{what}: more is alive than described: {dict(have - want)}; less: {dict(want - have)}\n{spec.root}")
        objs = {name: (count, have[name]) for name, count in objects.items() if count != have[name]}
        if objs:
            raise Violation(f"{what}: Qt's objects and elements that are alive: {objs}\n{spec.root}")
        numbers = {n["n"] for n in here}
        extra = Counter(n for n, ref in handlers if n not in numbers and ref() is not None)
        if extra:
            raise Violation(f"{what}: handlers of {sorted(extra)} are still alive\n{spec.root}")
        return len(created) - sum(have.values())

    what, removed, classes = "initially", 0, {"toolkit-" + case["toolkit"]}
    gui = None
    try:
        gui = cg.Collagraph(Renderer(**options), event_loop_type=cg.EventLoopType.SYNC)
        gui.render(h(App, {}), container)
        check_alive()
        for i, op in enumerate(case["ops"]):
            what = f"after {i + 1} of {len(case['ops'])} ops ({op[0]})"
            if not spec.change(op):
                continue
            classes.add("toolkit-op-" + op[0])
            state["root"] = copy.deepcopy(spec.root)
            removed += check_alive()
    except (Violation, Skip):
        raise
    except Exception as e:
        import traceback

        raise Violation(f"{what}: {e!r}\n{traceback.format_exc()[-1500:]}")
    finally:
        if qt:
            del gui
            c17.dispose([x for x in (ref() for _, ref in created) if x is not None])
            gc.collect()
    return {"nontrivial": removed > 0, "classes": sorted(classes)}
