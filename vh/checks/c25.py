"""C25: applications run side by side, on whichever event loop they are used with."""
import asyncio
import time

from observ import reactive
from observ.scheduler import scheduler

import collagraph as cg
from collagraph import EventLoopType, h
from collagraph.renderers import DictRenderer

from .. import Skip, Violation
from ..app import App, Model, check_equal, el_of_expected, gen_case, gen_op, raw, shape_classes
from ..hist import make, plain
from ..rec import RecRenderer
from . import c05

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("One to three applications in one process, created at different moments, each with its own history and with its "
        "own event loop type (given, preferred by its renderer, or by default), on a real asyncio loop, the event loop "
        "of Qt or no loop at all (where the first loop might be replaced by another once it has nothing left to do); they might share reactive state and component classes. Changes are made from outside "
        "and from within callbacks and coroutines of the loop, that runs for some iterations in between. Once the loop "
        "has nothing left to do (without any further nudging) every application shows its own latest description, its "
        "handlers are its own, and the callback passed to render was called. Applications that are synchronous are up to "
        "date right after every change when there are no others; those on a loop don't change outside of it. "
        "Non-trivial: several applications of which at least two were changed, or a real event loop.")
ASSUMPTIONS = ["the loop is the current one of the event loop policy", "applications are not created from within render functions"]
CRASHY = True  # (Qt)
LOOPS = ["sync", "default", "none"]
ROUNDS = 400


def gen(r):
    backend = r.choice(["asyncio", "asyncio", "asyncio", "none", "qt"])
    opts = {"keyed": r.choice([0, 0.5, 0.9]), "handlers": r.random() < 0.5, "cells": True}
    opts["extra"] = ["cell"] * 8 + ["bump"] * 3
    shared = r.random() < 0.5
    if shared:
        opts["modes"] = ["fn", "cls", "bare"]
    apps, ops = [], []
    for i in range(r.choice([1, 2, 2, 2, 3])):
        app = {**gen_case(r, opts, depth=2), "renderer": r.choice(["dict", "rec"]),
               "loop": "sync" if backend == "none" else r.choice(LOOPS), "prefers": r.choice([None, "sync", "default"]),
               "born": 0 if not i else r.choice([0, 0, 1, 2, 4])}
        del app["ops"]
        apps.append(app)
    for _ in range(r.randint(2, 10)):
        ops.append([r.randrange(len(apps)), gen_op(r, opts), r.choice(["out", "out", "in", "coro"]), r.choice([0, 0, 1, 1, 2, 3, 30])])
    classes = shared and r.random() < 0.5
    if classes:
        # (the interpreter finds these by the number of the item, which is unique only within an application)
        strip(apps, ("held", "asref"))
        strip(ops, ("held", "asref"))
    return {"backend": backend, "another": [r.randrange(len(ops))] if backend == "asyncio" and r.random() < 0.4 else [], "apps": apps, "ops": ops, "shared": shared, "classes": classes,
            "widgets": backend == "qt" and [r.choice(["p", "q", "r"]) for _ in range(r.randint(0, 3))]}


def strip(data, names):
    if isinstance(data, dict):
        for name in names:
            data.pop(name, None)
        data = data.values()
    elif not isinstance(data, list):
        return
    for x in data:
        strip(x, names)


TYPES = {"sync": EventLoopType.SYNC, "default": EventLoopType.DEFAULT, "none": None}


def effective(spec):
    if spec["loop"] != "none":
        return spec["loop"]
    return spec["prefers"] or "default"


class Side:
    """One of the applications; looks like a History"""

    def __init__(self, spec, others, case):
        self.case, self.kind = spec, spec["renderer"]
        self.sync = effective(spec) == "sync"
        self.renderer, self.container = make(self.kind)
        self.registered = 0
        self.renderer.preferred_event_loop_type = lambda: TYPES[spec["prefers"] or "none"]
        self.renderer.register_asyncio = self.register
        self.called = 0
        self.app = App(spec, self.renderer, self.container, loop=TYPES[spec["loop"]], callback=self.callback)
        self.foreign = False
        if others and case["shared"]:
            self.app.cells = others[0].app.cells
            self.app.shadow.cells = others[0].app.shadow.cells
        if others and case["classes"] and case["shared"]:
            # The very same component classes
            self.foreign = others[0].foreign = True
            self.app.classes = others[0].app.classes
        if self.registered != (not self.sync):
            raise Violation(f"register_asyncio of the renderer was called {self.registered} times with event loop type "
                            f"{spec['loop']} where the renderer prefers {spec['prefers']}")
        self.model = Model(spec)
        self.changes = 0

    def register(self):
        self.registered += 1

    def callback(self):
        self.called += 1

    def update(self):
        self.model.update(self.app.shadow.state["root"], self.app.shadow.cells)
        self.expected = self.model.expected()

    def model_of(self, inst):
        n = 0 if "root" in inst.props else inst.node()["n"]
        found = [m for m in self.model.components() if m.node["n"] == n]
        if len(found) != 1:
            raise Violation(f"component instance for node {n} is live but is not in the description (or twice)")
        return found[0]

    def plain(self):
        return plain(self.container, self.kind)

    def want(self):
        """(state of instances is taken as is, because it depends on the schedule which of the descriptions were shown)"""
        self.model = Model(self.case)
        self.model.update(self.app.shadow.state["root"], self.app.shadow.cells)
        if not self.foreign:
            live = {0 if "root" in i.props else i.node()["n"]: i for i in self.app.live_instances()}
            for m in self.model.components():
                if m.node["n"] in live:
                    m.n = live[m.node["n"]].state["n"]
        self.expected = self.model.expected()
        return [el_of_expected(e) for e in self.expected]


# --------------------------------------------------------------------- event loops
class Asyncio:
    def __init__(self):
        asyncio.set_event_loop_policy(None)
        self.errors = []
        self.loop = asyncio.new_event_loop()
        self.loop.set_exception_handler(lambda loop, context: self.errors.append(context))
        asyncio.set_event_loop(self.loop)

    def another(self):
        """Continue on another loop, as with several calls of asyncio.run"""
        self.drain(None)
        self.loop.close()
        self.loop = asyncio.new_event_loop()
        self.loop.set_exception_handler(lambda loop, context: self.errors.append(context))
        asyncio.set_event_loop(self.loop)

    def iterate(self):
        self.loop.call_soon(self.loop.stop)
        self.loop.run_forever()

    def busy(self):
        return bool(self.loop._ready or self.loop._scheduled)

    def inside(self, fn):
        self.loop.call_soon(fn)

    def coro(self, fn):
        async def main():
            await asyncio.sleep(0)
            fn()

        self.keep = self.loop.create_task(main())

    def drain(self, ready):
        for _ in range(ROUNDS * 10):
            if not self.busy():
                return
            self.iterate()
        raise Violation("the event loop is still busy")

    def close(self):
        self.loop.close()
        asyncio.set_event_loop(None)
        asyncio.set_event_loop_policy(None)


class NoLoop:
    errors = ()

    def iterate(self):
        pass

    def inside(self, fn):
        fn()

    coro = inside

    def drain(self, ready):
        pass

    def close(self):
        pass


class Qt:
    def __init__(self):
        from PySide6 import QtWidgets
        self.errors = []
        self.app = QtWidgets.QApplication.instance() or QtWidgets.QApplication(["x"])
        asyncio.set_event_loop_policy(None)

    def iterate(self):
        self.app.processEvents()

    def inside(self, fn):
        from PySide6 import QtCore

        QtCore.QTimer.singleShot(0, lambda: self.guard(fn))

    def guard(self, fn):
        try:
            fn()
        except Exception as e:
            self.errors.append(e)

    coro = inside

    def drain(self, ready):
        """Until everything is as it should be, and then some"""
        end = time.monotonic() + 3
        while not ready() and time.monotonic() < end:
            self.app.processEvents()
        for _ in range(5):
            self.app.processEvents()

    def close(self):
        asyncio.set_event_loop_policy(None)


class Widgets:
    """An application with real widgets, it's the one that has to take care of the event loop of Qt"""

    def __init__(self, texts):
        from PySide6 import QtWidgets

        from collagraph.renderers import PySideRenderer

        self.state = reactive({"texts": list(texts)})
        renderer = PySideRenderer(autoshow=False)
        self.container = renderer.create_element("widget")
        self.label = QtWidgets.QLabel
        self.gui = cg.Collagraph(renderer)
        state = self.state

        def Labels(props):
            return h("widget", {}, *[h("label", {"text": x}) for x in state["texts"]])

        self.called = 0
        self.gui.render(h(Labels, {}), self.container, self.callback)

    def callback(self):
        self.called += 1

    def change(self, text):
        if text == self.state["texts"][-1:]:
            self.state["texts"].pop()
        else:
            self.state["texts"].append(text)

    def texts(self):
        return [x.text() for x in self.container.findChildren(self.label)]

    def ready(self):
        return self.texts() == list(self.state["texts"])


# --------------------------------------------------------------------- run
def run(case):
    if case["shared"] and any(a["mode"] == "static" for a in case["apps"]):
        raise Skip("no shared reactive state")
    if case["backend"] == "none" and any(effective(a) != "sync" for a in case["apps"]):
        raise Skip("needs a loop")
    backend = {"asyncio": Asyncio, "none": NoLoop, "qt": Qt}[case["backend"]]()
    try:
        return execute(case, backend)
    finally:
        backend.close()
        scheduler.clear()
        scheduler.waiting = False


def execute(case, backend):
    classes = {f"loop {case['backend']}"}
    sides = []
    widgets = None
    if case["backend"] == "qt":
        # (sees to it that the loop is Qt's)
        widgets = Widgets(case["widgets"] or ())
        asyncio.get_event_loop_policy().get_event_loop().set_exception_handler(
            lambda loop, context=None: backend.errors.append(context or loop))
    waiting = sorted(enumerate(case["apps"]), key=lambda x: x[1]["born"])
    all_sync = all(effective(a) == "sync" for a in case["apps"])
    alone = len(case["apps"]) == 1 and not widgets

    def birth(i):
        while waiting and waiting[0][1]["born"] <= i:
            index, spec = waiting.pop(0)
            side = Side(spec, sides, case)
            side.index = index
            sides.append(side)
            side.app.render()
            if not side.sync and side.plain():
                raise Violation(f"application {index} shows something before the event loop runs")
            if side.sync:
                check_equal(side.plain(), side.want(), f"application {index} after its first render")

    def change(index, op):
        found = [s for s in sides if s.index == index]
        if not found:
            return
        side = found[0]
        if op[0] == "bump" and case["classes"]:
            return
        if op[0] == "cell" and case["shared"]:
            done = side.app.apply(op)
            if done:
                # what isn't watched by render functions
                for other in sides:
                    if other is not side and other.case["mode"] in ("bare", "static"):
                        other.app.render()
        else:
            done = side.app.apply(op)
        if done:
            side.changes += 1
            classes.add("op-" + op[0])

    birth(0)
    for i, (index, op, where, rounds) in enumerate(case["ops"]):
        before = [(s, s.plain()) for s in sides if not s.sync]
        text = widgets and widgets.texts()
        if where == "out":
            change(index, op)
            if widgets and i % 2:
                widgets.change(str(op[1]))
            if [s.plain() for s, _ in before] != [p for _, p in before]:
                raise Violation(f"op {i}: the tree changed right away instead of in the event loop")
            if widgets and text != widgets.texts():
                raise Violation(f"op {i}: the widgets changed right away instead of in the event loop")
        elif where == "in":
            backend.inside(lambda: change(index, op))
        else:
            backend.coro(lambda: change(index, op))
        if all_sync and not widgets and (case["backend"] == "none" or where == "out"):
            for s in sides:
                check_equal(s.plain(), s.want(), f"application {s.index} after op {i} {op[0]} of application {index}")
        for _ in range(rounds):
            backend.iterate()
        if i in case.get("another", ()) and case["backend"] == "asyncio":
            backend.another()
        birth(i + 1)
    birth(10**6)

    def ready():
        return all(s.plain() == s.want() for s in sides) and widgets.ready()

    backend.drain(ready)
    if backend.errors:
        error = backend.errors[0]
        raise error.get("exception") or Violation(repr(error)) if isinstance(error, dict) else error
    for s in sides:
        check_equal(s.plain(), s.want(), f"application {s.index} at the end")
        if not s.called:
            raise Violation(f"the callback of application {s.index} was never called")
        if raw(s.app.state) != s.app.shadow.state:
            raise Violation(f"data of application {s.index} was changed")
    if widgets:
        if not widgets.ready():
            raise Violation(f"widgets {widgets.texts()} instead of {raw(widgets.state)['texts']}")
        if not widgets.called:
            raise Violation("the callback of the application with widgets was never called")
    counter = [0]
    for s in sides:
        if s.foreign:
            continue
        others = [(o, len(o.app.fired)) for o in sides if o is not s]
        c05.check(s, f"application {s.index}", counter, classes)
        if any(len(o.app.fired) != n for o, n in others):
            raise Violation(f"events of application {s.index} reach another one")
    for a in case["apps"]:
        classes |= {"type " + a["loop"], "prefers " + str(a["prefers"])} | shape_classes(a["root"])
    classes.add(f"{len(sides)} applications")
    return {"nontrivial": sum(s.changes > 0 for s in sides) > 1 or case["backend"] != "none" and not alone
            or not all_sync, "classes": classes}
