"""C20: the browser renderer drives the DOM to the described document."""
from .. import Violation
from ..app import App, EVENTS, Model, check_equal, el_of_expected, gen_case, shape_classes
from ..dom import install, js_string, plain_dom
from ..hist import History, flat, shape

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("Random descriptions and histories as for C01 and C05 (elements, text, attributes, handlers, templates, "
        "components) rendered with DomRenderer to a stand-in for the document of a browser, which raises whatever a "
        "browser raises (NotFoundError, HierarchyRequestError, ...) and keeps every listener. After every update the "
        "document is compared with the reference model and every event is dispatched on every node. "
        "Non-trivial: the document changed after the first render.")
ASSUMPTIONS = ["a stand-in for pyodide's js module is used, as there is no browser",
               "as in pyodide, a listener is found by equality"]


def gen(r):
    opts = {"handlers": r.random() < 0.6, "cells": r.random() < 0.2}
    return gen_case(r, opts)


class DomHistory(History):
    def __init__(self, case):
        document = install()
        from collagraph.renderers.dom_renderer import DomRenderer

        self.case, self.kind = case, "dom"
        self.renderer, self.container = DomRenderer(), document.body
        self.app = App(case, self.renderer, self.container)
        self.app.before_bump = self.before_bump
        self.model = Model(case)
        self.model.update(self.app.shadow.state["root"], self.app.shadow.cells)
        self.start()

    def plain(self):
        return [same_equal(plain_dom(k)) for k in self.container.childNodes]


def same_equal(x):
    """(False and 0 are equal for Python, so replacing one by the other is no change)"""
    if x["type"] != "TEXT_ELEMENT":
        x["attrs"] = {k: "0" if v == "false" else v for k, v in x.get("attrs", {}).items()}
    for k in x.get("kids", ()):
        same_equal(k)
    return x


def expected(e):
    e = el_of_expected(e)

    def convert(x):
        if x["type"] != "TEXT_ELEMENT":
            x["attrs"] = {k: js_string(v) for k, v in x["attrs"].items()}
            same_equal(x)
            for k in x["kids"]:
                convert(k)
        return x

    return convert(e)


def nodes(parent):
    for k in parent.childNodes:
        yield k
        yield from nodes(k)


def check(hist, what):
    check_equal(hist.plain(), [expected(e) for e in hist.expected], what)
    fired = hist.app.fired
    for node, e in zip(nodes(hist.container), flat(hist.expected), strict=True):
        on = e.get("on", {})
        for event in EVENTS:
            del fired[:]
            for t, listener in list(node.listeners):
                if t == event:
                    listener("event")
            want = [((on[event]["k"], on[event]["v"]), ("event",), {})] if event in on else []
            if fired != want:
                raise Violation(f"{what}: {event} of {node} called {fired} instead of {want}")
        if len(node.listeners) != len(on):
            raise Violation(f"{what}: {node} has listeners {node.listeners} instead of {on}")


def run(case):
    hist = DomHistory(case)
    check(hist, "after the first render")
    classes = shape_classes(case["root"])
    changed = 0
    before = hist.plain()
    for i, op in enumerate(case["ops"]):
        if not hist.step(op):
            continue
        classes.add("op-" + op[0])
        check(hist, f"after op {i} {op[0]}")
        after = hist.plain()
        changed += after != before
        if shape(after) != shape(before):
            classes.add("structure changed")
        before = after
    return {"nontrivial": changed > 0, "classes": classes}
