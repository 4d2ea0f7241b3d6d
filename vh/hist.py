"""A history of an app that is run next to the model (used by several checks)."""
import collagraph as cg
from collagraph.renderers import DictRenderer

from . import Violation
from .app import App, Model, check_equal, el_of_expected, plain_dict_el, raw
from .rec import RecRenderer, plain_rec
from .sched import owned, run_until_idle


def make(kind, flavour="plain", weak=False):
    if kind == "dict":
        return DictRenderer(), {"type": "root"}
    r = RecRenderer(flavour, weak=weak)
    return r, r.container


def plain(container, kind):
    if kind == "dict":
        return [plain_dict_el(x) for x in container.get("children", [])]
    return [plain_rec(x) for x in container.kids]


def elements(container, kind):
    """The rendered elements in document order"""
    out = []

    def walk(el):
        for kid in el.get("children", []) if kind == "dict" else el.kids:
            out.append(kid)
            walk(kid)

    walk(container)
    return out


def flat(forest):
    """The expected elements in document order"""
    out = []
    for e in forest:
        out.append(e)
        out.extend(flat(e.get("kids", [])))
    return out


def shape(forest):
    return [(e["type"], shape(e.get("kids", []))) for e in forest]


class History:
    def __init__(self, case, kind="rec", flavour="plain", weak=False):
        self.case, self.kind = case, kind
        self.renderer, self.container = make(kind, flavour, weak)
        self.app = App(case, self.renderer, self.container, weak=weak)
        self.app.before_bump = self.before_bump
        self.model = Model(case)
        self.model.update(self.app.shadow.state["root"], self.app.shadow.cells)
        self.start()

    def start(self):
        self.app.render()
        self.expected = self.model.expected()

    def step(self, op):
        """Returns False when op isn't applicable"""
        if not self.app.apply(op):
            return False
        self.model.update(self.app.shadow.state["root"], self.app.shadow.cells)
        self.expected = self.model.expected()
        return True

    def before_bump(self, inst):
        self.model_of(inst).n += 1

    def model_of(self, inst):
        n = 0 if "root" in inst.props else inst.node()["n"]
        found = [m for m in self.model.components() if m.node["n"] == n]
        if len(found) != 1:
            raise Violation(f"component instance for node {n} is live but is not in the description (or twice)")
        return found[0]

    def plain(self):
        return plain(self.container, self.kind)

    def check_tree(self, what):
        check_equal(self.plain(), [el_of_expected(e) for e in self.expected], what)

    def check_data(self):
        if raw(self.app.state) != self.app.shadow.state:
            raise Violation(f"data of the user was changed: {raw(self.app.state)} instead of {self.app.shadow.state}")


class Sliced:
    """A history of which the work is done by an event loop, in slices."""

    def __init__(self, case, kind="rec", flavour="plain"):
        self.case, self.kind = case, kind
        self.renderer, self.container = make(kind, flavour)
        self.settled = 0

    def __enter__(self):
        self.context = owned(self.case["ticks"])
        self.loop = self.context.__enter__()
        try:
            self.renderer.register_asyncio = lambda: None
            self.app = App(self.case, self.renderer, self.container, loop=cg.EventLoopType.DEFAULT,
                           callback=self.callback)
            self.model = Model(self.case)
            self.on_settled = None
            self.app.render()
        except BaseException:
            self.context.__exit__(None, None, None)
            raise
        return self

    def __exit__(self, *args):
        self.context.__exit__(*args)

    def callback(self):
        self.settled += 1
        if self.on_settled:
            self.on_settled()

    def apply(self, op):
        return self.app.apply(op)

    def run(self, steps):
        for _ in range(steps):
            self.loop.step()

    def idle(self):
        return not self.loop.queue

    def settle(self):
        run_until_idle(self.loop)

    def update_model(self):
        """(state of instances is taken as is, because it depends on the schedule which
        of the descriptions were shown in between)"""
        self.model = Model(self.case)
        self.model.update(self.app.shadow.state["root"], self.app.shadow.cells)
        live = {0 if "root" in i.props else i.node()["n"]: i for i in self.app.live_instances()}
        if len(live) != len(self.app.live_instances()):
            raise Violation("several live component instances for the same item")
        for m in self.model.components():
            if m.node["n"] in live:
                m.n = live[m.node["n"]].state["n"]
        return [el_of_expected(e) for e in self.model.expected()]

    def plain(self):
        return plain(self.container, self.kind)
