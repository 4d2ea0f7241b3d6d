"""C17: Qt containers show their children in the described order."""
import copy
import gc

from observ import reactive

import collagraph as cg
from collagraph import h

from .. import Skip, Violation
from ..app import raw

CRASHY = True
BUDGET = {"quick": {"cases": 100000, "seconds": 22}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("A case is a random tree of Qt objects (windows with menu bars, tool bars, docks, status bars and central widgets; "
        "widgets and group boxes with box/form/stacked/grid layouts, splitters, tab widgets, scroll areas, dialogs, button "
        "boxes; menus and actions; tree widgets and items; views with item models and standard items), with or without "
        "keys and with templates between them, and a history of insertions, removals, replacements, permutations and "
        "moves, rendered to the application or to a widget, made by the renderer or not. After every change (and after Qt has handled its events) the children of every container are read with "
        "the Qt API and compared with the description; elements that kept key and type have to be the same objects, and "
        "nothing else is in the containers. Other cases: tables of items with a model_index; several elements in the application, with and without autoshow, of which the visible windows are compared. Non-trivial: a container with several children changed.")
ASSUMPTIONS = ["types of layouts don't change", "explicit indices (tab_index, form_index) are those of the described order, without moves; "
               "items with a model_index each have a cell of their own and only go to free cells",
               "order of docks, tool bars, buttons in button boxes and widgets in status bars is left to Qt"]

LEAVES = {"label": "QLabel", "button": "QPushButton", "lineedit": "QLineEdit", "checkbox": "QCheckBox", "slider": "QSlider"}
TYPES = {**{k: k for k in LEAVES}, "widget": "widget", "groupbox": "groupbox", "splitter": "QSplitter", "tabs": "QTabWidget",
         "scrollarea": "scrollarea", "toolbar": "toolbar", "menubar": "menubar", "menu": "menu", "action": "action",
         "treewidget": "treewidget", "item": "treewidgetitem", "treeview": "treeview", "listview": "QListView",
         "tableview": "QTableView", "model": "itemmodel", "sitem": "standarditem", "window": "window", "dock": "dock",
         "statusbar": "statusbar", "buttonbox": "dialogbuttonbox", "dialog": "QDialog", "grid": "QFrame"}
QT = {**LEAVES, "widget": "QWidget", "groupbox": "QGroupBox", "splitter": "QSplitter", "tabs": "QTabWidget",
      "scrollarea": "QScrollArea", "toolbar": "QToolBar", "menubar": "QMenuBar", "menu": "QMenu", "action": "QAction",
      "treewidget": "QTreeWidget", "item": "QTreeWidgetItem", "treeview": "QTreeView", "listview": "QListView",
      "tableview": "QTableView", "model": "QStandardItemModel", "sitem": "QStandardItem", "window": "QMainWindow",
      "dock": "QDockWidget", "statusbar": "QStatusBar", "buttonbox": "QDialogButtonBox", "dialog": "QDialog", "grid": "QFrame"}
VIEWS = ["treeview", "listview", "tableview"]
WIDGETS = [*LEAVES, "widget", "groupbox", "splitter", "tabs", "scrollarea", "treewidget", "buttonbox", "grid", *VIEWS]
# what a container can contain: (kinds of which there can be any number, kinds of which there can be one)
CONTENT = {
    "widget": (WIDGETS + ["dialog"], []), "groupbox": (WIDGETS + ["dialog"], []), "dialog": (WIDGETS, []), "grid": (WIDGETS, []),
    "splitter": (WIDGETS, []), "tabs": (WIDGETS, []), "scrollarea": ([], [WIDGETS]), "dock": ([], [WIDGETS]),
    "toolbar": (["action", *LEAVES], []), "menubar": (["menu"], []), "menu": (["action", "menu"], []),
    "treewidget": (["item"], []), "item": (["item"], []), "model": (["sitem"], []), "sitem": (["sitem"], []),
    **{v: ([], [["model"]]) for v in VIEWS}, "buttonbox": (["button"], []), "statusbar": (list(LEAVES), []),
    "window": (["toolbar", "dock"], [["menubar"], ["statusbar"], WIDGETS]),
}
UNORDERED = {"buttonbox", "statusbar", "window"}
LAYOUTS = [None, None, "box", "form", "stacked", "box2"]
UNKEYED = {"widget": None, "groupbox": "form", "dialog": "box2", "grid": "grid"}  # (the type of the layout of an element is fixed)
# What is rendered to, other than the application: a widget that was made by the renderer or by Qt alone (without or with a layout)
CONTAINERS = ["made", "plain", "laid out"]
FOCUS = ["widget", "widget", "splitter", "tabs", "toolbar", "menubar", "menu", "treewidget", "treeview", "window", "statusbar",
         "buttonbox", "groupbox", "dialog", "grid"]


# --------------------------------------------------------------------- generation
def gen_node(r, k, depth):
    node = {"k": k, "x": r.randint(0, 11)}
    if k in CONTENT:
        node["kids"] = gen_kids(r, k, depth - 1)
    return node


def gen_kids(r, k, depth):
    many, ones = CONTENT[k]
    kids = []
    if many:
        for _ in range(r.choice([0, 1, 2, 2, 3, 4] if depth >= 0 else [0, 0, 1])):
            kids.append(gen_kid(r, k, depth))
    for kinds in ones:
        if r.random() < 0.8:
            kids.append(gen_node(r, pick_kind(r, kinds, depth), depth))
    r.shuffle(kids)
    if len(kids) > 1 and not ones and r.random() < 0.2:
        i = r.randint(0, len(kids) - 1)
        kids[i:] = [{"k": "tpl", "x": 0, "kids": kids[i:i + 2]}] + kids[i + 2:]
    return kids


def pick_kind(r, kinds, depth):
    if depth <= 0:
        leaves = [k for k in kinds if k not in CONTENT]
        kinds = leaves or kinds
    elif r.random() < 0.4:
        kinds = [k for k in kinds if k in CONTENT] or kinds
    return r.choice(kinds)


def gen_kid(r, k, depth):
    many = CONTENT[k][0]
    return gen_node(r, pick_kind(r, many, depth), depth)


def gen(r):
    if r.random() < 0.06:
        return {"table": gen_table(r)}
    if r.random() < 0.06:
        return {"tops": gen_tops(r)}
    k = r.choice(FOCUS)
    focus = gen_node(r, k, r.choice([1, 2, 3]))
    most = 5
    if CONTENT[k][0] and r.random() < 0.08:
        most = r.randint(8, 18)
        focus["kids"] += [gen_kid(r, k, 0) for _ in range(most)]
        r.shuffle(focus["kids"])
    # (roots are shown on their own)
    if k in ("toolbar", "menubar", "statusbar"):
        focus = {"k": "window", "x": 0, "kids": [focus]}
    elif k in ("menu",):
        focus = {"k": "window", "x": 0, "kids": [{"k": "menubar", "x": 0, "kids": [focus]}]}
    ops = []
    for _ in range(r.randint(1, 8)):
        op = r.choice(["insert", "insert", "remove", "replace", "perm", "perm", "move", "new", "expand"])
        sel = 0 if most > 5 and focus["k"] == k and r.random() < 0.7 else r.randint(0, 40)
        ops.append([op, sel, r.randint(0, most), r.randint(0, 10**6), [r.randint(0, most) for _ in range(most)]])
    case = {"root": focus, "keyed": r.random() < 0.7, "gc": r.random() < 0.3, "ops": ops, "indices": False,
            "container": r.choice(["app"] * 6 + CONTAINERS) if focus["k"] in WIDGETS else "app"}
    if case["keyed"] and r.random() < 0.15:
        # Explicit indices are just for places that don't move
        case["indices"] = True
        for op in ops:
            if op[0] in ("perm", "move", "new"):
                op[0] = r.choice(["insert", "insert", "remove", "replace"])
    return case


# --------------------------------------------------------------------- the description and its changes
class Spec:
    def __init__(self, case):
        self.count = 0
        self.keyed = case["keyed"]
        self.root = self.fresh(case["root"])

    def fresh(self, node):
        node = copy.deepcopy(node)

        def number(n):
            self.count += 1
            n["n"] = self.count
            if n["k"] in UNKEYED:
                n["layout"] = "grid" if n["k"] == "grid" else LAYOUTS[n["x"] % len(LAYOUTS)] if self.keyed else UNKEYED[n["k"]]
            for kid in n.get("kids", ()):
                number(kid)

        number(node)
        return node

    def containers(self):
        """(node, kind of the container that its children are in)"""
        out = []

        def walk(n, kind):
            kind = kind if n["k"] == "tpl" else n["k"]
            if "kids" in n and CONTENT[kind]:
                out.append((n, kind))
            for kid in n.get("kids", ()):
                walk(kid, kind)

        walk(self.root, None)
        return out

    def change(self, op):
        import random

        name, sel, i, seed, order = op
        r = random.Random(seed)
        if name == "expand":
            items = [n for n, _ in self.containers() if n["k"] == "item"]
            if not items:
                return False
            node = items[sel % len(items)]
            node["x"] = (node["x"] + 1) % 12
            return True
        found = [(n, k) for n, k in self.containers()]
        if not found:
            return False
        node, kind = found[sel % len(found)]
        kids = list(node["kids"])
        many, ones = CONTENT[kind]
        size = len(kids)
        if name == "insert":
            if many and (not ones or r.random() < 0.5):
                kids.insert(i % (size + 1), self.fresh(gen_kid(r, kind, r.choice([0, 1]))))
            else:
                kinds = [ks for ks in ones if not any(x["k"] in ks for x in kids)]
                if not kinds:
                    return False
                kids.insert(i % (size + 1), self.fresh(gen_node(r, pick_kind(r, r.choice(kinds), 1), 1)))
        elif name == "new":
            old = kids
            kids = [old[x % size] for x in dict.fromkeys(x % size for x in order)] if size else []
            if many:
                for x in order[:2]:
                    kids.insert(x % (len(kids) + 1), self.fresh(gen_kid(r, kind, r.choice([0, 0, 1]))))
        elif not size:
            return False
        elif name == "remove":
            del kids[i % size]
        elif name == "replace":
            old = kids[i % size]
            kinds = next((ks for ks in [many, *ones] if old["k"] in ks), many)
            if not kinds:
                return False
            kids[i % size] = self.fresh(gen_node(r, pick_kind(r, kinds, 1), 1))
        elif name == "perm":
            kids = [kids[x] for x in sorted(range(size), key=lambda x: (order[x % len(order)], -x))]
        else:
            kids.insert(order[0] % size, kids.pop(i % size))
        if kids == node["kids"]:
            return False
        node["kids"] = kids
        return True


def check_node(node, parent=None):
    """Raises Skip for trees that make no sense (after shrinking)"""
    k = node.get("k")
    if not isinstance(node.get("x"), int):
        raise Skip("x")
    if k == "tpl":
        if parent is None or CONTENT[parent][1]:
            raise Skip("template")
        for kid in node["kids"]:
            check_node(kid, parent)
        return
    if k not in TYPES or k in CONTENT and "kids" not in node:
        raise Skip("kind")
    if parent is None and k not in ("window", "dialog", *WIDGETS):
        raise Skip("root")
    if parent:
        many, ones = CONTENT[parent]
        if k not in many and not any(k in ks for ks in ones):
            raise Skip("content")
    for ks in CONTENT.get(k, ([], []))[1]:
        if sum(x["k"] in ks for x in node["kids"]) > 1:
            raise Skip("ones")
    for kid in node.get("kids", ()):
        check_node(kid, k)


# --------------------------------------------------------------------- rendering
def layout_of(node):
    return node.get("layout")


def cells(node):
    """The cells of the children of a grid, which depend on their place"""
    kids = [kid["n"] for kid in flat(node["kids"])]
    if node["x"] % 3 == 0:
        return {n: (i, 0, 1, 2) for i, n in enumerate(kids)}
    return {n: (i // 2, i % 2) for i, n in enumerate(kids)}


def MULTI():
    from PySide6.QtWidgets import QAbstractItemView

    return QAbstractItemView.SelectionMode.MultiSelection


ROLES = ["AcceptRole", "RejectRole", "HelpRole"]


def role_of(node):
    from PySide6.QtWidgets import QDialogButtonBox

    return getattr(QDialogButtonBox.ButtonRole, ROLES[node["n"] % 3])


def described_selected(node):
    return node["x"] % 4 == 2


def vnode(node, parent, keyed, qt, indices=False, extra=None):
    k = node["k"]
    props = {"key": node["n"]} if keyed else {}
    if k == "tpl":
        return h("template", props, *[vnode(kid, parent, keyed, qt, indices, extra) for kid in node["kids"]])
    name = f"n{node['n']}"
    if k == "item":
        props["content"] = {0: name}
        props["expanded"] = node["x"] % 2 == 1
        if keyed:
            props["selected"] = described_selected(node)
    elif k == "treewidget":
        props["object_name"] = name
        props["selection_mode"] = MULTI()
    elif k == "sitem":
        props["text"] = name
    else:
        props["object_name"] = name
    layout = layout_of(node)
    if layout == "box2":
        props["layout"] = {"type": "box", "direction": "LeftToRight"}
    elif layout:
        props["layout"] = {"type": layout}
    if parent is not None:
        if layout_of(parent) == "form" and k != "dialog":
            props["form_label"] = "label of " + name
            if indices:
                props["form_index"] = [x["n"] for x in flat(parent["kids"]) if x["k"] != "dialog"].index(node["n"])
        if parent["k"] == "grid":
            props["grid_index"] = cells(parent)[node["n"]]
        if parent["k"] == "tabs":
            props["tab_label"] = "label of " + name
            if indices:
                props["tab_index"] = [x["n"] for x in flat(parent["kids"])].index(node["n"])
        if parent["k"] == "buttonbox":
            props["role"] = ROLES[node["n"] % 3]
            if node["n"] % 2:
                props["role"] = role_of(node)
        if parent["k"] == "statusbar":
            props["permanent"] = node["n"] % 2 == 1
    if k == "dock":
        props["area"] = [qt.LeftDockWidgetArea, qt.RightDockWidgetArea][node["n"] % 2]
    if k == "toolbar" and node["n"] % 2:
        props["area"] = qt.BottomToolBarArea
    kids = [vnode(kid, node, keyed, qt, indices, extra) for kid in node.get("kids", ())]
    if extra:
        extra(node, props)
    return h(TYPES[k], props, *kids)


def flat(kids):
    for kid in kids:
        if kid["k"] == "tpl":
            yield from flat(kid["kids"])
        else:
            yield kid


FROZEN = []


def collect():
    """Crashes due to what is deleted have to occur in the case that's responsible"""
    if not FROZEN:
        FROZEN.append(True)
        gc.collect()
        gc.freeze()
    gc.collect()


def dispose(created):
    """Let Qt delete everything. If it's left to Python's garbage collector, PySide deletes objects which belong to other
    objects in the same cycle, which those delete as well: it happens without collagraph too and isn't what this is about."""
    import shiboken6
    from PySide6 import QtCore, QtGui, QtWidgets

    for el in created:
        if not shiboken6.isValid(el):
            continue
        if isinstance(el, QtWidgets.QTreeWidgetItem):
            inside = el.parent() or el.treeWidget()
        elif isinstance(el, QtGui.QStandardItem):
            inside = el.parent() or el.model()
        elif isinstance(el, QtCore.QObject):
            inside = el.parent()
        else:
            inside = None
        if inside is None:
            shiboken6.delete(el)


def fixed_cases():
    return [{"drop": n} for n in (2, 3)]


def run_drop(n):
    """Rows with rows inside, which were inserted before others, are dropped: it doesn't crash"""
    import os

    os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
    from PySide6 import QtWidgets

    app = QtWidgets.QApplication.instance() or QtWidgets.QApplication(["test"])
    state = reactive({"n": n, "show": True})

    def items(depth):
        if not depth:
            return []
        return [h("standarditem", {"key": i, "text": str(i)}, *items(depth - 1)) for i in reversed(range(state["n"]))]

    def App(props):
        return h("treeview", {}, h("itemmodel", {}, *(items(3) if state["show"] else [])))

    gui = cg.Collagraph(cg.PySideRenderer(autoshow=False), event_loop_type=cg.EventLoopType.SYNC)
    gui.render(h(App, {}), app)
    for i in range(60):
        state["n"] = n + i % 3
        app.processEvents()
        if i % 3 == 0:
            state["show"] = not state["show"]
    return {"nontrivial": True, "classes": ["drop"]}


# --------------------------------------------------------------------- items with a model_index
def gen_table(r):
    return {"view": r.choice(VIEWS), "inside": r.random() < 0.3, "select": r.random() < 0.5,
            "cells": r.sample(range(16), r.randint(0, 6)),
            "ops": [[r.choice(["add", "add", "move", "move", "move", "text", "rows", "all", "select", "model", "models"]), r.randint(0, 30), r.randint(0, 30)]
                    for _ in range(r.randint(1, 8))]}


def run_table(table):
    """Every item has a cell of its own, and only goes to a free cell"""
    import os

    os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
    from PySide6 import QtCore, QtWidgets

    app = QtWidgets.QApplication.instance() or QtWidgets.QApplication(["test"])
    QtCore.qInstallMessageHandler(lambda *args: None)
    try:
        items = [{"n": i, "cell": int(c) % 16, "text": f"t{i}"} for i, c in enumerate(table["cells"])]
        ops = [(str(a), int(b), int(c)) for a, b, c in table["ops"]]
        if len({x["cell"] for x in items}) < len(items) or table["view"] not in VIEWS:
            raise Skip("cells")
    except (KeyError, TypeError, ValueError):
        raise Skip("malformed")
    inside, select = bool(table["inside"]), bool(table["select"])
    # (each model has a number, 0 is no model at all)
    state = reactive({"items": copy.deepcopy(items), "select": select, "model": 1})
    model = 1
    created = []

    class Renderer(cg.PySideRenderer):
        def create_element(self, type_name):
            created.append(super().create_element(type_name))
            return created[-1]

    def App(props):
        if not state["model"]:
            return h(TYPES[table["view"]], {})
        cells = [h("standarditem", {"key": x["n"], "text": x["text"], "model_index": divmod(x["cell"], 4)})
                 for x in raw(state["items"])]
        if inside:
            cells = [h("standarditem", {"text": "outside"}, *cells)]
        kids = [h("itemmodel", {"key": state["model"], "object_name": f"model{state['model']}"}, *cells)]
        if state["select"]:
            kids.append(h("itemselectionmodel", {"key": "s", "object_name": "selection"}))
        return h(TYPES[table["view"]], {}, *kids)

    def cells(model):
        if inside:
            outer = model.item(0)
            if model.rowCount() != 1 or outer is None or outer.text() != "outside":
                raise Violation(f"{what}: {model.rowCount()} rows, {outer and outer.text()}")
            return {(r, c): outer.child(r, c) for r in range(outer.rowCount()) for c in range(outer.columnCount()) if outer.child(r, c)}
        return {(r, c): model.item(r, c) for r in range(model.rowCount()) for c in range(model.columnCount()) if model.item(r, c)}

    known = {}

    def check():
        view = next(x for x in created if isinstance(x, QtWidgets.QAbstractItemView))
        if not model:
            if view.model() is not None:
                raise Violation(f"{what}: there still is a model")
            return
        if view.model() is None or view.model().objectName() != f"model{model}":
            raise Violation(f"{what}: the model is not the described one")
        selection = view.selectionModel()
        if (selection.objectName() == "selection") != select or selection.model() is not view.model():
            raise Violation(f"{what}: selection model is {selection.objectName()!r} for {selection.model()}, {'' if select else 'not '}described")
        found = cells(view.model())
        actual = {cell: x.text() for cell, x in found.items()}
        want = {divmod(x["cell"], 4): x["text"] for x in items}
        if actual != want:
            raise Violation(f"{what}: cells are {actual} instead of {want}")
        for x in items:
            if known.setdefault(x["n"], found[divmod(x["cell"], 4)]) is not found[divmod(x["cell"], 4)]:
                raise Violation(f"{what}: {x} is another object than before")

    what, changed, classes = "initially", False, {"table", "table-" + table["view"], *(["table-inside"] if inside else [])}
    try:
        gui = cg.Collagraph(Renderer(autoshow=False), event_loop_type=cg.EventLoopType.SYNC)
        gui.render(h(App, {}), app)
        check()
        for i, (op, a, b) in enumerate(ops):
            what = f"after {i + 1} of {len(ops)} ops ({op})"
            free = [c for c in range(16) if c not in [x["cell"] for x in items]]
            if op == "add":
                if not free:
                    continue
                items.insert(b % (len(items) + 1), {"n": 100 + i, "cell": free[a % len(free)], "text": f"t{100 + i}"})
            elif op == "select":
                select = not select
                state["select"] = select
            elif op in ("model", "models"):
                known.clear()
                model = (i + 2) if op == "models" or not model else 0
                state["model"] = model
            elif not items:
                continue
            elif op in ("move", "text"):
                x = items[a % len(items)]
                x.update({"cell": free[b % len(free)]} if op == "move" else {"text": f"other {i}"})
            elif op == "all":
                items.clear()
            elif op == "rows":
                # Whole rows, and those underneath: others stay where they are
                row = b % 4
                items[:] = [x for x in items if x["cell"] // 4 < row]
            else:
                raise Skip("op")
            changed = True
            classes.add("table-op-" + op)
            state["items"] = copy.deepcopy(items)
            check()
    except (Violation, Skip):
        raise
    except Exception as e:
        import traceback

        raise Violation(f"{what}: {e!r}\nitems: {items}\n{traceback.format_exc()[-1500:]}")
    known.clear()
    dispose(created)
    del gui, created[:]
    collect()
    return {"nontrivial": changed, "classes": sorted(classes)}


# --------------------------------------------------------------------- several elements at the top
TOPS = ["widget", "window", "QDialog", "label", "Button", "QTreeView"]


def gen_tops(r):
    return {"shown": r.random() < 0.7, "keyed": r.random() < 0.7, "kinds": [r.randint(0, 20) for _ in range(r.randint(0, 4))],
            "ops": [[r.choice(["add", "add", "remove", "kind", "move", "move", "title", "all"]), r.randint(0, 30), r.randint(0, 30)]
                    for _ in range(r.randint(1, 7))]}


def run_tops(tops):
    """Elements in the application are windows of their own, which are visible for as long as they're described"""
    import os

    os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
    from PySide6 import QtCore, QtWidgets

    app = QtWidgets.QApplication.instance() or QtWidgets.QApplication(["test"])
    QtCore.qInstallMessageHandler(lambda *args: None)
    try:
        shown, keyed = bool(tops["shown"]), bool(tops["keyed"])
        items = [{"n": i, "kind": TOPS[int(k) % len(TOPS)], "title": 0} for i, k in enumerate(tops["kinds"])]
        ops = [(str(a), int(b), int(c)) for a, b, c in tops["ops"]]
    except (KeyError, TypeError, ValueError):
        raise Skip("malformed")
    state = reactive({"items": copy.deepcopy(items)})
    created = []

    class Renderer(cg.PySideRenderer):
        def create_element(self, type_name):
            created.append(super().create_element(type_name))
            return created[-1]

    def App(props):
        return h("template", {}, *[
            h(x["kind"], {"object_name": f"n{x['n']}", "window_title": f"t{x['title']}", **({"key": x["n"]} if keyed else {})})
            for x in raw(state["items"])])

    known = {}

    def check():
        found = {}
        for x in created:
            if x.isVisible():
                if x.objectName() in found:
                    raise Violation(f"{what}: {x.objectName()} is visible twice")
                found[x.objectName()] = x
        want = {f"n{x['n']}": x for x in items}
        if not shown:
            if found:
                raise Violation(f"{what}: {sorted(found)} are visible, without being shown")
            return
        if set(found) != set(want):
            raise Violation(f"{what}: {sorted(found)} are visible instead of {sorted(want)}")
        for name, x in want.items():
            el = found[name]
            if not el.isWindow() or type(el).__mro__[1].__name__.lower() not in (x["kind"].lower(), WINDOWS.get(x["kind"])):
                raise Violation(f"{what}: {name} is {el}")
            if el.windowTitle() != f"t{x['title']}":
                raise Violation(f"{what}: title of {name} is {el.windowTitle()}")
            if keyed and known.setdefault((x["n"], x["kind"]), el) is not el:
                raise Violation(f"{what}: {name} is another object than before")
        for key in [key for key in known if key not in {(x["n"], x["kind"]) for x in items}]:
            del known[key]

    what, changed, classes = "initially", False, {"tops", "tops-shown" if shown else "tops-hidden"}
    try:
        gui = cg.Collagraph(Renderer(autoshow=shown), event_loop_type=cg.EventLoopType.SYNC)
        gui.render(h(App, {}), app)
        check()
        for i, (op, a, b) in enumerate(ops):
            what = f"after {i + 1} of {len(ops)} ops ({op})"
            if op == "add":
                items.insert(b % (len(items) + 1), {"n": 100 + i, "kind": TOPS[a % len(TOPS)], "title": 0})
            elif not items:
                continue
            elif op == "remove":
                del items[a % len(items)]
            elif op == "kind":
                items[a % len(items)]["kind"] = TOPS[b % len(TOPS)]
            elif op == "move":
                items.insert(b % len(items), items.pop(a % len(items)))
            elif op == "title":
                items[a % len(items)]["title"] += 1
            elif op == "all":
                items.clear()
            else:
                raise Skip("op")
            changed = True
            classes.add("tops-op-" + op)
            state["items"] = copy.deepcopy(items)
            check()
            app.processEvents()
            check()
    except (Violation, Skip):
        raise
    except Exception as e:
        import traceback

        raise Violation(f"{what}: {e!r}\nitems: {items}\n{traceback.format_exc()[-1500:]}")
    for x in created:
        x.close()
    known.clear()
    dispose(created)
    del gui, created[:]
    collect()
    return {"nontrivial": changed, "classes": sorted(classes)}


WINDOWS = {"widget": "qwidget", "window": "qmainwindow", "label": "qlabel", "Button": "qpushbutton"}


class Reader:
    """Reads Qt objects"""

    def __init__(self):
        from PySide6 import QtCore, QtGui, QtWidgets

        self.modules = QtWidgets, QtGui, QtCore
        self.QtWidgets, self.QtGui, self.QtCore = self.modules

    def type(self, kind):
        for m in self.modules:
            if hasattr(m, QT[kind]):
                return getattr(m, QT[kind])

    def name(self, obj):
        if obj is None:
            return None
        if isinstance(obj, self.QtWidgets.QTreeWidgetItem):
            return obj.text(0)
        if isinstance(obj, self.QtGui.QStandardItem):
            return obj.text()
        return obj.objectName()

    def named(self, obj):
        """The child widgets with a name: not what Qt made itself (layout items, splitter handles), because PySide gives
        them wrappers which own them while garbage is collected, and they are deleted by Qt as well"""
        direct = self.QtCore.Qt.FindChildOption.FindDirectChildrenOnly
        return obj.findChildren(self.QtWidgets.QWidget, self.QtCore.QRegularExpression(r"^n\d+$"), direct)

    def children(self, obj, node):
        k = node["k"]
        if k in ("widget", "groupbox", "dialog", "grid"):
            layout = obj.layout()
            out = []
            if layout is not None:
                inside = [x for x in self.named(obj) if layout.indexOf(x) >= 0]
                if layout_of(node) == "form":
                    for x in inside:
                        label = layout.labelForField(x)
                        if label is None or label.text() != "label of " + self.name(x):
                            raise Violation(f"row of {self.name(x)} is labeled {label and label.text()!r}")
                    out = sorted(inside, key=lambda x: layout.getWidgetPosition(x)[0])
                    if len(out) != layout.rowCount() or len(out) * 2 != layout.count():
                        raise Violation(f"form {self.name(obj)} has {layout.rowCount()} rows for {len(out)} widgets")
                else:
                    out = sorted(inside, key=layout.indexOf)
                    if k == "grid":
                        place = {self.name(x): layout.getItemPosition(layout.indexOf(x)) for x in inside}
                        want = {f"n{n}": (*cell, 1, 1)[:4] for n, cell in cells(node).items()}
                        if place != want:
                            raise Violation(f"cells of grid {self.name(obj)} are {place} instead of {want}")
                        out.sort(key=lambda x: place[self.name(x)])
                    if len(out) != layout.count():
                        raise Violation(f"layout of {self.name(obj)} has {layout.count()} items for {len(out)} widgets")
            for x in out:
                if x is None or x.parent() is not obj:
                    raise Violation(f"{self.name(x)} in the layout of {self.name(obj)} has parent {x and x.parent()}")
            return out
        if k == "splitter":
            return [obj.widget(i) for i in range(obj.count())]
        if k == "tabs":
            return [obj.widget(i) for i in range(obj.count())]
        if k == "scrollarea":
            return [x for x in [obj.widget()] if x]
        if k == "dock":
            return [x for x in [obj.widget()] if x]
        if k == "toolbar":
            return [obj.widgetForAction(a) if isinstance(a, self.QtWidgets.QWidgetAction) else a for a in obj.actions()]
        if k in ("menubar", "menu"):
            return [a.menu() or a for a in obj.actions()]
        if k == "treewidget":
            return [obj.topLevelItem(i) for i in range(obj.topLevelItemCount())]
        if k == "item":
            return [obj.child(i) for i in range(obj.childCount())]
        if k in VIEWS:
            return [x for x in [obj.model()] if x]
        if k == "model":
            return [obj.item(i) for i in range(obj.rowCount())]
        if k == "sitem":
            return [obj.child(i) for i in range(obj.rowCount())]
        if k == "buttonbox":
            return list(obj.buttons())
        if k == "statusbar":
            return self.named(obj)
        if k == "window":
            out = self.named(obj)
            for x in out:
                kind = type(x).__mro__[1]
                if issubclass(kind, self.QtWidgets.QDockWidget):
                    if obj.dockWidgetArea(x) == self.QtCore.Qt.DockWidgetArea.NoDockWidgetArea:
                        raise Violation(f"dock {x.objectName()} is not in the window")
                elif issubclass(kind, self.QtWidgets.QToolBar):
                    if obj.toolBarArea(x) == self.QtCore.Qt.ToolBarArea.NoToolBarArea:
                        raise Violation(f"tool bar {x.objectName()} is not in the window")
            return out
        return []


def run(case):
    import os

    if "drop" in case:
        if case["drop"] not in (2, 3):
            raise Skip("drop")
        return run_drop(case["drop"])
    if "table" in case:
        return run_table(case["table"])
    if "tops" in case:
        return run_tops(case["tops"])

    os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
    from PySide6 import QtCore, QtWidgets

    app = QtWidgets.QApplication.instance() or QtWidgets.QApplication(["test"])
    QtCore.qInstallMessageHandler(lambda *args: None)
    if not isinstance(case["keyed"], bool) or not isinstance(case["gc"], bool) or \
            case["indices"] and (not case["keyed"] or any(op[0] in ("perm", "move", "new") for op in case["ops"])):
        raise Skip("keyed")
    if case["root"]["k"] == "tpl" or case["container"] not in ["app", *CONTAINERS] or \
            case["container"] != "app" and case["root"]["k"] not in WIDGETS:
        raise Skip("root")
    check_node(case["root"])
    # (the history has to make sense as well)
    spec = Spec(case)
    try:
        for op in case["ops"]:
            spec.change(op)
            check_node(spec.root)
    except (ValueError, TypeError, IndexError):
        raise Skip("op")
    roots = []

    created = []

    class Renderer(cg.PySideRenderer):
        def create_element(self, type_name):
            created.append(super().create_element(type_name))
            return created[-1]

        def insert(self, el, parent, anchor=None):
            if parent is container:
                roots.append(el)
            super().insert(el, parent, anchor=anchor)

    renderer = Renderer(autoshow=False)
    container = app
    if case["container"] == "made":
        container = renderer.create_element("widget")
    elif case["container"] != "app":
        created.append(QtWidgets.QWidget())
        container = created[-1]
        if case["container"] == "laid out":
            QtWidgets.QVBoxLayout(container)
    reader = Reader()
    spec = Spec(case)
    state = reactive({"root": copy.deepcopy(spec.root)})
    qt = QtCore.Qt

    def App(props):
        return vnode(raw(state["root"]), None, case["keyed"], qt, case["indices"])

    objects = {}  # number -> object, of the previous description
    where = {}  # number -> (number of the parent, kind)
    what = "initially"
    stats = {"changed": False, "several": False}
    classes = set()

    def describe():
        def lines(n, indent):
            yield " " * indent + f"{n['k']} n{n['n']} {layout_of(n) or ''}"
            for kid in n.get("kids", ()):
                yield from lines(kid, indent + 1)

        return "\n".join(lines(spec.root, 0))

    def fail(message):
        raise Violation(f"{what}: {message}\ndescription:\n{describe()}")

    def check(final):
        now, places = {}, {}

        def compare(obj, node, path):
            k, name = node["k"], f"n{node['n']}"
            if not isinstance(obj, reader.type(k)) or reader.name(obj) != name:
                fail(f"{reader.name(obj)} ({type(obj).__name__}) instead of {k} {name}")
            now[node["n"]] = obj
            places[node["n"]] = path
            if "kids" not in node:
                return
            kids = [x for x in flat(node["kids"]) if x["k"] != "dialog"]
            actual = reader.children(obj, node)
            stats["several"] |= len(kids) > 1
            names, want = [reader.name(x) for x in actual], [f"n{x['n']}" for x in kids]
            if k in UNORDERED:
                order = sorted(range(len(names)), key=lambda i: names[i])
                actual, names = [actual[i] for i in order], [names[i] for i in order]
                kids = sorted(kids, key=lambda x: f"n{x['n']}")
                want = sorted(want)
            if names != want:
                fail(f"children of {k} {name} are {names} instead of {want}")
            if k == "tabs":
                for i, x in enumerate(want):
                    if case["keyed"] and obj.tabText(i) != "label of " + x:
                        fail(f"tab {x} is labeled {obj.tabText(i)!r}")
            if k == "item" and obj.isExpanded() != (node["x"] % 2 == 1) and kids:
                fail(f"item {name} is {'not ' * (not obj.isExpanded())}expanded")
            if k == "item" and case["keyed"] and obj.isSelected() != described_selected(node):
                fail(f"item {name} is {'not ' * (not obj.isSelected())}selected")
            if k == "buttonbox" and case["keyed"]:
                for x, kid in zip(actual, kids):
                    if obj.buttonRole(x) != role_of(kid):
                        fail(f"n{kid['n']} has {obj.buttonRole(x)}")
            if k == "window":
                for x, kid in zip(actual, kids):
                    if case["keyed"] and kid["k"] == "dock" and obj.dockWidgetArea(x) != [qt.LeftDockWidgetArea, qt.RightDockWidgetArea][kid["n"] % 2]:
                        fail(f"dock n{kid['n']} is in {obj.dockWidgetArea(x)}")
                    if case["keyed"] and kid["k"] == "toolbar" and obj.toolBarArea(x) != (qt.BottomToolBarArea if kid["n"] % 2 else qt.TopToolBarArea):
                        fail(f"tool bar n{kid['n']} is in {obj.toolBarArea(x)}")
                    if kid["k"] == "menubar" and obj.menuWidget() is not x:
                        fail(f"{kid['n']} is not the menu bar of the window")
                    if kid["k"] in WIDGETS and obj.centralWidget() is not x:
                        fail(f"{kid['n']} is not the central widget of the window")
            # Dialogs, and whatever shouldn't be there
            dialogs = {f"n{x['n']}": x for x in flat(node["kids"]) if x["k"] == "dialog"}
            if isinstance(obj, QtCore.QObject) and k != "toolbar":
                found = {x.objectName(): x for x in reader.named(obj)}
                if final or k not in ("widget", "groupbox"):
                    extra = [x for x in found if x not in dialogs and x not in want]
                    if extra:
                        fail(f"{extra} still are children of {k} {name}")
                for x, kid in dialogs.items():
                    if x not in found:
                        fail(f"dialog {x} is not a child of {name}")
                    # (one that was removed can still have the name of another that's reused)
                    if final and not (found[x].isWindow() and found[x].isVisible()):
                        fail(f"dialog {x} is not shown as a window")
                    compare(found[x], kid, path + (node["n"],))

            def templates(nodes):
                for n in nodes:
                    if n["k"] == "tpl":
                        yield n["n"], [x["n"] for x in flat(n["kids"])]
                        yield from templates(n["kids"])

            inside = list(templates(node["kids"]))
            for x, kid in zip(actual, kids):
                compare(x, kid, path + (node["n"],) + tuple(t for t, nums in inside if kid["n"] in nums))

        root = roots[-1]
        if container is not app:
            count, inside = container.layout().count(), reader.named(container)
            if count != 1 or container.layout().indexOf(root) != 0 or final and inside != [root]:
                fail(f"the container has {count} items and contains {[x.objectName() for x in inside]}")
        compare(root, spec.root, ())
        if case["keyed"]:
            for n, obj in now.items():
                if n in objects and where[n] == places[n] and objects[n] is not obj:
                    fail(f"n{n} is another object than before")
        if final:
            objects.clear()
            objects.update(now)
            where.clear()
            where.update(places)

    def settle():
        check(False)
        app.processEvents()
        app.sendPostedEvents(None, QtCore.QEvent.Type.DeferredDelete)
        app.processEvents()
        if case["gc"]:
            gc.collect()
        check(True)

    try:
        gui = cg.Collagraph(renderer, event_loop_type=cg.EventLoopType.SYNC)
        gui.render(h(App, {}), container)
        settle()
        for i, op in enumerate(case["ops"]):
            what = f"after {i + 1} of {len(case['ops'])} ops ({op[0]})"
            if not spec.change(op):
                continue
            classes.add(op[0])
            stats["changed"] = True
            state["root"] = copy.deepcopy(spec.root)
            settle()
    except (Violation, Skip):
        raise
    except Exception as e:
        import traceback

        raise Violation(f"{what}: {e!r}\ndescription:\n{describe()}\n{traceback.format_exc()[-1500:]}")

    def kinds(n):
        classes.add(n["k"] + ("-" + layout_of(n) if layout_of(n) else ""))
        for kid in n.get("kids", ()):
            kinds(kid)

    kinds(spec.root)
    classes.add("to-" + case["container"])
    for root in roots:
        root.close()
    dispose(created)
    del gui, root, renderer, container, objects, created[:], roots[:]
    collect()
    return {"nontrivial": stats["changed"] and stats["several"], "classes": sorted(classes)}
