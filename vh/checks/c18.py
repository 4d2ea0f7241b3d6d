"""C18: Qt properties and signals follow the description."""
import copy
import functools
import os
import random
import sys
import traceback

from observ import reactive

import collagraph as cg
from collagraph import h

from .. import Skip, Violation
from ..app import raw
from .c17 import collect, dispose

CRASHY = True
BUDGET = {"quick": {"cases": 100000, "seconds": 22}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("A case is a widget with random widgets, a tool bar with actions and a tree view with items, each with random Qt "
        "properties (names with underscores or dashes), layouts with attributes, texts of status bars, items, buttons, attributes that aren't Qt properties, signal handlers and Qt "
        "event handlers of every kind of callable (functions with and without parameters, lambdas, bound methods, "
        "partial objects, callable objects, methods of objects without weak references), and a history of attributes and "
        "handlers that appear, change and disappear and of elements that are inserted, removed and moved. After every "
        "change each property is compared with the value that a new Qt object has when the described properties are set "
        "by Qt alone, and each signal and event is emitted once for each object to see which handlers are called with "
        "which arguments. Non-trivial: an attribute or handler changed.")
ASSUMPTIONS = ["properties with a setter that is named after them, which don't influence each other",
               "handlers accept the arguments of the signal or event"]

WIDGET = {
    "tool_tip": ["a", "b"], "status_tip": ["a", "b"], "whats_this": ["a"], "accessible_name": ["n", "m"],
    "window_title": ["t", "u"], "enabled": [False, True], "mouse_tracking": [True, False], "accept_drops": [True, False],
    "minimum_width": [5, 20, 33], "maximum_height": [500, 700], "auto_fill_background": [True, False],
    "focus_policy": ["@FocusPolicy.NoFocus", "@FocusPolicy.ClickFocus", "@FocusPolicy.StrongFocus"],
    "context_menu_policy": ["@ContextMenuPolicy.NoContextMenu", "@ContextMenuPolicy.CustomContextMenu"],
    "tool_tip_duration": [100, 200], "size_increment": [(3, 4), (5, 6)], "base_size": [(30, 40), (50, 60)],
}
SLIDER = {"value": [5, 20, 99, 0], "single_step": [2, 3], "page_step": [7, 8], "tracking": [False, True],
          "inverted_appearance": [True, False], "orientation": ["@Orientation.Horizontal", "@Orientation.Vertical"]}
KINDS = {
    # kind: element types, Qt type, properties, signals (with arguments)
    "label": (["label", "Label", "QLabel"], "QLabel", {**WIDGET, "text": ["x", "yy", ""], "word_wrap": [True, False], "indent": [3, 4],
              "margin": [1, 2], "open_external_links": [True, False], "alignment": ["@AlignmentFlag.AlignRight", "@AlignmentFlag.AlignCenter"]},
              {"link_activated": ("l",)}),
    "button": (["button", "QPushButton"], "QPushButton", {**WIDGET, "text": ["x", "yy"], "flat": [True, False], "checkable": [True, False],
               "auto_repeat": [True, False], "auto_exclusive": [True, False], "auto_repeat_delay": [3, 5]},
               {"clicked": (True,), "pressed": (), "released": (), "toggled": (False,)}),
    "lineedit": (["lineedit", "line-edit", "LineEdit"], "QLineEdit", {**WIDGET, "text": ["x", "yy"], "max_length": [100, 200],
                 "read_only": [True, False], "placeholder_text": ["p", "q"], "clear_button_enabled": [True, False], "frame": [False, True],
                 "echo_mode": ["@QLineEdit.EchoMode.Password", "@QLineEdit.EchoMode.NoEcho"]},
                 {"text_changed": ("t",), "return_pressed": (), "editing_finished": (), "cursor_position_changed": (1, 2)}),
    "checkbox": (["checkbox", "check_box"], "QCheckBox", {**WIDGET, "text": ["x", "y"], "checked": [True, False]},
                 {"clicked": (False,), "state_changed": (2,), "toggled": (True,)}),
    "slider": (["slider"], "QSlider", {**WIDGET, **SLIDER, "tick_interval": [2, 3]}, {"value_changed": (3,), "slider_moved": (4,), "slider_pressed": ()}),
    "dial": (["QDial"], "QDial", {**WIDGET, "value": [5, 20], "wrapping": [True, False], "notches_visible": [True, False]}, {"value_changed": (3,)}),
    "spinbox": (["spinbox", "SpinBox"], "QSpinBox", {**WIDGET, "value": [5, 20, 0], "single_step": [2, 3], "prefix": ["p", "q"],
                "suffix": ["s"], "wrapping": [True, False], "read_only": [True, False]}, {"value_changed": (3,), "text_changed": ("t",)}),
    "textedit": (["textedit"], "QTextEdit", {**WIDGET, "read_only": [True, False], "placeholder_text": ["p", "q"],
                 "tab_changes_focus": [True, False], "accept_rich_text": [False, True], "overwrite_mode": [True, False]}, {"text_changed": (), "copy_available": (True,)}),
    "browser": (["QTextBrowser"], "QTextBrowser", {**WIDGET, "search_paths": [["/a"], ["/b", "/c"], ["/d", "/e", "/f"]],
                "open_links": [False, True], "open_external_links": [True, False], "undo_redo_enabled": [True, False]}, {"source_changed": ("u",), "history_changed": ()}),
    "groupbox": (["groupbox"], "QGroupBox", {**{k: v for k, v in WIDGET.items() if k != "focus_policy"}, "title": ["t", "u"], "flat": [True, False], "checkable": [True, False]}, {"clicked": (True,), "toggled": (True,)}),
    "tabs": (["QTabWidget"], "QTabWidget", {**WIDGET, "tabs_closable": [True, False], "movable": [True, False], "document_mode": [True, False],
             "tab_position": ["@QTabWidget.TabPosition.South", "@QTabWidget.TabPosition.West"]}, {"current_changed": (0,), "tab_close_requested": (1,)}),
    "splitter": (["QSplitter"], "QSplitter", {**WIDGET, "handle_width": [3, 9], "children_collapsible": [False, True],
                 "opaque_resize": [False, True]}, {"splitter_moved": (1, 2)}),
    "combobox": (["combobox"], "QComboBox", {**WIDGET, "max_visible_items": [3, 4], "duplicates_enabled": [True, False], "frame": [False, True],
                 "items": [["a", "b", "c"], ["a"], ["x", "y", "z", "w"], []]}, {"current_index_changed": (1,), "activated": (0,)}),
    "tree": (["treewidget"], "QTreeWidget", {**WIDGET, "column_count": [2, 3], "root_is_decorated": [False, True], "indentation": [3, 7],
             "animated": [True, False], "word_wrap": [True, False], "items_expandable": [False, True]}, {"item_selection_changed": ()}),
    "buttonbox": (["dialogbuttonbox"], "QDialogButtonBox", {**WIDGET, "center_buttons": [True, False],
                  "buttons": [["Ok"], ["Ok", "Cancel"], ["Close", "Help", "Apply"], []]}, {"accepted": (), "rejected": ()}),
    "statusbar": (["statusbar", "QStatusBar"], "QStatusBar", {**{k: v for k, v in WIDGET.items() if k != "minimum_width"}, "text": ["m", "", ("n", 0), ("o", 100000)]},
                  {"message_changed": ("m",)}),
    "progress": (["QProgressBar", "ProgessBar"], "QProgressBar", {**WIDGET, "text_visible": [False, True], "inverted_appearance": [True, False],
                 "value": [5, 20, 100], "format": ["%v", "%p!"]}, {"value_changed": (3,)}),
    "radio": (["radiobutton", "RadioButton"], "QRadioButton", {**WIDGET, "text": ["x", "y"], "auto_exclusive": [False, True], "auto_repeat": [True, False]},
              {"clicked": (True,), "toggled": (True,), "pressed": (), "released": ()}),
    "plain": (["QPlainTextEdit"], "QPlainTextEdit", {**WIDGET, "read_only": [True, False], "placeholder_text": ["p", "q"], "overwrite_mode": [True, False],
              "maximum_block_count": [100, 200], "center_on_scroll": [True, False]}, {"text_changed": (), "block_count_changed": (3,)}),
    "double": (["QDoubleSpinBox"], "QDoubleSpinBox", {**WIDGET, "single_step": [2.5, 0.5], "prefix": ["p", "q"], "suffix": ["s", "t"], "decimals": [3, 4],
               "button_symbols": ["@QAbstractSpinBox.ButtonSymbols.NoButtons", "@QAbstractSpinBox.ButtonSymbols.PlusMinus"]},
               {"value_changed": (2.5,), "text_changed": ("t",), "editing_finished": ()}),
    "lcd": (["QLCDNumber"], "QLCDNumber", {**WIDGET, "digit_count": [3, 9], "small_decimal_point": [True, False]}, {"overflow": ()}),
    "listview": (["QListView"], "QListView", {**WIDGET, "spacing": [3, 5], "batch_size": [50, 70], "uniform_item_sizes": [True, False], "word_wrap": [True, False],
                 "flow": ["@QListView.Flow.LeftToRight"], "drag_enabled": [True, False], "alternating_row_colors": [True, False]},
                 {"viewport_entered": ()}),
    "table": (["QTableView"], "QTableView", {**WIDGET, "show_grid": [False, True], "sorting_enabled": [True, False], "word_wrap": [False, True],
              "grid_style": ["@PenStyle.DotLine", "@PenStyle.DashLine"],
              "selection_behavior": ["@QAbstractItemView.SelectionBehavior.SelectRows", "@QAbstractItemView.SelectionBehavior.SelectColumns"]}, {"viewport_entered": ()}),
    "treeview": (["treeview"], "QTreeView", {**WIDGET, "root_is_decorated": [False, True], "indentation": [3, 7], "header_hidden": [True, False],
                 "uniform_row_heights": [True, False], "expands_on_double_click": [False, True]}, {"viewport_entered": ()}),
    "scroll": (["scrollarea"], "QScrollArea", {**WIDGET, "widget_resizable": [True, False], "alignment": ["@AlignmentFlag.AlignRight", "@AlignmentFlag.AlignCenter"],
               "vertical_scroll_bar_policy": ["@ScrollBarPolicy.ScrollBarAlwaysOff", "@ScrollBarPolicy.ScrollBarAlwaysOn"], "line_width": [2, 3]}, {}),
    "bar": (["toolbar", "QToolBar"], "QToolBar", {**{k: v for k, v in WIDGET.items() if k not in ("enabled", "minimum_width")}, "movable": [False, True], "floatable": [False, True],
            "tool_button_style": ["@ToolButtonStyle.ToolButtonTextOnly", "@ToolButtonStyle.ToolButtonTextBesideIcon"]},
            {"movable_changed": (True,), "top_level_changed": (False,), "visibility_changed": (True,)}),
    "menus": (["menubar"], "QMenuBar", {**{k: v for k, v in WIDGET.items() if k != "mouse_tracking"}, "default_up": [True, False]}, {}),
    "calendar": (["QCalendarWidget"], "QCalendarWidget", {**WIDGET, "grid_visible": [True, False], "navigation_bar_visible": [False, True],
                 "date_edit_accept_delay": [100, 200], "first_day_of_week": ["@DayOfWeek.Friday", "@DayOfWeek.Tuesday"]}, {"selection_changed": (), "current_page_changed": (2020, 3)}),
    "tool": (["QToolButton"], "QToolButton", {**WIDGET, "text": ["x", "yy"], "auto_raise": [True, False], "checkable": [True, False],
             "popup_mode": ["@QToolButton.ToolButtonPopupMode.MenuButtonPopup", "@QToolButton.ToolButtonPopupMode.InstantPopup"],
             "arrow_type": ["@ArrowType.UpArrow", "@ArrowType.DownArrow"]}, {"clicked": (True,), "toggled": (True,)}),
    "action": (["action", "QAction"], "QAction", {"text": ["x", "yy"], "checkable": [True, False], "enabled": [False, True],
               "status_tip": ["a", "b"], "whats_this": ["a", "b"], "auto_repeat": [False, True], "icon_visible_in_menu": [False, True],
               "shortcut_visible_in_context_menu": [False, True]}, {"triggered": (True,), "hovered": (), "toggled": (False,)}),
    "sitem": (["standarditem"], "QStandardItem", {"text": ["x", "yy", ""], "tool_tip": ["a", "b"], "editable": [False, True],
              "enabled": [False, True], "checkable": [True, False], "selectable": [False, True]}, {}),
    "item": (["treewidgetitem"], "QTreeWidgetItem", {"content": [{0: "a"}, {0: "b"}, {0: "c"}]}, {}),
    "custom": (["widget"], "QWidget", {**WIDGET, "layout": [
        {"type": "box", "spacing": 3, "contents_margins": (1, 2, 3, 4), "direction": "LeftToRight"},
        {"type": "box", "spacing": 7, "contents_margins": (5, 6, 7, 8), "direction": "TopToBottom"},
        {"type": "Box", "spacing": 3, "contents_margins": (9, 9, 9, 9), "direction": "RightToLeft"},
        {"type": "box", "spacing": 7, "contents_margins": (1, 2, 3, 4), "direction": "BottomToTop"}]}, {}),
    "gridded": (["QFrame"], "QFrame", {**WIDGET, "layout": [
        {"type": "grid", "column_stretch": [(0, 1), (2, 5)], "row_stretch": [(1, 2)], "horizontal_spacing": 4, "vertical_spacing": 9},
        {"type": "Grid", "column_stretch": [(0, 3), (2, 4)], "row_stretch": [(1, 7)], "horizontal_spacing": 4, "vertical_spacing": 3},
        {"type": "grid", "column_stretch": [(0, 1), (2, 2)], "row_stretch": [(1, 1)], "horizontal_spacing": 8, "vertical_spacing": 9}]}, {}),
    "formed": (["groupbox"], "QGroupBox", {"title": ["t", "u"], "layout": [
        {"type": "form", "horizontal_spacing": 4, "vertical_spacing": 9, "row_wrap_policy": "@QFormLayout.RowWrapPolicy.WrapAllRows"},
        {"type": "form", "horizontal_spacing": 6, "vertical_spacing": 9, "row_wrap_policy": "@QFormLayout.RowWrapPolicy.DontWrapRows"},
        {"type": "form", "horizontal_spacing": 4, "vertical_spacing": 2, "row_wrap_policy": "@QFormLayout.RowWrapPolicy.WrapLongRows"}]}, {}),
    "stacked": (["widget"], "QWidget", {**WIDGET, "layout": [
        {"type": "stacked", "stacking_mode": "@QStackedLayout.StackingMode.StackAll"},
        {"type": "stacked", "stacking_mode": "@QStackedLayout.StackingMode.StackOne"}]}, {}),
}
NOTES = {"note": ["a", "b", 2.5], "my-note": ["c", "d"], "other_note": [("t", 1), ("t", 2)]}
# described all the time: they can't be removed, as they aren't Qt properties
STICKY = {"items", "buttons", "content", "layout", ("statusbar", "text"),
          ("progress", "value")}  # (Qt does not let it be set back to its default, -1)
SIZES = [(2500, 1700), (2600, 1700), (2500, 1900)]  # (of the root, which has no layout that makes it smaller)
EVENTS = ["user", "key_press", "key-release", "leave"]
INSIDE = ["label", "button", "lineedit", "checkbox", "slider", "dial", "spinbox", "textedit", "browser", "groupbox", "tabs", "splitter", "combobox",
          "tree", "buttonbox", "statusbar", "progress", "radio", "plain", "double", "lcd", "listview", "table", "treeview", "scroll", "bar",
          "menus", "calendar", "tool", "custom", "gridded", "formed", "stacked"]
GROUPS = {"widgets": INSIDE, "actions": ["action"], "rows": ["sitem"], "items": ["item"]}


def pool(kind):
    props = dict(KINDS[kind][2])
    if kind != "item":
        props.update(NOTES)
    return props


def removable(kind, attr):
    return kind not in ("sitem", "item") and attr not in STICKY and (kind, attr) not in STICKY or attr in NOTES


# --------------------------------------------------------------------- generation
def gen_el(r, group):
    k = r.choice(GROUPS[group])
    el = {"k": k, "s": r.randint(0, 2), "p": {}, "on": {}}
    props = sorted(pool(k))
    for a in r.sample(props, min(len(props), r.choice([0, 1, 2, 3]))):
        el["p"][a] = r.randint(0, 5)
    for s in sorted(KINDS[k][3]):
        if r.random() < 0.4:
            el["on"][s] = r.randint(0, 20)
    if k not in ("sitem", "item"):
        for e in EVENTS:
            if r.random() < 0.15:
                el["on"][e] = r.randint(0, 20)
    return el


def gen(r):
    els = {g: [gen_el(r, g) for _ in range(r.choice([0, 1, 2]) if g != "widgets" else r.choice([0, 1, 2, 3]))] for g in GROUPS}
    if r.random() < 0.25:
        # Alike, with the same handlers
        for g in GROUPS:
            els[g] = [copy.deepcopy(els[g][0]) for _ in els[g]]
    ops = []
    for _ in range(r.randint(1, 10)):
        op = r.choice(["insert", "remove", "perm", "attr", "attr", "attr", "attr", "attr", "on", "on", "on", "many", "events", "size"])
        ops.append([op, r.randint(0, 40), r.randint(0, 12), r.randint(0, 10**6), [r.randint(0, 5) for _ in range(5)]])
    return {**els, "parents": r.random() < 0.3, "dashes": r.random() < 0.3, "size": r.randint(0, 3), "ops": ops}


class Spec:
    def __init__(self, case):
        self.count = 0
        self.groups = {g: [self.fresh(el, g) for el in case[g]] for g in GROUPS}
        self.size = case["size"] % len(SIZES)

    def fresh(self, el, group):
        el = copy.deepcopy(el)
        if el["k"] not in GROUPS[group] or any(a not in pool(el["k"]) for a in el["p"]) or \
                any(e not in EVENTS and e not in KINDS[el["k"]][3] for e in el["on"]) or \
                el["k"] in ("sitem", "item") and el["on"] or not isinstance(el["s"], int):
            raise Skip("malformed")
        self.count += 1
        el["n"] = self.count
        values = pool(el["k"])
        for a in values:
            if not removable(el["k"], a) and (a in STICKY or (el["k"], a) in STICKY or a in el["p"]):
                el["p"].setdefault(a, 0)
        el["p"] = {a: i % len(values[a]) for a, i in el["p"].items()}
        return el

    def els(self):
        return [(g, el) for g in GROUPS for el in self.groups[g]]

    def change(self, op):
        name, sel, i, seed, order = op
        r = random.Random(seed)
        if name in ("attr", "on", "many"):
            els = self.els()
            if not els:
                return False
            el = els[sel % len(els)][1]
            done = False
            for _ in range(r.randint(2, 4) if name == "many" else 1):
                if name == "on" or name == "many" and r.random() < 0.4:
                    done |= self.change_on(el, i, r)
                else:
                    done |= self.change_attr(el, i, r)
                i = r.randint(0, 40)
            return done
        if name == "events":
            return True
        if name == "size":
            changed, self.size = self.size != i % len(SIZES), i % len(SIZES)
            return changed
        group = list(GROUPS)[sel % 4]
        els = list(self.groups[group])
        size = len(els)
        if name == "insert":
            els.insert(i % (size + 1), self.fresh(gen_el(r, group), group))
        elif not size:
            return False
        elif name == "remove":
            del els[i % size]
        else:
            els = [els[x] for x in sorted(range(size), key=lambda x: (order[x % 5], -x))]
        if els == self.groups[group]:
            return False
        self.groups[group] = els
        return True

    def change_on(self, el, i, r):
        names = sorted(KINDS[el["k"]][3]) + (EVENTS if el["k"] not in ("sitem", "item") else [])
        if not names:
            return False
        event = names[i % len(names)]
        if event in el["on"] and r.random() < 0.5:
            del el["on"][event]
        else:
            el["on"][event] = el["on"].get(event, 0) + 1 + r.randint(0, 7)
        return True

    def change_attr(self, el, i, r):
        values = pool(el["k"])
        names = sorted(el["p"]) if el["p"] and r.random() < 0.5 else sorted(values)
        attr = names[i % len(names)]
        size = len(values[attr])
        if attr in el["p"] and removable(el["k"], attr) and r.random() < 0.5:
            del el["p"][attr]
        elif attr not in el["p"]:
            el["p"][attr] = r.randrange(size)
        elif size > 1:
            el["p"][attr] = (el["p"][attr] + r.randint(1, size - 1)) % size
        else:
            return False
        return True


# --------------------------------------------------------------------- Qt
def qt():
    from PySide6 import QtCore, QtGui, QtWidgets

    return QtCore, QtGui, QtWidgets


def value(kind, attr, index):
    v = pool(kind)[attr][index]
    if attr == "layout":
        return {name: constant(x) for name, x in v.items()}
    if attr == "buttons" and index % 2:
        QtCore, QtGui, QtWidgets = qt()
        return [getattr(QtWidgets.QDialogButtonBox.StandardButton, x) for x in v]
    return constant(v)


def constant(v):
    if isinstance(v, str) and v.startswith("@"):
        QtCore, QtGui, QtWidgets = qt()
        path = v[1:].split(".")
        obj = QtWidgets if path[0].startswith("Q") else QtCore.Qt
        for name in path:
            obj = getattr(obj, name)
        return obj
    return copy.copy(v)


def camel(name):
    first, *rest = name.replace("-", "_").split("_")
    return first + "".join(x[:1].upper() + x[1:] for x in rest)


GETTERS = {"editable": "isEditable", "enabled": "isEnabled", "checkable": "isCheckable", "selectable": "isSelectable"}


def read(el, kind, attr):
    if attr in NOTES:
        return getattr(el, attr, "(none)")
    if attr == "items":
        return [el.itemText(i) for i in range(el.count())]
    if attr == "buttons":
        return sorted(el.standardButton(b).name for b in el.buttons())
    if attr == "content":
        return {0: el.text(0)}
    if attr == "layout":
        layout = el.layout()
        have = {"type": type(layout).__mro__[1].__name__}
        for name in pool(kind)["layout"][0]:
            if name == "contents_margins":
                m = layout.contentsMargins()
                have[name] = (m.left(), m.top(), m.right(), m.bottom())
            elif name == "direction":
                have[name] = layout.direction().name
            elif name in ("column_stretch", "row_stretch"):
                get = layout.columnStretch if name == "column_stretch" else layout.rowStretch
                have[name] = [get(i) for i in range(3 if name[0] == "c" else 2)]  # (Qt doesn't check)
            elif name != "type":
                have[name] = getattr(layout, camel(name))()
        return have
    if kind == "statusbar" and attr == "text":
        return el.currentMessage()
    if kind == "sitem":
        return getattr(el, GETTERS.get(attr, camel(attr)))()
    return el.property(camel(attr))


def make(kind):
    QtCore, QtGui, QtWidgets = qt()
    name = KINDS[kind][1]
    for m in (QtWidgets, QtGui):
        if hasattr(m, name):
            return getattr(m, name)("") if name == "QAction" else getattr(m, name)()


REFERENCE = {}


def reference(kind, attr, index):
    """What a new Qt object has when the attribute is set, or when it's not (for None)"""
    key = kind, attr, index
    if key not in REFERENCE:
        if attr in NOTES:
            REFERENCE[key] = "(none)" if index is None else NOTES[attr][index]
        elif attr == "buttons":
            REFERENCE[key] = sorted(KINDS[kind][2][attr][index])
        elif attr == "layout":
            want = value(kind, attr, index)
            want["type"] = f"Q{want['type'].capitalize()}Layout"
            for name in ("column_stretch", "row_stretch"):
                if name in want:
                    want[name] = [dict(want[name]).get(i, 0) for i in range(3 if name[0] == "c" else 2)]
            REFERENCE[key] = want
        elif kind == "statusbar" and attr == "text":
            text = value(kind, attr, index)
            REFERENCE[key] = text if isinstance(text, str) else text[0]
        elif attr in STICKY:
            REFERENCE[key] = value(kind, attr, index)
        else:
            el = make(kind)
            if index is not None:
                name = camel(attr)
                given = value(kind, attr, index)
                getattr(el, "set" + name[0].upper() + name[1:])(*given if isinstance(given, tuple) else [given])
            REFERENCE[key] = read(el, kind, attr)
    return REFERENCE[key]


class Methods:
    def __init__(self, fired):
        self.fired = fired

    def none(self):
        self.fired.append(("none", ()))

    def one(self, a):
        self.fired.append(("one", (a,)))

    def many(self, *args):
        self.fired.append(("many", args))


class Slotted:
    __slots__ = ("fired",)

    def __init__(self, fired):
        self.fired = fired

    def none(self):
        self.fired.append(("s.none", ()))

    def many(self, *args):
        self.fired.append(("s.many", args))


class Callable:
    def __init__(self, fired, name):
        self.fired, self.name = fired, name

    def __call__(self, *args):
        self.fired.append((self.name, args))


class Log(list):
    """What was called. A change can happen when something's called."""

    then = None

    def append(self, item):
        super().append(item)
        then, self.then = self.then, None
        if then:
            then()


def make_handlers(fired):
    """name -> (function that gives the handler, number of parameters or None for any)"""
    methods, slotted = Methods(fired), Slotted(fired)

    def f0():
        fired.append(("f0", ()))

    def f1(a):
        fired.append(("f1", (a,)))

    def fn(*args):
        fired.append(("fn", args))

    def given(name, *args):
        fired.append((name, args))

    l0 = lambda: fired.append(("l0", ()))  # noqa: E731
    l1 = lambda a: fired.append(("l1", (a,)))  # noqa: E731
    ln = lambda *args: fired.append(("ln", args))  # noqa: E731
    partial = functools.partial(given, "partial")
    call = Callable(fired, "call")
    return {
        "f0": (lambda: f0, 0), "f1": (lambda: f1, 1), "fn": (lambda: fn, None), "l0": (lambda: l0, 0), "l1": (lambda: l1, 1),
        "ln": (lambda: ln, None), "partial": (lambda: partial, None), "call": (lambda: call, None), "none": (lambda: methods.none, 0),
        "one": (lambda: methods.one, 1), "many": (lambda: methods.many, None), "s.none": (lambda: slotted.none, 0),
        "s.many": (lambda: slotted.many, None),
    }


def run(case):
    os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
    QtCore, QtGui, QtWidgets = qt()
    app = QtWidgets.QApplication.instance() or QtWidgets.QApplication(["test"])
    QtCore.qInstallMessageHandler(lambda *args: None)
    try:
        dashes, parents = bool(case["dashes"]), bool(case.get("parents"))
        spec = Spec(case)
        for op in case["ops"]:
            spec.change(op)
            op[1] + op[2]
    except (KeyError, TypeError, ValueError, IndexError, AttributeError):
        raise Skip("malformed")
    spec = Spec(case)
    fired = Log()
    handlers = make_handlers(fired)
    created, roots = [], []

    class Renderer(cg.PySideRenderer):
        def create_element(self, type_name):
            created.append(super().create_element(type_name))
            return created[-1]

        def insert(self, el, parent, anchor=None):
            if parent is app:
                roots.append(el)
            super().insert(el, parent, anchor=anchor)

    state = reactive({"groups": copy.deepcopy(spec.groups), "size": spec.size})

    def handler_name(kind, event, index):
        """A handler that accepts the arguments"""
        size = len(KINDS[kind][3].get(event, ("event",)))
        if event in EVENTS:
            names = [n for n, (_, params) in handlers.items() if params in (1, None)]
        else:
            names = [n for n, (_, params) in handlers.items() if params is None or params <= size]
        return names[index % len(names)]

    def on_parent(event):
        fired.append(("parent", (event,)))

    def spelled(name):
        return name.replace("_", "-") if dashes and name not in NOTES else name

    def vnode(el):
        k = el["k"]
        props = {"key": el["n"]}
        if k != "item" and k != "sitem":
            props["object_name"] = f"n{el['n']}"
        for a, i in el["p"].items():
            props[spelled(a)] = value(k, a, i)
        for e, i in el["on"].items():
            props["on_" + spelled(e)] = handlers[handler_name(k, e, i)][0]()
        types = KINDS[k][0]
        return h(types[el["s"] % len(types)], props)

    def App(props):
        groups = raw(state["groups"])
        on = {"on_user": on_parent, "on_leave": on_parent} if parents else {}
        return h("widget", {"size": SIZES[state["size"]]}, h("toolbar", {"key": "actions", **on}, *map(vnode, groups["actions"])),
                 h("widget", {"key": "widgets", **on}, *map(vnode, groups["widgets"])),
                 h("treeview", {"key": "rows"}, h("itemmodel", {}, *map(vnode, groups["rows"]))),
                 h("treewidget", {"key": "items"}, *map(vnode, groups["items"])))

    what = "initially"

    def fail(message):
        raise Violation(f"{what}: {message}\ndescription: {spec.groups}")

    def actual():
        toolbar, widgets, rows, items = [roots[-1].layout().indexOf(x) >= 0 and x for x in parts]
        layout = widgets.layout()
        named = widgets.findChildren(QtWidgets.QWidget, QtCore.QRegularExpression(r"^n\d+$"),
                                     QtCore.Qt.FindChildOption.FindDirectChildrenOnly)
        model = rows.model()
        return {"actions": list(toolbar.actions()), "widgets": sorted((x for x in named if layout.indexOf(x) >= 0), key=layout.indexOf) if layout else [],
                "rows": [model.item(i) for i in range(model.rowCount())], "items": [items.topLevelItem(i) for i in range(items.topLevelItemCount())]}

    def emit(el, kind, event):
        if event in EVENTS:
            types = QtCore.QEvent.Type
            no = QtCore.Qt.KeyboardModifier.NoModifier
            if event == "user":
                ev = QtCore.QEvent(types.User)
            elif event == "leave":
                ev = QtCore.QEvent(types.Leave)
            else:
                ev = QtGui.QKeyEvent(types.KeyPress if event == "key_press" else types.KeyRelease, QtCore.Qt.Key.Key_F35, no)
            QtCore.QCoreApplication.sendEvent(el, ev)
        else:
            signal = getattr(el, camel(event))
            if event in ("clicked", "triggered"):
                signal = signal[bool]
            signal.emit(*KINDS[kind][3][event])

    def check():
        size = roots[-1].size().toTuple()
        if size != SIZES[spec.size]:
            fail(f"size is {size} instead of {SIZES[spec.size]}")
        found = actual()
        for event in ("user", "leave") if parents else ():
            for part in parts[:2]:
                del fired[:]
                emit(part, "widget", event)
                if [n for n, _ in fired] != ["parent"]:
                    fail(f"{event} of a parent called {fired}")
        for g, els in spec.groups.items():
            if len(found[g]) != len(els):
                fail(f"{g}: {len(found[g])} objects instead of {len(els)}")
            for obj, el in zip(found[g], els):
                k, name = el["k"], f"{el['k']} n{el['n']}"
                if type(obj).__mro__[1].__name__ != KINDS[k][1]:
                    fail(f"{name} is a {type(obj).__mro__[1].__name__}")
                for attr in pool(k):
                    if (attr in STICKY or (k, attr) in STICKY) and attr not in el["p"] or k == "sitem" and attr not in el["p"] and attr not in NOTES:
                        continue
                    have, want = read(obj, k, attr), reference(k, attr, el["p"].get(attr))
                    if have != want:
                        fail(f"{attr} of {name} is {have!r} instead of {want!r}")
                if k in ("sitem", "item"):
                    continue
                if obj.objectName() != f"n{el['n']}":
                    fail(f"{obj.objectName()} instead of {name}")
                enabled = obj.isEnabled()
                if errors:
                    fail(f"{errors[0]!r}")
                for event in [*KINDS[k][3], *EVENTS]:
                    if event in EVENTS and not enabled:
                        continue
                    del fired[:]
                    emit(obj, k, event)
                    calls = list(fired)
                    if event in EVENTS:
                        calls = [(n, tuple(a.type().name for a in args)) for n, args in calls]
                        given = ({"user": "User", "key_press": "KeyPress", "key-release": "KeyRelease", "leave": "Leave"}[event],)
                    else:
                        given = KINDS[k][3][event]
                    if event not in el["on"]:
                        if calls:
                            fail(f"{event} of {name} called {calls}")
                        continue
                    want = handler_name(k, event, el["on"][event])
                    params = handlers[want][1]
                    if [n for n, _ in calls] != [want]:
                        fail(f"{event} of {name} called {calls} instead of {want}")
                    args = calls[0][1]
                    if event in EVENTS or params is not None:
                        expected = given if event in EVENTS else given[:params]
                        if args != expected:
                            fail(f"{event} of {name} called {want} with {args} instead of {expected}")
                    elif args != given[:len(args)]:
                        fail(f"{event} of {name} called {want} with {args}")
        if errors:
            fail(f"{errors[0]!r}")

    def handled(order):
        """(object, description, event) of something with a handler, before the change"""
        found = actual()
        out = [(obj, el, event) for g, els in before.items() for obj, el in zip(found[g], els) if g in ("actions", "widgets")
               for event in sorted(el["on"]) if event in EVENTS and obj.isEnabled()]
        return out[order % len(out)] if out else None

    changed = False
    classes, errors = set(), []
    # PySide reports exceptions of event filters and slots here
    sys.excepthook = lambda kind, e, tb: errors.append(e)
    try:
        gui = cg.Collagraph(Renderer(autoshow=False), event_loop_type=cg.EventLoopType.SYNC)
        gui.render(h(App, {}), app)
        parts = [x for x in roots[-1].children() if isinstance(x, QtWidgets.QWidget)]
        order = {"toolbar": 0, "widget": 1, "treeview": 2, "treewidget": 3}
        parts.sort(key=lambda x: order[type(x).__name__])
        check()
        for i, op in enumerate(case["ops"]):
            what = f"after {i + 1} of {len(case['ops'])} ops ({op[0]})"
            if op[0] == "events":
                app.processEvents()
                check()
                continue
            before = copy.deepcopy(spec.groups)
            if not spec.change(op):
                continue
            classes.add(op[0])
            changed |= op[0] in ("attr", "on", "many")
            new = copy.deepcopy(spec.groups)
            found = handled(op[2]) if op[1] % 2 == 0 else None
            if state["size"] != spec.size:
                state["size"] = spec.size
            elif found:
                # The change is made by a handler
                what += f" by a handler of {found[2]} of {found[1]['k']} n{found[1]['n']}"
                classes.add("by handler")
                del fired[:]
                fired.then = lambda: state.update(groups=new)
                emit(found[0], found[1]["k"], found[2])
                name = handler_name(found[1]["k"], found[2], found[1]["on"][found[2]])
                # (the change can make the object emit signals too)
                if not fired or fired[0][0] != name:
                    fail(f"called {fired} instead of {name}")
                if errors:
                    fail(f"{errors[0]!r}")
            else:
                state["groups"] = new
            check()
    except (Violation, Skip):
        raise
    except Exception as e:

        raise Violation(f"{what}: {e!r}\ndescription: {spec.groups}\n{traceback.format_exc()[-1500:]}")
    finally:
        sys.excepthook = sys.__excepthook__
    for _, el in spec.els():
        classes.add(el["k"])
        classes.update(f"handler {handler_name(el['k'], e, i)}" for e, i in el["on"].items())
    roots[-1].close()
    dispose(created)
    del gui, parts, created[:], roots[:]
    if random.random() < 0.02:
        collect()
    return {"nontrivial": changed, "classes": sorted(classes)}
