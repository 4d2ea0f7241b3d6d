"""C24: Qt types, layouts and their behaviour are looked up as registered."""
import copy
import os
import random
import warnings

import collagraph as cg

from .. import Skip, Violation
from .c17 import collect, dispose

CRASHY = True
BUDGET = {"quick": {"cases": 100000, "seconds": 15}, "thorough": {"cases": 10000000, "seconds": 300}}
RULE = ("A case is a hierarchy of classes on top of Qt's own ones, with registrations of element names, layout names, insert, "
        "remove and set_attribute functions and custom attributes in random order and in all forms (decorator, "
        "argument, several types or names at once), followed by elements that are created, inserted, removed and "
        "given attributes, with names in different casing, with or without dashes and underscores. Each call has to arrive "
        "at the function that is registered for the nearest class in the inheritance, with the given arguments, or behave "
        "as Qt's own class when there is none. Wrong registrations and unknown names have to be refused. Non-trivial: a "
        "function was looked up that is registered for a base class, while others are registered too.")
ASSUMPTIONS = ["registrations come before the first element with that name is created", "no type is registered twice for the same purpose"]

BASES = ["QWidget", "QLabel", "QPushButton", "QFrame", "QGroupBox", "QLineEdit", "QAbstractButton", "QSplitter", "QTabWidget", "QToolBar"]
LAYOUTS = ["QBoxLayout", "QVBoxLayout", "QHBoxLayout", "QGridLayout", "QFormLayout", "QStackedLayout"]
BUILTIN = ["QWidget", "QLabel", "QTimer", "QStandardItemModel", "QSplitter", "QTableWidget", "QProgressBar", "QListView", "QDial",
           "QUndoStack", "QTextBrowser", "QGraphicsScene", "QButtonGroup", "QKeySequenceEdit", "QFontComboBox",
           "QStandardItem", "QTreeWidgetItem", "QTextDocument", "QStringListModel", "QScrollBar", "QDateEdit", "QWizardPage"]
ATTRS = ["alpha", "beta_x", "gamma-y"]
COUNT = [0]


def gen(r):
    classes = []
    for i in range(r.randint(1, 5)):
        mine = [j for j in range(i) if not classes[j]["layout"]]
        layout = r.random() < 0.2
        classes.append({"layout": layout, "base": r.randrange(len(LAYOUTS if layout else BASES)),
                        "up": r.choice(mine) if mine and r.random() < 0.7 and not layout else None})
    regs = []
    for i, c in enumerate(classes):
        if r.random() < 0.9 or c["layout"]:
            regs.append(["name", i, r.randint(0, 3), 0])
        if not c["layout"]:
            for k in ("insert", "remove", "set_attr"):
                if r.random() < 0.45:
                    regs.append([k, i, r.randint(0, 3), r.randint(0, 3)])
    for i in range(len(ATTRS)):
        if r.random() < 0.3:
            regs.append(["attr", i, r.randint(0, 3), r.randint(0, 1)])
    if r.random() < 0.2:
        regs.append(["bad", r.randint(0, 6), r.randint(0, 1), 0])
    r.shuffle(regs)
    ops = [[r.choice(["create", "insert", "insert", "remove", "attr", "attr", "layout", "builtin", "unknown"]),
            r.randint(0, 20), r.randint(0, 20), r.randint(0, 20)] for _ in range(r.randint(3, 12))]
    return {"classes": classes, "regs": regs, "ops": ops}


def spelled(base, n):
    """Names that mean the same"""
    words = base.split()
    forms = ["-".join(words), "_".join(words), "".join(words), "".join(w.capitalize() for w in words), "".join(words).upper(),
             "-".join(w.upper() for w in words), "_".join(w.capitalize() for w in words)]
    return forms[n % len(forms)]


def run(case):
    os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
    from PySide6 import QtWidgets

    QtWidgets.QApplication.instance() or QtWidgets.QApplication(["test"])
    import collagraph.renderers.pyside_renderer as module

    # What is registered is global
    saved = {name: copy.copy(value) for name, value in vars(module).items() if type(value) in (list, dict) and not name.startswith("__")}
    created = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return execute(case, created)
    finally:
        dispose(created)
        del created[:]
        for name, value in saved.items():
            current = getattr(module, name)
            current.clear()
            current.extend(value) if isinstance(value, list) else current.update(value)
        if random.random() < 0.02:
            collect()


def execute(case, created):
    from PySide6 import QtCore, QtGui, QtWidgets

    COUNT[0] += 1
    serial = f"x{COUNT[0]}"
    R = cg.PySideRenderer
    calls = []
    classes, names = [], {}
    try:
        for i, c in enumerate(case["classes"]):
            if c["up"] is not None:
                if c["layout"] or not 0 <= c["up"] < i or case["classes"][c["up"]]["layout"]:
                    raise Skip("malformed")
                base = classes[c["up"]]
            else:
                base = getattr(QtWidgets, (LAYOUTS if c["layout"] else BASES)[c["base"]])
            if c["layout"] and base is QtWidgets.QBoxLayout:
                def init(self):
                    QtWidgets.QBoxLayout.__init__(self, QtWidgets.QBoxLayout.Direction.LeftToRight)
                classes.append(type(f"Layout{i}", (base,), {"__init__": init}))
            else:
                classes.append(type(f"Class{i}", (base,), {}))
        regs = [(str(k), int(i), int(n), int(m)) for k, i, n, m in case["regs"]]
        ops = [(str(k), int(i), int(n), int(m)) for k, i, n, m in case["ops"]]
        if len({(k, i) for k, i, _, _ in regs}) < len(regs):
            raise Skip("malformed")
        for k, i, _, _ in regs:
            if k not in ("name", "insert", "remove", "set_attr", "attr", "bad") or i < 0 or \
                    k not in ("attr", "bad") and i >= len(classes) or k == "attr" and i >= len(ATTRS) or \
                    k in ("insert", "remove", "set_attr") and case["classes"][i]["layout"]:
                raise Skip("malformed")
    except (KeyError, TypeError, ValueError, IndexError):
        raise Skip("malformed")

    def recorder(*tag):
        if tag[0] == "insert":
            return lambda self, el, anchor=None: calls.append((tag, self, el, anchor))
        if tag[0] == "remove":
            return lambda self, el: calls.append((tag, self, el))
        return lambda self, attr, value: calls.append((tag, self, attr, value))

    def fail(message):
        raise Violation(f"{message}\nclasses: {[c.__mro__[:3] for c in classes]}\nregistered: {regs}")

    registered, attrs, todo = {}, set(), {}
    for k, i, n, m in regs:
        if k == "bad":
            # Neither a widget nor a layout, or the wrong one of those
            typ = [QtCore.QObject, object, QtWidgets.QBoxLayout if n else QtWidgets.QWidget, QtGui.QStandardItem,
                   QtGui.QGuiApplication if n else QtWidgets.QStatusBar, QtGui.QValidator if n else QtWidgets.QSplitter,
                   QtGui.QTextDocument if n else QtWidgets.QStackedWidget][i % 7]
            func = R.register_element if n else R.register_layout
            try:
                func(f"bad{serial}", typ)
            except TypeError:
                pass
            else:
                fail(f"{typ} was accepted")
            try:
                el = R(autoshow=False).create_element(f"bad{serial}")
            except TypeError:
                continue
            created.append(el)
            fail(f"{el} was created, although {typ} can't be registered")
        elif k == "name":
            names[i] = f"{'lay' if case['classes'][i]['layout'] else 'el'} out{i} {serial}"
            name = spelled(names[i], m + n)
            func = R.register_layout if case["classes"][i]["layout"] else R.register_element
            given = func(name)(classes[i]) if n % 2 else func(name, classes[i])
            if n % 2 and given is not classes[i]:
                fail("a decorator returned something else")
        elif k == "attr":
            attrs.add(i)
            name, func = f"{ATTRS[i]}{serial}", recorder("attr", i)
            if n < 2:
                R.register_custom_attribute(name, func=func)
            elif n == 2:
                R.register_custom_attribute(name)(func)
            else:
                R.register_custom_attribute(f"other{serial}", name, func=func)
        else:
            group = [classes[i]]
            # Several types at once share a function
            more = [j for k2, j, _, m2 in regs if k2 == k and m2 == m == 3 and j != i]
            if m == 3:
                if (k, 3) in todo:
                    continue
                todo[k, 3] = True
                group = [classes[j] for j in sorted([i, *more])]
            func = recorder(k, i)
            for t in group:
                registered[k, t] = (k, i)
            method = getattr(R, f"register_{k}")
            if n % 2:
                method(*group, func=func)
            elif method(*group)(func) is not func:
                fail("a decorator returned something else")

    def nearest(k, cls):
        for t in cls.__mro__:
            if (k, t) in registered:
                return registered[k, t]
            if t.__module__.startswith("PySide6"):
                return None

    renderer = R(autoshow=False)
    elements = []
    seen = set()
    interesting = False
    known = sorted(i for i in names if not case["classes"][i]["layout"])
    layouts = sorted(i for i in names if case["classes"][i]["layout"])
    for k, a, b, c in ops:
        if k == "builtin":
            name = BUILTIN[a % len(BUILTIN)]
            el = renderer.create_element([name, name.lower(), name.upper()][b % 3])
            created.append(el)
            want = next(getattr(m, name) for m in (QtWidgets, QtGui, QtCore) if hasattr(m, name))
            if not isinstance(el, want):
                fail(f"{name} gives {type(el).__mro__}")
        elif k == "unknown":
            name = [f"nosuch{serial}", f"QWidget{serial}", f"q{serial}.sub", f"QLabel.Nosuch{serial}", "QLabe", "qlistvie"][a % 6]
            try:
                el = renderer.create_element(name)
            except TypeError:
                continue
            created.append(el)
            fail(f"{name} gives {el}")
        elif k == "layout" and layouts:
            i = layouts[a % len(layouts)]
            el = renderer.create_element("widget")
            created.append(el)
            name = spelled(names[i], b)
            try:
                renderer.set_attribute(el, "layout", {"type": name})
            except Exception as e:
                fail(f"layout {name}: {e!r}")
            if not isinstance(el.layout(), classes[i]):
                fail(f"layout {name} gives {el.layout()} instead of {classes[i]}")
        elif k == "create" or k in ("insert", "remove", "attr") and not elements:
            if known:
                i = known[a % len(known)]
                name = spelled(names[i], b)
                el = renderer.create_element(name)
                created.append(el)
                if not isinstance(el, classes[i]) or type(el) is not classes[i] and type(el).__mro__[1] is not classes[i]:
                    fail(f"{name} gives {type(el).__mro__} instead of {classes[i]}")
                elements.append((el, i))
        elif k in ("insert", "remove"):
            parent, i = elements[a % len(elements)]
            want = nearest(k, classes[i])
            if not want:
                continue  # (Qt's own behaviour is part of C17)
            child, anchor = QtWidgets.QWidget(), QtWidgets.QWidget() if c % 2 else None
            created.extend(x for x in (child, anchor) if x)
            if k == "remove":
                renderer.insert(child, parent)
            del calls[:]
            if k == "insert":
                if anchor:
                    renderer.insert(anchor, parent)
                    del calls[:]
                renderer.insert(child, parent, anchor=anchor)
                expected = (want, parent, child, anchor)
            else:
                renderer.remove(child, parent)
                expected = (want, parent, child)
            if len(calls) != 1 or calls[0][0] != want or any(x is not y for x, y in zip(calls[0][1:], expected[1:])):
                fail(f"{k} for {classes[i].__mro__[:4]} called {calls} instead of {expected}")
        elif k == "attr":
            el, i = elements[a % len(elements)]
            j = b % len(ATTRS)
            attr = f"{ATTRS[j]}{serial}"
            want = ("attr", j) if j in attrs else nearest("set_attr", classes[i])
            del calls[:]
            renderer.set_attribute(el, attr, c)
            if want is None:
                if calls or getattr(el, attr, None) != c:
                    fail(f"{attr} of {classes[i]} is {getattr(el, attr, None)} instead of {c}, called {calls}")
            elif len(calls) != 1 or calls[0] != (want, el, attr, c) or calls[0][1] is not el:
                fail(f"{attr} of {classes[i]} called {calls} instead of {want}")
        else:
            continue
        seen.add(k)
        if k in ("insert", "remove", "attr") and elements:
            i = elements[a % len(elements)][1]
            kind = "set_attr" if k == "attr" else k
            interesting |= nearest(kind, classes[i]) is not None and (kind, classes[i]) not in registered and \
                len({f for (k2, _), f in registered.items() if k2 == kind}) > 1
    return {"nontrivial": bool(interesting), "classes": sorted(seen | {f"register {k}" for k, *_ in regs})}
