"""A strict recording renderer: it checks the protocol between the engine and a renderer."""
from collagraph.renderers import Renderer

from . import Violation
from .app import WeakList, raw as to_raw


class El:
    def __init__(self, type, serial):
        self.type, self.serial = type, serial
        self.kids, self.attrs, self.on = [], {}, {}
        self.parent = None
        self.text = None
        self.removed = False  # was taken out of the tree

    def __repr__(self):
        return f"<{self.type}#{self.serial}>"


class FalsyEl(El):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EqualEl(El):
    def __eq__(self, other):
        return isinstance(other, El)

    __hash__ = None


class RaisingEl(El):
    """Comparing, hashing or testing it for truth is an error"""

    def __eq__(self, other):
        raise Violation("elements can't be compared")

    def __bool__(self):
        raise Violation("elements have no truth value")

    __hash__ = None


FLAVOURS = {"plain": El, "falsy": FalsyEl, "equal": EqualEl, "raising": RaisingEl}


def index(items, el):
    for i, x in enumerate(items):
        if x is el:
            return i
    return None


class RecRenderer(Renderer):
    def __init__(self, flavour="plain", strict=True, weak=False):
        self.cls = FLAVOURS[flavour]
        self.weak = weak
        self.created = WeakList() if weak else []
        self.container = self.cls("root", -1)
        self.calls = []  # (name, element, *args)
        self.strict = strict
        self.on_call = None

    def call(self, name, el, *args):
        if not self.weak:
            self.calls.append((name, el, *args))
        if self.on_call:
            self.on_call(name, el, *args)

    def bad(self, message):
        if self.strict:
            raise Violation("renderer protocol: " + message)

    def known(self, el, what):
        if not isinstance(el, El):
            self.bad(f"{what}: {el!r} is not an element of this renderer")
        return el

    def create_element(self, type):
        el = self.cls(type, len(self.created))
        self.created.append(el)
        self.call("create", el)
        return el

    def create_text_element(self):
        el = self.cls("TEXT_ELEMENT", len(self.created))
        self.created.append(el)
        self.call("create", el)
        return el

    def insert(self, el, parent, anchor=None):
        self.known(el, "insert")
        self.known(parent, "insert into")
        self.call("insert", el, parent, anchor)
        if el.parent is not None:
            self.bad(f"insert {el} into {parent}, but it is still attached to {el.parent}")
        if parent is el:
            self.bad(f"insert {el} into itself")
        if anchor is None:
            parent.kids.append(el)
        else:
            i = index(parent.kids, anchor)
            if i is None:
                self.bad(f"insert {el} into {parent} before {anchor}, which is not a child of it")
                i = len(parent.kids)
            parent.kids.insert(i, el)
        el.parent = parent

    def remove(self, el, parent):
        self.known(el, "remove")
        self.known(parent, "remove from")
        self.call("remove", el, parent)
        i = index(parent.kids, el)
        if i is None:
            self.bad(f"remove {el} from {parent}, but it is not a child of it")
            return
        del parent.kids[i]
        el.parent = None

    def set_element_text(self, el, value):
        self.known(el, "set_element_text")
        self.call("text", el, value)
        if el.type != "TEXT_ELEMENT":
            self.bad(f"set_element_text on {el}")
        if not isinstance(value, str):
            self.bad(f"set_element_text with {value!r}")
        el.text = value

    def set_attribute(self, el, attr, value):
        self.known(el, "set_attribute")
        self.call("set", el, attr, value)
        el.attrs[attr] = to_raw(value)

    def remove_attribute(self, el, attr, value):
        self.known(el, "remove_attribute")
        self.call("unset", el, attr, value)
        if attr not in el.attrs:
            self.bad(f"remove attribute {attr} of {el}, which is not set")
            return
        if el.attrs[attr] != to_raw(value):
            self.bad(f"remove attribute {attr} of {el} with value {value!r} instead of {el.attrs[attr]!r}")
        del el.attrs[attr]

    def add_event_listener(self, el, event_type, value):
        self.known(el, "add_event_listener")
        self.call("listen", el, event_type, value)
        if event_type in el.on:
            self.bad(f"second listener for {event_type} on {el}")
        if not callable(value):
            self.bad(f"listener {value!r} is not callable")
        el.on[event_type] = value

    def remove_event_listener(self, el, event_type, value):
        self.known(el, "remove_event_listener")
        self.call("unlisten", el, event_type, value)
        if event_type not in el.on:
            self.bad(f"remove listener for {event_type} of {el}, but there is none")
            return
        current = el.on[event_type]
        if current is not value and not current == value:
            self.bad(f"remove another listener for {event_type} of {el} than was added")
        del el.on[event_type]


def plain_rec(el):
    if el.type == "TEXT_ELEMENT":
        return {"type": "TEXT_ELEMENT", "text": el.text}
    return {"type": el.type, "attrs": dict(el.attrs), "kids": [plain_rec(k) for k in el.kids]}
