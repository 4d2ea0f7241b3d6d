"""A document with the semantics of a browser as seen from pyodide (a stand-in for its `js` module)."""
import sys
import types

from . import Violation
from .app import raw


class JsError(Violation):
    """What would be raised as JsException in a browser"""


def js_string(value):
    value = raw(value)
    if value is None:
        return "undefined"
    if isinstance(value, bool):
        return "true" if value else "false"
    if isinstance(value, float) and value.is_integer():
        return str(int(value))
    return str(value)


class Node:
    def __init__(self):
        self.parentNode = None
        self.listeners = []  # (type, listener)

    childNodes = ()

    @property
    def nextSibling(self):
        if self.parentNode is None:
            return None
        kids = self.parentNode.childNodes
        i = position(kids, self)
        return kids[i + 1] if i + 1 < len(kids) else None

    def remove(self):
        if self.parentNode is not None:
            self.parentNode.removeChild(self)

    def addEventListener(self, type, listener, *options):
        if not callable(listener):
            raise JsError(f"addEventListener with {listener!r}")
        # (adding the very same listener again has no effect in a browser)
        self.listeners.append((js_string(type), listener))

    def removeEventListener(self, type, listener, *options):
        for i, (t, known) in enumerate(self.listeners):
            # pyodide finds the listener that is equal
            if t == type and (known is listener or known == listener):
                del self.listeners[i]
                return
        # ... and raises KeyError otherwise
        raise JsError(f"removeEventListener: {type} {listener!r} was never added to {self}")


def position(kids, node):
    for i, k in enumerate(kids):
        if k is node:
            return i
    return None


class Text(Node):
    def __init__(self, data):
        super().__init__()
        self.data = js_string(data)

    @property
    def textContent(self):
        return self.data

    @textContent.setter
    def textContent(self, value):
        self.data = "" if value is None else js_string(value)

    nodeValue = textContent

    def __repr__(self):
        return f"#text {self.data!r}"


class Element(Node):
    def __init__(self, type):
        super().__init__()
        self.tagName = type
        self.childNodes = []
        self.attributes = {}

    def __repr__(self):
        return f"<{self.tagName}>"

    @property
    def firstChild(self):
        return self.childNodes[0] if self.childNodes else None

    @property
    def lastChild(self):
        return self.childNodes[-1] if self.childNodes else None

    @property
    def children(self):
        return [k for k in self.childNodes if isinstance(k, Element)]

    def check(self, node):
        if not isinstance(node, Node):
            raise JsError(f"TypeError: {node!r} is not a node")
        up = self
        while up is not None:
            if up is node:
                raise JsError(f"HierarchyRequestError: {node} contains {self}")
            up = up.parentNode

    def appendChild(self, node):
        return self.insertBefore(node, None)

    def append(self, *nodes):
        for node in nodes:
            self.insertBefore(node, None)

    def insertBefore(self, node, anchor):
        self.check(node)
        if anchor is not None and position(self.childNodes, anchor) is None:
            raise JsError(f"NotFoundError: {anchor} is not a child of {self}")
        if anchor is node:
            anchor = node.nextSibling
        if node.parentNode is not None:
            node.parentNode.removeChild(node)
        i = len(self.childNodes) if anchor is None else position(self.childNodes, anchor)
        self.childNodes.insert(i, node)
        node.parentNode = self
        return node

    def removeChild(self, node):
        i = position(self.childNodes, node)
        if i is None:
            raise JsError(f"NotFoundError: {node} is not a child of {self}")
        del self.childNodes[i]
        node.parentNode = None
        return node

    def replaceChild(self, node, old):
        self.insertBefore(node, old)
        return self.removeChild(old)

    def setAttribute(self, name, value):
        if not name or any(c in name for c in " \n\t/>="):
            raise JsError(f"InvalidCharacterError: {name!r}")
        self.attributes[name] = js_string(value)

    def getAttribute(self, name):
        return self.attributes.get(name)

    def hasAttribute(self, name):
        return name in self.attributes

    def removeAttribute(self, name):
        self.attributes.pop(name, None)

    @property
    def textContent(self):
        return "".join(k.textContent for k in self.childNodes)

    @textContent.setter
    def textContent(self, value):
        for k in list(self.childNodes):
            self.removeChild(k)
        if value:
            self.appendChild(Text(value))


class Document:
    def __init__(self):
        self.body = Element("body")

    def createElement(self, type):
        if not isinstance(type, str) or not type or not type[0].isalpha():
            raise JsError(f"InvalidCharacterError: {type!r}")
        return Element(type)

    def createTextNode(self, data):
        return Text(data)


def install():
    """-> document"""
    document = Document()
    js = types.ModuleType("js")
    js.document = document
    js.window = types.SimpleNamespace(document=document)
    sys.modules["js"] = js
    module = sys.modules.get("collagraph.renderers.dom_renderer")
    if module is not None and hasattr(module, "js"):
        module.js = js
    return document


def plain_dom(node):
    if isinstance(node, Text):
        return {"type": "TEXT_ELEMENT", "text": node.data}
    return {"type": node.tagName, "attrs": dict(node.attributes), "kids": [plain_dom(k) for k in node.childNodes]}
