"""Specs of applications: generator, interpreter (render functions) and reference model.

A spec is a JSON tree of nodes held in one reactive state object; the render functions
interpret it, so that changing the state changes the description.  The reference model
does the same without the engine, as a plain recursive function.

node kinds ("t"):
  el   {"type", "attrs", "key", "on", "kids", "live", "show"}
  text {"s"}
  tpl  {"key", "kids"}
  fn   {"f", "key", "kid", "live"}        function component
  cls  {"c", "key", "kid", "live", "attrs"}   class component
"""
import copy
import weakref

from observ import reactive, watch
from observ.proxy import Proxy

import collagraph as cg
from collagraph import h

from . import Violation

EL_TYPES = ["aa", "bb", "cc"]
ATTRS = ["x", "y", "z"]
KEYS = ["k", "l", "m", "", 0, 1, 2, "1"]
FNS = 2
CELLS = 4
CLASSES = 2
EVENTS = ["click", "change", "noon_on_x"]

VALUES = [2, 3, 4, 5, "", "s", "t", 0, None, 0.5, False, [], [2], [3], [2, 3]]
HANDLER_KINDS = ["lam", "lamdef", "lamobj", "bound", "partial", "fn"]


# --------------------------------------------------------------------- generation
# r is a random.Random
def gen_value(r):
    return copy.copy(r.choice(VALUES))


def gen_attrs(r, maxn=2):
    return {k: gen_value(r) for k in r.sample(ATTRS, r.randint(0, maxn))}


def gen_on(r):
    if r.random() < 0.4:
        return {}
    if r.random() < 0.06:
        return {r.choice(EVENTS): {"k": "none", "v": 0}}  # on_click=None
    return {r.choice(EVENTS): {"k": r.choice(HANDLER_KINDS), "v": r.randint(0, 2)}}


def listeners(node):
    """The handlers that are set (None stands for no handler)"""
    return {ev: desc for ev, desc in raw(node["on"]).items() if desc["k"] != "none"}


def gen_key(r, p=0.5):
    return r.choice(KEYS) if r.random() < p else None


def gen_node(r, depth=3, text=True, opts=None):
    """opts: handlers (bool), without (kinds that are left out), text (bool)"""
    opts = opts or {}
    kinds = ["el", "el"]
    if depth > 0:
        kinds += ["el", "tpl", "fn", "cls", "cls"]
    if text and opts.get("text", True):
        kinds += ["text"]
    if opts.get("cells") and depth > 0:
        kinds += ["if", "if"]
    kinds = [k for k in kinds if k not in opts.get("without", ())]
    t = r.choice(kinds)
    if t == "text":
        return {"t": "text", "s": r.choice(["p", "q", ""])}
    if t == "if":
        return {"t": t, "cell": r.randint(0, CELLS - 1), "a": gen_node(r, depth - 1, text, opts),
                "b": gen_node(r, depth - 1, text, opts)}
    node = {"t": t, "key": gen_key(r, opts.get("keyed", 0.5))}
    if t in ("el", "tpl"):
        n = 0 if depth <= 0 else r.choice([0, 1, 2, 2, 3, 4])
        if t == "el":
            node["type"] = r.choice(EL_TYPES)
            node["attrs"] = gen_attrs(r)
            node["live"] = r.random() < 0.5
            node["show"] = r.random() < 0.5
            node["on"] = gen_on(r) if opts.get("handlers") else {}
        node["kids"] = [gen_node(r, depth - 1, True, opts) for _ in range(n)]
    else:
        node["live"] = r.random() < 0.5
        node["kid"] = gen_node(r, depth - 1, False, opts)
        if t == "fn":
            node["f"] = r.randint(0, FNS - 1)
        else:
            node["c"] = r.randint(0, CLASSES - 1)
            node["attrs"] = gen_attrs(r, r.choice([1, 1, 2]))
            node["asref"] = r.random() < 0.4
            node["on"] = gen_on(r) if opts.get("handlers") else {}
    if "attrs" in node and r.random() < 0.15:
        # its props are a reactive dict, that is changed in place
        node["held"] = True
        return node
    if opts.get("cells") and "attrs" in node and r.random() < 0.4:
        node["cells"] = {r.choice(ATTRS): r.randint(0, CELLS - 1)}
    return node


OPS = ["set_attr", "set_attr", "del_attr", "replace_attrs", "text", "insert", "insert",
       "remove", "remove", "replace", "replace", "perm", "perm", "move", "kid", "retype", "rekey",
       "newkids", "bump", "rerender", "live"]


def gen_op(r, opts=None):
    opts = opts or {}
    kinds = OPS + (["on"] * 5 if opts.get("handlers") else []) + list(opts.get("extra", ()))
    k = r.choice(kinds)
    sel = r.randint(0, 40)
    if k == "set_attr":
        return [k, sel, r.choice(ATTRS), gen_value(r)]
    if k == "del_attr":
        return [k, sel, r.choice(ATTRS)]
    if k == "replace_attrs":
        return [k, sel, gen_attrs(r)]
    if k == "text":
        return [k, sel, r.choice(["p", "q", ""])]
    if k in ("insert", "replace"):
        return [k, sel, r.randint(0, 4), gen_node(r, r.choice([0, 1, 2]), True, opts)]
    if k == "remove":
        return [k, sel, r.randint(0, 4)]
    if k == "perm":
        return [k, sel, [r.randint(0, 5) for _ in range(r.randint(2, 5))]]
    if k == "move":
        return [k, sel, r.randint(0, 4), r.randint(0, 4)]
    if k == "kid":
        return [k, sel, gen_node(r, r.choice([0, 1, 2]), False, opts)]
    if k == "retype":
        return [k, sel, r.choice(EL_TYPES)]
    if k == "rekey":
        return [k, sel, gen_key(r, 0.7)]
    if k == "newkids":
        # removes and inserts and reorders all at once
        items = [r.randint(0, 4) if r.random() < 0.7 else gen_node(r, r.choice([0, 1]), True, opts)
                 for _ in range(r.randint(0, 5))]
        return [k, sel, items]
    if k == "on":
        return [k, sel, gen_on(r)]
    if k == "cell":
        return [k, sel, r.choice([0, 1, 2, 0, 1])]
    return [k, sel]


def gen_many(r, opts):
    """An element with many children, and a way to change which ones and their order"""
    without = [*(opts or {}).get("without", ()), "if"]
    names = [f"w{i}" for i in range(40)] + list(range(3, 30))
    r.shuffle(names)
    keyed = r.choice([0, 0.5, 0.9, 1])

    def item():
        node = gen_node(r, r.choice([0, 0, 0, 1]), True, {**(opts or {}), "without": without})
        if "key" in node:
            node["key"] = names.pop() if names and r.random() < keyed else None
        return node

    n = r.randint(6, 28)
    root = {"t": "el", "key": None, "type": r.choice(EL_TYPES), "attrs": {}, "live": False, "show": False, "on": {},
            "kids": [item() for _ in range(n)]}
    if "tpl" not in without and r.random() < 0.3:
        root["kids"] = [{"t": "tpl", "key": None, "kids": root["kids"]}] + [item() for _ in range(r.randint(0, 2))]

    def op():
        k = r.choice(["insert", "remove", "perm", "perm", "move", "newkids", "newkids"])
        sel = r.choice([0, 0, 0, 1])
        if k == "insert":
            return [k, sel, r.randint(0, n), item()]
        if k == "remove":
            return [k, sel, r.randint(0, n)]
        if k == "perm":
            return [k, sel, [r.randint(0, n) for _ in range(r.randint(2, n))]]
        if k == "move":
            return [k, sel, r.randint(0, n), r.randint(0, n)]
        order = list(range(n))
        if r.random() < 0.5:
            r.shuffle(order)
        order = [i for i in order if r.random() < 0.8]
        return [k, sel, [i if r.random() < 0.9 else item() for i in order]]

    return root, op


def gen_deep(r, opts, depth):
    """Many levels, of which most don't have an element of their own"""
    without = (opts or {}).get("without", ())
    kinds = [k for k in r.choice([["tpl", "fn", "cls"], ["tpl"], ["fn"], ["cls"], ["el"], ["tpl", "fn", "cls", "el"]])
             if k not in without] or ["el"]
    node = gen_node(r, r.choice([0, 1]), False, opts)
    for level in range(depth):
        t = "el" if level == depth - 1 and r.random() < 0.5 else r.choice(kinds)
        wrap = gen_node(r, 1, False, opts)
        while wrap["t"] != t:
            wrap = gen_node(r, 1, False, opts)
        if "kids" in wrap:
            before = r.choice([0, 0, 1, 2])
            wrap["kids"] = ([gen_node(r, 0, True, opts) for _ in range(before)] + [node]
                            + [gen_node(r, 0, True, opts) for _ in range(r.choice([0, 0, 1]))])
        else:
            wrap["kid"] = node
        node = wrap
    return node


def gen_parts(r, opts):
    """An element of which most of the children are templates and components, (partly) empty ones too"""
    opts = opts or {}
    kinds = [k for k in ["tpl", "tpl", "tpl", "cls", "fn"] if k not in opts.get("without", ())]

    def part(depth):
        if opts.get("cells") and depth > 0 and r.random() < 0.35:
            none = {"t": "tpl", "key": None, "kids": []}
            a = part(depth - 1)
            b = r.choice([none, part(depth - 1), {**none, "key": a.get("key")}])
            a, b = r.choice([(a, b), (b, a)])
            return {"t": "if", "cell": r.randint(0, 1), "a": a, "b": b}
        if depth <= 0 or not kinds or r.random() < 0.2:
            return gen_node(r, 0, True, {**opts, "keyed": 0.5})
        t = r.choice(kinds)
        node = {"t": t, "key": gen_key(r, 0.6)}
        if t == "tpl":
            node["kids"] = [part(depth - 1) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
            return node
        while True:
            node = gen_node(r, 1, False, {**opts, "keyed": 0.6})
            if node["t"] == t:
                break
        node["kid"] = {"t": "tpl", "key": None, "kids": [part(depth - 1) for _ in range(r.choice([0, 1, 2, 3]))]} \
            if "tpl" in kinds else gen_node(r, 0, False, opts)
        return node

    return {"t": "el", "key": None, "type": r.choice(EL_TYPES), "attrs": {}, "live": False, "show": False, "on": {},
            "kids": [part(r.choice([1, 2, 3, 3])) for _ in range(r.randint(2, 5))]}


def gen_case(r, opts=None, depth=3, max_ops=8):
    size, big = r.random() if depth > 2 else 1, None
    depth = r.choice([d for d in (1, 2, 3, 3) if d <= depth])
    if size < 0.06:
        root, big = gen_many(r, opts)
    elif size < 0.12:
        root = gen_deep(r, opts, r.randint(4, 12))
    elif size < 0.24:
        root = gen_parts(r, opts)
    else:
        root = gen_node(r, depth, False, opts)
    ops = [big() if big and r.random() < 0.7 else gen_op(r, opts) for _ in range(r.randint(1, max_ops))]
    return {"root": root, "mode": r.choice((opts or {}).get("modes", ["fn", "cls", "bare", "static"])), "ops": ops,
            "fresh": r.random() < 0.25}  # types are equal, yet other objects, at every render


# --------------------------------------------------------------------- application
class Receiver:
    def __init__(self, app, index):
        self.app, self.index = app, index

    def handle(self, *args, **kwargs):
        self.app.fired.append((("bound", self.index), args, kwargs))

    # Equal to all of its kind on purpose: only identity may count
    def __eq__(self, other):
        return isinstance(other, Receiver)

    def __hash__(self):
        return 7


def make_module_fns(app):
    def make(i):
        def fn0(*args, **kwargs):
            app.fired.append((("fn", 0), args, kwargs))

        def fn1(*args, **kwargs):
            app.fired.append((("fn", 1), args, kwargs))

        def fn2(*args, **kwargs):
            app.fired.append((("fn", 2), args, kwargs))

        return (fn0, fn1, fn2)[i]

    return [make(i) for i in range(3)]


def raw(value):
    """Plain copy of (possibly reactive) data"""
    if isinstance(value, Proxy):
        value = value.target
    if isinstance(value, dict):
        return {k: raw(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [raw(v) for v in value]
    return value


def resolve_node(node, cells):
    while node["t"] == "if":
        node = node["a"] if cells[f"c{node['cell']}"] else node["b"]
    return node


def resolve_attrs(node, cells):
    """The attributes, and those that are read from a cell"""
    attrs = {**node["attrs"]}
    if "cells" in node:
        for name, cell in node["cells"].items():
            attrs[name] = cells[f"c{cell}"]
    return attrs


class WeakList:
    """List that doesn't keep its items alive"""

    def __init__(self):
        self.refs, self.count = [], 0

    def append(self, item):
        self.count += 1
        self.refs = [r for r in self.refs if r() is not None] + [weakref.ref(item)]

    def __iter__(self):
        return iter([x for x in (r() for r in self.refs) if x is not None])

    def __len__(self):
        return self.count


class Spec:
    """The data that is rendered and the ways in which it can change."""

    def __init__(self, case, wrap=lambda x: x):
        self.case = case
        self.counter = 0
        self.target = None  # number of the item that the last change was about
        self.cells = wrap({f"c{i}": 0 for i in range(CELLS)})
        self.state = wrap({"root": self.fresh(case["root"])})

    def fresh(self, node):
        node = copy.deepcopy(node)

        def number(n):
            self.counter += 1
            n["n"] = self.counter
            for kid in n.get("kids", ()):
                number(kid)
            for name in ("kid", "a", "b"):
                if name in n:
                    number(n[name])

        number(node)
        return node

    # ---- ops
    def nodes(self):
        """All the nodes in the current description in document order."""
        result = []

        def walk(n):
            result.append(n)
            if n["t"] == "if":
                walk(n["a"])
                walk(n["b"])
            elif "kids" in n:
                for kid in n["kids"]:
                    walk(kid)
            elif "kid" in n:
                walk(n["kid"])

        walk(self.state["root"])
        return result

    def pick(self, sel, pred):
        found = [n for n in self.nodes() if pred(n)]
        node = found[sel % len(found)] if found else None
        self.target = node and node["n"]
        return node

    def change(self, op):
        k, sel, *args = op
        if k in ("set_attr", "del_attr", "replace_attrs"):
            node = self.pick(sel, lambda n: n["t"] in ("el", "cls"))
            if node is None:
                return False
            attrs = node["attrs"]
            if k == "set_attr":
                name, value = args
                if name in attrs and attrs[name] == value:
                    return False
                if name not in attrs and value is None:
                    return False  # (observ doesn't notice)
                attrs[name] = copy.deepcopy(value)
            elif k == "del_attr":
                if args[0] not in attrs:
                    return False
                del attrs[args[0]]
            else:
                if raw(attrs) == args[0]:
                    return False
                node["attrs"] = copy.deepcopy(args[0])
            return True
        if k == "text":
            node = self.pick(sel, lambda n: n["t"] == "text")
            if node is None or node["s"] == args[0]:
                return False
            node["s"] = args[0]
            return True
        if k in ("insert", "remove", "replace", "perm", "move", "newkids"):
            node = self.pick(sel, lambda n: "kids" in n)
            if node is None:
                return False
            kids = node["kids"]
            size = len(kids)
            if k == "insert":
                kids.insert(args[0] % (size + 1), self.fresh(args[1]))
                return True
            if k == "newkids":
                new, used = [], set()
                for item in args[0]:
                    if isinstance(item, int):
                        if size and item % size not in used:
                            used.add(item % size)
                            new.append(to_raw_ref(kids, item % size))
                    else:
                        new.append(self.fresh(item))
                if [x["n"] for x in new] == [x["n"] for x in kids]:
                    return False
                node["kids"] = new
                return True
            if not size:
                return False
            if k == "remove":
                del kids[args[0] % size]
            elif k == "replace":
                kids[args[0] % size] = self.fresh(args[1])
            elif k == "perm":
                order = sorted(range(size), key=lambda i: (args[0][i % len(args[0])], i))
                if order == list(range(size)):
                    order.reverse()
                if size < 2:
                    return False
                node["kids"] = [to_raw_ref(kids, i) for i in order]
            else:
                i, j = args[0] % size, args[1] % size
                if i == j:
                    return False
                new = [to_raw_ref(kids, x) for x in range(size)]
                new.insert(j, new.pop(i))
                node["kids"] = new
            return True
        if k == "kid":
            node = self.pick(sel, lambda n: "kid" in n)
            if node is None:
                return False
            node["kid"] = self.fresh(args[0])
            return True
        if k == "retype":
            node = self.pick(sel, lambda n: n["t"] == "el")
            if node is None or node["type"] == args[0]:
                return False
            node["type"] = args[0]
            return True
        if k == "rekey":
            node = self.pick(sel, lambda n: "key" in n)
            if node is None:
                return False
            if node["key"] == args[0] and type(node["key"]) is type(args[0]):
                return False
            node["key"] = args[0]
            return True
        if k == "live":
            node = self.pick(sel, lambda n: "live" in n)
            if node is None:
                return False
            node["live"] = not node["live"]
            return True
        if k == "on":
            node = self.pick(sel, lambda n: "on" in n)
            if node is None or raw(node["on"]) == args[0]:
                return False
            node["on"] = copy.deepcopy(args[0])
            return True
        if k == "root":
            self.state["root"] = self.fresh(args[0])
            return True
        if k == "cell":
            self.target = None
            name = f"c{sel % CELLS}"
            if self.cells[name] == args[0]:
                return False
            self.cells[name] = args[0]
            return True
        raise AssertionError(op)


class App(Spec):
    """Interprets a spec with the real engine."""

    def __init__(self, case, renderer, container, loop=cg.EventLoopType.SYNC, callback=None, weak=False):
        # In mode "static" the data isn't reactive: it is shown by rendering again
        super().__init__(case, reactive if case["mode"] != "static" else lambda x: x)
        # The same data without anything reactive, for the model
        self.shadow = Spec(case)
        self.renderer = renderer
        self.container = container
        self.fired = []
        self.log = []  # life-cycle events
        self.weak = weak
        self.handlers = WeakList()
        self.instances = WeakList() if weak else []  # every component instance that was ever created
        self.renders = []  # names of the render functions that ran
        self.receivers = [Receiver(self, i) for i in range(3)]
        self.module_fns = make_module_fns(self)
        self.objects = [[i] for i in range(3)]
        self.fns = [self.make_fn(i) for i in range(FNS)]
        self.fresh_types = bool(case.get("fresh"))
        self.owners = [Owner(fn) for fn in self.fns]
        self.classes = [self.make_class(i) for i in range(CLASSES)]
        self.app_fn = self.make_app_fn()
        self.app_cls = self.make_app_class()
        self.on_hook = None
        self.before_change = None
        self.before_bump = None
        self.held = {}
        self.node_refs = weakref.WeakValueDictionary()
        self.writes = 0  # number of separate changes for the last op
        self.events = 0
        self.gui = cg.Collagraph(
            renderer, event_loop_type=loop
        )
        self.mirror = None
        self.on_mirror = None
        if case.get("mirror") and case["mode"] != "static":
            # The application has a watcher of its own: it copies one cell to another
            src, dst = (f"c{i % CELLS}" for i in case["mirror"])
            self.mirrored = self.cells[src]

            def copy_cell(new):
                self.mirrored = new
                self.shadow.cells[dst] = new
                if self.on_mirror:
                    self.on_mirror()
                self.cells[dst] = new
                if case["mode"] == "bare":
                    # (as for other changes)
                    self.render()

            self.mirror = watch(lambda: self.cells[src], copy_cell)
            self.mirror_src = src
        self.callback = callback

    # ---- rendering
    def root_vnode(self):
        mode = self.case["mode"]
        if mode == "fn":
            return h(self.app_fn, self.state)
        if mode == "cls":
            return h(self.app_cls, self.state)
        return self.build(self.state["root"], None)

    def render(self):
        self.gui.render(self.root_vnode(), self.container, self.callback)

    def make_app_fn(self):
        def AppFn(props):
            self.renders.append("app")
            return self.build(props["root"], None)

        return AppFn

    def make_app_class(self):
        app = self

        class AppCls(Recorded):
            application = app

            def render(self):
                app.renders.append("app")
                return app.build(self.props["root"], self)

        return AppCls

    def make_fn(self, i):
        def fn(props):
            node = props["node"] if "node" in props else props
            self.renders.append(node["n"])
            return self.build(node["kid"], None)

        fn.__name__ = f"fn{i}"
        # make sure that the functions differ
        return fn

    def type_of(self, node):
        if node["t"] == "el":
            return "-".join(["t", node["type"]])[2:] if self.fresh_types else node["type"]
        if node["t"] == "cls":
            return self.classes[node["c"]]
        return self.owners[node["f"]].show if self.fresh_types else self.fns[node["f"]]

    def make_class(self, i):
        app = self

        class Cls(Recorded):
            application = app

            def render(self):
                node = self.node()
                app.renders.append(node["n"])
                return app.build(node["kid"], self)

        Cls.__name__ = f"Cls{i}"
        return Cls

    def build_kids(self, nodes, comp):
        seen = set()
        result = []
        for node in nodes:
            node = resolve_node(node, self.cells)
            if node["t"] == "text":
                result.append(node["s"])
            else:
                result.append(self.build(node, comp, seen))
        return result

    def handler(self, desc, node_id):
        result = self.make_handler(desc)
        if self.weak and desc["k"] in ("lam", "lamdef", "lamobj", "partial"):
            self.handlers.append(result)
        return result

    def make_handler(self, desc):
        kind, v = desc["k"], desc["v"]
        fired = self.fired
        if kind == "none":
            return None
        if kind == "lam":
            return lambda *a, **k: fired.append((("lam", v), a, k))
        if kind == "lamdef":
            return lambda *a, v=v, **k: fired.append((("lamdef", v), a, k))
        if kind == "lamobj":
            obj = self.objects[v]
            return lambda *a, **k: fired.append((("lamobj", obj[0]), a, k))
        if kind == "bound":
            return self.receivers[v].handle
        if kind == "partial":
            from functools import partial

            return partial(self.partial_target, v)
        return self.module_fns[v]

    def partial_target(self, v, *a, **k):
        self.fired.append((("partial", v), a, k))

    def build(self, node, comp, seen=None):
        node = resolve_node(node, self.cells)
        t = node["t"]
        key = node.get("key")
        if seen is not None and key is not None:
            if key in seen:
                key = None  # keys have to be unique among siblings
            else:
                seen.add(key)
        if t == "el":
            kids = self.build_kids(node["kids"], comp)
            if is_held(node, key):
                return h(self.type_of(node), self.held_props(node), *kids)
            if is_live(node, key, comp):
                return h(self.type_of(node), node["attrs"], *kids)
            attrs = resolve_attrs(node, self.cells)
            if key is not None:
                attrs["key"] = key
            if node["show"] and comp is not None:
                attrs["st"] = comp.state["n"]
            for ev, desc in node["on"].items():
                attrs[f"on_{ev}"] = self.handler(desc, node["n"])
            return h(self.type_of(node), attrs, *kids)
        if t == "tpl":
            kids = self.build_kids(node["kids"], comp)
            return h("template", {"key": key} if key is not None else None, *kids)
        typ = self.type_of(node)
        if is_held(node, key):
            return h(typ, self.held_props(node))
        if node["live"] and key == node.get("key") and not node.get("on"):
            return h(typ, node)
        props = {"ref": self.ref(node)} if node.get("asref") else {"node": node}
        if key is not None:
            props["key"] = key
        if t == "cls":
            props.update({f"p_{k}": v for k, v in resolve_attrs(node, self.cells).items()})
            for ev, desc in node["on"].items():
                props[f"on_{ev}"] = self.handler(desc, node["n"])
        return h(typ, props)

    def ref(self, node):
        """The very same object for an item, whatever changes in it"""
        ref = self.node_refs.get(node["n"])
        if ref is None:
            ref = self.node_refs[node["n"]] = Ref(node)
        return ref

    # ---- props that are one reactive dict, which is changed in place
    def held_target(self, n):
        """(made from plain data, such that nothing starts to depend on it)"""
        for node in self.shadow.nodes():
            if node["n"] == n:
                return self.props_of(node)
        return None

    def props_of(self, node):
        if node["t"] == "el":
            props = copy.deepcopy(node["attrs"])
        else:
            props = {f"p_{k}": v for k, v in copy.deepcopy(node["attrs"]).items()}
        for ev, desc in listeners(node).items():
            props[f"on_{ev}"] = desc
        return props

    def held_props(self, node):
        n = node["n"]
        if n not in self.held:
            # (a removed item might still be rendered, as long as its parent isn't)
            target = self.held_target(n) or self.props_of(raw(node))
            props = {k: self.handler(v, n) if k.startswith("on_") else v for k, v in target.items()}
            if node["t"] == "cls":
                props["node"] = node
            self.held[n] = (reactive(props), copy.deepcopy(target))
        return self.held[n][0]

    def sync_held(self):
        self.writes = 0
        for n, (props, known) in list(self.held.items()):
            target = self.held_target(n)
            if target is None:
                del self.held[n]
                continue
            for k in [k for k in known if k not in target]:
                del known[k]
                if k in props:
                    self.writes += 1
                    del props[k]
            for k, v in target.items():
                if k not in known or known[k] != v:
                    known[k] = copy.deepcopy(v)
                    if k not in props and v is None:
                        # observ doesn't notice
                        if "node" not in props:
                            continue  # (attributes that are None aren't set anyway)
                        props[k] = 1
                        self.writes += 1
                    self.writes += 1
                    props[k] = self.handler(v, n) if k.startswith("on_") else v

    # ---- changes
    def live_instances(self):
        return [i for i in self.instances if i.mounts > i.unmounts]

    def apply(self, op):
        """Applies op, returns whether it did anything."""
        self.writes = 0
        if op[0] == "bump":
            live = self.live_instances()
            if not live:
                return False
            self.bump(live[op[1] % len(live)])
            return True
        if op[0] == "rerender":
            self.render()
            return True
        # The real one comes last, because it might trigger an update right away
        done = self.shadow.change(op)
        if self.before_change and done:
            self.before_change()
        if self.change(op) != done:
            raise Violation(f"{op}: the data differs from what the user put in it")
        if done:
            self.sync_held()
        if done and self.case["mode"] in ("bare", "static"):
            # The root element is not made by a (watched) render function
            self.render()
        return done

    def check_mirror(self):
        """All work is done: so is that of the watcher of the application"""
        if self.mirror and self.mirrored != self.cells[self.mirror_src]:
            raise Violation(f"a watcher of the application isn't called: it knows {self.mirrored!r} instead of "
                            f"{self.cells[self.mirror_src]!r}")

    def bump(self, inst):
        if self.before_bump:
            self.before_bump(inst)
        inst.state["n"] += 1


def to_raw_ref(lst, i):
    """The very object in the list behind a proxy (without copying)."""
    item = lst[i]
    while hasattr(item, "target"):
        item = item.target
    return item


def is_held(node, key):
    return "held" in node and key is None


def is_live(node, key, comp):
    """Pass the reactive attrs object itself as props of the element."""
    return node["live"] and key is None and "cells" not in node and not node["on"] and not (node["show"] and comp is not None)


class Owner:
    """Has a method that is a function component"""

    def __init__(self, fn):
        self.fn = fn

    def show(self, props):
        return self.fn(props)


class Ref:
    """A reference to an item that is passed as prop"""

    def __init__(self, node):
        self.node = node


class Recorded(cg.Component):
    application = None

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        if self.element is not None:
            raise Violation("a component has an element before it's rendered")
        self.state["n"] = 0
        self.mounts = self.unmounts = self.updates = 0
        self.serial = len(self.application.instances)
        self.application.instances.append(self)

    def node(self):
        props = self.props
        if "ref" in props:
            return props["ref"].node
        return props["node"] if "node" in props else props

    def hook(self, name):
        app = self.application
        if not app.weak:
            app.log.append((name, self))
        if app.on_hook:
            app.on_hook(name, self)

    def mounted(self):
        self.mounts += 1
        self.hook("mounted")

    def updated(self):
        self.updates += 1
        self.hook("updated")

    def before_unmount(self):
        self.unmounts += 1
        self.hook("before_unmount")


# --------------------------------------------------------------------- reference model
class M:
    """A node of the model of the retained tree."""

    __slots__ = ("uid", "tid", "key", "node", "kids", "n", "live", "comp")
    count = 0

    def __repr__(self):
        return f"M({self.uid},{self.tid},{self.key})"


def tid(node):
    t = node["t"]
    if t == "el":
        return ("el", node["type"])
    if t == "fn":
        return ("fn", node["f"])
    if t == "cls":
        return ("cls", node["c"])
    return (t,)


def with_keys(nodes):
    seen, out = set(), []
    for node in nodes:
        key = node.get("key")
        if key is not None:
            if key in seen:
                key = None
            else:
                seen.add(key)
        out.append((node, key))
    return out


class Model:
    """What is retained (identity, local state) and what has to be shown."""

    def __init__(self, case):
        self.mode = case["mode"]
        self.uid = 0
        self.root = None

    def update(self, spec, cells=None):
        """spec: plain root node"""
        self.cells = cells
        spec = resolve_node(spec, cells)
        if self.mode in ("bare", "static"):
            top = [(spec, spec.get("key"))]
        else:
            top = [({"t": "app", "kid": spec, "n": 0}, None)]
        old = [self.root] if self.root else []
        self.root = self.recon(old, top, None)[0]

    def recon(self, olds, news, comp):
        avail = list(olds)
        out = []
        for node, key in news:
            match = None
            for o in avail:
                if o.key == key and (o.key is None) == (key is None):
                    match = o
                    break
            if match is not None:
                avail.remove(match)
            m = M()
            m.tid, m.key, m.node = tid(node), key, node
            m.comp = comp
            if match is not None and match.tid == m.tid:
                m.uid, m.n, oldkids = match.uid, match.n, match.kids
            else:
                self.uid += 1
                m.uid, m.n, oldkids = self.uid, 0, []
            if node["t"] in ("el", "tpl"):
                kids, c = with_keys([resolve_node(k, self.cells) for k in node["kids"]]), comp
            elif "kid" in node:
                kid = resolve_node(node["kid"], self.cells)
                kids = [(kid, kid.get("key"))]
                c = m if node["t"] == "cls" or (node["t"] == "app" and self.mode == "cls") else None
            else:
                kids, c = [], comp
            m.kids = self.recon(oldkids, kids, c)
            out.append(m)
        return out

    def all(self):
        out = []

        def walk(m):
            out.append(m)
            for k in m.kids:
                walk(k)

        if self.root:
            walk(self.root)
        return out

    def components(self):
        return [m for m in self.all() if m.tid[0] == "cls" or (m.tid == ("app",) and self.mode == "cls")]

    def expected(self):
        return self.host(self.root)

    def host(self, m):
        """List of expected host nodes: dicts with uid"""
        t = m.tid[0]
        if t == "text":
            return [{"uid": m.uid, "type": "TEXT_ELEMENT", "text": m.node["s"], "m": m}]
        kids = [x for k in m.kids for x in self.host(k)]
        if t != "el":
            return kids
        node = m.node
        attrs = resolve_attrs(node, self.cells)
        if m.key is not None:
            attrs["key"] = m.key
        if node["show"] and m.comp is not None and not is_held(node, m.key):
            attrs["st"] = m.comp.n
        attrs = {k: v for k, v in attrs.items() if v is not None}  # (not set)
        return [{"uid": m.uid, "type": node["type"], "attrs": attrs, "on": listeners(node), "kids": kids, "m": m}]


def el_of_expected(e):
    """Plain form, comparable with the plain form of what is rendered"""
    if e["type"] == "TEXT_ELEMENT":
        return {"type": "TEXT_ELEMENT", "text": e["text"]}
    return {"type": e["type"], "attrs": e["attrs"], "kids": [el_of_expected(k) for k in e["kids"]]}


def plain_dict_el(el):
    """Plain form of an element of the DictRenderer"""
    if el["type"] == "TEXT_ELEMENT":
        return {"type": "TEXT_ELEMENT", "text": el.get("text")}
    return {
        "type": el["type"],
        "attrs": raw(el.get("attrs", {})),
        "kids": [plain_dict_el(k) for k in el.get("children", [])],
    }


def show(forest, indent=0):
    lines = []
    for e in forest:
        if e["type"] == "TEXT_ELEMENT":
            lines.append(" " * indent + f"text {e['text']!r}")
        else:
            lines.append(" " * indent + f"{e['type']} {e['attrs']}")
            lines.extend(show(e["kids"], indent + 2).split("\n") if e["kids"] else [])
    return "\n".join(lines)


def check_equal(actual, expected, what):
    if actual != expected:
        raise Violation(f"{what}\nexpected:\n{show(expected)}\nrendered:\n{show(actual)}")


def shape_classes(root):
    """Classification of a spec, for the evidence."""
    classes = set()

    def walk(n, siblings, depth=0):
        if siblings > 8:
            classes.add("many-siblings")
        if depth > 5:
            classes.add("deep")
        if n["t"] in ("tpl", "fn", "cls"):
            classes.add(f"has-{n['t']}")
            if siblings > 1:
                classes.add("virtual-with-siblings")
            inner = n["kids"] if "kids" in n else [n["kid"]]
            if any(k["t"] in ("tpl", "fn", "cls") for k in inner):
                classes.add("virtual-in-virtual")
        if n["t"] == "text":
            classes.add("has-text")
        for k in n.get("kids", ()):
            walk(k, len(n["kids"]), depth + 1)
        for name in ("kid", "a", "b"):
            if name in n:
                walk(n[name], 1, depth + 1)

    walk(root, 1)
    return classes
