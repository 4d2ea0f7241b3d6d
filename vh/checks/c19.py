"""C19: the pygfx renderer keeps scene objects in step with the description."""
import copy
import random

from observ import reactive

import collagraph as cg
from collagraph import h

from .. import Skip, Violation
from ..app import raw

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("A case is a random tree of pygfx objects (groups, meshes, lines, points, images, volumes, text, lights, cameras, helpers; type names in any "
        "spelling), with attributes (plain ones, nested ones with dots, custom ones that the object doesn't have) and "
        "event handlers, with or without keys and with templates between them, and a history of insertions, removals, "
        "replacements, permutations, moves and changes, additions and removals of attributes and handlers. Objects of one "
        "type start out with different values, due to a renderer that prepares them. After every change the scene is "
        "compared with the description: types, children, the values of all of the attributes (those that are not "
        "described have to be as they were when the object was made) and which handlers are called for each event. "
        "Non-trivial: a change and a described attribute.")
ASSUMPTIONS = ["attributes don't influence each other", "attribute values are not equal to their previous value when they change"]

SPELLINGS = {
    "group": ["Group", "group", "GROUP"], "worldobject": ["WorldObject", "world-object", "worldobject", "World-Object"],
    "scene": ["Scene", "scene"], "mesh": ["Mesh", "mesh"], "line": ["Line", "line"], "points": ["Points", "points"],
    "pointlight": ["PointLight", "point-light", "pointlight", "Point-Light"],
    "ambientlight": ["AmbientLight", "ambient-light"], "directionallight": ["DirectionalLight", "directional-light"],
    "perspectivecamera": ["PerspectiveCamera", "perspective-camera"], "orthographiccamera": ["OrthographicCamera", "Orthographic-camera"],
    "spotlight": ["SpotLight", "spot-light"], "light": ["Light", "light"], "camera": ["Camera", "CAMERA"], "ndccamera": ["NDCCamera", "ndc-camera"],
    "pointlighthelper": ["PointLightHelper", "point-light-helper", "pointlighthelper"],
    "boxhelper": ["BoxHelper", "box-helper"],
    "gridhelper": ["GridHelper", "Grid-Helper"], "background": ["Background", "background"], "image": ["Image", "image"],
    "volume": ["Volume", "volume"], "text": ["Text", "text"],
    "screencoordscamera": ["ScreenCoordsCamera", "screen-coords-camera", "Screen-Coords-Camera"],
}
NAMES = {k: v[0] for k, v in SPELLINGS.items()}
COMMON = {
    "local.position": [(1, 2, 3), (4, 5, 6), (0, 0, 0), (-1, 0.5, 2)],
    "local.scale": [(1, 2, 3), (2, 2, 2), (1, 1, 1)],
    "local.rotation": [(0, 1, 0, 0), (1, 0, 0, 0), (0, 0, 0, 1)],
    "visible": [False, True],
    "render_order": [1, 2, -3],
    "cast_shadow": [True, False],
    "receive_shadow": [True, False],
    "tag": ["a", "b", ("c", 1)],
    "user_data": [{"a": 1}, {"b": 2}],
}
# (attributes of nested objects of nested objects)
SHADOW = {"shadow.camera.local.position": [(1, 2, 3), (4, 5, 6)], "shadow.camera.zoom": [2, 3, 0.5], "shadow.camera.note": ["x", "y"], "shadow.bias": [0.25, 0.5]}
LIGHT = {"intensity": [0.5, 2, 7], "color": ["#ff0000", "#00ff00", (0.5, 0.5, 0.5)]}
EXTRA = {
    "mesh": {"material.color": ["#ff0000", "#123456", "#00ff00"], "material.opacity": [0.25, 0.5], "material.wireframe": [True, False],
             "material.note": ["x", "y"]},
    "pointlight": {**LIGHT, **SHADOW}, "ambientlight": LIGHT, "light": LIGHT, "spotlight": {**LIGHT, **SHADOW},
    "directionallight": {**LIGHT, **SHADOW},
    "perspectivecamera": {"fov": [30, 60, 75], "zoom": [2, 3]},
}
# (objects; None without)
PARTS = {"geometry": ["@Geometry 0", "@Geometry 1"], "material": ["@MeshBasicMaterial 0", "@MeshBasicMaterial 1"]}
EXTRA["line"] = EXTRA["points"] = EXTRA["group"] = PARTS
EXTRA["mesh"]["geometry"] = PARTS["geometry"]
ATTRS = {k: {**COMMON, **EXTRA.get(k, {})} for k in SPELLINGS}
# (these scale themselves according to their parent)
ATTRS["pointlighthelper"] = {k: v for k, v in COMMON.items() if not k.startswith("local")}
EVENTS = ["click", "pointer_down", "pointer_up"]


# --------------------------------------------------------------------- generation
def gen_node(r, depth):
    k = r.choice(["group", "group", "mesh", *SPELLINGS])
    node = {"k": k, "s": r.randint(0, 3), "p": {}, "on": {}, "kids": []}
    pool = sorted(ATTRS[k])
    for a in r.sample(pool, r.choice([0, 0, 1, 1, 2, 3])):
        node["p"][a] = r.randint(0, 3)
    for e in EVENTS:
        if r.random() < 0.2:
            node["on"][e] = r.randint(0, 3)
    if depth > 0:
        node["kids"] = gen_kids(r, depth - 1)
    return node


def gen_kids(r, depth):
    kids = [gen_node(r, depth) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
    if len(kids) > 1 and r.random() < 0.2:
        i = r.randint(0, len(kids) - 1)
        kids[i:] = [{"k": "tpl", "kids": kids[i:i + 2]}] + kids[i + 2:]
    return kids


def gen(r):
    ops = []
    for _ in range(r.randint(1, 10)):
        op = r.choice(["insert", "remove", "replace", "perm", "perm", "move", "new", "attr", "attr", "attr", "attr", "on", "on"])
        ops.append([op, r.randint(0, 40), r.randint(0, 12), r.randint(0, 10**6), [r.randint(0, 5) for _ in range(5)]])
    return {"root": gen_node(r, r.choice([1, 2, 3])), "keyed": r.random() < 0.7, "prepared": r.random() < 0.5,
            "before": r.randint(0, 2), "ops": ops}


class Spec:
    def __init__(self, case):
        self.count = 0
        self.root = self.fresh(case["root"])

    def fresh(self, node):
        node = copy.deepcopy(node)

        def number(n):
            self.count += 1
            n["n"] = self.count
            if n["k"] != "tpl":
                n["p"] = {a: i % len(ATTRS[n["k"]][a]) for a, i in n["p"].items()}
            for kid in n["kids"]:
                number(kid)

        number(node)
        return node

    def nodes(self):
        def walk(n):
            yield n
            for kid in n["kids"]:
                yield from walk(kid)

        return list(walk(self.root))

    def change(self, op):
        name, sel, i, seed, order = op
        r = random.Random(seed)
        nodes = self.nodes()
        if name in ("attr", "on"):
            nodes = [n for n in nodes if n["k"] != "tpl"]
            node = nodes[sel % len(nodes)]
            if name == "on":
                pool, of = node["on"], EVENTS
                event = of[i % len(of)]
                if event in pool and r.random() < 0.5:
                    del pool[event]
                else:
                    pool[event] = (pool.get(event, 0) + 1 + r.randint(0, 2)) % 4
                return True
            values = ATTRS[node["k"]]
            # (usually an attribute that is or was described)
            names = sorted(node["p"]) if node["p"] and r.random() < 0.5 else sorted(values)
            attr = names[i % len(names)]
            if attr in node["p"] and r.random() < 0.5:
                del node["p"][attr]
            else:
                size = len(values[attr])
                if attr not in node["p"]:
                    node["p"][attr] = r.randrange(size)
                elif size > 1:
                    node["p"][attr] = (node["p"][attr] + r.randint(1, size - 1)) % size
            return True
        node = nodes[sel % len(nodes)]
        kids = list(node["kids"])
        size = len(kids)
        if name == "insert":
            kids.insert(i % (size + 1), self.fresh(gen_node(r, r.choice([0, 1]))))
        elif name == "new":
            kids = [node["kids"][x] for x in dict.fromkeys(x % size for x in order)] if size else []
            for x in order[:2]:
                kids.insert(x % (len(kids) + 1), self.fresh(gen_node(r, 0)))
        elif not size:
            return False
        elif name == "remove":
            del kids[i % size]
        elif name == "replace":
            kids[i % size] = self.fresh(gen_node(r, 1))
        elif name == "perm":
            kids = [kids[x] for x in sorted(range(size), key=lambda x: (order[x % 5], -x))]
        else:
            kids.insert(order[0] % size, kids.pop(i % size))
        if kids == node["kids"]:
            return False
        node["kids"] = kids
        return True


def check_node(node, root=True):
    if node["k"] == "tpl":
        if root:
            raise Skip("root")
    elif node["k"] not in SPELLINGS:
        raise Skip("kind")
    else:
        if not isinstance(node["s"], int):
            raise Skip("spelling")
        if any(a not in ATTRS[node["k"]] for a in node["p"]) or any(e not in EVENTS for e in node["on"]):
            raise Skip("attributes")
    for kid in node["kids"]:
        check_node(kid, False)


def flat(kids):
    for kid in kids:
        if kid["k"] == "tpl":
            yield from flat(kid["kids"])
        else:
            yield kid


# --------------------------------------------------------------------- values
MISSING = "(no such attribute)"


def read(obj, path):
    for name in path.split("."):
        if not hasattr(obj, name):
            return MISSING
        obj = getattr(obj, name)
    return plain(obj)


def copied(value):
    return copy.copy(value) if isinstance(value, (dict, list)) else value


def plain(value):
    if hasattr(value, "hex") and not isinstance(value, (float, bytes)):
        return value.hex
    if hasattr(value, "tolist"):
        return tuple(round(x, 5) + 0.0 for x in value.tolist())
    return value


SET, MADE = {}, {}


def described_value(kind, attr, index):
    value = ATTRS[kind][attr][index]
    if isinstance(value, str) and value.startswith("@"):
        if value not in MADE:
            import pygfx as gfx

            MADE[value] = getattr(gfx, value[1:-2])()
        return MADE[value]
    return value


def value_of(kind, attr, index):
    """What's read after the value was set (by pygfx alone)"""
    key = kind, attr, index
    if key not in SET:
        import pygfx as gfx

        obj = top = getattr(gfx, NAMES[kind])()
        if attr.startswith("material."):
            top.material = gfx.MeshBasicMaterial()
        *path, name = attr.split(".")
        for x in path:
            obj = getattr(obj, x)
        setattr(obj, name, described_value(kind, attr, index))
        SET[key] = read(top, attr)
    return SET[key]


def run(case):
    import pygfx as gfx

    try:
        if not isinstance(case["keyed"], bool) or not isinstance(case["prepared"], bool) or not 0 <= case["before"] < 3:
            raise Skip("malformed")
        spec = Spec(case)
        check_node(spec.root)
        for op in case["ops"]:
            spec.change(op)
            check_node(spec.root)
    except (ValueError, TypeError, IndexError, KeyError, AttributeError):
        raise Skip("malformed")
    spec = Spec(case)
    state = reactive({"root": copy.deepcopy(spec.root)})
    originals = {}  # id -> (object, values)
    fired = []
    handlers = [lambda event, i=i: fired.append((i, event.type)) for i in range(4)]

    class Bound:
        def handle(self, event):
            fired.append((3, event.type))

    bound = Bound()

    class Renderer(cg.PygfxRenderer):
        def create_element(self, type):
            el = super().create_element(type)
            kind = type.lower().replace("-", "")
            n = len(originals)
            if kind == "mesh":
                el.material = gfx.MeshBasicMaterial()
            if case["prepared"] and n % 2:
                # Objects of the same type don't have to be alike
                el.render_order = 10 + n
                el.local.position = (n, n, n)
                el.visible = n % 4 == 1
                if n % 3 == 0:
                    el.tag = f"tag {n}"
                    el.user_data = {"n": n}
                    el.geometry = gfx.Geometry()
                if kind == "mesh":
                    el.material.color = (0.1, 0.2, (n % 7) / 10)
                    el.material.note = n
                elif kind.endswith("light"):
                    el.intensity = n
            if kind in SPELLINGS:
                originals[id(el)] = el, {a: copied(read(el, a)) for a in [*ATTRS[kind], "name"]}
            return el

    def handler(n):
        return bound.handle if n == 3 else handlers[n]

    def vnode(node):
        props = {"key": node["n"]} if case["keyed"] else {}
        kids = [vnode(kid) for kid in node["kids"]]
        if node["k"] == "tpl":
            return h("template", props, *kids)
        props["name"] = f"n{node['n']}"
        for a, i in node["p"].items():
            props[a] = described_value(node["k"], a, i)
        for e, i in node["on"].items():
            props["on_" + e] = handler(i)
        spellings = SPELLINGS[node["k"]]
        return h(spellings[node["s"] % len(spellings)], props, *kids)

    def App(props):
        return vnode(raw(state["root"]))

    objects, where = {}, {}
    what = "initially"
    classes = set()

    def describe():
        def lines(n, indent):
            yield " " * indent + f"{n['k']} n{n['n']} {n.get('p', '')} {n.get('on', '')}"
            for kid in n["kids"]:
                yield from lines(kid, indent + 1)

        return "\n".join(lines(spec.root, 0))

    def fail(message):
        raise Violation(f"{what}: {message}\ndescription:\n{describe()}")

    container = gfx.Scene()
    present = [gfx.AmbientLight() for _ in range(case["before"])]
    for x in present:
        container.add(x)

    def check():
        now, places = {}, {}

        def compare(obj, node, path):
            name = f"n{node['n']}"
            if type(obj) is not getattr(gfx, NAMES[node["k"]]):
                fail(f"{name} is a {type(obj).__name__} instead of a {NAMES[node['k']]}")
            if getattr(obj, "name", None) != name:
                fail(f"{getattr(obj, 'name', None)} instead of {name}")
            now[node["n"]] = obj
            places[node["n"]] = path
            original = originals[id(obj)][1]
            for attr in ATTRS[node["k"]]:
                value = read(obj, attr)
                if attr in node["p"]:
                    want = value_of(node["k"], attr, node["p"][attr])
                else:
                    want = original[attr]
                if value != want:
                    fail(f"{attr} of {name} is {value} instead of {want}")
            for event in EVENTS:
                del fired[:]
                obj.handle_event(gfx.Event(event))
                want = [(node["on"][event], event)] if event in node["on"] else []
                if fired != want:
                    fail(f"{event} of {name} called {fired} instead of {want}")
            kids = list(flat(node["kids"]))
            names = [getattr(x, "name", x) for x in obj.children]
            want = [f"n{x['n']}" for x in kids]
            if names != want:
                fail(f"children of {name} are {names} instead of {want}")

            def templates(nodes):
                for n in nodes:
                    if n["k"] == "tpl":
                        yield n["n"], [x["n"] for x in flat(n["kids"])]
                        yield from templates(n["kids"])

            inside = list(templates(node["kids"]))
            for x, kid in zip(obj.children, kids):
                if x.parent is not obj:
                    fail(f"parent of {getattr(x, 'name', x)} is {x.parent}")
                compare(x, kid, path + (node["n"],) + tuple(t for t, nums in inside if kid["n"] in nums))

        children = list(container.children)
        if len(children) != len(present) + 1 or any(a is not b for a, b in zip(children, present)):
            fail(f"children of the container are {children}")
        compare(children[-1], spec.root, ())
        if case["keyed"]:
            for n, obj in now.items():
                if n in objects and where[n] == places[n] and objects[n] is not obj:
                    fail(f"n{n} is another object than before")
        objects.clear()
        objects.update(now)
        where.clear()
        where.update(places)

    changed = described = False
    try:
        gui = cg.Collagraph(Renderer(), event_loop_type=cg.EventLoopType.SYNC)
        gui.render(h(App, {}), container)
        check()
        for i, op in enumerate(case["ops"]):
            what = f"after {i + 1} of {len(case['ops'])} ops ({op[0]})"
            if not spec.change(op):
                continue
            classes.add(op[0])
            changed = True
            state["root"] = copy.deepcopy(spec.root)
            check()
            described |= any(n.get("p") for n in spec.nodes())
    except (Violation, Skip):
        raise
    except Exception as e:
        import traceback

        raise Violation(f"{what}: {e!r}\ndescription:\n{describe()}\n{traceback.format_exc()[-1500:]}")
    for n in spec.nodes():
        classes.add(n["k"])
        classes.update(n.get("p", ()))
    return {"nontrivial": changed and described, "classes": sorted(classes)}
