"""C14: names in templates resolve as documented, per component instance."""
import random

from observ import reactive

import collagraph as cg
from collagraph.cgx import cgx

from .. import Skip, Violation
from ..app import raw

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("A case assigns a set of names to the scopes (loop/lambda/comprehension variable, import in various forms, "
        "prop, state, attribute on instance, class, as method or property, module level) for a component class of "
        "which several instances with different props, state and attributes are shown. The template uses the names "
        "directly, in loops, lambdas, comprehensions, conditions, texts and handlers. During the history names are "
        "added to and removed from the props, state and attributes of single instances, instances are added and "
        "removed. Every shown value and every value that a handler gets tells which scope of which instance it came "
        "from, and has to be the first one in the documented order; a name that is nowhere has to raise NameError. "
        "Non-trivial: some name exists in two scopes at once and some name resolves differently in two instances.")
ASSUMPTIONS = ["the names are not those of Python builtins, apart from loop variables",
               "a removed name that is not read reactively (attributes) is followed by another change of state"]

NAMES = ["a", "b", "c", "name1", "é", "_u", "Caps", "item", "cls", "state2", "_private", "create_element",
         "_create_element2", "node", "element2", "h", "names"]
IMPORTS = ["from vh_c14_mod import {0}", "from vh_c14_mod import other as {0}", "import vh_c14_mod.sub as {0}",
           "if True:\n    from vh_c14_mod import {0}", "try:\n    import vh_c14_nothing as {0}\nexcept ImportError:\n    from vh_c14_mod import {0}",
           "import {0}.sub", "import vh_c14_mod, {0}.sub.deep", "from vh_c14_mod import (other, {0})",
           "if False:\n    pass\nelse:\n    import vh_c14_mod as {0}",
           "try:\n    import vh_c14_mod as {0}\nexcept ImportError:\n    pass",
           "try:\n    pass\nfinally:\n    import vh_c14_mod as {0}",
           "try:\n    pass\nexcept ImportError:\n    pass\nelse:\n    import vh_c14_mod as {0}",
           "for _zz in [1]:\n    import vh_c14_mod as {0}", "while True:\n    import vh_c14_mod as {0}\n    break",
           "import contextlib\nwith contextlib.suppress(ImportError):\n    import vh_c14_mod as {0}",
           "if False:\n    pass\nelif True:\n    if True:\n        from vh_c14_mod import sub as {0}",
           "match 1:\n    case 1:\n        import vh_c14_mod as {0}"]
# (these don't define the name on module level)
DECOYS = ["def _zz():\n    import vh_c14_mod as {0}", "class _zz:\n    import vh_c14_mod as {0}",
          "async def _zz():\n    from vh_c14_mod import {0}", "import vh_c14_mod.{0}", "from vh_c14_mod import {0} as _zz",
          "import {0} as _zz"]
ATTR_KINDS = ["inst", "cls", "method", "property"]
USES = ["attr", "text", "lambda", "comp", "nested", "cond", "handler", "bulk", "loop", "slotless"]
BINDS = ["for", "for2", "lambda", "comp", "genexp", "none"]
# binds the name, around the whole expression
WRAPS = {
    "kwonly": "(lambda *, {n}: {e})({n}=LOOP)", "posonly": "(lambda {n}, /: {e})(LOOP)",
    "default": "(lambda {n}=LOOP: {e})()", "kwdefault": "(lambda *, {n}=LOOP: {e})()",
    "mixed": "(lambda zz, /, yy, *xx, {n}, **ww: {e})(1, 2, 3, {n}=LOOP, v=4)",
    "comp2": "[{e} for yy in [1] for {n} in [LOOP]][0]", "comp3": "[{e} for yy in [1] for xx in [yy] for {n} in [LOOP] if xx][0]",
    "comp4": "[{e} for {n} in [LOOP] for yy in [1] for xx in [yy] for ww in [2]][0]",
    "set": "list({{({e}, 1) for {n} in [LOOP]}})[0][0]", "dict": "list({{1: {e} for {n} in [LOOP]}}.values())[0]",
    "unpack": "[{e} for yy, (*xx, {n}) in [(1, (2, 3, LOOP))]][0]", "starred": "[{e} for {n}, *xx in [(LOOP, 2)]][0]",
    "vararg": "(lambda *{n}: {e})(LOOP)", "kwarg": "(lambda **{n}: {e})(v=LOOP)", "walrus": "(lambda: [({n} := LOOP), {e}][1])()", "comp-in-lambda": "(lambda {n}: [{e} for yy in [{n}]][0])(LOOP)",
}
# the whole expression. Gives the name from outside the scope that binds it
OUTSIDE = {
    "default-outside": "g(lambda: (lambda {n}={n}: {n})())", "kwdefault-outside": "g(lambda: (lambda *, {n}={n}: {n})())",
    "default-other": "g(lambda: (lambda zz={n}, {n}=1: zz)())", "argument-outside": "g(lambda: (lambda {n}: {n})({n}))",
    "iter-outside": "g(lambda: [{n} for {n} in [{n}]][0])", "iter-second": "g(lambda: [yy for xx in [{n}] for yy in [xx]][0])",
    "iter-inner": "g(lambda: [yy for xx in [1] for yy in [{n}]][0])", "condition": "g(lambda: [xx for xx in [{n}] if g(lambda: {n}) or 1][0])",
    "fstring": "g(lambda: (f'{{g(lambda: {n})}}', {n})[1])", "after": "g(lambda: ([{n} for {n} in [1]], {n})[1])",
    "keyword": "(lambda {n}: {n})({n}=g(lambda: {n}))", "attribute": "g(lambda: (zz := {n}))", "dict-value": "{{'k': g(lambda: {n})}}['k']",
    "star": "[*[g(lambda: {n})]][0]", "chained": "g(lambda: {n} if [] is not {n} is {n} else {n})", "late": "g(lambda: (lambda: (lambda: {n})())())",
}
BINDS += [*WRAPS, *OUTSIDE]


def gen_scopes(r, names):
    """for a single instance"""
    out = {"props": [], "state": [], "attrs": []}
    for n in names:
        for scope in out:
            if r.random() < 0.35:
                out[scope].append(n)
    return out


def gen(r):
    names = r.sample(NAMES, r.randint(2, 5))
    imports = {n: r.randrange(len(IMPORTS)) for n in names if r.random() < 0.2}
    clsattrs = {n: r.choice(ATTR_KINDS[1:]) for n in names if r.random() < 0.15}
    module = [n for n in names if r.random() < 0.4 and n not in imports]
    decoys = {n: r.randrange(len(DECOYS)) for n in names if r.random() < 0.15 and n not in imports}
    ops = []
    for _ in range(r.randint(1, 8)):
        k = r.choice(["add", "add", "del", "del", "change", "new", "drop", "swap"])
        ops.append([k, r.randint(0, 5), r.choice(["props", "state", "attrs"]), r.randint(0, 9),
                    gen_scopes(r, names) if k == "new" else None])
    uses = []
    for n in names:
        for _ in range(r.randint(1, 2)):
            uses.append([r.randint(0, len(names) - 1) if r.random() < 0.1 else names.index(n), r.choice(USES), r.choice(BINDS[:6] if r.random() < 0.5 else BINDS)])
    return {"names": names, "imports": imports, "decoys": decoys, "cls": clsattrs, "module": module,
            "instances": [gen_scopes(r, names) for _ in range(r.randint(1, 3))],
            "uses": uses, "ops": ops, "late": r.random() < 0.5, "layout": r.randint(0, 999)}


MISSING = "missing"


def script(case):
    lines = ["import collagraph as cg"]
    for n, form in case["imports"].items():
        lines.append(IMPORTS[form % len(IMPORTS)].format(n))
    for n, form in case["decoys"].items():
        lines.append(DECOYS[form % len(DECOYS)].format(n))
    early = [f"{n} = 'module:{n}'" for n in case["module"]]
    if not case["late"]:
        lines += early
    lines += ["class Comp(cg.Component):", "    def __init__(self, props=None, parent=None):",
              "        super().__init__(props, parent)", "        setup(self)"]
    for n, kind in case["cls"].items():
        if kind == "cls":
            lines.append(f"    {n} = 'cls:{n}'")
        elif kind == "property":
            lines += ["    @property", f"    def {n}(self):", f"        return 'property:{n}:%s' % self.props['id']"]
        else:
            lines += [f"    def {n}(self):", f"        return 'method:{n}:%s' % self.props['id']"]
    if case["late"]:
        lines += early  # (also after the class)
    return "\n".join(lines) + "\n"


def quoted(expr):
    return '"' + expr.replace("&", "&amp;").replace('"', "&quot;") + '"'


def template(case):
    """Every use is an element with its own attribute u=<index>.

    g(lambda: name) gives the tag of the value, or MISSING for a NameError"""
    out = []
    for i, (ni, use, bind) in enumerate(case["uses"]):
        n = case["names"][ni % len(case["names"])]
        expr = f"g(lambda: {n})"
        pre = ""
        if use == "lambda":
            expr = f"(lambda zz: g(lambda: ({n}, zz)[0]))(1)"
        elif use == "comp":
            expr = f"[g(lambda: {n}) for zz in [1]][0]"
        elif use == "nested":
            expr = f"[[g(lambda: {n}) for zz in [yy]] for yy in [1]][0][0]"
        elif use == "loop":
            pre = ' v-for="zz in [1]"'
        # how the very same name is bound
        if bind == "for":
            pre = f" v-for={quoted(f'{n} in [LOOP]')}"
        elif bind == "for2":
            pre = f" v-for={quoted(f'zz, (yy, {n}) in enumerate([(0, LOOP)])')}"
        elif bind == "lambda":
            expr = f"(lambda {n}: {expr})(LOOP)"
        elif bind == "comp":
            expr = f"[{expr} for {n} in [LOOP]][0]"
        elif bind == "genexp":
            expr = f"list({expr} for {n} in [LOOP])[0]"
        elif bind in WRAPS:
            expr = WRAPS[bind].format(e=expr, n=n)
        elif bind in OUTSIDE:
            expr = OUTSIDE[bind].format(n=n)
        attrs = f'u="{i}"{pre}'
        if use == "text":
            out.append(f"<i {attrs}>{{{{ {expr} }}}}</i>".replace("{{ {", "{{ {"))
        elif use == "handler":
            out.append(f"<i {attrs} @get={quoted('lambda: ' + expr)} />")
        elif use == "bulk":
            v = f"{{'v': {expr}}}"
            out.append(f"<i {attrs} v-bind={quoted(v)} />")
        elif use == "cond" and not pre:
            out.append(f"<i v-if={quoted(expr)} {attrs} :v={quoted(expr)} />")
        else:
            out.append(f"<i {attrs} :v={quoted(expr)} />")
    return "<template>\n<root :tick=\"tick\">\n" + "\n".join(out) + "\n</root>\n</template>"


class Inst:
    """The model of one instance"""

    def __init__(self, case, serial, scopes):
        self.serial = serial
        self.count = 0
        self.props, self.state, self.attrs = {}, {}, {}
        for scope in ("props", "state", "attrs"):
            for n in scopes.get(scope, []):
                if n in case["names"] and not (scope == "attrs" and case["cls"].get(n) == "property"):
                    self.put(scope, n, True)

    def put(self, scope, n, first=False):
        self.count += 1
        value = f"{scope}:{n}:{self.serial}:{self.count}"
        if (self.count + self.serial) % 3 == 0:
            # (observ doesn't notice when a key is added with None as value)
            value = [0, "", False, [], {}, None if scope == "attrs" or first else ()][self.count % 6]
        getattr(self, scope)[n] = value
        return value

    def resolve(self, case, n):
        if n in case["imports"]:
            return f"import:{n}"
        for scope in (self.props, self.state, self.attrs):
            if n in scope:
                return scope[n] or falsy(scope[n])
        if n in case["cls"]:
            kind = case["cls"][n]
            return f"cls:{n}" if kind == "cls" else f"{kind}:{n}:{self.serial}"
        if n in case["module"]:
            return f"module:{n}"
        return MISSING


def modules(names):
    import sys
    import types

    mod = types.ModuleType("vh_c14_mod")
    mod.__path__ = []
    sub = types.ModuleType("vh_c14_mod.sub")
    mod.sub = sub
    mod.other = "import"
    for n in NAMES:
        setattr(mod, n, "import")
    for n in NAMES:
        m = sys.modules[n] = types.ModuleType(n)
        m.__path__ = []
        m.sub = sys.modules[n + ".sub"] = types.ModuleType(n + ".sub")
        m.sub.__path__ = []
        m.sub.deep = sys.modules[n + ".sub.deep"] = types.ModuleType(n + ".sub.deep")
        sys.modules["vh_c14_mod." + n] = m
    sys.modules["vh_c14_mod"] = mod
    sys.modules["vh_c14_mod.sub"] = sub


def falsy(value):
    return f"falsy:{raw(value)!r}"


def show(thunk_or_value):
    value = thunk_or_value
    if value in (("loop",), {"v": "loop"}):
        return "loop"
    if type(value).__name__ == "module" or value == "import":
        return "import"
    if callable(value):
        return value()
    return value or falsy(value)


def g(thunk):
    try:
        value = thunk()
    except NameError:
        return MISSING
    return show(value)


def run(case):
    names = case["names"]
    if any(len(o) != 5 for o in case["ops"]) or any(len(u) != 3 for u in case["uses"]):
        raise Skip("shape")
    if not names or not set(case["imports"]) <= set(names) or not set(case["cls"]) <= set(names) or \
            not set(case["decoys"]) <= set(names) - set(case["imports"]):
        raise Skip("names")
    modules(names)
    models, insts = {}, {}
    serial = 0

    def setup(self):
        m = models[self.props["id"]]
        for n, v in m.state.items():
            self.state[n] = v
        self.state["tick"] = 0
        for n, v in m.attrs.items():
            setattr(self, n, v)
        insts[m.serial] = self

    code = f"{template(case)}\n<script>\n{script(case)}</script>\n"
    if case["layout"] % 2:
        code = f"<script>\n{script(case)}</script>\n{template(case)}\n"
    try:
        comp, namespace = cgx.load_from_string(code, namespace={"setup": setup, "g": g, "LOOP": "loop"})
    except Exception as e:
        raise Violation(f"not accepted: {e!r}\n{code}")

    state = reactive({"order": []})
    props = {}

    class Top(cg.Component):
        def render(self):
            return cg.h("top", {}, *[cg.h(comp, props[i]) for i in state["order"]])

    def add(scopes):
        nonlocal serial
        serial += 1
        m = models[serial] = Inst(case, serial, scopes)
        props[serial] = reactive({"id": serial, "key": serial, **m.props})

    for scopes in case["instances"]:
        add(scopes)
    order = list(models)
    state["order"] = list(order)
    gui = cg.Collagraph(cg.DictRenderer(), event_loop_type=cg.EventLoopType.SYNC)
    container = {"root": None}
    what = "initially"

    def check():
        for el, i in zip(container["children"][0].get("children", []), order, strict=True):
            m = models[i]
            for j, (ni, use, bind) in enumerate(case["uses"]):
                n = names[ni % len(names)]
                found = [k for k in el.get("children", []) if k["attrs"]["u"] == str(j)]
                want = "loop" if bind != "none" and bind not in OUTSIDE else m.resolve(case, n)
                if want.startswith("import"):
                    want = "import"
                if len(found) != 1:
                    raise Violation(f"{what}: use {j} is there {len(found)} times\n{code}")
                el2 = found[0]
                if use == "text":
                    got = el2["children"][0]["text"]
                elif use == "handler":
                    got, = [h() for h in el2["handlers"]["get"]]
                else:
                    got = el2["attrs"]["v"]
                if got != want:
                    raise Violation(f"{what}: name {n} in use {j} ({use}, {bind}) of instance {i} is {got!r} instead of "
                                    f"{want!r}; instance: {vars(m)}\n{code}")

    several = False

    def differ():
        for n in names:
            if len({models[i].resolve(case, n).split(":")[0] for i in order}) > 1:
                return True
        return False

    try:
        gui.render(cg.h(Top, {}), container)
        check()
        several = differ()
        for x, (k, i, scope, ni, scopes) in enumerate(case["ops"]):
            what = f"after {case['ops'][:x + 1]}"
            n = names[ni % len(names)]
            if k == "new":
                add(scopes)
                order.insert(i % (len(order) + 1), serial)
                state["order"] = list(order)
            elif not order:
                continue
            elif k == "drop":
                order.pop(i % len(order))
                state["order"] = list(order)
            elif k == "swap":
                if len(order) > 1:
                    order.reverse()
                    state["order"] = list(order)
            else:
                m = models[order[i % len(order)]]
                inst = insts[m.serial]
                current = getattr(m, scope)
                target = {"props": props[m.serial], "state": inst.state}.get(scope)
                if k == "del":
                    if n not in current:
                        continue
                    del current[n]
                    if scope == "attrs":
                        delattr(inst, n)
                    else:
                        del target[n]
                else:
                    if (k == "add") == (n in current) or (scope == "attrs" and case["cls"].get(n) == "property"):
                        continue
                    value = m.put(scope, n)
                    if scope == "attrs":
                        setattr(inst, n, value)
                    else:
                        target[n] = value
                # (attributes of instances aren't reactive)
                inst.state["tick"] += 1
            check()
            several = several or differ()
    except (Violation, Skip):
        raise
    except Exception as e:
        import traceback

        raise Violation(f"{what}: {e!r}\n{code}\n{traceback.format_exc()[-1500:]}")
    double = any(sum(n in s for s in (m.props, m.state, m.attrs, case["module"], case["imports"], case["cls"])) > 1
                 for m in models.values() for n in names)
    classes = {f"bind-{b}" for _, _, b in case["uses"]} | {f"use-{u}" for _, u, _ in case["uses"]}
    if case["imports"]:
        classes.add("imports")
    return {"nontrivial": double and several, "classes": sorted(classes)}
