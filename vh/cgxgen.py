"""Generator of CGX templates, writer of their source and a reference interpreter.

A template is a JSON tree:
  el    {"t": "el", "tag", "attrs": [[kind, name, value], ...], "kids": [...]}
        kinds: plain, flag, bind, bulk, on
  text  {"t": "text", "parts": [["s", text] | ["e", expr], ...]}
  com   {"t": "com", "s": text}
  if    {"t": "if", "branches": [[cond | None, node], ...]}
  for   {"t": "for", "clause": text, "names": [...], "node": node}

Expressions are Python source text.  The reference interpreter evaluates the very same
text with Python's own eval in a namespace that merges all scopes in the documented
order; it shares nothing with the compiler under test.
"""
import ast

from . import Skip

TAGS = ["a", "b", "item", "my-el", "template"]
ATTRS = ["x", "y", "z", "data-w", "ns:q"]
EVENTS = ["click", "change", "update:v"]

# name -> type, for all of the scopes outside of the template
SCOPE = {
    "odd": "odd", "n": "int", "m": "int", "s": "str", "flag": "bool", "items": "ints", "recs": "recs", "d": "dict",
    "p": "int", "title": "str",  # props
    "factor": "int", "double": "fn1", "record": "rec", "bump": "act", "extra": "bulk",  # attributes
    "floor": "fn1",  # imported
    "CONST": "int", "helper": "fn1", "nothing": "none",  # module
}
BOUND = ["x", "y", "w", "n", "s", "items", "id", "title", "floor", "factor", "helper", "type", "CONST", "_i", "rec"]
INITIAL = {"n": 1, "m": 2, "s": "s", "flag": False, "items": [3, 4], "d": {"k1": 5, "k2": 6},
           "recs": [{"id": 11, "name": "A", "tags": ["t1", "t2"]}, {"id": 12, "name": "B", "tags": []}]}
PROPS = {"p": 7, "title": "T"}


class Gen:
    def __init__(self, r, components=()):
        self.r = r
        self.uid = 0
        self.components = components

    # ------------------------------------------------------------- expressions
    def names(self, sc, *types):
        return [n for n, t in sc.items() if t in types]

    def bind(self, sc, **types):
        return {**sc, **types}

    def bound(self, count=1, sc=None):
        """sc: for names that may not be those of enclosing loops: CPython 3.12.3 itself gets that wrong for
        comprehensions (`lambda w: (lambda: ([0 for w in [1]], sum(w for _ in [1])))()` raises NameError), and the
        same goes for globals (`[floor for floor in d], [floor(h) for h in items]`)"""
        loops = [*sc.get("__loops", ()), "floor"] if sc else ()
        return self.r.sample([b for b in BOUND if b not in loops], count)

    def loop(self, sc, names):
        return {**sc, **names, "__loops": [*sc.get("__loops", ()), *names]}

    def int(self, sc, d=2):
        r = self.r
        c = r.random()
        if d <= 0 or c < 0.35:
            return r.choice(self.names(sc, "int") + [str(r.randint(0, 5))])
        k = r.randint(0, 17)
        if k == 14:
            # Positional-only and keyword-only parameters with a default from outside
            v, u = self.bound(2)
            inner = self.bind(sc, **{v: "int", u: "int"})
            given = r.choice(["", f", {u}={self.int(sc, 0)}"])
            return f"(lambda {v}, /, *, {u}={self.int(sc, d-1)}: {self.int(inner, d-1)})({self.int(sc, d-1)}{given})"
        if k == 15:
            v, u = self.bound(2, sc)
            inner = self.bind(sc, **{v: "int", u: "int"})
            return f"sum({self.int(inner, d-1)} for {v}, {u} in zip({self.list(sc, d-1)}, {self.list(sc, d-1)}))"
        if k == 16:
            v, u = self.bound(2, sc)
            inner = self.bind(sc, **{v: "int", u: "ints"})
            return f"sum([{self.int(inner, d-1)} for {v}, *{u} in ([1], [{self.int(sc, d-1)}, 4, 5])])"
        if k == 17:
            v, = self.bound(1, sc)
            return f"len({{{self.int(self.bind(sc, **{v: 'int'}), d-1)} for {v} in {self.list(sc, d-1)}}})"
        if k == 0:
            return f"{self.int(sc, d-1)} {r.choice('+-*')} ({self.int(sc, d-1)})"
        if k == 1:
            return f"({self.int(sc, d-1)} if {self.bool(sc, d-1)} else {self.int(sc, d-1)})"
        if k == 2:
            return f"len({self.list(sc, d-1)})"
        if k == 3:
            v, = self.bound()
            return f"sum({self.int(self.bind(sc, **{v: 'int'}), d-1)} for {v} in {self.list(sc, d-1)})"
        if k == 4:
            v, u = self.bound(2)
            inner = self.bind(sc, **{v: "int", u: "int"})
            return f"(lambda {v}, {u}={self.int(sc, d-1)}: {self.int(inner, d-1)})({self.int(sc, d-1)})"
        if k == 5:
            fns = self.names(sc, "fn1")
            if fns:
                return f"{r.choice(fns)}({self.int(sc, d-1)})"
            return self.int(sc, d - 1)
        if k == 6 and "d" in sc and sc["d"] == "dict":
            return r.choice(["d['k1']", "d['k2']", "sum(d.values())"])
        if k == 7:
            v = r.choice(["w0", "w1"])
            return f"(({v} := {self.int(sc, d-1)}) + {v})"
        if k == 8:
            return f"max({self.list(sc, d-1)}, default={self.int(sc, d-1)})"
        if k == 9:
            recs = self.names(sc, "rec1")
            if recs:
                return f"{r.choice(recs)}['id']"
            return self.int(sc, d - 1)
        if k == 10:
            v, = self.bound(1, sc)
            inner = self.bind(sc, **{v: "int"})
            return f"len({{{v}: {self.int(inner, d-1)} for {v} in {self.list(sc, d-1)}}})"
        if k == 11:
            return r.choice(["self.state['n']", "self.props['p']", "state['m']", "props['p']", "self.factor",
                             "self.double(2)"]) if not ({"state", "props", "self"} & set(sc)) else "1"
        if k == 12:
            v, u = self.bound(2, sc)
            inner1 = self.bind(sc, **{v: "int"})
            inner2 = self.bind(inner1, **{u: "int"})
            return (f"len([{self.int(inner2, d-1)} for {v} in {self.list(sc, d-1)} "
                    f"for {u} in {self.list(inner1, 0)} if {self.bool(inner2, d-1)}])")
        v, = self.bound()
        inner = self.bind(sc, **{v: "ints"})
        return f"(lambda *{v}: len({v}) + {self.int(self.bind(sc, **{v: 'other'}), d-1)})(1, 2)" if r.random() < .5 \
            else f"(lambda **{v}: len({v}))(a={self.int(sc, d-1)})"

    def str(self, sc, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.35:
            return r.choice(self.names(sc, "str") + ["'q'", "'a b'", "'<&>'", "''"])
        k = r.randint(0, 8)
        if k == 7:
            simple = self.names(sc, "int")
            return "f'{" + (r.choice(simple) if simple else "1") + "!r:>4}|{" + self.str({**sc, "__f": 1}, 0).replace("'", '"') + "}'"
        if k == 8:
            return f"{self.str(sc, d-1)}.upper()[:4]" if r.random() < 0.5 else f"'{{}}.{{a}}'.format({self.int(sc, d-1)}, a={self.int(sc, d-1)})"
        if k == 0:
            return f"str({self.int(sc, d-1)})"
        if k == 1:
            return f"{self.str(sc, d-1)} + {self.str(sc, d-1)}"
        if k == 2:
            v, = self.bound()
            return f"'-'.join(str({v}) for {v} in {self.list(sc, d-1)})"
        if k == 3:
            recs = self.names(sc, "rec1")
            return f"{r.choice(recs)}['name']" if recs else self.str(sc, d - 1)
        if k == 4:
            simple = self.names(sc, "int", "str")
            return "f'{" + (r.choice(simple) if simple else "1") + "}!'"
        if k == 5:
            return f"({self.str(sc, d-1)} if {self.bool(sc, d-1)} else {self.str(sc, d-1)})"
        return f"({self.str(sc, d-1)} or 'z')"

    def bool(self, sc, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            return r.choice(self.names(sc, "bool") + ["True", "False"] + self.names(sc, "int"))
        k = r.randint(0, 6)
        if k == 0:
            return f"{self.int(sc, d-1)} {r.choice(['==', '!=', '<', '>=', 'in'])} " + f"({self.int(sc, d-1)})" \
                if False else f"({self.int(sc, d-1)}) {r.choice(['==', '!=', '<', '>='])} ({self.int(sc, d-1)})"
        if k == 1:
            return f"not {self.bool(sc, d-1)}"
        if k == 2:
            return f"({self.bool(sc, d-1)} {r.choice(['and', 'or'])} {self.bool(sc, d-1)})"
        if k == 3:
            v, = self.bound()
            return f"any({self.bool(self.bind(sc, **{v: 'int'}), d-1)} for {v} in {self.list(sc, d-1)})"
        if k == 4:
            return f"bool({self.list(sc, d-1)})"
        if k == 5:
            return f"({self.int(sc, d-1)} in {self.list(sc, d-1)})"
        return f"(n0 := {self.int(sc, d-1)}) > 2" if False else f"({self.str(sc, d-1)} == {self.str(sc, d-1)})"

    def odd(self, sc, d=2):
        """for texts"""
        r = self.r
        odds = self.names(sc, "odd")
        if odds and r.random() < 0.5:
            return r.choice(odds)
        return r.choice([f"[{self.int(sc, 0)}, None]", f"({self.int(sc, 0)},)", "None", "'%r' % (3.50,)", "1e3", "b'x'",
                         f"(lambda: {self.int(sc, 1)})()", f"{{'k': {self.int(sc, 0)}}}", f"{{{self.int(sc, 0)}}}",
                         f"{self.int(sc, 0)}, {self.int(sc, 0)}", f"{self.int(sc, 0)} if {self.bool(sc, 0)} else None"])

    def list(self, sc, d=2):
        """of numbers"""
        r = self.r
        lists = self.names(sc, "ints")
        if d <= 0 or r.random() < 0.5:
            return r.choice(lists * 2 + ["[1, 2]", f"range({self.r.choice(self.names(sc, 'int') + ['2'])} % 4)"])
        k = r.randint(0, 6)
        if k == 5:
            return f"[*{self.list(sc, d-1)}, {self.int(sc, d-1)}]"
        if k == 6:
            return f"list({{**dict.fromkeys({self.list(sc, d-1)}, 1), 9: 2}})"
        if k == 0:
            v, = self.bound(1, sc)
            return f"[{self.int(self.bind(sc, **{v: 'int'}), d-1)} for {v} in {self.list(sc, d-1)}]"
        if k == 1:
            v, = self.bound(1, sc)
            inner = self.bind(sc, **{v: "int"})
            return f"[{v} for {v} in {self.list(sc, d-1)} if {self.bool(inner, d-1)}]"
        if k == 2:
            return f"sorted({self.list(sc, d-1)}, reverse={self.bool(sc, 0)} == 1)"
        if k == 3:
            return f"[{self.int(sc, d-1)}, {self.int(sc, d-1)}]"
        return f"list({self.list(sc, d-1)})[:2]"

    def scalar(self, sc, d=2):
        k = self.r.random()
        if k < 0.4:
            return self.int(sc, d)
        if k < 0.7:
            return self.str(sc, d)
        if k < 0.8:
            return f"bool({self.bool(sc, d)})"
        if k < 0.87:
            return f"({self.int(sc, d-1)} if {self.bool(sc, d-1)} else None)"
        if k < 0.92:
            return f"[{self.int(sc, d-1)} for _ in range(2)]"
        if k < 0.96:
            return f"{{'k': {self.int(sc, d-1)}}}"
        return "not " + self.bool(sc, d - 1)

    def handler(self, sc):
        r = self.r
        k = r.randint(0, 6)
        rec = "record" if sc.get("record") == "rec" else "self.record"
        if k == 0:
            return rec
        if k == 1:
            return f"lambda: {rec}({self.scalar(sc, 1)})"
        if k == 2:
            v, = self.bound()
            inner = self.bind(sc, **{v: "int"})
            rec2 = "record" if inner.get("record") == "rec" else "self.record"
            return f"lambda {v}=3: {rec2}({self.scalar(inner, 1)}, {v})"
        if k == 3:
            return f"lambda *args: {rec}(len(args), {self.scalar(sc, 1)})"
        if k == 4:
            return "self.bump" if sc.get("bump") != "act" else "bump"
        if k == 5:
            return f"(lambda: {rec}(1)) if {self.bool(sc, 1)} else (lambda: {rec}({self.int(sc, 1)}))"
        return f"None if {self.bool(sc, 1)} else {rec}"

    def bulk(self, sc):
        r = self.r
        k = r.randint(0, 3)
        if k == 0:
            options = [n for n, t in (("extra", "bulk"), ("d", "dict")) if sc.get(n) == t] + ["props", "self.props"]
            return r.choice(options)
        names = r.sample(ATTRS, r.randint(0, 3))
        text = "{" + ", ".join(f"{n!r}: {self.scalar(sc, 1)}" for n in names) + "}"
        if k == 1:
            return f"dict({text})"
        if k == 2:
            return f"{text} if {self.bool(sc, 1)} else {{}}"
        return text

    # ------------------------------------------------------------- nodes
    def wrap(self, expr):
        """Layout that doesn't change the meaning"""
        k = self.r.random()
        if k < 0.6:
            return expr
        if k < 0.8:
            return f" {expr}  "
        return f"(\n   {expr}\n )" if "\n" not in expr else expr

    def attrs(self, sc, tag, key=None):
        r = self.r
        out = []
        if tag == "template":
            return out
        if key is not None:
            out.append(["bind", "key", key])
        used = set()
        bulk = False
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            kind = r.choice(["plain", "flag", "bind", "bind", "bind", "bulk", "on"])
            if kind == "bulk":
                if not bulk:
                    bulk = True
                    out.append(["bulk", "", self.wrap(self.bulk(sc))])
                continue
            name = r.choice(EVENTS if kind == "on" else ATTRS)
            if (kind if kind in ("on", "bind") else "plain", name) in used:
                continue
            used.add((kind if kind in ("on", "bind") else "plain", name))
            if kind == "plain":
                out.append([kind, name, r.choice(["v", "", "a b", "{{ n }}", "<>&\"'", "n"])])
            elif kind == "flag":
                out.append([kind, name, None])
            elif kind == "bind":
                out.append([kind, name, self.wrap(self.scalar(sc))])
            else:
                out.append([kind, name, self.wrap(self.handler(sc))])
        # (whatever the order of appearance)
        r.shuffle(out)
        return out

    def text(self, sc):
        r = self.r
        parts = []
        for _ in range(r.choice([1, 1, 2, 3, 4]) if r.random() < 0.96 else r.randint(8, 24)):
            if r.random() < 0.5:
                parts.append(["e", self.wrap(r.choice([self.int, self.str, self.bool, self.odd])(sc, 2))])
            else:
                parts.append(["s", r.choice(["t", " u ", "a & b", "x < y", "{ }", "}}", "\n  v\n", "'q'", "é", "{ ", "%s"])])
        if not any(p[0] == "e" or p[1].strip() for p in parts):
            parts.append(["s", "t"])
        return {"t": "text", "parts": parts}

    def clause(self, sc):
        """-> (clause, scope inside, expression that is unique per iteration or None)"""
        r = self.r
        k = r.randint(0, 10)
        b = self.bound(3, sc)
        if k == 0:
            return f"{b[0]} in {self.list(sc, 1)}", {b[0]: "int"}, None
        if k == 1:
            return f"{b[0]}, {b[1]} in enumerate({self.list(sc, 1)})", {b[0]: "int", b[1]: "int"}, b[0]
        if k == 2:
            return f"({b[0]}, {b[1]}) in enumerate({self.list(sc, 1)})", {b[0]: "int", b[1]: "int"}, b[0]
        if k == 3 and sc.get("recs") == "recs":
            return f"{b[0]} in recs", {b[0]: "rec1"}, f"{b[0]}['id']"
        if k == 4 and sc.get("recs") == "recs":
            return f"{b[0]}, {b[1]} in enumerate(recs)", {b[0]: "int", b[1]: "rec1"}, f"{b[1]}['id']"
        if k == 5 and sc.get("d") == "dict":
            return f"{b[0]}, {b[1]} in d.items()", {b[0]: "str", b[1]: "int"}, b[0]
        if k == 6:
            inner = self.bind(sc, **{b[0]: "int"})
            return f"{b[0]} in {self.list(sc, 1)} if {self.bool(inner, 1)}", {b[0]: "int"}, None
        if k == 7:
            inner = self.bind(sc, **{b[0]: "int"})
            return (f"{b[0]} in {self.list(sc, 0)} for {b[1]} in range({b[0]} % 3)",
                    {b[0]: "int", b[1]: "int"}, None)
        if k == 8:
            return f"{b[0]} in range({self.int(sc, 1)} % 4)", {b[0]: "int"}, b[0]
        if k == 9 and sc.get("recs") == "recs":
            return f"{b[0]}, ({b[1]}, {b[2]}) in enumerate(zip(recs, {self.list(sc, 0)}))", \
                {b[0]: "int", b[1]: "rec1", b[2]: "int"}, f"{b[1]}['id']"
        recs = self.names(sc, "rec1")
        if recs:
            return f"{b[0]} in {r.choice(recs)}['tags']", {b[0]: "str"}, b[0]
        return f"{b[0]} in {self.list(sc, 1)}", {b[0]: "int"}, None

    def element(self, sc, d, key=None):
        r = self.r
        tags = TAGS + list(self.components) if key is None else [t for t in TAGS if t != "template"] + list(self.components)
        tag = r.choice(tags)
        if d <= 0 and tag == "template":
            tag = "a"
        node = {"t": "el", "tag": tag, "attrs": self.attrs(sc, tag, key), "kids": []}
        if tag in self.components:
            node["attrs"] = [a for a in node["attrs"]]
            return node
        if d > 0:
            node["kids"] = self.kids(sc, d - 1)
        return node

    def keyed(self, unique=None):
        """a key that is unique among all of the elements of the template"""
        self.uid += 1
        if unique is None:
            return f"'u{self.uid}'"
        return f"('u{self.uid}', {unique})"

    def kids(self, sc, d, minimum=0):
        r = self.r
        out = []
        for _ in range((r.choice([0, 1, 1, 2, 2, 3, 3]) if d < 3 else r.choice([1, 2, 3])) if d > 1 or r.random() < 0.97 else r.randint(6, 14)):
            k = r.random()
            if k < 0.35 or d < 0:
                out.append(self.element(sc, d, self.keyed() if r.random() < 0.15 else None))
            elif k < 0.55:
                if out and out[-1]["t"] in ("text", "com"):
                    continue
                out.append(self.text(sc))
            elif k < 0.62:
                if out and out[-1]["t"] in ("text", "com"):
                    continue
                out.append({"t": "com", "s": r.choice([" c ", " <b/> ", " v-if {{ n }} "])})
            elif k < 0.82:
                more = r.choice([0, 0, 1, 2])
                if r.random() < 0.05:
                    # One out of many
                    more = r.randint(4, 9)
                    at = r.randint(0, 3)
                    what = self.int(sc, 1)
                    conditions = [f"({what}) % {more} == {i + at}" if i < more else self.bool(sc) for i in range(more + 1)]
                else:
                    conditions = [self.bool(sc) for _ in range(more + 1)]
                branches = [[self.wrap(c), self.element(sc, d - 1, self.keyed() if r.random() < 0.2 and not i else None)]
                            for i, c in enumerate(conditions)]
                if r.random() < 0.5:
                    branches.append([None, self.element(sc, d - 1)])
                out.append({"t": "if", "branches": branches, "com": r.random() < 0.2})
            else:
                clause, names, unique = self.clause(sc)
                key = self.keyed(unique) if unique and r.random() < 0.6 else None
                if r.random() < 0.2 and "\n" not in clause:
                    clause = f" {clause} "
                out.append({"t": "for", "clause": clause,
                            "node": self.element(self.loop(sc, names), d, key)})
        return out


# ----------------------------------------------------------------- source
def esc_attr(r, value):
    value = value.replace("&", "&amp;")
    if '"' in value and "'" not in value and r.random() < 0.7:
        return f"'{value}'"
    return '"' + value.replace('"', "&quot;") + '"'


def esc_text(value):
    return value.replace("&", "&amp;").replace("<", "&lt;")


def expr_source(r, expr):
    return esc_attr(r, expr)


class Writer:
    """Writes the source of a template; the layout is chosen by r"""

    def __init__(self, r):
        self.r = r

    def attr(self, kind, name, value):
        r = self.r
        if kind == "plain":
            return f"{name}={esc_attr(r, value)}"
        if kind == "flag":
            return name
        if kind == "bind":
            return f"{r.choice([':', 'v-bind:'])}{name}={expr_source(r, value)}"
        if kind == "bulk":
            return f"v-bind={expr_source(r, value)}"
        if kind == "on":
            return f"{r.choice(['@', 'v-on:'])}{name}={expr_source(r, value)}"
        return f"{kind}={esc_attr(r, value)}" if value is not None else kind

    def space(self):
        return self.r.choice([" ", " ", "  ", "\n    "])

    def node(self, node, directive=None):
        r = self.r
        t = node["t"]
        if t == "text":
            return "".join(esc_text(v) if k == "s" else "{{" + esc_text(v) + "}}" for k, v in node["parts"])
        if t == "com":
            return f"<!--{node['s']}-->"
        if t == "if":
            out = []
            for i, (cond, el) in enumerate(node["branches"]):
                last = i == len(node["branches"]) - 1
                if i == 0:
                    d = ("v-if", cond or "True")
                elif cond is None and last:
                    d = ("v-else", None)
                else:
                    d = ("v-else-if", cond or "True")
                out.append(self.node(el, d))
            sep = "<!-- x -->" if node.get("com") else self.r.choice(["", "\n  "])
            return sep.join(out)
        if t == "for":
            return self.node(node["node"], ("v-for", node["clause"]))
        attrs = [self.attr(*a) for a in node["attrs"]]
        if directive:
            attrs.insert(r.randint(0, len(attrs)), self.attr(directive[0], None, directive[1]))
        head = node["tag"] + "".join(self.space() + a for a in attrs)
        kids = node["kids"]
        if not kids and r.random() < 0.5:
            return f"<{head}{r.choice([' ', ''])}/>" if not attrs or attrs[-1][-1] in "\"'" else f"<{head} />"
        return f"<{head}>{self.kids(kids)}</{node['tag']}>"

    def kids(self, kids):
        out = []
        prev = None
        for kid in [*kids, None]:
            textual = (prev is not None and prev["t"] == "text") or (kid is not None and kid["t"] == "text")
            if not textual:
                out.append(self.r.choice(["", "\n  ", " "]))
            if kid is not None:
                out.append(self.node(kid))
            prev = kid
        return "".join(out)


# ----------------------------------------------------------------- reference
class Ref:
    """components: tag -> function(props, handlers) that gives the expected nodes"""

    def __init__(self, components, make_env):
        self.components = components
        self.make_env = make_env

    def eval(self, expr, env):
        # Everything is a global, so it's visible in every scope of the expression
        try:
            return eval(compile(expr.strip(), "<ref>", "eval"), dict(env))
        except RecursionError:
            raise
        except Exception as e:
            raise Skip(f"{expr}: {e!r}")

    def tree(self, root):
        return self.node(root, self.make_env())

    def nodes(self, kids, env):
        return [x for kid in kids for x in self.node(kid, env)]

    def node(self, node, env):
        t = node["t"]
        if t == "com":
            return []
        if t == "text":
            text = "".join(v if k == "s" else str(self.eval(v, env)) for k, v in node["parts"])
            return [{"type": "TEXT_ELEMENT", "text": text}]
        if t == "if":
            for i, (cond, el) in enumerate(node["branches"]):
                last = i == len(node["branches"]) - 1
                if (cond is None and last and i > 0) or self.eval(cond or "True", env):
                    return self.node(el, env)
            return []
        if t == "for":
            names = clause_names(node["clause"])
            items = ", ".join(f"{n!r}: {n}" for n in names)
            scopes = self.eval("[{" + items + "} for " + node["clause"].strip() + "]", env)
            return [x for scope in scopes for x in self.node(node["node"], {**env, **scope})]
        props, on = {}, {}
        for kind, name, value in node["attrs"]:
            if kind == "plain":
                props[name] = value
            elif kind == "flag":
                props[name] = True
            elif kind == "bind":
                props[name] = self.eval(value, env)
            elif kind == "bulk":
                props.update(self.eval(value, env))
            elif kind == "on":
                props["on_" + name] = (value, env)
        kids = self.nodes(node["kids"], env)
        if node["tag"] == "template":
            return kids
        if node["tag"] in self.components:
            return self.components[node["tag"]](self, props, kids)
        return [self.host(node["tag"], props, kids)]

    def host(self, tag, props, kids):
        out = {"type": tag, "attrs": {}, "kids": kids, "on": {}}
        for k, v in props.items():
            if k.startswith("on_"):
                if self.eval(*v) is not None:
                    out["on"][k[3:]] = v
            elif v is not None:
                out["attrs"][k] = v
        return out


def clause_names(clause):
    """Names of the loop variables"""
    tree = ast.parse(f"[None for {clause.strip()}]", mode="eval").body
    names = set()
    for gen in tree.generators:
        for node in ast.walk(gen.target):
            if isinstance(node, ast.Name):
                names.add(node.id)
    return sorted(names)


def expressions(node):
    """All of the expressions in a template"""
    t = node["t"]
    if t == "text":
        for k, v in node["parts"]:
            if k == "e":
                yield v
    elif t == "if":
        for cond, el in node["branches"]:
            yield cond or "True"
            yield from expressions(el)
    elif t == "for":
        yield f"[None for {node['clause'].strip()}]"
        yield from expressions(node["node"])
    elif t == "el":
        for kind, _, value in node["attrs"]:
            if kind in ("bind", "bulk", "on"):
                yield value
        for kid in node["kids"]:
            yield from expressions(kid)


def check_structure(node):
    """Shrinking might result in texts that aren't separated or that are empty"""
    t = node["t"]
    if t == "text" and not any(k == "e" or v.strip() for k, v in node["parts"]):
        raise Skip("empty text")
    if t == "text" and any(k == "e" and ("}}" in v or v[:1] == "{" or v[-1:] == "}") for k, v in node["parts"]):
        raise Skip("braces")
    if t == "text":
        text = "".join(v if k == "s" else "\0" for k, v in node["parts"])
        if "{{" in text or "{\0" in text:
            raise Skip("braces")
    if t == "if":
        kids = [b[1] for b in node["branches"]]
    elif t == "for":
        kids = [node["node"]]
    else:
        kids = node.get("kids", [])
    if t in ("if", "for") and (not kids or any(k["t"] != "el" for k in kids)):
        raise Skip("directive on something else")
    for a, b in zip(kids, kids[1:]):
        if a["t"] in ("text", "com") and b["t"] in ("text", "com"):
            raise Skip("adjacent texts")
    for k in kids:
        check_structure(k)


def check_syntax(node):
    """Cases with expressions that aren't valid Python are left out"""
    check_structure(node)
    for expr in expressions(node):
        try:
            compile(expr.strip(), "<ref>", "eval")
        except SyntaxError as e:
            raise Skip(f"{expr}: {e!r}")


def depth_of(node):
    kids = node.get("kids", [])
    if node["t"] == "if":
        kids = [b[1] for b in node["branches"]]
    if node["t"] == "for":
        kids = [node["node"]]
    return 1 + max([depth_of(k) for k in kids], default=0)


def kinds_of(node, out=None):
    out = set() if out is None else out
    t = node["t"]
    if t == "el":
        out.update("attr-" + a[0] for a in node["attrs"])
        if not node["tag"][0].islower():
            out.add("component")
        if node["tag"] == "template":
            out.add("template")
        kids = node["kids"]
    elif t == "if":
        out.add(f"if-{len(node['branches'])}")
        kids = [b[1] for b in node["branches"]]
    elif t == "for":
        out.add("for")
        kids = [node["node"]]
        if any("for" in kinds_of(k, set()) for k in kids):
            out.add("nested-for")
    else:
        out.add(t)
        kids = []
    for k in kids:
        kinds_of(k, out)
    return out
