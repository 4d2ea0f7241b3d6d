"""C06: only handlers that behave the same are treated as interchangeable."""
import contextlib
import copy
import re
import types

from observ import reactive, readonly, shallow_reactive
from observ.proxy import Proxy

from collagraph.compare import equivalent_functions

from .. import Violation

BUDGET = {"quick": {"cases": 1000000, "seconds": 20}, "thorough": {"cases": 100000000, "seconds": 600}}
RULE = ("Pairs of callables (lambdas, nested functions, recursive and mutually recursive closures, bound and class "
        "methods, partials, builtins, decorated functions, generators) built from two programs: the same one, one of "
        "which one part (constant, default, captured value, global, receiver, argument) differs, or unrelated ones. "
        "Both are called with a set of arguments, before and after changing every mutable object. "
        "Non-trivial: the programs are different, yet of the same kind.")
ASSUMPTIONS = ["captured variables are not rebound", "names of positional arguments are not part of the behaviour",
               "callable objects without code are compared with ==, which has to be meaningful for them"]

# literals, as source; equal ones of different types on purpose
LITS = ["0", "1", "2", "1.0", "True", "False", "0.0", "-0.0", "''", "'a'", "b'a'", "None", "(1, 2)", "(1.0, 2)",
        "(True, 2)", "()", "(0.0,)", "(-0.0,)", "1j", "...", "(1, (2, 'x'))", "(1, (2.0, 'x'))", "'b'", "10**3", "'a b'", "b'xyz '", "range(3)",
        "range(2, 3)", "'x y'", "2**70"]
VALUES = [["lit", i] for i in range(len(LITS))]
OBJS = 10  # number of objects in a World
NAMES = ["f", "g"]
KINDS = ["lambda", "def", "rec", "mutual", "method", "classmethod", "partial", "builtin", "proxied", "deco", "gen", "comp",
         "annot", "inner", "attr", "names", "names", "sig", "try", "many", "many"]


def gen_value(r, depth=1):
    x = r.random()
    if x < 0.5 or depth <= 0:
        return ["lit", r.randrange(len(LITS))]
    if x < 0.75:
        return ["obj", r.randrange(OBJS)]
    if x < 0.8:
        return ["set", r.sample(["1", "1.0", "True", "'a'", "2"], r.randint(0, 2))]
    if x < 0.86:
        return ["tuple", [gen_value(r, depth - 1) for _ in range(r.randint(0, 2))]]
    return ["fn", gen_fn(r, depth - 1)]


def gen_fn(r, depth=2):
    kind = r.choice(KINDS)
    return {
        "kind": kind,
        "const": r.randrange(len(LITS)),
        "op": r.randrange(5),
        "default": gen_value(r, depth - 1) if depth > 0 else ["lit", r.randrange(len(LITS))],
        "kwdefault": ["lit", r.randrange(len(LITS))] if r.random() < 0.8 or depth <= 0 else gen_value(r, depth - 1),
        "v": [gen_value(r, depth), gen_value(r, depth - 1)],
        "world": r.randrange(2),   # which module (globals)
        "recv": r.randrange(2),
        "call": gen_fn(r, depth - 1) if depth > 0 and kind in ("partial", "deco") else None,
        "rename": r.random() < 0.2,
        "n1": r.randrange(len(ATTRIBUTES)), "n2": r.randrange(len(GLOBALS)), "sig": r.randrange(len(SIGS)),
    }


PARTS = ["const", "op", "default", "kwdefault", "v0", "v1", "world", "recv", "call", "rename"]
EXTRA = {"names": ["n1", "n2"] * 3, "sig": ["sig"] * 8, "try": ["sig", "n2"] * 4, "many": ["v0"] * 8}
ATTRIBUTES = ["real", "imag", "denominator", "is_integer", "n"]
GLOBALS = ["GLOBAL", "ANOTHER", "str", "type", "missing_name"]
SIGS = ["x, y=d", "x, /, y=d", "x, *, y=d", "x, *y", "x, **y", "*x, y=d", "x=d, y=k", "x, y", "*x, **y", "x, *, y=k",
        "x=d, *, y", "x=d, *, y=k", "x=d, y=d", "x=d, *, y=k"]
TRIES = [
    "  try:\n   LOG(x); LOG(x + 1)\n  except {err}: LOG(v0)\n",
    "  try:\n   LOG(x)\n  except {err}: LOG(v0)\n  else: LOG(x + 1)\n",
    "  LOG(x)\n  try: LOG(x + 1)\n  except {err}: LOG(v0)\n",
    "  try:\n   LOG(x); LOG(x + 1)\n  finally: LOG(v0)\n",
    "  with SUPPRESS({err}): LOG(x); LOG(x + 1)\n",
    "  LOG(x)\n  with SUPPRESS({err}): LOG(x + 1)\n",
    "  for i in range(2):\n   try:\n    LOG(x + i)\n    if y: continue\n   except {err}: break\n   LOG(i)\n",
]


def gen(r):
    a = gen_fn(r)
    x = r.random()
    case = {"a": a, "proxy": r.random() < 0.5}
    if x < 0.3:
        case["b"] = None  # the very same
    elif x < 0.85:
        b = copy.deepcopy(a)
        target = b
        while target["call"] and r.random() < 0.6:
            target = target["call"]
        part = r.choice(PARTS + EXTRA.get(target["kind"], []))
        other = gen_fn(r)
        if part == "v0":
            target["v"][0] = mutate_value(r, target["v"][0])
        elif part == "v1":
            target["v"][1] = mutate_value(r, target["v"][1])
        elif part in ("default", "kwdefault"):
            target[part] = mutate_value(r, target[part])
        elif part == "call" and not target["call"]:
            target["const"] = other["const"]
        else:
            target[part] = other[part]
        case["b"] = b
    else:
        case["b"] = gen_fn(r)
    return case


def mutate_value(r, v):
    if v[0] == "fn" and r.random() < 0.6:
        w = copy.deepcopy(v)
        w[1][r.choice(["const", "op", "world", "recv"])] = r.randrange(2)
        return w
    if v[0] == "tuple" and v[1] and r.random() < 0.7:
        i = r.randrange(len(v[1]))
        return ["tuple", v[1][:i] + [mutate_value(r, v[1][i])] + v[1][i + 1:]]
    return gen_value(r, 1)


OPS = ["({0}, {1})", "({1}, {0})", "[{0}, {1}]", "({0}, {1}, {0})", "({0} if {1} else {1})"]

SOURCES = {
    # every source is a factory: make(v0, v1, d, k, recv, call)
    "lambda": "def make(v0, v1, d, k, recv, call):\n return lambda {x}, y=d, *rest, z=k, **kw: (LOG({x}), {e}, y, rest, z, kw, v1, GLOBAL)\n",
    "def": "def make(v0, v1, d, k, recv, call):\n def {f}({x}, y=d, /, *, z=k):\n  LOG({c})\n  for i in ({x}, v1):\n   LOG(i)\n  return ({e}, y, z, GLOBAL)\n return {f}\n",
    "rec": "def make(v0, v1, d, k, recv, call):\n def {f}({x}, y=3):\n  if y > 0:\n   return ({c}, {f}({x}, y - 1))\n  return {e}\n return {f}\n",
    "mutual": "def make(v0, v1, d, k, recv, call):\n def p({x}, y=3):\n  return ({c}, q({x}, y - 1)) if y > 0 else v1\n def q({x}, y=3):\n  return ({e}, p({x}, y - 1)) if y > 0 else v0\n return p\n",
    "method": "class R:\n def __init__(self, n): self.n = n\n def __eq__(self, o): return True\n def __hash__(self): return 1\n def m(self, {x}, y=0): return (self.n, {x}, y, {c}, GLOBAL)\n def m2(self, {x}, y=0): return (self.n, y, {x}, {c}, GLOBAL)\nRS = [R(0), R(1)]\ndef make(v0, v1, d, k, recv, call):\n return RS[recv].{m}\n",
    "classmethod": "class A:\n @classmethod\n def m(cls, {x}, y=0): return (cls.__name__, {x}, {c})\n @staticmethod\n def m2({x}, y=0): return ('static', {x}, {c})\nclass B(A): pass\nRS = [A, B]\ndef make(v0, v1, d, k, recv, call):\n return RS[recv].{m}\n",
    "partial": "from functools import partial\ndef target({x}, y=0, *rest, **kw): return ('t', {x}, y, rest, kw, {c}, GLOBAL)\ndef make(v0, v1, d, k, recv, call):\n return partial(call or target, v0, {kw}) if {c} is not None else partial(call or target, {kw})\n",
    "proxied": "RS = [reactive([1]), reactive([1])]\ndef make(v0, v1, d, k, recv, call):\n return [RS[recv].append, RS[recv].count, RS[recv].insert, RS[recv].extend, RS[recv].remove][{op}]\n",
    "builtin": "L0, L1 = [1], [1]\nRS = [L0, L1]\ndef make(v0, v1, d, k, recv, call):\n return [RS[recv].append, len, 'ab'.join, RS[recv].count, 'ba'.join][{op}]\n",
    "deco": "from functools import wraps\ndef deco(fn, extra):\n @wraps(fn)\n def wrapper(*args, **kw):\n  return (extra, fn(*args, **kw))\n return wrapper\ndef target({x}, y=0): return ({x}, y, {c})\ndef make(v0, v1, d, k, recv, call):\n return deco(call or target, v0)\n",
    "gen": "def make(v0, v1, d, k, recv, call):\n def {f}({x}, y=d):\n  yield {c}\n  yield from ({e}, y)\n return {f}\n",
    "comp": "def make(v0, v1, d, k, recv, call):\n return lambda {x}, y=d: [(i, v0, {c}, (lambda q: (q, i, {x}, v1, {c}))(y)) for i in ({x}, y)]\n",
    "annot": "def make(v0, v1, d, k, recv, call):\n def {f}({x}: int, y: str = d) -> None:\n  'doc'\n  try:\n   return ({x} + {c}, {e})\n  except TypeError as error:\n   return ('error', {e})\n  finally:\n   LOG(y)\n return {f}\n",
    "inner": "def make(v0, v1, d, k, recv, call):\n def {f}({x}, y=d):\n  def inner(z=k):\n   return ({e}, y, z)\n  return inner()\n return {f}\n",
    "attr": "def make(v0, v1, d, k, recv, call):\n return lambda {x}, y=d: (getattr({x}, '{n}', None), LOG({x}), GLOBAL, {c} in (1, 2), {e})\n",
    "names": "def make(v0, v1, d, k, recv, call):\n def {f}(x, y=d):\n  global WRITTEN_A, WRITTEN_B\n  {w} = y\n  return (getattr(x, 'real', 0) and x.{n1}, {n2}, {e}, WRITTEN_A, WRITTEN_B)\n return {f}\n",
    "sig": "def make(v0, v1, d, k, recv, call):\n def {f}({sig}):\n  return (x, y, {e})\n return {f}\n",
    # (one out of many captured values, defaults, keyword-only defaults, arguments or constants is v0)
    "many": "from functools import partial\ndef target(*rest, **kw): return (rest, kw, {c})\ndef make(v0, v1, d, k, recv, call):\n q0, q1, q2, q3, q4, q5, q6, q7 = {qs}\n return {many}\n",
    "try": "def make(v0, v1, d, k, recv, call):\n def {f}(x, y=d):\n{tries}  return {n2}\n return {f}\n",
}


MANY = [
    "lambda *rest: (rest, {c}, q0, q1, q2, q3, q4, q5, q6, q7)",
    "lambda {x}=0, a=q0, b=q1, c=q2, d=q3, e=q4, f=q5, g=q6, h=q7: ({x}, a, b, c, d, e, f, g, h, {c})",
    "lambda *rest, a=q0, b=q1, c=q2, d=q3, e=q4, f=q5, g=q6, h=q7: (rest, a, b, c, d, e, f, g, h, {c})",
    "partial(target, q0, q1, q2, q3, q4, q5, q6, q7)",
    "partial(target, a=q0, b=q1, c=q2, d=q3, e=q4, f=q5, g=q6, h=q7)",
]


def source(spec):
    x = "arg" if spec["rename"] else "x"
    c = LITS[spec["const"]]
    e = OPS[spec["op"]].format("v0", c)
    at = spec["sig"] % 8
    return SOURCES[spec["kind"]].format(
        qs=", ".join("v0" if i == at else ["v1", str(i)][i == spec["n1"]] for i in range(8)),
        many=MANY[spec["op"]].format(x=x, c=c),
        x=x, c=c, e=e, f="f" if spec["op"] % 2 else "g", m="m" if spec["op"] % 2 else "m2", op=spec["op"],
        kw=["key=v1", "key=v1, other=v0", "other=v1", "key=d", "y2=k"][spec["op"]], n=["real", "imag", "n", "x", "y"][spec["op"]],
        n1=ATTRIBUTES[spec["n1"]], n2=GLOBALS[spec["n2"]], sig=SIGS[spec["sig"]], w=["WRITTEN_A", "WRITTEN_B"][spec["op"] % 2],
        tries=TRIES[spec["sig"] % len(TRIES)].format(err=["TypeError", "ValueError"][spec["op"] % 2]))


class Obj:
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Obj)

    def __hash__(self):
        return 5


COMMON = {"ANOTHER": "other", "SUPPRESS": contextlib.suppress, "WRITTEN_A": 0, "WRITTEN_B": 0, "reactive": reactive}


class World:
    """The objects and modules that both callables refer to"""

    def __init__(self):
        shared = {"deep": {"a": 1}}
        other = {"deep": {"a": 1}}
        self.objs = [[1], [1], {"a": 1}, {"a": 1}, Obj(1), Obj(1), reactive(shared), reactive(other), readonly(shared),
                     shallow_reactive(shared)]
        self.shared = shared
        self.other_proxy = None
        self.log = []
        self.modules = [{"GLOBAL": "one", "LOG": self.log_call, "__name__": "m0", **COMMON},
                        {"GLOBAL": "two", "LOG": self.log_call, "__name__": "m1", **COMMON}]
        self.factories = {}
        self.receivers = []  # lists
        self.count = 0

    def log_call(self, value):
        self.log.append(value)

    def obj(self, i, again):
        if i == 6 and again:
            # Another proxy for the same object
            return reactive(self.shared)
        return self.objs[i]

    def factory(self, spec):
        text = source(spec)
        key = (spec["world"], text)
        if key not in self.factories:
            # (all programs share the module's namespace, but not the definitions in it)
            scope = self.modules[spec["world"]]
            for name in ("RS", "R", "A", "B", "L0", "L1", "target", "deco"):
                text = re.sub(rf"\b{name}\b", f"{name}_{len(self.factories)}", text)
            exec(compile(text, "program.py", "exec"), scope)
            self.factories[key] = scope["make"]
            if spec["kind"] in ("builtin", "proxied"):
                self.receivers += scope[f"RS_{len(self.factories) - 1}"]
        return self.factories[key]

    def value(self, v, again):
        kind, arg = v
        if kind == "lit":
            return eval(LITS[arg])
        if kind == "obj":
            return self.obj(arg, again)
        if kind == "set":
            return frozenset(eval(x) for x in arg)
        if kind == "tuple":
            return tuple(self.value(x, again) for x in arg)
        return self.make(arg, again)

    def make(self, spec, again=False):
        make = self.factory(spec)
        call = self.make(spec["call"], again) if spec["call"] else None
        return make(self.value(spec["v"][0], again), self.value(spec["v"][1], again),
                    self.value(spec["default"], again), self.value(spec["kwdefault"], again), spec["recv"], call)

    def mutate(self):
        for i, obj in enumerate(self.objs):
            if isinstance(obj, list):
                obj.append(f"new{i}")
            elif type(obj).__name__.startswith("Readonly"):
                continue
            elif isinstance(obj, dict) or isinstance(obj, Proxy):
                obj["a"] = f"new{i}"
            else:
                obj.n = f"new{i}"
        for i, module in enumerate(self.modules):
            module["GLOBAL"] = f"changed{i}"

    # ---- observation
    def canon(self, v, depth=0):
        if isinstance(v, Proxy):
            return ("proxy", type(v).__name__, id(v.target), isinstance(v.get("deep"), Proxy) if isinstance(v.target, dict) else None)
        if isinstance(v, (list, dict, Obj)):
            for i, obj in enumerate(self.objs):
                if v is obj:
                    return ("obj", i, self.contents(v))
        if isinstance(v, dict):
            return ("dict", {k: self.canon(x, depth) for k, x in v.items()})
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, [self.canon(x, depth) for x in v])
        if isinstance(v, (frozenset, set)):
            return (type(v).__name__, sorted((type(x).__name__, repr(x)) for x in v))
        if isinstance(v, types.GeneratorType):
            return ("generator", [self.canon(x, depth) for x in v])
        if isinstance(v, BaseException):
            return ("exception", type(v).__name__)
        if isinstance(v, type):
            return ("class", v.__name__)
        if callable(v):
            return ("callable", self.observe(v, depth + 1) if depth < 2 else "?")
        return (type(v).__name__, repr(v))

    def contents(self, v):
        if isinstance(v, Obj):
            return repr(v.n)
        return repr(v)

    def observe(self, fn, depth=0):
        if depth:
            return self.calls(fn, depth)
        contents = [list(x) for x in self.receivers]
        out = self.calls(fn, depth), [repr(list(x)) for x in self.receivers]
        for x, old in zip(self.receivers, contents):
            x[:] = old
        return out

    def calls(self, fn, depth):
        out = []
        if not depth:
            self.count = 0
        for args, kwargs in ARGS:
            self.log.clear()
            self.count += 1
            for module in self.modules:
                module["WRITTEN_A"] = module["WRITTEN_B"] = 0
            try:
                result = fn(*[a() if callable(a) else a for a in args], **kwargs)
                result = self.canon(result, depth)
            except (TypeError, ValueError, AttributeError, OverflowError, ZeroDivisionError, NameError, OSError) as e:
                result = ("raised", type(e).__name__)
            out.append((result, [self.canon(x, 2) for x in self.log]))
            if self.count > 3000:
                return "many"
        return out


ARGS = [((), {}), ((5,), {}), ((5, 6), {}), ((5,), {"z": 7}), ((5, 6, 7), {}), ((list,), {}), (("a", 2), {}), ((5,), {"key": 1})]


def run(case):
    same = case["b"] is None
    world = World()
    a = world.make(case["a"])
    spec_b = case["a"] if same else case["b"]
    b = world.make(spec_b, again=case["proxy"])
    try:
        verdict = equivalent_functions(a, b)
        back = equivalent_functions(b, a)
    except Exception as e:
        raise Violation(f"comparing raised {e!r}\n{show(case)}")
    if not isinstance(verdict, bool):
        raise Violation(f"verdict {verdict!r}")
    if verdict != back:
        raise Violation(f"equivalent one way around ({verdict}) but not the other\n{show(case)}")
    if not equivalent_functions(a, a):
        raise Violation(f"not equivalent to itself\n{show(case)}")
    if same and not verdict:
        raise Violation(f"the same expression with the same captured values is not equivalent\n{show(case)}")
    if verdict:
        for phase in ("as created", "after changing the objects and globals they use"):
            x, y = world.observe(a), world.observe(b)
            if x != y:
                for (args, kwargs), p, q in zip(ARGS, x[0], y[0]):
                    if p != q:
                        raise Violation(f"equivalent, but called with {args} {kwargs} {phase}:\n{p}\n{q}\n{show(case)}")
                raise Violation(f"equivalent, but behave differently {phase}\n{x}\n{y}\n{show(case)}")
            world.mutate()
    classes = {case["a"]["kind"], "equivalent" if verdict else "different", "same" if same else "other"}
    return {"nontrivial": not same and case["a"]["kind"] == spec_b["kind"] and case["a"] != spec_b, "classes": classes}


def show(case):
    text = "a:\n" + source(case["a"]) + repr(case["a"])
    if case["b"]:
        text += "\nb:\n" + source(case["b"]) + repr(case["b"])
    return text
