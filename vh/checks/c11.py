"""C11: provide/inject and parent follow the component tree."""
from ..slots import gen_case, run_case

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("A case is a set of components as for C12 (with slots, functions and templates between them) that provide "
        "values (falsy ones, values of their own, their reactive state) when they are created or later on, and a history "
        "of changes. After every change the parent of every instance, and for several keys what it injects (when it was "
        "created, now, and as shown by elements), are compared with the reference model. Non-trivial: some component "
        "had two ancestors or more and some injected value was provided.")
ASSUMPTIONS = ["values that are provided after an element showed them are only checked with calls to inject"]


def gen(r):
    return gen_case(r, True)


def run(case):
    stats, classes = run_case(case, True)
    return {"nontrivial": bool(stats["injected"] and stats["depth"] > 1), "classes": classes}
