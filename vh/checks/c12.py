"""C12: slots render the parent's content in the child's place."""
from ..slots import gen_case, run_case

BUDGET = {"quick": {"cases": 100000, "seconds": 20}, "thorough": {"cases": 10000000, "seconds": 600}}
RULE = ("A case is a set of components (CGX templates, classes and functions; two to four, each using later ones in "
        "its body and in slot content) with slots anywhere (as root, in loops and conditions, with fallback, with slot "
        "props, within content for another component) and a history of changes of the state of the components. After "
        "every change the rendered tree, the instance that each element belongs to and the effect of each handler are "
        "compared with an interpreter of the case. Non-trivial: slot content was rendered and the tree changed.")
ASSUMPTIONS = ["slot props and content without fallback for the Python API, fallback content for CGX",
               "all instances of a class have the same local state"]


def gen(r):
    return gen_case(r)


def run(case):
    stats, classes = run_case(case, False)
    return {"nontrivial": bool(stats["slots"] and stats["changed"]), "classes": classes}
