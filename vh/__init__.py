"""Property-based checks for collagraph (see DESIGN.md)."""
import contextlib
import locale
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def bootstrap():
    """Put the code under test first on the path and Hypothesis last."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for extra in (
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
    ):
        if os.path.isdir(extra) and extra not in sys.path:
            sys.path.append(extra)
    import warnings

    warnings.filterwarnings("ignore")
    import hypothesis  # noqa: F401


class Violation(Exception):
    """The property under test does not hold."""


class Skip(Exception):
    """The case is outside the domain of the property (counted, never a pass)."""



@contextlib.contextmanager
def plain_locale(on=True):
    """As on systems whose locale doesn't know about UTF-8 (the workers run without the UTF-8 mode of Python)"""
    saved = locale.setlocale(locale.LC_CTYPE)
    try:
        if on:
            locale.setlocale(locale.LC_CTYPE, "C")
        yield
    finally:
        locale.setlocale(locale.LC_CTYPE, saved)
