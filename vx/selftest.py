"""Checks that the engine accepts a true contract and refutes a false one, with every back end."""

from . import core
from .core import *
from .report import Report


def main():
    R = Report("SELF", "quick", 1)

    def good(c):
        x = real("x")
        y = integer("n")
        c.prove("square", x * x >= 0)
        c.prove("max", sym_max(x, 0) >= x)
        c.prove("ring", EQ((x + 1) * (x + 1), x * x + 2 * x + 1))
        c.prove("int", EQ((y * 2) // 2, y))
        d = double("d")
        c.assume(d >= 0.0)
        c.prove("fp", d + 1.0 >= d)

    def bad(c):
        x = real("x")
        c.prove("false", x * x > x)

    R.symbolic("good", good)
    n = len(R.obligations)
    ok = n == 5 and all(o["status"] == "proved" for o in R.obligations)
    R.symbolic("bad", bad)
    ok = ok and len(R.refuted) == 1
    print("selftest", "ok" if ok else ("FAILED", R.obligations, R.undecided))
    return 0 if ok else 1
