"""Uninterpreted vector functions and contract stubs for callees."""

import sys

import numpy as np

from . import ring
from .core import *
from .core import real_term, ctx
from .load import REPO


def flat(v):
    return [x for x in np.asarray(v, dtype=object).ravel()]


def same(c, a, b):
    """Provably equal component by component?"""
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        tx, ty = real_term(x), real_term(y)
        if tx.eq(ty):
            continue
        try:
            if not ring.prove_eq(c.pc, tx, ty):
                return False
        except ring.RingUnsupported:
            return False
    return True


class UFun:
    """f: R^n -> R^n, any function.  Two calls with provably equal arguments give the same value."""

    def __init__(self, c, name):
        self.c, self.name, self.calls, self.jac = c, name, [], {}

    def id(self, v):
        for i, (w, val) in enumerate(self.calls):
            if np.shape(w) == np.shape(v) and same(self.c, w, v):
                return i
        i = len(self.calls)
        out = np.empty(np.shape(v), dtype=object)
        for k in np.ndindex(*out.shape):
            out[k] = real(f"{self.name}{i}_" + "_".join(map(str, k)))
        self.calls.append((np.array(v, dtype=object), out))
        return i

    def __call__(self, v, *a, **k):
        return self.calls[self.id(v)][1].copy()

    def J(self, q, v):
        """Jacobian at q applied to v (flat): any matrix."""
        i = self.id(q)
        n = np.size(q)
        if i not in self.jac:
            self.jac[i] = real_array(f"J{self.name}{i}", (n, n))
        v = np.asarray(v, dtype=object).ravel()
        M = self.jac[i]
        return np.array([sum((M[r, s] * v[s] for s in range(n)), 0) for r in range(n)], dtype=object)


class everywhere:
    """Replace callees in every loaded repo module that refers to them (by identity): as a name of the module, in a
    dictionary or list of the module or of one of its classes, or as an attribute of a class."""

    def __init__(self, pairs):
        self.pairs = [(o, n) for o, n in pairs]

    def __enter__(self):
        self.saved = []
        by = {id(o): n for o, n in self.pairs}
        for m in list(sys.modules.values()):
            f = getattr(m, "__file__", None)
            if not f or not str(f).startswith(REPO + "/"):
                continue
            for k, v in list(vars(m).items()):
                self.replace(by, m, k, v)
                if isinstance(v, type) and v.__module__ == m.__name__:
                    for k2, v2 in list(vars(v).items()):
                        f2 = v2.__func__ if isinstance(v2, staticmethod) else v2
                        if id(f2) in by:
                            self.saved.append((setattr, v, k2, v2))
                            setattr(v, k2, staticmethod(by[id(f2)]))
                        else:
                            self.inside(by, v2)
        return self

    def replace(self, by, m, k, v):
        if id(v) in by:
            self.saved.append((setattr, m, k, v))
            setattr(m, k, by[id(v)])
        elif isinstance(v, tuple) and any(id(x) in by for x in v):
            self.saved.append((setattr, m, k, v))
            setattr(m, k, tuple(by.get(id(x), x) for x in v))
        else:
            self.inside(by, v)

    def inside(self, by, v):
        if isinstance(v, dict) and not (v and all(isinstance(k, str) and k.startswith("__") for k in v)):
            items = list(v.items())
        elif isinstance(v, list):
            items = list(enumerate(v))
        else:
            return
        for k, x in items:
            if id(x) in by:
                self.saved.append((type(v).__setitem__, v, k, x))
                v[k] = by[id(x)]

    def __exit__(self, *a):
        for put, m, k, v in reversed(self.saved):
            put(m, k, v)


def alleq(a, b):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return SBool(False)
    return AND(*[EQ(x, y) for x, y in zip(a, b)])
