"""Exact scalars: rational functions in a few free parameters (sympy's fraction fields).  Two scalars are equal as
functions iff their normal forms coincide.  Floats enter as the rational number they are."""

import numbers
from fractions import Fraction

import numpy as np
import sympy
from sympy import QQ

from .core import Unsupported


class Field:
    def __init__(self, *names):
        self.names = names or ("unused_",)
        self.K = QQ.frac_field(*[sympy.Symbol(n) for n in self.names])
        self.gens = [F(self, g) for g in self.K.gens]
        self.exps = {}
        self.spare = []

    def lift(self, x):
        if isinstance(x, F):
            return x
        if isinstance(x, (bool, np.bool_)):
            return F(self, self.K(int(x)))
        if isinstance(x, numbers.Integral):
            return F(self, self.K(int(x)))
        if isinstance(x, numbers.Real) and not isinstance(x, sympy.Basic):
            f = Fraction(float(x))
            return F(self, self.K(QQ(f.numerator, f.denominator)))
        if isinstance(x, sympy.Basic):
            if x.has(sympy.Float):
                x = sympy.nsimplify(x, rational=True)
            return F(self, self.K.from_sympy(sympy.together(x)) if not x.is_Rational else self.K(QQ(x.p, x.q)))
        raise Unsupported(f"{type(x).__name__} as an exact scalar")

    def array(self, a):
        a = np.asarray(a, dtype=object)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            out[i] = self.lift(a[i])
        return out

    def inv(self, A):
        A = self.array(A)
        n = A.shape[0]
        M = np.concatenate([A, self.array(np.eye(n, dtype=int))], axis=1)
        for j in range(n):
            p = next((r for r in range(j, n) if M[r, j].v != 0), None)
            if p is None:
                raise np.linalg.LinAlgError("Singular matrix")
            if p != j:
                M[[j, p]] = M[[p, j]]
            M[j] = M[j] / M[j, j]
            for r in range(n):
                if r != j and M[r, j].v != 0:
                    M[r] = M[r] - M[r, j] * M[j]
        return M[:, n:].copy()


def _op(name):
    def f(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, sympy.Basic) and not o.is_number:
            return {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}[name](self.expr(), o)
        try:
            o = self.k.lift(o)
        except Unsupported:
            return NotImplemented
        a, b = self.v, o.v
        if name == "div" and b == 0:
            raise ZeroDivisionError
        return F(self.k, a + b if name == "add" else a - b if name == "sub" else a * b if name == "mul" else a / b)

    return f


def _rop(name):
    def f(self, o):
        if isinstance(o, sympy.Basic) and not o.is_number:
            return {"sub": lambda a, b: a - b, "div": lambda a, b: a / b, "add": lambda a, b: a + b, "mul": lambda a, b: a * b}[name](o, self.expr())
        try:
            o = self.k.lift(o)
        except Unsupported:
            return NotImplemented
        return _op(name)(o, self)

    return f


class F:
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k, self.v = k, v

    def expr(self):
        return self.k.K.to_sympy(self.v)

    _sympy_ = expr
    __add__, __sub__, __mul__, __truediv__ = _op("add"), _op("sub"), _op("mul"), _op("div")
    __radd__, __rsub__, __rmul__, __rtruediv__ = _rop("add"), _rop("sub"), _rop("mul"), _rop("div")

    def __neg__(self):
        return F(self.k, -self.v)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if not isinstance(n, numbers.Integral):
            raise Unsupported("power of an exact scalar")
        r = self.k.lift(1)
        for _ in range(abs(int(n))):
            r = r * self
        return r if n >= 0 else 1 / r

    def __eq__(self, o):
        try:
            return bool(self.v == self.k.lift(o).v)
        except Unsupported:
            return NotImplemented

    def __ne__(self, o):
        e = self.__eq__(o)
        return e if e is NotImplemented else not e

    def __hash__(self):
        return hash(self.v)

    def __bool__(self):
        return bool(self.v != 0)

    def __float__(self):
        raise Unsupported("an exact scalar where a float is needed")

    __int__ = __index__ = __float__

    def __lt__(self, o):
        raise Unsupported("order of free parameters")

    __le__ = __gt__ = __ge__ = __lt__

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def conjugate(self):
        return self

    def __repr__(self):
        return str(self.v)


class FXP:
    """numpy with exact scalars (object arrays)."""

    def __init__(self, field):
        self.f = field
        self.linalg = type("linalg", (), {"inv": staticmethod(field.inv), "LinAlgError": np.linalg.LinAlgError})

    def __getattr__(self, k):
        return getattr(np, k)

    def _num(self, dtype):
        return dtype is None or np.dtype(dtype).kind in "fcO"

    def full(self, shape, v, dtype=None, **k):
        if not self._num(dtype):
            return np.full(shape, v, dtype=dtype)
        return self.f.array(np.full(shape, v, dtype=object))

    def zeros(self, shape, dtype=None, **k):
        return self.full(shape, 0, dtype)

    def ones(self, shape, dtype=None, **k):
        return self.full(shape, 1, dtype)

    empty = zeros

    def zeros_like(self, a, dtype=None, shape=None, **k):
        return self.zeros(np.shape(a) if shape is None else shape, dtype)

    empty_like = zeros_like

    def ones_like(self, a, dtype=None, **k):
        return self.ones(np.shape(a), dtype)

    def eye(self, n, *a, dtype=None, **k):
        return self.f.array(np.eye(n, *a, dtype=int))

    def identity(self, n, dtype=None, **k):
        return self.eye(n)

    def array(self, a, dtype=None, **k):
        b = np.array(a, dtype=object)
        if b.dtype == object and (dtype is None or np.dtype(dtype).kind in "fO"):
            return self.f.array(b)
        return np.array(a, dtype=dtype, **k)

    def asarray(self, a, dtype=None, **k):
        if isinstance(a, np.ndarray) and a.dtype == object and all(isinstance(x, F) for x in a.flat):
            return a
        return self.array(a, dtype)

    def exp(self, x):
        """Unknown positive numbers, one per argument."""
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = self.exp(x[i])
            return out
        key = round(float(x), 12)
        if key == 0:
            return self.f.lift(1)
        if key not in self.f.exps:
            if not self.f.spare:
                raise Unsupported("too many exponentials")
            self.f.exps[key] = self.f.spare.pop(0)
        return self.f.exps[key]
