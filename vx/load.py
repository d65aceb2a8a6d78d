"""Loads the modules of /repo's working tree in this process, with the MPI stand-in."""

import importlib
import math as _math
import os
import sys
import types

import numpy as np

from . import fakempi
from .core import *
from . import core

REPO = os.environ.get("VX_REPO", "/repo")
sys.dont_write_bytecode = True
_ready = False


def setup():
    global _ready
    if _ready:
        return
    fakempi.install()
    for p in (REPO, os.path.join(REPO, "wx_factory")):
        if p not in sys.path:
            sys.path.insert(0, p)
    os.chdir(REPO)
    _ready = True


def imp(name):
    """Import a repo module; a missing module is a harness gap (the tree was reorganised), never a violation."""
    setup()
    try:
        return importlib.import_module(name)
    except ImportError as e:
        raise HarnessGap(f"cannot import {name}: {e}")


def need(obj, *names):
    out = []
    for n in names:
        if not hasattr(obj, n):
            raise HarnessGap(f"{getattr(obj, '__name__', obj)} has no {n}")
        out.append(getattr(obj, n))
    return out[0] if len(out) == 1 else out


# ------------------------------------------------------------------------------------------------------------ device
def device(comm=None, xp=np, xalg=None, pde=None):
    """A CPU device without the compiled kernels (which no contract here goes through)."""
    setup()
    dv = imp("device")
    import scipy

    base = getattr(dv, "CpuDevice")

    class VxDevice(base):
        def __init__(self):
            self.comm = comm if comm is not None else fakempi.COMM_WORLD
            self.xp = xp
            self.xalg = xalg if xalg is not None else scipy
            self.pde = pde if pde is not None else Gap("device.pde")

        def synchronize(self, **k):
            pass

        def array(self, a, *x, **k):
            return a

        def to_host(self, v, **k):
            return v

        def pinned(self, *a, **k):
            return self.xp.empty(*a, **k)

        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise HarnessGap(f"device.{k}")

    d = VxDevice()
    return d


class Gap:
    """Stand-in that can only be reported as a harness gap."""

    def __init__(self, name, **kw):
        self.__dict__["_name"] = name
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise HarnessGap(f"{self._name}.{k}")


# ---------------------------------------------------------------------------------------------------- symbolic shims
def _ew(f):
    def g(a, b, *x, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                out[i] = f(a[i], b[i])
            return out
        return f(a, b)

    return g


def _has_sym(*xs):
    for x in xs:
        if is_sym(x):
            return True
        if isinstance(x, np.ndarray) and x.dtype == object:
            return True
        if isinstance(x, (list, tuple)) and _has_sym(*x):
            return True
    return False


class XP:
    """numpy with object dtype by default: arrays whose elements are symbolic scalars."""

    pi = np.pi
    inf = np.inf
    newaxis = None
    nan = np.nan
    float64 = float
    ndarray = np.ndarray

    def __init__(self, always_object=True):
        self._obj = always_object

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(np, k)

    def _dt(self, dtype):
        if dtype is None or (isinstance(dtype, type) and dtype in (float, complex)) or dtype == np.dtype(float):
            return object
        try:
            if np.dtype(dtype).kind in "fc":
                return object
        except TypeError:
            pass
        return dtype

    def zeros(self, shape, dtype=None, **k):
        a = np.empty(shape, dtype=self._dt(dtype))
        a[...] = 0
        return a

    def ones(self, shape, dtype=None, **k):
        a = np.empty(shape, dtype=self._dt(dtype))
        a[...] = 1
        return a

    def empty(self, shape, dtype=None, **k):
        return np.empty(shape, dtype=self._dt(dtype))

    def full(self, shape, v, dtype=None, **k):
        a = np.empty(shape, dtype=self._dt(dtype))
        a[...] = v
        return a

    def zeros_like(self, a, dtype=None, **k):
        return self.zeros(np.shape(a), dtype)

    def ones_like(self, a, dtype=None, **k):
        return self.ones(np.shape(a), dtype)

    def empty_like(self, a, dtype=None, **k):
        return np.empty(np.shape(a), dtype=self._dt(dtype if dtype is not None else getattr(a, "dtype", None)))

    def full_like(self, a, v, dtype=None, **k):
        return self.full(np.shape(a), v, dtype)

    def eye(self, n, m=None, **k):
        a = self.zeros((n, m or n))
        for i in range(min(n, m or n)):
            a[i, i] = 1
        return a

    def identity(self, n, **k):
        return self.eye(n)

    def array(self, a, dtype=None, **k):
        if _has_sym(a):
            return np.array(a, dtype=object)
        return np.array(a, dtype=dtype, **k)

    def asarray(self, a, dtype=None, **k):
        if _has_sym(a):
            return np.asarray(a, dtype=object)
        return np.asarray(a, dtype=dtype, **k)

    ascontiguousarray = asarray

    maximum = staticmethod(_ew(lambda a, b: sym_max(a, b) if _has_sym(a, b) else max(a, b)))
    minimum = staticmethod(_ew(lambda a, b: sym_min(a, b) if _has_sym(a, b) else min(a, b)))

    @staticmethod
    def where(c, a=None, b=None):
        if a is None:
            return np.where(c)
        if isinstance(c, SBool):
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                c = np.array(c, dtype=object)
            else:
                return ite(c, a, b)
        c, a, b = np.broadcast_arrays(
            np.asarray(c, dtype=object), np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        )
        out = np.empty(c.shape, dtype=object)
        for i in np.ndindex(*c.shape):
            out[i] = ite(c[i], a[i], b[i])
        return out

    @staticmethod
    def _un(name, x, *a, **k):
        if is_sym(x):
            return getattr(x, name)()
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                v = x[i]
                out[i] = getattr(v, name)() if is_sym(v) else getattr(np, name)(v)
            return out
        return getattr(np, name)(x)

    def sqrt(self, x, *a, **k):
        return self._un("sqrt", x)

    def sin(self, x, *a, **k):
        return self._un("sin", x)

    def cos(self, x, *a, **k):
        return self._un("cos", x)

    def tan(self, x, *a, **k):
        return self._un("tan", x)

    def exp(self, x, *a, **k):
        return self._un("exp", x)

    def log(self, x, *a, **k):
        return self._un("log", x)

    def arctan(self, x, *a, **k):
        return self._un("arctan", x)

    def arcsin(self, x, *a, **k):
        return self._un("arcsin", x)

    def arctan2(self, y, x, *a, **k):
        if _has_sym(y, x):
            return _ew(lambda p, q: sym_uf("arctan2", p, q))(y, x)
        return np.arctan2(y, x)

    def abs(self, x, *a, **k):
        return abs(x)

    absolute = fabs = abs

    def sign(self, x, *a, **k):
        return self._un("sign", x)

    def isnan(self, x):
        if is_sym(x):
            return x.isnan()
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = x[i].isnan() if is_sym(x[i]) else bool(np.isnan(x[i]))
            return out
        return np.isnan(x)

    def isinf(self, x):
        if is_sym(x):
            return x.isinf() if hasattr(x, "isinf") else SBool(False)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([bool(not is_sym(v) and np.isinf(v)) for v in x.ravel()]).reshape(x.shape)
        return np.isinf(x)

    @staticmethod
    def any(x, *a, **k):
        if isinstance(x, SBool):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and not a and not k:
            return OR(*[v for v in x.flat]) if x.size else False
        return np.any(x, *a, **k)

    @staticmethod
    def all(x, *a, **k):
        if isinstance(x, SBool):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and not a and not k:
            return AND(*[v for v in x.flat]) if x.size else True
        return np.all(x, *a, **k)

    def max(self, x, *a, **k):
        return self.amax(x, *a, **k)

    def amax(self, x, *a, **k):
        if _has_sym(x) and not a and not k:
            fl = list(np.asarray(x, dtype=object).flat)
            r = fl[0]
            for v in fl[1:]:
                r = sym_max(r, v)
            return r
        return np.max(x, *a, **k)

    def power(self, a, b):
        return a**b

    def square(self, a):
        return a * a

    def tensordot(self, a, b, axes=2):
        return np.tensordot(a, b, axes=axes)


def sym_int(x=0, *a):
    if isinstance(x, (SReal, SInt)) and not a:
        return sym_trunc(x)
    if isinstance(x, SBool):
        return SInt(core.int_term(x))
    return int(x, *a)


def sym_float(x=0.0):
    if isinstance(x, (SReal, SFP)):
        return x
    if isinstance(x, SInt):
        return SReal(core.real_term(x))
    return float(x)


def _smin(*a, **k):
    if k:
        return min(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(is_sym(x) for x in xs):
        return min(xs)
    r = xs[0]
    for x in xs[1:]:
        r = sym_min(r, x) if (is_sym(r) or is_sym(x)) else min(r, x)
    return r


def _smax(*a, **k):
    if k:
        return max(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(is_sym(x) for x in xs):
        return max(xs)
    r = xs[0]
    for x in xs[1:]:
        r = sym_max(r, x) if (is_sym(r) or is_sym(x)) else max(r, x)
    return r


class SMath:
    """math module on symbolic scalars."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        f = getattr(_math, k)
        if not callable(f):
            return f

        def g(*a, **kw):
            if any(is_sym(x) for x in a):
                x = a[0]
                if k == "sqrt":
                    return sym_sqrt(x)
                if k == "isqrt":
                    return sym_isqrt(x)
                if k == "floor":
                    return sym_floor(x)
                if k == "ceil":
                    return -sym_floor(-x)
                if k == "trunc":
                    return sym_trunc(x)
                if k in ("sin", "cos", "tan", "exp", "log"):
                    return getattr(SReal(core.real_term(x)), k)()
                if k == "fabs":
                    return abs(x)
                if k == "copysign":
                    m = abs(a[0])
                    return core.ite(a[1] >= 0, m, -m)
                if k == "hypot":
                    return sym_sqrt(a[0] * a[0] + a[1] * a[1])
                if k == "pow":
                    return a[0] ** a[1]
                if k == "isnan":
                    return x.isnan()
                if k == "isfinite":
                    return x.isfinite()
                raise Unsupported(f"math.{k}")
            if k == "prod" and a and _has_sym(list(a[0])):
                r = 1
                for v in a[0]:
                    r = r * v
                return r
            return f(*a, **kw)

        return g


SMATH = SMath()
XPS = XP()


class inject:
    """Temporarily replace names in the globals of repo modules by their symbolic equivalents."""

    STD = {"int": sym_int, "float": sym_float, "min": _smin, "max": _smax, "math": SMATH}

    def __init__(self, *mods, numpy_too=False, **extra):
        self.mods = [imp(m) if isinstance(m, str) else m for m in mods]
        self.extra = extra
        self.numpy_too = numpy_too

    def __enter__(self):
        self.saved = []
        for m in self.mods:
            g = m.__dict__
            new = dict(self.STD)
            for k, v in list(g.items()):
                if v is _math:
                    new[k] = SMATH
                elif v is np and self.numpy_too:
                    new[k] = XPS
                elif self.numpy_too and getattr(v, "__module__", None) and callable(v) and k in _FROM_NUMPY and v is getattr(np, k, None):
                    new[k] = getattr(XPS, k)
                elif callable(v) and v is getattr(_math, k, None):
                    new[k] = getattr(SMATH, k)
            if "math" not in g:
                new.pop("math", None)
            new.update({k: v for k, v in self.extra.items()})
            self.saved.append((g, {k: g.get(k, _MISSING) for k in new}))
            g.update(new)
        return self

    def __exit__(self, *a):
        for g, old in self.saved:
            for k, v in old.items():
                if v is _MISSING:
                    g.pop(k, None)
                else:
                    g[k] = v


_MISSING = object()
_FROM_NUMPY = {n for n in dir(XP) if not n.startswith("_")}
