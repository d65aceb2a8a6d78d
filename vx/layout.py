"""Arrays of any size: shapes are polynomials in named sizes (each at least 1), contents are functions of the index.

The real functions of /repo that only move data (reshape, transpose, slice, repeat, tile, assign to slices) run on these
arrays, and a query "what stands at this index" pulls the index back through the recorded operations.  An index is a
mixed-radix number, a list of digits (most significant first) with their sizes; reshape regroups the digits, so no
division or multiplication of symbolic sizes is ever left to the solver.  Whatever does not align raises Unsupported."""

import ast
import inspect
import textwrap
import types

import numpy as np
import z3

from .core import Unsupported, SBool, ctx

ATOMS = {}


class Sz:
    """Polynomial with integer coefficients in the sizes."""

    __array_ufunc__ = None

    def __init__(self, terms):
        self.t = {m: c for m, c in terms.items() if c}

    @staticmethod
    def of(x):
        if isinstance(x, Sz):
            return x
        if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, np.integer)):
            raise Unsupported(f"a size that is not an integer: {x!r}")
        return Sz({(): int(x)})

    @staticmethod
    def atom(name):
        ATOMS.setdefault(name, z3.Int("n_" + name))
        return Sz({(name,): 1})

    def const(self):
        if not self.t:
            return 0
        return self.t[()] if set(self.t) == {()} else None

    def _bin(self, o, f):
        try:
            o = Sz.of(o)
        except Unsupported:
            return NotImplemented
        return norm(f(self, o))

    def __add__(s, o):
        def f(a, b):
            t = dict(a.t)
            for m, c in b.t.items():
                t[m] = t.get(m, 0) + c
            return Sz(t)

        return s._bin(o, f)

    __radd__ = __add__

    def __neg__(s):
        return Sz({m: -c for m, c in s.t.items()})

    def __sub__(s, o):
        return s + (-Sz.of(o))

    def __rsub__(s, o):
        return (-s) + o

    def __mul__(s, o):
        def f(a, b):
            t = {}
            for m, c in a.t.items():
                for n, d in b.t.items():
                    k = tuple(sorted(m + n))
                    t[k] = t.get(k, 0) + c * d
            return Sz(t)

        return s._bin(o, f)

    __rmul__ = __mul__

    def __pow__(s, k):
        if not isinstance(k, (int, np.integer)) or k < 0:
            raise Unsupported("power of a size")
        r = 1
        for _ in range(k):
            r = s * r
        return r

    def divide(s, o):
        """s / o when o divides s as a polynomial; None otherwise."""
        o = Sz.of(o)
        if not o.t:
            return None
        lead = max(o.t, key=lambda m: (len(m), m))
        q, r = {}, Sz(dict(s.t))
        for _ in range(64):
            if not r.t:
                return norm(Sz(q))
            m = max(r.t, key=lambda m: (len(m), m))
            rest = list(m)
            for a in lead:
                if a not in rest:
                    return None
                rest.remove(a)
            if r.t[m] % o.t[lead]:
                return None
            k, c = tuple(rest), r.t[m] // o.t[lead]
            q[k] = q.get(k, 0) + c
            r = Sz.of(r - Sz({k: c}) * o)
        return None

    def __floordiv__(s, o):
        q = s.divide(o)
        if q is None:
            raise Unsupported(f"({s}) // ({o})")
        return q

    def __mod__(s, o):
        if s.divide(o) is None:
            raise Unsupported(f"({s}) % ({o})")
        return 0

    def sign(s):
        """'+' '-' '0' for every choice of sizes >= 1, '>=' '<=' or None."""
        if not s.t:
            return "0"
        p = Sz({(): 0})
        for m, c in s.t.items():  # a -> 1 + a'
            e = Sz({(): c})
            for a in m:
                e = Sz.of(e * Sz({(): 1, (a,): 1}))
            p = Sz.of(p + e)
        cs = list(p.t.values())
        if all(c >= 0 for c in cs):
            return "+" if p.t.get((), 0) > 0 else ">="
        if all(c <= 0 for c in cs):
            return "-" if p.t.get((), 0) < 0 else "<="
        return None

    def _cmp(s, o, yes, no, what):
        d = Sz.of(s - o).sign()
        if d in yes:
            return True
        if d in no:
            return False
        raise Unsupported(f"{s} {what} {o} depends on the sizes")

    def __eq__(s, o):
        try:
            return s._cmp(o, ("0",), ("+", "-"), "==")
        except TypeError:
            return NotImplemented

    def __ne__(s, o):
        return not s == o

    def __lt__(s, o):
        return s._cmp(o, ("-",), ("+", "0", ">="), "<")

    def __le__(s, o):
        return s._cmp(o, ("-", "0", "<="), ("+",), "<=")

    def __gt__(s, o):
        return s._cmp(o, ("+",), ("-", "0", "<="), ">")

    def __ge__(s, o):
        return s._cmp(o, ("+", "0", ">="), ("-",), ">=")

    def __hash__(s):
        return hash(frozenset(s.t.items()))

    def __bool__(s):
        return s != 0

    def __index__(s):
        raise Unsupported("a symbolic size where a number is needed")

    __int__ = __float__ = __index__

    def __repr__(s):
        return " + ".join("*".join([str(c)] * (c != 1 or not m) + list(m)) for m, c in s.t.items()) or "0"

    def z(s):
        e = z3.IntVal(0)
        for m, c in s.t.items():
            t = z3.IntVal(c)
            for a in m:
                t = t * ATOMS[a]
            e = e + t
        return z3.simplify(e)


def norm(s):
    c = s.const()
    return s if c is None else c


def zz(x):
    return z3.IntVal(int(x)) if not isinstance(x, Sz) else x.z()


def eq(a, b):
    """Identical as polynomials (no case split)."""
    return Sz.of(a).t == Sz.of(b).t


def prod(xs):
    r = 1
    for x in xs:
        r = x * r
    return r


# ------------------------------------------------------------------------------------------------------------ indices
class Ix:
    """digits: [(z3 Int term, size)], most significant first; digits of size 1 are left out."""

    def __init__(self, digits):
        self.d = [(t, s) for t, s in digits if not eq(s, 1)]

    size = property(lambda s: prod(x for _, x in s.d))


def take_low(digits, size):
    """Split digits into (high, low) with prod(low sizes) == size."""
    digits, low = list(digits), []
    while not eq(prod(s for _, s in low), size):
        if not digits:
            raise Unsupported(f"index does not split at size {size}")
        t, s = digits.pop()
        have = prod(x for _, x in low)
        want = Sz.of(size).divide(have)
        if want is not None and Sz.of(want).divide(s) is None:
            # the digit itself has to be split: possible when it is 0 or its last value
            q = Sz.of(s).divide(want)
            if q is not None and z3.is_int_value(t) and t.as_long() == 0:
                digits.append((z3.IntVal(0), q))
                low.insert(0, (z3.IntVal(0), want))
                continue
            if q is not None and z3.simplify(t - zz(Sz.of(s) - 1)).eq(z3.IntVal(0)):
                digits.append((zz(Sz.of(q) - 1), q))
                low.insert(0, (zz(Sz.of(want) - 1), want))
                continue
        low.insert(0, (t, s))
    return digits, low


def regroup(ixs, shape):
    """Indices into an array of another shape that has the same elements in the same order."""
    digits = [d for ix in ixs for d in ix.d]
    out = []
    for n in reversed(shape):
        digits, low = take_low(digits, n)
        out.insert(0, Ix(low))
    if digits:
        raise Unsupported("reshape leaves digits over")
    return out


def shift(ix, start, n):
    """Index start + ix into an axis of length n."""
    if eq(start, 0) and eq(ix.size, n):
        return ix
    L = ix.size
    m, q = Sz.of(n).divide(L), Sz.of(start).divide(L)
    if m is not None and q is not None and not eq(m, 1):
        return Ix([(zz(q), m)] + ix.d)
    if not ix.d:
        return Ix([(zz(start), n)])
    low = prod(s for _, s in ix.d[1:])
    m, q = Sz.of(n).divide(low), Sz.of(start).divide(low)
    if m is None or q is None:
        raise Unsupported("slice does not align with the axis")
    return Ix([(z3.simplify(ix.d[0][0] + zz(q)), m)] + ix.d[1:])


def within(ix, start, stop, n):
    """(condition that start <= ix < stop, index relative to start); None when the slice is empty for some sizes."""
    if eq(start, 0) and eq(stop, n):
        return z3.BoolVal(True), ix
    d = list(ix.d)
    if not d:
        raise Unsupported("slice of an axis of length one")
    ln = Sz.of(stop) - start
    # the fewest leading digits such that both ends are multiples of the rest
    for k in range(1, len(d) + 1):
        low = prod(s for _, s in d[k:])
        a, b = Sz.of(start).divide(low), Sz.of(stop).divide(low)
        if a is not None and b is not None:
            break
    else:
        raise Unsupported("slice does not align with the axis")
    if k != 1:
        # merge the leading digits into one
        top, size = d[0]
        for t, s in d[1:k]:
            top, size = top * zz(s) + t, size * s
        d = [(top, size)] + d[k:]
    t, _ = d[0]
    cond = z3.And(t >= zz(a), t < zz(b))
    rel = z3.simplify(t - zz(a))
    return z3.simplify(cond), Ix([(rel, Sz.of(b) - a if not isinstance(b, int) or not isinstance(a, int) else b - a)] + d[1:])


class Rng:
    """arange(start, stop): used as an index it selects a contiguous range."""

    __array_ufunc__ = None

    def __init__(self, start, stop):
        self.start, self.stop = start, stop

    def __add__(self, k):
        return Rng(self.start + k, self.stop + k)

    __radd__ = __add__


# ------------------------------------------------------------------------------------------------------------- arrays
PLAIN = (int, float, np.integer, np.floating)


class LA:
    """An array; `f` maps a list of Ix to a z3 Real term."""

    def __init__(self, shape, f, base=None, dtype=np.dtype(float)):
        self.shape = tuple(norm(s) if isinstance(s, Sz) else int(s) for s in shape)
        self._f, self.version, self.dtype = f, 0, dtype
        self.base, self.base_version = base, (base.version if base is not None else 0)
        self.written = False

    ndim = property(lambda s: len(s.shape))
    size = property(lambda s: prod(s.shape))
    T = property(lambda s: s.transpose())
    __array_priority__ = 1000

    def root_ok(self):
        b, v = self.base, self.base_version
        while b is not None:
            if b.version != v:
                raise Unsupported("a view read after its array was written")
            b, v = b.base, b.base_version

    def getter(self):
        """The present contents as a pure function."""
        self.root_ok()
        return self._f

    def at(self, ixs):
        self.root_ok()
        return self._f(ixs)

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, Sz):
            raise Unsupported("len() of a symbolic size")
        return n

    def view(self, shape, f):
        return LA(shape, f, base=self, dtype=self.dtype)

    def copy(self, *a, **k):
        return LA(self.shape, self.getter(), dtype=self.dtype)

    def astype(self, *a, **k):
        return self.copy()

    def reshape(self, *shape, order="C"):
        if order != "C":
            raise Unsupported("reshape order")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if any(isinstance(s, (int, np.integer)) and s == -1 for s in shape):
            rest = prod(s for s in shape if not (isinstance(s, (int, np.integer)) and s == -1))
            q = Sz.of(self.size).divide(rest)
            if q is None:
                raise Unsupported("reshape with -1")
            shape = tuple(q if isinstance(s, (int, np.integer)) and s == -1 else s for s in shape)
        if not eq(prod(shape), self.size):
            raise Unsupported(f"reshape {self.shape} to {shape}")
        f, old = self.getter(), self.shape
        return self.view(shape, lambda ixs: f(regroup(ixs, old)))

    def ravel(self, *a):
        return self.reshape(self.size)

    flatten = ravel

    def perm(self, p):
        f = self.getter()

        def g(ixs):
            src = [None] * len(p)
            for k, a in enumerate(p):
                src[a] = ixs[k]
            return f(src)

        return self.view([self.shape[a] for a in p], g)

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0] or ()
        axes = tuple(axes) or tuple(reversed(range(self.ndim)))
        return self.perm([a % self.ndim for a in axes])

    def swapaxes(self, a, b):
        return permuted(np.swapaxes, self, a, b)

    def squeeze(self, axis=None):
        if axis is None:
            keep = []
            for k, s in enumerate(self.shape):
                if isinstance(s, Sz):
                    if Sz.of(s - 1).sign() != "+":
                        raise Unsupported("squeeze of a size that may be 1")
                    keep.append(k)
                elif s != 1:
                    keep.append(k)
            return self.reshape(tuple(self.shape[k] for k in keep))
        axis = axis if isinstance(axis, tuple) else (axis,)
        axis = [a % self.ndim for a in axis]
        return self.reshape(tuple(s for k, s in enumerate(self.shape) if k not in axis))

    # -- indexing
    def _key(self, key):
        """[(axis or None, kind, a, b)] after expanding the ellipsis."""
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, (list, np.ndarray, LA)) for k in key):
            raise Unsupported("fancy index")
        if sum(isinstance(k, Rng) for k in key) > 1 or (
            any(isinstance(k, Rng) for k in key) and any(isinstance(k, (int, np.integer, Sz)) for k in key)
        ):
            raise Unsupported("mixed advanced index")
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        if n > self.ndim:
            raise IndexError("too many indices")
        if Ellipsis not in [k if k is Ellipsis else None for k in key]:
            key = key + (Ellipsis,)
        i = next(j for j, k in enumerate(key) if k is Ellipsis)
        key = key[:i] + (slice(None),) * (self.ndim - n) + key[i + 1 :]
        out, ax = [], 0
        for k in key:
            if k is None:
                out.append((None, "new", None, None))
                continue
            s = self.shape[ax]
            if isinstance(k, Rng):
                k = slice(k.start, k.stop)
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    if k.step == -1 and k.start is None and k.stop is None:
                        raise Unsupported("reversed slice")
                    raise Unsupported("slice step")
                a = bound(k.start, s, 0)
                b = bound(k.stop, s, s)
                out.append((ax, "slice", a, b))
            elif isinstance(k, (int, np.integer, Sz)):
                a = bound(k, s, None)
                if not (Sz.of(a) < s):
                    raise IndexError("index out of bounds")
                out.append((ax, "int", a, None))
            else:
                raise Unsupported(f"index {k!r}")
            ax += 1
        return out

    def __getitem__(self, key):
        ks = self._key(key)
        f, old = self.getter(), self.shape
        shape = []
        for ax, kind, a, b in ks:
            if kind == "new":
                shape.append(1)
            elif kind == "slice":
                ln = Sz.of(b) - a
                if Sz.of(ln) < 0:
                    raise Unsupported("slice with a negative length")
                shape.append(ln)

        def g(ixs):
            src, j = [], 0
            for ax, kind, a, b in ks:
                if kind == "new":
                    j += 1
                elif kind == "slice":
                    src.append(shift(ixs[j], a, old[ax]))
                    j += 1
                else:
                    src.append(Ix([(zz(a), old[ax])]))
            return f(src)

        return self.view(shape, g)

    def __setitem__(self, key, value):
        if self.base is not None:
            raise Unsupported("assignment through a view")
        ks = self._key(key)
        f, old = self.getter(), self.shape
        tshape = [Sz.of(b) - a if kind == "slice" else 1 for ax, kind, a, b in ks if kind != "int"]
        val = broadcast_getter(value, tshape)

        def g(ixs):
            conds, rel = [], []
            for ax, kind, a, b in ks:
                if kind == "new":
                    rel.append(Ix([]))
                elif kind == "slice":
                    c, r = within(ixs[ax], a, b, old[ax])
                    conds.append(c)
                    rel.append(r)
                else:
                    c, _ = within(ixs[ax], a, Sz.of(a) + 1, old[ax])
                    conds.append(c)
            cond = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
            if z3.is_false(cond):
                return f(ixs)
            v = val(rel)
            return v if z3.is_true(cond) else z3.If(cond, v, f(ixs))

        self._f = g
        self.version += 1

    # -- arithmetic
    def _ew(self, o, op, swap=False):
        if not isinstance(o, (LA,) + PLAIN):
            return NotImplemented
        shape = broadcast_shape([self.shape, o.shape if isinstance(o, LA) else ()])
        a, b = broadcast_getter(self, shape), broadcast_getter(o, shape)
        if swap:
            a, b = b, a
        return LA(shape, lambda ixs: op(a(ixs), b(ixs)))

    def __add__(s, o):
        return s._ew(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(s, o):
        return s._ew(o, lambda x, y: x - y)

    def __rsub__(s, o):
        return s._ew(o, lambda x, y: x - y, True)

    def __mul__(s, o):
        return s._ew(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __truediv__(s, o):
        return s._ew(o, lambda x, y: x / y)

    def __neg__(s):
        return s._ew(-1, lambda x, y: x * y)

    def __bool__(self):
        raise Unsupported("truth of an array")

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, Sz):
            raise Unsupported("iteration over a symbolic size")
        return iter([self[i] for i in range(n)])

    def __array__(self, *a, **k):
        raise Unsupported("conversion to a numpy array")

    def __array_ufunc__(self, uf, method, *args, **kw):
        op = {"add": lambda x, y: x + y, "subtract": lambda x, y: x - y, "multiply": lambda x, y: x * y}.get(uf.__name__)
        if method != "__call__" or kw or op is None or len(args) != 2:
            raise Unsupported(f"numpy.{uf.__name__}")
        a, b = args
        return a._ew(b, op) if isinstance(a, LA) else b._ew(a, op, True)

    def __array_function__(self, func, tps, args, kw):
        h = FUNCS.get(func.__name__)
        if h is None:
            raise Unsupported(f"numpy.{func.__name__}")
        return h(*args, **kw)


def bound(k, n, default):
    if k is None:
        return default
    if isinstance(k, (int, np.integer)):
        k = int(k)
        return Sz.of(n) + k if k < 0 else k
    k = Sz.of(k)
    sg = k.sign()
    if sg in ("-",):
        return norm(Sz.of(k + n))
    if sg in ("+", ">=", "0"):
        return k
    raise Unsupported("index of unknown sign")


def broadcast_shape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            if k < n - len(s):
                continue
            x = s[k - (n - len(s))]
            if eq(x, 1) or eq(x, d):
                continue
            if not eq(d, 1):
                raise Unsupported("broadcast of different sizes")
            d = x
        out.append(d)
    return tuple(out)


def broadcast_getter(v, shape):
    if isinstance(v, PLAIN):
        c = z3.RealVal(repr(float(v)) if float(v) != int(v) else int(v))
        return lambda ixs: c
    if not isinstance(v, LA):
        raise Unsupported(f"value of type {type(v).__name__}")
    f, vs = v.getter(), v.shape
    lead = len(vs) - len(shape)
    if lead > 0:
        if not all(eq(s, 1) for s in vs[:lead]):
            raise Unsupported("assignment of an array with more dimensions")
    for k, s in enumerate(vs):
        if k - lead < 0:
            continue
        if not (eq(s, 1) or eq(s, shape[k - lead])):
            raise ValueError(f"could not broadcast {vs} into {tuple(shape)}")

    def g(ixs):
        src = []
        for k, s in enumerate(vs):
            src.append(Ix([]) if k - lead < 0 or eq(s, 1) else ixs[k - lead])
        return f(src)

    return g


def permuted(npf, a, *args, **kw):
    n = a.ndim
    dummy = np.broadcast_to(0, tuple(range(2, n + 2)))
    return a.perm([s - 2 for s in npf(dummy, *args, **kw).shape])


def repeat(a, repeats, axis=None):
    if not isinstance(a, LA):
        raise Unsupported("repeat")
    if axis is None:
        a, axis = a.reshape(a.size), 0
    axis %= a.ndim
    f, n = a.getter(), a.shape[axis]

    def g(ixs):
        hi, _ = take_low(ixs[axis].d, repeats)
        return f(ixs[:axis] + [Ix(hi)] + ixs[axis + 1 :])

    return LA(a.shape[:axis] + (n * repeats if isinstance(n, Sz) else repeats * n,) + a.shape[axis + 1 :], g)


def tile(a, reps):
    if not isinstance(a, LA):
        raise Unsupported("tile")
    reps = reps if isinstance(reps, (tuple, list)) else (reps,)
    d = max(len(reps), a.ndim)
    reps = (1,) * (d - len(reps)) + tuple(reps)
    a = a.reshape((1,) * (d - a.ndim) + a.shape)
    f, sh = a.getter(), a.shape

    def g(ixs):
        return f([Ix(take_low(ix.d, s)[1]) for ix, s in zip(ixs, sh)])

    return LA([Sz.of(s) * r for s, r in zip(sh, reps)], g)


def stack(xs, axis=0):
    xs = list(xs)
    n = xs[0].ndim + 1
    axis %= n
    for x in xs:
        if len(x.shape) != n - 1 or not all(eq(p, q) for p, q in zip(x.shape, xs[0].shape)):
            raise ValueError("all input arrays must have the same shape")
    fs = [x.getter() for x in xs]
    k = len(xs)

    def g(ixs):
        t = ixs[axis].d[0][0] if ixs[axis].d else z3.IntVal(0)
        rest = ixs[:axis] + ixs[axis + 1 :]
        r = fs[-1](rest)
        for i in range(k - 2, -1, -1):
            c = z3.simplify(t == i)
            r = fs[i](rest) if z3.is_true(c) else r if z3.is_false(c) else z3.If(c, fs[i](rest), r)
        return r

    sh = xs[0].shape
    return LA(sh[:axis] + (k,) + sh[axis:], g)


def full(shape, value):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    c = z3.RealVal(value)
    return LA(shape, lambda ixs: c)


_garbage = [0]


def empty(shape, dtype=None, **k):
    """Uninitialised memory: any value, different at each place."""
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    _garbage[0] += 1
    n = _garbage[0]
    return LA(shape, lambda ixs: z3.FreshConst(z3.RealSort(), f"garbage{n}"))


def broadcast_to(a, shape, **k):
    return LA(shape, broadcast_getter(a, shape))


def expand_dims(a, axis):
    ax = axis if isinstance(axis, tuple) else (axis,)
    n = a.ndim + len(ax)
    ax = {k % n for k in ax}
    it = iter(a.shape)
    return a.reshape(tuple(1 if k in ax else next(it) for k in range(n)))


FUNCS = {
    "moveaxis": lambda a, s, d: permuted(np.moveaxis, a, s, d),
    "swapaxes": lambda a, s, d: permuted(np.swapaxes, a, s, d),
    "rollaxis": lambda a, *x, **k: permuted(np.rollaxis, a, *x, **k),
    "transpose": lambda a, axes=None: a.transpose(*(axes or ())),
    "reshape": lambda a, shape, **k: a.reshape(shape),
    "ravel": lambda a, **k: a.ravel(),
    "squeeze": lambda a, axis=None: a.squeeze(axis),
    "repeat": repeat,
    "tile": tile,
    "stack": stack,
    "copy": lambda a, **k: a.copy(),
    "broadcast_to": broadcast_to,
    "expand_dims": expand_dims,
    "zeros_like": lambda a, **k: full(a.shape, 0),
    "ones_like": lambda a, **k: full(a.shape, 1),
    "empty_like": lambda a, **k: empty(a.shape),
    "ascontiguousarray": lambda a, **k: a.copy(),
    "shape": lambda a: a.shape,
    "ndim": lambda a: a.ndim,
    "size": lambda a: a.size,
}


def arange(*a, **k):
    return Rng(*((0, a[0]) if len(a) == 1 else a[:2])) if len(a) < 3 else _uns("arange with a step")


def _uns(t):
    raise Unsupported(t)


class LXP:
    """The array module handed to the real code."""

    s_ = np.s_
    newaxis = None
    float64 = np.float64
    empty = staticmethod(empty)
    zeros = staticmethod(lambda shape, **k: full(shape, 0))
    ones = staticmethod(lambda shape, **k: full(shape, 1))
    full = staticmethod(lambda shape, v, **k: full(shape, v))
    arange = staticmethod(arange)
    array = staticmethod(lambda x, **k: stack(x) if isinstance(x, (list, tuple)) else x.copy())
    asarray = staticmethod(lambda x, **k: stack(x) if isinstance(x, (list, tuple)) else x)

    def __getattr__(self, name):
        if name in FUNCS:
            return FUNCS[name]
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"xp.{name} is not available on arrays of any size")


# ------------------------------------------------------------------------------------------------------------- inputs
def source(name, axes):
    """An arbitrary array; axes = list of lists of factors (most significant first)."""
    axes = [a if isinstance(a, (list, tuple)) else [a] for a in axes]
    facs = [s for a in axes for s in a if not eq(s, 1)]
    uf = z3.Function(name, *([z3.IntSort()] * len(facs)), z3.RealSort()) if facs else z3.Real(name)

    def f(ixs):
        args = []
        for ix, a in zip(ixs, axes):
            d, got = list(ix.d), []
            for s in reversed(a):
                if eq(s, 1):
                    continue
                d, low = take_low(d, s)
                if len(low) != 1:
                    raise Unsupported("index finer than the input")
                got.insert(0, low[0][0])
            if d:
                raise Unsupported("index coarser than the input")
            args += got
        return uf(*args) if facs else uf

    return LA([prod(a) for a in axes], f), uf


class Point:
    """A generic index: one fresh variable per factor."""

    def __init__(self, tag, axes):
        self.ixs, self.vars, self.conds = [], [], []
        for k, a in enumerate(axes):
            a = a if isinstance(a, (list, tuple)) else [a]
            ds = []
            for j, s in enumerate(a):
                if eq(s, 1):
                    self.vars.append(z3.IntVal(0))
                    continue
                v = z3.Int(f"{tag}_{k}_{j}")
                self.vars.append(v)
                self.conds += [v >= 0, v < zz(s)]
                ds.append((v, s))
            self.ixs.append(Ix(ds))


def sizes_positive():
    return [v >= 1 for v in ATOMS.values()]


# --------------------------------------------------------------------------------- the sizes a constructor establishes
def constructor_slice(cls, obj, env):
    """Run, with symbolic sizes, the statements of the real constructors (base classes first) that only compute sizes
    and index expressions; any statement that does not run is dropped, and whatever it would have set stays unset."""
    done, dropped = 0, 0
    for k in reversed(cls.__mro__):
        fn = k.__dict__.get("__init__")
        if not isinstance(fn, types.FunctionType):
            continue
        try:
            tree = ast.parse(textwrap.dedent(inspect.getsource(fn))).body[0]
        except (OSError, SyntaxError):
            continue
        loc = dict(env)
        loc["self"] = obj
        g = dict(fn.__globals__)
        for st in tree.body:
            mod = ast.Module([st], [])
            try:
                exec(compile(mod, fn.__code__.co_filename, "exec"), g, loc)
                done += 1
            except (Exception, Unsupported):
                dropped += 1
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        loc.pop(n.id, None)
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        obj.__dict__.pop(n.attr, None)
    return done, dropped
