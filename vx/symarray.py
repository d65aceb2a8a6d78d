"""Arrays with *symbolic shapes*: an array is its shape plus a function from a row-major position (dims, idx) to a
value.  reshape only re-describes positions, so no shape is ever enumerated."""

import sys

import numpy as np
import z3
from .core import *
from . import core


def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if core.int_term(a) is None or core.int_term(b) is None:
        raise Unsupported("dimension")
    return core.ctx().entails(core.int_term(a) == core.int_term(b))


def prod(ds):
    r = 1
    for d in ds:
        r = d * r if isinstance(r, int) and r == 1 else r * d
    return r


def horner(dims, idx):
    r = 0
    for d, i in zip(dims, idx):
        r = (r * d + i) if not (isinstance(r, int) and r == 0) else i
    return r


def redescribe(dims, idx, shape):
    """Row-major position (dims, idx) expressed in another shape of the same size.  Dimensions may be merged, never
    split (a split would need division)."""
    dims, idx, shape = list(dims), list(idx), list(shape)
    out = []
    i = 0
    for n, s in enumerate(shape):
        if isinstance(s, int) and s == 1 and (i >= len(dims) or not (isinstance(dims[i], int) and dims[i] == 1)):
            out.append(0)
            continue
        j = i + 1
        while True:
            if i >= len(dims):
                raise Unsupported("reshape beyond the data")
            if dim_eq(prod(dims[i:j]), s):
                break
            j += 1
            if j > len(dims):
                raise Unsupported("reshape would split a dimension")
        out.append(horner(dims[i:j], idx[i:j]))
        i = j
    while i < len(dims) and dim_eq(dims[i], 1):
        i += 1
    if i != len(dims):
        raise Unsupported("reshape leaves data over")
    return tuple(out)


def inside(cond, what):
    """Reading outside (where numpy clamps, wraps or raises) is not within reach: the concrete runs decide"""
    if not core.ctx().prove(what + " lies inside", cond, kind="aux"):
        raise Unsupported(what + " that may lie outside")


class SymArray:
    __array_priority__ = 2000

    def __init__(self, shape, pos):
        self.shape = tuple(shape)
        self._pos = pos  # (dims, idx) -> value

    dtype = np.dtype(object)
    ndim = property(lambda s: len(s.shape))

    @property
    def size(self):
        return prod(self.shape)

    def __len__(self):
        return int(self.shape[0])

    def __iter__(self):
        n = const_value(self.shape[0]) if is_sym(self.shape[0]) else self.shape[0]
        if n is None:
            raise Unsupported("iteration over an array of symbolic length")
        for i in range(int(n)):
            yield self[i]

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"SymArray.{k}")

    def at(self, *idx):
        return self._pos(self.shape, tuple(idx))

    def at_pos(self, dims, idx):
        return self._pos(dims, idx)

    def copy(self):
        return self

    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        shape = tuple(shape)
        if -1 in [s for s in shape if isinstance(s, int)]:
            raise Unsupported("reshape(-1)")
        core.ctx().prove("reshape keeps the number of elements", EQ(prod(shape), prod(self.shape)), kind="aux")
        return SymArray(shape, self._pos)

    # indexing with leading integers only
    def _norm(self, key):
        key = key if isinstance(key, tuple) else (key,)
        out = []
        for k in key:
            if k is Ellipsis:
                break
            if isinstance(k, slice):
                if k == slice(None):
                    break
                raise Unsupported("slice of a symbolic array")
            out.append(k)
        if any(not (k is Ellipsis or (isinstance(k, slice) and k == slice(None))) for k in key[len(out):]):
            raise Unsupported("index pattern")
        return tuple(d + k if isinstance(k, int) and k < 0 else k for k, d in zip(out, self.shape))

    def __getitem__(self, key):
        lead = self._norm(key)
        n = len(lead)
        own = self.shape
        rest = own[n:]
        if not rest:
            return self.at(*lead)
        return SymArray(rest, lambda dims, idx: self._pos(own[:n] + tuple(dims), lead + tuple(idx)))

    def flip(self, axis):
        own = self.shape
        axes = axis if isinstance(axis, (tuple, list)) else (range(len(own)) if axis is None else (axis,))
        axes = {a % len(own) for a in axes}

        def pos(dims, idx):
            i = redescribe(dims, idx, own)
            j = tuple(own[n] - 1 - x if n in axes else x for n, x in enumerate(i))
            return self._pos(own, j)

        return SymArray(own, pos)

    def _bin(self, o, f):
        if isinstance(o, SymArray):
            a, b = (self, o) if self.ndim >= o.ndim else (o, self)
            own, other = a.shape, b.shape
            lead = len(own) - len(other)
            for x, y in zip(own[lead:], other):
                if not dim_eq(x, y):
                    raise Unsupported("broadcast")

            def pos(dims, idx):
                i = redescribe(dims, idx, own)
                va, vb = a._pos(own, i), b._pos(other, i[lead:])
                return f(va, vb) if a is self else f(vb, va)

            return SymArray(own, pos)
        if isinstance(o, np.ndarray):
            raise Unsupported("mixed arrays")
        return SymArray(self.shape, lambda d, i: f(self._pos(d, i), o))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __pow__(self, o):
        return self._bin(o, lambda a, b: a**b)

    def __neg__(self):
        return SymArray(self.shape, lambda d, i: -self._pos(d, i))


class SymBuf(SymArray):
    """Writable: the leading `n` (concrete) dimensions select independent cells, each a SymArray or undefined."""

    def __init__(self, shape):
        self.cells = {}
        super().__init__(shape, self._read)

    def _read(self, dims, idx):
        own = self.shape
        i = redescribe(dims, idx, own)
        for n in range(len(own), 0, -1):
            key = tuple(int(x) if (isinstance(x, int) or const_value(x) is not None) else None for x in i[:n])
            if None in key:
                continue
            if key in self.cells:
                return self.cells[key].at(*i[n:])
        raise Unsupported("read of an undefined buffer cell")

    def __setitem__(self, key, val):
        lead = tuple(int(x) for x in self._norm(key))
        rest = self.shape[len(lead):]
        if not isinstance(val, SymArray):
            raise Unsupported("buffer store")
        if len(val.shape) != len(rest) or not all(dim_eq(a, b) for a, b in zip(val.shape, rest)):
            raise Unsupported("stored block does not have the shape of the buffer slot")
        # freeze: the stored value must not see later stores
        for k in [k for k in self.cells if k[: len(lead)] == lead]:
            pass
        snap = _freeze(val, rest)
        for k in [k for k in self.cells if k[: len(lead)] == lead and len(k) >= len(lead)]:
            del self.cells[k]
        self.cells[lead] = snap

    def __getitem__(self, key):
        lead = self._norm(key)
        cells = dict(self.cells)
        view = SymBuf(self.shape)
        view.cells = cells
        return SymArray.__getitem__(view, key)


def _freeze(val, shape):
    v = SymArray(shape, val._pos)
    return v


def base_array(name, shape, canon):
    """Input array: an uninterpreted function of its position in the canonical description `canon` (list of dims)."""
    f = z3.Function(name, *([z3.IntSort()] * len(canon)), z3.RealSort())

    def pos(dims, idx):
        i = redescribe(dims, idx, canon)
        return SReal(f(*[core.int_term(x) for x in i]))

    return SymArray(shape, pos)


class SymXP:
    """Array module for SymArray (contract of numpy's empty/empty_like/flip)."""

    def empty(self, shape, dtype=None, **k):
        return SymBuf(shape)

    zeros = empty

    def empty_like(self, a, **k):
        return SymBuf(a.shape)

    zeros_like = empty_like

    def flip(self, a, axis=None):
        return a.flip(axis)

    def ascontiguousarray(self, a, *x, **k):
        return a

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"xp.{k} on arrays of symbolic shape")


# ------------------------------------------------------------------- unbounded lists, generic iterations, concatenation
class HInt(SInt):
    """An index known as block*d + offset."""

    __slots__ = ("parts",)

    def __init__(self, block, offset, d):
        super().__init__(core.int_term(block * d + offset))
        self.parts = (block, offset, d)


def split_index(q, d):
    if isinstance(q, HInt) and dim_eq(q.parts[2], d):
        return q.parts[0], q.parts[1]
    if isinstance(q, int) and isinstance(d, int):
        return divmod(q, d)
    b = SInt(core._floordiv(core.int_term(q), core.int_term(d)))
    return b, q - b * d


class SymRange:
    """range(n) with symbolic n.  Iteration yields one arbitrary member: the loop body is checked for a generic index.
    Valid for comprehensions and append loops (one result per iteration, no carried state)."""

    def __init__(self, start, stop):
        self.start, self.stop = start, stop

    def __iter__(self):
        c = core.ctx()
        v = SInt(c.fresh("generic", "I"))
        c.assume(AND(v >= self.start, v < self.stop))
        c.ghost.setdefault("generics", []).append((v, self.start, self.stop))
        f = sys._getframe(1)
        before = dict(f.f_locals)
        yield v
        now = f.f_locals
        for k, old in before.items():
            if now.get(k, old) is not old and now[k] is not v:
                raise Unsupported(f"{k} is carried through a loop of symbolic length")

    def __len__(self):
        raise Unsupported("len of a symbolic range")


def sym_range(*a):
    if any(is_sym(x) and const_value(x) is None for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 2:
            return SymRange(a[0], a[1])
        raise Unsupported("symbolic range with a step")
    return range(*[int(x) for x in a])


class SymList:
    def __init__(self, n, item):
        self.n, self.item = n, item

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice step")
            a = 0 if k.start is None else k.start
            b = self.n if k.stop is None else k.stop
            c = core.ctx()
            inside(AND(0 <= a, a <= b, b <= self.n), "list slice")
            it = self.item
            return SymList(b - a, lambda i: it(a + i))
        if isinstance(k, int) and k < 0:
            k = self.n + k
        inside(AND(k >= 0, k < self.n), "list index")
        return self.item(k)

    def __iter__(self):
        for v in SymRange(0, self.n):
            yield self.item(v)

    def __len__(self):
        raise Unsupported("len of a symbolic list")


def _take_generics():
    return core.ctx().ghost.pop("generics", [])


def concatenate(seq, axis=0, **k):
    c = core.ctx()
    if isinstance(seq, SymList):
        n, item = seq.n, seq.item
    else:
        seq = list(seq)
        gens = c.ghost.get("generics", [])
        if len(seq) == 1 and gens:
            v, a, b = gens.pop()
            one = seq[0]
            n = b - a

            def item(i):
                c.assume(EQ(v, a + i))
                return one

            first = one
        else:
            n = len(seq)
            item = lambda i: seq[int(i)]
    probe = item(0) if not isinstance(seq, list) or len(seq) != 1 else seq[0]
    sh = list(probe.shape)
    ax = axis % len(sh)
    d = sh[ax]
    own = tuple(sh[:ax] + [n * d] + sh[ax + 1 :])

    def pos(dims, idx):
        i = list(redescribe(dims, idx, own))
        b, o = split_index(i[ax], d)
        i[ax] = o
        return item(b)._pos(tuple(sh), tuple(i))

    return SymArray(own, pos)


def stack(seq, axis=0, **k):
    seq = list(seq)
    if axis != 0:
        raise Unsupported("stack axis")
    own = (len(seq),) + tuple(seq[0].shape)

    def pos(dims, idx):
        i = redescribe(dims, idx, own)
        return seq[int(i[0])]._pos(own[1:], i[1:])

    return SymArray(own, pos)


SymXP.concatenate = staticmethod(concatenate)
SymXP.stack = staticmethod(stack)


class SliceArray(SymArray):
    """Array that additionally supports basic slicing with symbolic bounds and reshape(-1)."""

    def _wrap(self, shape, pos):
        return SliceArray(shape, pos)

    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        shape = list(shape)
        m = [n for n, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if m:
            if m != [len(shape) - 1]:
                raise Unsupported("reshape(-1) not last")
            lead = shape[:-1]
            for a, b in zip(lead, self.shape):
                if not dim_eq(a, b):
                    raise Unsupported("reshape(-1) prefix")
            shape[-1] = prod(self.shape[len(lead) :])
        else:
            core.ctx().prove("reshape keeps the number of elements", EQ(prod(shape), prod(self.shape)), kind="aux")
        return SliceArray(tuple(shape), self._pos)

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        own = self.shape
        n_ell = sum(1 for k in key if k is Ellipsis)
        if n_ell:
            e = [n for n, k in enumerate(key) if k is Ellipsis][0]
            fill = len(own) - (len(key) - 1)
            key = key[:e] + (slice(None),) * fill + key[e + 1 :]
        key = key + (slice(None),) * (len(own) - len(key))
        shape, plan = [], []
        for k, d in zip(key, own):
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported("slice step")
                a = 0 if k.start is None else k.start
                b = d if k.stop is None else k.stop
                if k.start is not None or k.stop is not None:
                    inside(AND(0 <= a, a <= b, b <= d), "slice")
                shape.append(_sub(b, a))
                plan.append(("s", a))
            else:
                if isinstance(k, int) and k < 0:
                    k = d + k
                inside(AND(k >= 0, k < d), "index")
                plan.append(("i", k))
        shape = tuple(shape)

        def pos(dims, idx):
            i = iter(redescribe(dims, idx, shape))
            full = tuple((a + next(i)) if t == "s" else a for t, a in plan)
            return self._pos(own, full)

        return SliceArray(shape, pos)


def _sub(b, a):
    if isinstance(a, int) and a == 0:
        return b
    r = b - a
    if isinstance(r, SInt):
        t = z3.simplify(r.t, som=True)
        return SInt(t)
    return r
