"""Algebraic back end for numerical kernels: scalars over the reals with positive atoms.

A node carries (1) its values at K random points of the precondition's domain and (2), on demand, its normal form: a sum of
monomials with rational exponents over atoms (exponents other than integers only on positive atoms), where |.|, log of sums,
roots of sums and results of abstract linear operators are atoms keyed by the normal form of their arguments.  Two nodes are
*proved* equal when the normal forms coincide; they are *refuted* when the values differ at some point; anything else is
undecided.  Floating-point constants enter as the decimal rounded to 12 significant digits."""

from fractions import Fraction
import math
import numbers
import os
import sys
import traceback

import numpy as np

from .core import Unsupported, HarnessGap



def Q(n, d=1):
    """rational number; whole numbers as int (faster)"""
    if d == 1:
        return n
    f = Fraction(n, d)
    return f.numerator if f.denominator == 1 else f


def qdiv(a, b):
    f = Fraction(a) / b
    return f.numerator if f.denominator == 1 else f


K = 6
TOL = 1e-8
MAXTERMS = 4000


class World:
    """Atoms of one proof unit."""

    def __init__(self, seed=1):
        self.rng = np.random.default_rng(seed)
        self.atoms = []  # (name, positive, values)
        self.keyed = {}
        self.inputs = []
        self.signs = set()  # atoms that are a sign: their square is 1
        self.trig = {}  # atom of a sine -> atom of the cosine of the same angle
        self.sums = {}  # atom -> the sum it stands for

    def new(self, name, pos, val):
        self.atoms.append((name, pos, val))
        return len(self.atoms) - 1


W = World()


def reset(seed=1):
    global W, ZERO, ONE, NAN
    W = World(seed)
    ZERO, ONE = const(0), const(1)
    NAN = Node("nan", (), np.full(K, np.nan), False)


def rat(x):
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return Q(int(x))
    if isinstance(x, (int, np.integer)):
        return Q(int(x))
    if isinstance(x, Fraction):
        return Q(x.numerator, x.denominator)
    x = float(x)
    if x == int(x) and abs(x) < 1e15:
        return Q(int(x))
    f = Fraction(f"{x:.12g}")
    for d in (2, 3, 4, 6, 8, 12, 16):  # keep simple fractions exact
        n = round(x * d)
        if abs(n / d - x) <= 4e-16 * abs(x):
            return Q(n, d)
    return Q(f.numerator, f.denominator)


class Cond:
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def known(self):
        d = self.a - self.b
        nf = d.nf()
        s = sign_of(nf)
        o = self.op
        if s is None:
            return None
        return {"<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0, "==": s == 0, "!=": s != 0}[o]

    def __bool__(self):
        k = self.known()
        if k is None:
            raise Unsupported("branch on an undetermined comparison")
        return k

    def __invert__(self):
        return Cond({"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[self.op], self.a, self.b)

    def __mul__(self, o):
        """as a factor: one where it holds, zero elsewhere"""
        if isinstance(o, np.ndarray):
            return NotImplemented
        return where1(self, lift(o), ZERO)

    __rmul__ = __mul__

    def truth(self):
        x, y = self.a.val, self.b.val
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[self.op]


def sign_of(nf):
    """-1/0/1 when the sign is evident (all terms of one sign, monomials of positive atoms or even powers)."""
    if not nf:
        return 0
    s = None
    for m, c in nf.items():
        for a, e in m:
            if not W.atoms[a][1] and not (e == int(e) and int(e) % 2 == 0):
                return None
        t = 1 if c > 0 else -1
        if s is None:
            s = t
        elif s != t:
            return None
    return s


def _cmp(op):
    def f(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return Cond(op, self, lift(o))

    return f


def _bin(op):
    def f(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        return mk(op, self, o) if isinstance(o, Node) else NotImplemented

    return f


def _rbin(op):
    def f(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        return mk(op, o, self) if isinstance(o, Node) else NotImplemented

    return f


class Node:
    __slots__ = ("op", "args", "val", "pos", "_nf", "cut")

    def __init__(self, op, args, val, pos, cut=None):
        self.op, self.args, self.val, self.pos, self._nf, self.cut = op, args, val, pos, None, cut

    __add__, __radd__ = _bin("+"), _rbin("+")
    __sub__, __rsub__ = _bin("-"), _rbin("-")
    __mul__, __rmul__ = _bin("*"), _rbin("*")
    __truediv__, __rtruediv__ = _bin("/"), _rbin("/")
    __lt__, __le__, __gt__, __ge__ = _cmp("<"), _cmp("<="), _cmp(">"), _cmp(">=")
    __eq__, __ne__ = _cmp("=="), _cmp("!=")

    def __hash__(self):
        return id(self)

    def __neg__(self):
        return mk("-", ZERO, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return unary("abs", self)

    def __pow__(self, e):
        if isinstance(e, Node):
            if e.op != "c":
                raise Unsupported("symbolic exponent")
            e = e.args[0]
        r = rat(e)
        if r == int(r):
            n = int(r)
            if n == 0:
                return ONE
            x = self
            for _ in range(abs(n) - 1):
                x = x * self
            return x if n > 0 else ONE / x
        return Node("pow", (self, r), np.power(np.maximum(self.val, 0), float(r)), self.pos)

    def __rpow__(self, o):
        return unary("exp", self * math.log(o))

    def exp(self):
        return unary("exp", self)

    def log(self):
        return unary("log", self)

    def sqrt(self):
        if self.op == "c" and self.args[0] == 0:
            return ZERO
        return self ** Fraction(1, 2)

    def sin(self):
        return unary("sin", self)

    def cos(self):
        return unary("cos", self)

    def tan(self):
        return unary("sin", self) / unary("cos", self)

    def arctan(self):
        return unary("arctan", self)

    def conjugate(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def isnan(self):
        return self.op == "nan"

    def __float__(self):
        if self.op == "c":
            return float(self.args[0])
        raise Unsupported("float() of an algebraic value")

    def __bool__(self):
        return bool(Cond("!=", self, ZERO))

    def __repr__(self):
        try:
            return show(self.nf())
        except BaseException:
            return f"<{self.op}>"

    # ------------------------------------------------------------------------------------------------ normal form
    def nf(self):
        if self._nf is not None:
            return self._nf
        stack = [self]
        while stack:
            x = stack[-1]
            if x._nf is not None:
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, Node) and a._nf is None]
            if todo:
                stack.extend(todo)
                continue
            x._nf = _nf1(x)
            if len(x._nf) > MAXTERMS:
                raise Unsupported("normal form too large")
            stack.pop()
        return self._nf


def const(x):
    r = rat(x)
    return Node("c", (r,), np.full(K, float(x)), r > 0)


def lift(o):
    if isinstance(o, (Node, Dual, Angle)):
        return o
    if isinstance(o, (numbers.Real, np.number)) and not isinstance(o, complex):
        if isinstance(o, (float, np.floating)) and math.isnan(o):
            return NAN
        return const(o)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item())
    raise TypeError(f"{type(o)}")


def mk(op, a, b):
    if a.op == "nan" or b.op == "nan":
        return NAN
    az, bz = a.op == "c" and a.args[0] == 0, b.op == "c" and b.args[0] == 0
    if op == "+":
        if az:
            return b
        if bz:
            return a
        for x, y in ((a, b), (b, a)):
            if x.cut == "glue":  # a sum that is to be a positive number of its own (e.g. distance to the planet's centre)
                return keyed_atom(("glue", x.args[0], key(y)), a.val + b.val, True, f"({W.atoms[x.args[0]][0]}+{repr(y)[:30]})")
        return Node("+", (a, b), a.val + b.val, a.pos and b.pos)
    if op == "-":
        if bz:
            return a
        if b.cut is not None and b.cut != "glue":  # a difference that is to be an atom of its own (e.g. depth above topography)
            return keyed_atom(("diff", key(a), b.cut), a.val - b.val, True, f"d[{b.cut}]")
        return Node("-", (a, b), a.val - b.val, False)
    if op == "*":
        if az or bz:
            return ZERO
        if a.op == "c" and a.args[0] == 1:
            return b
        if b.op == "c" and b.args[0] == 1:
            return a
        return Node("*", (a, b), a.val * b.val, a.pos and b.pos)
    if op == "/":
        if bz:
            return NAN
        if az:
            return ZERO
        return Node("/", (a, b), a.val / b.val, a.pos and b.pos)
    raise Unsupported(op)


def unary(f, x):
    if x.op == "nan":
        return NAN
    if f == "abs":
        if x.pos or (x.op == "c" and x.args[0] >= 0):
            return x
        return Node("abs", (x,), np.abs(x.val), False)
    if f == "exp":
        return Node("exp", (x,), np.exp(x.val), True)
    if f == "log":
        return Node("log", (x,), np.log(np.maximum(x.val, 1e-300)), False)
    return Node(f, (x,), getattr(np, f)(x.val), False)


def atom(name, pos=False, lo=None, hi=None):
    lo, hi = (0.5, 2.0) if pos and lo is None else (-1.5, 1.5) if lo is None else (lo, hi)
    val = W.rng.uniform(lo, hi, K)
    i = W.new(name, pos, val)
    n = Node("a", (i,), val, pos)
    W.inputs.append((name, n))
    return n


def array(name, shape, pos=False, **k):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*a.shape):
        a[i] = atom(name + "[" + ",".join(map(str, i)) + "]", pos, **k)
    return a


def arr1(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


class Angle:
    """An angle known by its sine and cosine (their squares add up to one)."""

    def __init__(self, s, c):
        self.s, self.c = s, c

    def __neg__(self):
        return Angle(-self.s, self.c)

    def __add__(self, o):
        if isinstance(o, (int, float)):
            k = o / (math.pi / 2)
            if abs(k - round(k)) > 1e-12:
                return NotImplemented
            o = Angle(lift([0, 1, 0, -1][round(k) % 4]), lift([1, 0, -1, 0][round(k) % 4]))
        return Angle(self.s * o.c + self.c * o.s, self.c * o.c - self.s * o.s)

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __pos__(self):
        return self

    def __mul__(self, k):
        if not isinstance(k, (int, float, np.integer, np.floating)) or k != round(k) or abs(k) > 8:
            return NotImplemented
        out = Angle(lift(0), lift(1))
        for _ in range(abs(int(k))):
            out = out + self
        return -out if k < 0 else out

    __rmul__ = __mul__

    def __truediv__(self, k):
        return self * k if k in (1, -1) else NotImplemented

    def __mod__(self, k):
        return self if abs(k - 2 * math.pi) < 1e-12 else NotImplemented

    def sin(self):
        return self.s

    def cos(self):
        return self.c

    def tan(self):
        return self.s / self.c

    def __abs__(self):
        return _Size()

    # the code may add a whole turn to negative angles: both outcomes are the same angle
    def __lt__(self, o):
        return NEGATIVE

    def __ge__(self, o):
        return not NEGATIVE

    __le__, __gt__ = __lt__, __ge__

    def copy(self):
        return self


class _Size:
    """size of an angle in general position"""

    def __lt__(self, o):
        return False

    def __le__(self, o):
        return False

    def __gt__(self, o):
        return True

    def __ge__(self, o):
        return True


NEGATIVE = False


def angle(name):
    t = W.rng.uniform(-1.2, 1.2, K)
    i, j = W.new(f"sin({name})", False, np.sin(t)), W.new(f"cos({name})", True, np.cos(t))
    W.trig[i] = j
    s, c = Node("a", (i,), np.sin(t), False), Node("a", (j,), np.cos(t), True)
    W.inputs.append((f"sin({name})", s))
    W.inputs.append((f"cos({name})", c))
    return Angle(s, c)


def _snap(x):
    return 0.0 if abs(x) < 1e-15 else x


def _scalar(f):
    """sine or cosine of a number: an angle of a quarter turn is one, though pi is rounded"""
    return lambda x: _snap(float(f(x))) if np.ndim(x) == 0 else f(x)


class AMath:
    """math for angles given by sine and cosine"""

    def __getattr__(self, k):
        return getattr(math, k)

    def sin(self, x):
        return x.s if isinstance(x, Angle) else x.sin() if isinstance(x, (Node, Dual)) else _snap(math.sin(x))

    def cos(self, x):
        return x.c if isinstance(x, Angle) else x.cos() if isinstance(x, (Node, Dual)) else _snap(math.cos(x))

    def atan2(self, y, x):
        if not isinstance(y, Node) and not isinstance(x, Node):
            return math.atan2(y, x)
        y, x = lift(y), lift(x)
        r = (x * x + y * y).sqrt()
        return Angle(y / r, x / r)

    def asin(self, v):
        return Angle(v, (1 - v * v).sqrt()) if isinstance(v, Node) else math.asin(v)

    def acos(self, v):
        return Angle((1 - v * v).sqrt(), v) if isinstance(v, Node) else math.acos(v)

    def atan(self, v):
        if not isinstance(v, Node):
            return math.atan(v)
        r = (1 + v * v).sqrt()
        return Angle(v / r, 1 / r)

    def sqrt(self, x):
        return x.sqrt() if isinstance(x, Node) else math.sqrt(x)


MATH = AMath()


def keyed_atom(k, val, pos, name):
    if k in W.keyed:
        return W.keyed[k]
    n = Node("a", (W.new(name, pos, val),), val, pos)
    W.keyed[k] = n
    return n


def key(n):
    """Hashable normal form (coefficients to nine digits: constants computed in another order may differ in the last bits)."""
    return rkey(n.nf())


def rkey(nf):
    return frozenset((m, float(f"{float(c):.8e}")) for m, c in nf.items())


def _madd(p, m, c):
    v = p.get(m, 0) + c
    if type(v) is Fraction and v.denominator == 1:
        v = v.numerator
    if not v:
        p.pop(m, None)
    else:
        p[m] = v


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if a in W.signs:
            v %= 2
        if v == 0:
            d.pop(a, None)
        else:
            d[a] = v
    return tuple(sorted(d.items()))


def _pmul(p, q):
    r = {}
    if len(p) * len(q) > 200000:
        raise Unsupported("normal form too large")
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            _madd(r, _mmul(m1, m2), c1 * c2)
    return _trig(r) if W.trig else r


def _trig(p):
    """sin^2 = 1 - cos^2"""
    while True:
        hit = None
        for m in p:
            for a, e in m:
                if a in W.trig and e >= 2 and e == int(e):
                    hit = (m, a, int(e))
                    break
            if hit:
                break
        if hit is None:
            return p
        p = dict(p)
        todo = [(m, c) for m, c in p.items() if dict(m).get(hit[1], 0) >= 2]
        for m, c in todo:
            del p[m]
        for m, c in todo:
            m0 = _mmul(m, ((hit[1], -2),))
            _madd(p, m0, c)
            _madd(p, _mmul(m0, ((W.trig[hit[1]], 2),)), -c)


def _mpow(m, e):
    if W.signs:
        return tuple((a, (x * e) % 2 if a in W.signs else x * e) for a, x in m if not (a in W.signs and (x * e) % 2 == 0))
    return tuple((a, x * e) for a, x in m)


def _split(nf):
    """nf = c * m * rest with rest primitive over the positive atoms and of leading coefficient 1"""
    if W.trig and W.sums and len(nf) > 1:
        nf = _lower(nf)
    common = {}
    cnt = {}
    for m in nf:
        for a, e in m:
            if W.atoms[a][1]:
                cnt[a] = cnt.get(a, 0) + 1
                common[a] = min(common.get(a, e), e)
    for a in common:
        if cnt[a] < len(nf):
            common[a] = min(common[a], 0)
    mono = tuple(sorted((a, e) for a, e in common.items() if e != 0))
    inv = _mpow(mono, -1)
    rest = {_mmul(m, inv): c for m, c in nf.items()}
    lead = max(rest)
    c = rest[lead]
    rest = {m: qdiv(v, c) for m, v in rest.items()}
    return c, mono, rest


def _expand(nf):
    """whole powers of sums written out"""
    for _ in range(20):
        if not any(a in W.sums and e >= 1 for m in nf for a, e in m):
            return nf
        r = {}
        for m, c in nf.items():
            p, m0 = {(): c}, m
            for a, e in m:
                if a in W.sums and e >= 1:
                    n = int(math.floor(e))
                    m0 = _normexp(_mmul(m0, ((a, -n),)))
                    for _ in range(n):
                        p = _pmul(p, W.sums[a])
            for m2, c2 in p.items():
                _madd(r, _normexp(_mmul(m0, m2)), c2)
        nf = _trig(r) if W.trig else r
    return nf


def _lower(nf):
    """brought over the common denominator of its sums, then written out"""
    low = {}
    for m in nf:
        for a, e in m:
            if a in W.sums and e < 0:
                low[a] = min(low.get(a, 0), e)
    k = tuple(sorted((a, -e) for a, e in low.items()))
    up = _expand({_normexp(_mmul(m, k)): c for m, c in nf.items()}) if k else _expand(nf)
    if not up:
        return up
    return {_normexp(_mmul(m, _mpow(k, -1))): c for m, c in up.items()}


def _sum(rest, pos):
    """(constant, monomial) standing for the sum: a product of powers of earlier sums when it is one, else a new atom"""
    k = ("sum", rkey(rest))
    if k not in W.keyed and W.trig and W.sums and ("merged", k[1]) in W.keyed:
        return W.keyed[("merged", k[1])]
    if k not in W.keyed and W.trig and W.sums:
        m = _factor(rest, pos)
        if m is not None:
            W.keyed[("merged", k[1])] = m
            return m
    return Q(1), ((_opaque("sum", rest, lambda x: x, pos).args[0], 1),)


def _factor(rest, pos):
    val = evaluate(rest)
    if not np.all(val > 0):
        return None
    ids = [a for a in W.sums if np.all(W.atoms[a][2] > 0) and (W.atoms[a][1] or not pos)]
    if not ids:
        return None
    lv = np.log(val)
    lv = lv - lv.mean()
    lb = np.log(np.array([W.atoms[a][2] for a in ids]))
    lb = lb - lb.mean(axis=1, keepdims=True)
    tol = 1e-9
    tried = 0
    for p in (1, 2, -1, -2, 3, -3):
        for i, a in enumerate(ids):
            r = lv - p * lb[i]
            for q in (0, 1, -1, 2, -2):
                js = [None] if q == 0 else np.nonzero(np.all(np.abs(r - q * lb[i + 1 :]) < tol, axis=1))[0] + i + 1
                for j in js:
                    if j is None and not np.all(np.abs(r) < tol):
                        continue
                    m = [(a, p)] if j is None else sorted([(a, p), (ids[j], q)])
                    c = rat(float(np.mean(val / evaluate({tuple(m): Q(1)}))))
                    d = dict(rest)
                    _madd(d, tuple(m), -c)
                    tried += 1
                    if vanishes(d):
                        return c, tuple(m)
                    if tried > 8:
                        return None
    return None


def _opaque(kind, rest, f, pos):
    val = f(evaluate(rest))
    a = keyed_atom((kind, rkey(rest)), val, pos, f"{kind}({show(rest)[:60]})")
    if kind == "sum":
        W.sums.setdefault(a.args[0], rest)
    return a


def evaluate(nf):
    out = np.zeros(K)
    for m, c in nf.items():
        t = np.full(K, float(c))
        for a, e in m:
            t = t * W.atoms[a][2] ** (int(e) if e == int(e) else float(e))
        out = out + t
    return out


def _is_mono_pos(nf):
    if len(nf) != 1:
        return False
    (m, c), = nf.items()
    return c > 0 and all(W.atoms[a][1] for a, _ in m)


def _inv(nf):
    if not nf:
        raise Unsupported("division by zero")
    if len(nf) == 1:
        (m, c), = nf.items()
        return {_mpow(m, -1): qdiv(1, c)}
    c, m, rest = _split(nf)
    v = evaluate(rest)
    if len(rest) == 1:
        (m2, c2), = rest.items()
        return {_mpow(_mmul(m, m2), -1): qdiv(1, c * c2)}
    c2, m2 = _sum(rest, bool(np.all(v > 0)) and sign_of(rest) == 1)
    return _pmul({_mpow(m, -1): qdiv(1, c)}, {_mpow(m2, -1): qdiv(1, c2)})


def _pow(nf, e):
    if e == int(e):
        n = int(e)
        base = nf if n >= 0 else _inv(nf)
        r = {(): Q(1)}
        for _ in range(abs(n)):
            r = _pmul(r, base)
        return r
    if not nf:
        return {}
    c, m, rest = _split(nf)
    if len(rest) == 1 and () in rest:
        if c < 0:
            raise Unsupported("root of a negative constant")
        return {_normexp(_mpow(m, e)): _cpow(c, e)}
    if c < 0:
        rest = {k: -v for k, v in rest.items()}
        c = -c
    c2, m2 = _sum(rest, True)  # positive by the precondition (root or power of a sum)
    return {_normexp(_mmul(_mpow(m, e), _mpow(m2, e))): _cpow(c * c2, e)}


def _normexp(m):
    for _, e in m:
        if type(e) is not int:
            return tuple((a, int(e) if e == int(e) else e) for a, e in m)
    return m


def _cpow(c, e):
    if e == Fraction(1, 2):
        n, d = int(c.numerator), int(c.denominator)
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Q(rn, rd)
    return rat(float(c) ** float(e))


def _nf1(x):
    op = x.op
    if op == "c":
        return {(): x.args[0]} if x.args[0] != 0 else {}
    if op == "a":
        return {((x.args[0], 1),): Q(1)}
    if op == "nan":
        raise Unsupported("NaN")
    a = x.args[0]._nf
    if op in "+-":
        r = dict(a)
        s = 1 if op == "+" else -1
        for m, c in x.args[1]._nf.items():
            _madd(r, m, s * c)
        return r
    if op == "*":
        return _pmul(a, x.args[1]._nf)
    if op == "/":
        return _pmul(a, _inv(x.args[1]._nf))
    if op == "pow":
        return _pow(a, x.args[1])
    if op == "abs":  # |x| = x sgn(x)
        return _pmul(a, _sgn(a)) if a else {}
    if op == "sgn":
        return _sgn(a) if a else {}
    if op == "log":
        c, m, rest = _split(a)
        r = {}
        if len(rest) == 1 and () in rest:
            if c <= 0:
                raise Unsupported("log of a negative constant")
        else:
            if c < 0:
                c, rest = -c, {k: -v for k, v in rest.items()}
            c2, m2 = _sum(rest, True)
            c, m = c * c2, _mmul(m, m2)
        if c != 1:
            r[()] = rat(math.log(float(c)))
        for at, e in m:
            lg = keyed_atom(("log", at), np.log(W.atoms[at][2]), False, f"log({W.atoms[at][0]})")
            _madd(r, ((lg.args[0], 1),), e)
        return r
    if op == "exp":
        m, c, rest = (), Q(1), {}
        logs = {v.args[0]: k[1] for k, v in W.keyed.items() if k[0] == "log"}
        for mm, cc in a.items():
            if mm == ():
                c = rat(math.exp(float(cc)))
            elif len(mm) == 1 and mm[0][1] == 1 and mm[0][0] in logs:
                m = _mmul(m, ((logs[mm[0][0]], _int(cc)),))
            else:
                rest[mm] = cc
        if rest:
            t = _opaque("exp", rest, np.exp, True)
            m = _mmul(m, ((t.args[0], 1),))
        return {_normexp(m): c}
    if op in ("sin", "cos", "arctan", "arccos", "arcsin", "tanh", "cosh"):
        t = _opaque(op, a, getattr(np, op), False)
        return {((t.args[0], 1),): Q(1)}
    if op == "ite":
        c, p, q = x.args[0], x.args[1], x.args[2]
        raise Unsupported("ite")
    raise Unsupported(op)


def _sgn(nf):
    s = sign_of(nf)
    if s is not None:
        return {(): Q(s)}
    c, m, rest = _split(nf)
    out, k = (), Q(1 if c > 0 else -1)
    if len(rest) == 1:
        (m2, c2), = rest.items()
        if c2 < 0:
            k = -k
        for a, e in m2:
            if W.atoms[a][1]:
                continue
            if e != int(e):
                raise Unsupported("sign of a root")
            if a in W.signs:
                t = a
            else:
                t = keyed_atom(("sgn", a), np.sign(W.atoms[a][2]), False, f"sgn({W.atoms[a][0]})").args[0]
                W.signs.add(t)
            out = _mmul(out, ((t, int(e) % 2),)) if int(e) % 2 else out
        return {out: k}
    t = _opaque("sgn", rest, np.sign, False).args[0]
    W.signs.add(t)
    return {((t, 1),): k}


def _int(c):
    return int(c) if c == int(c) else c


def show(nf, n=4):
    out = []
    for m, c in list(nf.items())[:n]:
        out.append(f"{float(c):.6g}" + "".join(f"*{W.atoms[a][0]}" + (f"^{float(e):.4g}" if e != 1 else "") for a, e in m))
    return " + ".join(out) + (" + ..." if len(nf) > n else "") if out else "0"


# --------------------------------------------------------------------------------------------------------- decisions
def close(x, y):
    """values equal up to rounding?"""
    return bool(np.all(np.abs(x - y) <= TOL * (np.abs(x) + np.abs(y)) + 1e-300))


def alike(a, b, depth=6):
    """the same expression (up to the order of factors and summands)?"""
    if a is b:
        return True
    if a.op != b.op or depth == 0 or not isinstance(a, Node) or not isinstance(b, Node):
        return False
    if a.op in ("c", "a"):
        return a.args == b.args
    if a.op in "+-*/":
        (p, q), (r, t) = a.args, b.args
        if alike(p, r, depth - 1) and alike(q, t, depth - 1):
            return True
        return a.op in "+*" and alike(p, t, depth - 1) and alike(q, r, depth - 1)
    return len(a.args) == len(b.args) and all(
        alike(x, y, depth - 1) if isinstance(x, Node) and isinstance(y, Node) else (not isinstance(x, Node) and x == y)
        for x, y in zip(a.args, b.args)
    )


def decide(a, b, scale=None):
    a, b = lift(a), lift(b)
    if a.op == "nan" or b.op == "nan":
        return ("proved", None) if a.op == b.op else ("refuted", {"left": repr(a.val[0]), "right": repr(b.val[0])})
    if a is b or alike(a, b):
        return "proved", None
    s = np.abs(a.val) + np.abs(b.val) + (scale if scale is not None else 0)
    bad = np.abs(a.val - b.val) > 1e-6 * s + 1e-300
    if np.any(bad) and np.any(np.abs(a.val - b.val) > 1e-9 * magnitude(a, b)):
        i = int(np.argmax(bad))
        return "refuted", {"left": float(a.val[i]), "right": float(b.val[i]), "point": i}
    try:
        pa, pb = a.nf(), b.nf()
        if pa == pb:
            return "proved", None
        d = dict(pa)
        for m, c in pb.items():
            _madd(d, m, -c)
        ok = True
        for m, c in d.items():
            ref = max(abs(pa.get(m, 0)), abs(pb.get(m, 0)))
            if abs(c) > Q(1, 10**8) * ref:
                ok = False
        # a term present on one side only is rounding when it vanishes against the others at every point
        if not ok:
            big = np.abs(evaluate(pa)) + np.abs(evaluate(pb))
            big = np.maximum(big, max_term(pa))
            if np.all(max_term(d) <= 1e-11 * big):
                ok = True
        if not ok and W.sums:
            ok = vanishes(d)
        if ok:
            return "proved", None
    except Unsupported as e:
        return "unknown", str(e)
    return "unknown", None


def vanishes(d):
    """d = 0 as a rational function: multiply by the denominators (not zero by the precondition) and expand the sums."""
    for _ in range(40):
        if not d:
            return True
        low = {}
        for m in d:
            for a, e in m:
                low.setdefault(a, []).append(e)
        up = []
        for a, es in low.items():
            lo = min(es) if len(es) == len(d) else min(min(es), 0)
            if a in W.signs:
                continue
            if lo < 0 or (lo > 0 and len(es) == len(d)):
                up.append((a, -lo))
        if up:
            k = tuple(sorted(up))
            d = {_normexp(_mmul(m, k)): c for m, c in d.items()}
            d = _trig(d) if W.trig else d
        hit = None
        for m in d:
            for a, e in m:
                if a in W.sums and e >= 1:
                    hit = a if hit is None else max(hit, a)
        if hit is None:
            if up:
                continue
            return False
        # the last sum first: its terms may contain the earlier ones
        r = {}
        powers = {0: {(): Q(1)}}
        for m, c in d.items():
            e = dict(m).get(hit, 0)
            n = int(math.floor(e)) if e >= 1 else 0
            if not n:
                _madd(r, m, c)
                continue
            for k in range(1, n + 1):
                if k not in powers:
                    powers[k] = _pmul(powers[k - 1], W.sums[hit])
            m0 = _normexp(_mmul(m, ((hit, -n),)))
            for m2, c2 in powers[n].items():
                _madd(r, _normexp(_mmul(m0, m2)), c * c2)
        d = _trig(r) if W.trig else r
        if len(d) > 20 * MAXTERMS:
            raise Unsupported("normal form too large")
    return False


def max_term(nf):
    out = np.zeros(K)
    for m, c in nf.items():
        out = np.maximum(out, np.abs(evaluate({m: c})))
    return out


def magnitude(*nodes):
    """Scale of the rounding error of the values of the nodes, in units of the rounding of one operation."""
    memo = {}

    def size(x, depth):
        if id(x) in memo:
            return memo[id(x)]
        v = np.abs(x.val)
        if x.op in "+-*/" and depth and len(memo) < 3000:
            a, b = x.args
            A, B = size(a, depth - 1), size(b, depth - 1)
            with np.errstate(all="ignore"):
                if x.op in "+-":
                    r = A + B
                elif x.op == "*":
                    r = A * np.abs(b.val) + np.abs(a.val) * B
                else:
                    r = A / np.abs(b.val) + np.abs(a.val) * B / (b.val * b.val)
            v = np.where(np.isfinite(r), np.maximum(v, r), v)
        memo[id(x)] = v
        return v

    return sum(size(x, 40) for x in nodes)


def equal(R, unit, label, got, want):
    """Obligation: the arrays are equal entry by entry."""
    got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
    if got.shape != want.shape:
        try:
            want = np.broadcast_to(want, got.shape)
        except ValueError:
            R.undecided.append(f"{unit}: {label} (shape {got.shape} instead of {want.shape})")
            return False
    ok = True
    und = 0
    for i in np.ndindex(*got.shape):
        st, info = decide(got[i], want[i])
        rec = {"unit": unit, "label": label + (str(list(i)) if i else ""), "status": st, "backend": "puiseux", "s": 0.0, "kind": "post"}
        R.obligations.append(rec)
        if st == "refuted":
            ok = False
            rec["model"] = dict(info, inputs={n: float(v.val[info.get("point", 0)]) for n, v in W.inputs[:40]})
            if sum(1 for r in R.refuted if r["unit"] == unit) < 20:
                R.refuted.append(rec)
        elif st == "unknown":
            ok = False
            und += 1
            if os.environ.get("VX_DEBUG") and und <= 2:
                print(f"  unknown {unit}: {label}{list(i)} {info}", file=sys.stderr)
    if und:
        R.undecided.append(f"{unit}: {label} ({und} entries equal at the sample points, no proof found)")
    return ok


def unit(R, name, fn, seed=1, budget_s=None):
    def go(c):
        reset(seed)
        fn()

    return R.symbolic(name, go, max_paths=1, budget_s=budget_s)


# ---------------------------------------------------------------------------------------------------- dual numbers
MODULUS = True  # abs of a dual: the modulus of a complex number (numpy), or the derivative of |x|


def dual(a, b):
    return Dual(lift(a), lift(b))


def _dbin(f):
    def g(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        if isinstance(o, Node):
            o = Dual(o, ZERO)
        return f(self, o)

    return g


def _dcmp(op):
    def f(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = lift(o)
        return Cond(op, self.re, o.re if isinstance(o, Dual) else o)

    return f


class Dual:
    """re + eps im with eps^2 = 0: a complex number to first order in its imaginary part."""

    __slots__ = ("re", "im")
    op, cut, pos = "dual", None, False

    def __init__(self, re, im):
        self.re, self.im = re, im

    __add__ = __radd__ = _dbin(lambda a, b: Dual(a.re + b.re, a.im + b.im))
    __sub__ = _dbin(lambda a, b: Dual(a.re - b.re, a.im - b.im))
    __rsub__ = _dbin(lambda a, b: Dual(b.re - a.re, b.im - a.im))
    __mul__ = __rmul__ = _dbin(lambda a, b: Dual(a.re * b.re, a.re * b.im + a.im * b.re))
    __truediv__ = _dbin(lambda a, b: Dual(a.re / b.re, (a.im - a.re / b.re * b.im) / b.re))
    __rtruediv__ = _dbin(lambda a, b: b / a)
    __lt__, __le__, __gt__, __ge__ = _dcmp("<"), _dcmp("<="), _dcmp(">"), _dcmp(">=")

    def __neg__(self):
        return Dual(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        return Dual(abs(self.re), ZERO if MODULUS else sgn(self.re) * self.im)

    def __pow__(self, e):
        if isinstance(e, Dual):
            e = e.re
        e = lift(e)
        if e.op != "c":
            raise Unsupported("symbolic exponent")
        return Dual(self.re**e, e * self.re ** const(e.args[0] - 1) * self.im)

    def sqrt(self):
        r = self.re.sqrt()
        return Dual(r, self.im / (2 * r))

    def exp(self):
        r = self.re.exp()
        return Dual(r, r * self.im)

    def log(self):
        return Dual(self.re.log(), self.im / self.re)

    def sin(self):
        return Dual(self.re.sin(), self.re.cos() * self.im)

    def cos(self):
        return Dual(self.re.cos(), -(self.re.sin() * self.im))

    def isnan(self):
        return self.re.isnan()

    def copy(self):
        return self

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self


def parts(x):
    x = np.asarray(x, dtype=object)
    re, im = np.empty(x.shape, dtype=object), np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        v = lift(x[i])
        re[i], im[i] = (v.re, v.im) if isinstance(v, Dual) else (v, ZERO)
    return re, im


def duals(re, im):
    out = np.empty(np.shape(re), dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = Dual(re[i], im[i])
    return out


# ------------------------------------------------------------------------------------------------- linear operators
class _Ops:
    """matrices made of abstract ones: sums, products with each other and multiples"""

    __array_ufunc__ = None
    __array_priority__ = 1000

    def __matmul__(self, o):
        return _Made(self.shape[:1] + o.shape[1:], lambda x: (x @ self) @ o) if isinstance(o, _Ops) else NotImplemented

    def __add__(self, o):
        return _Made(self.shape, lambda x: x @ self + x @ o) if isinstance(o, _Ops) else NotImplemented

    def __sub__(self, o):
        return _Made(self.shape, lambda x: x @ self - x @ o) if isinstance(o, _Ops) else NotImplemented

    def __mul__(self, k):
        return _Made(self.shape, lambda x: (x @ self) * k) if np.ndim(k) == 0 else NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __truediv__(self, k):
        return _Made(self.shape, lambda x: (x @ self) / k) if np.ndim(k) == 0 else NotImplemented


class _Made(_Ops):
    def __init__(self, shape, apply):
        self.shape, self.apply = shape, apply

    def __rmatmul__(self, x):
        return self.apply(x)


class LinOp(_Ops):
    """An abstract matrix: x @ op.  Any linear operator; outputs are atoms keyed by operator, column and row vector.
    `pos`: outputs of positive rows are positive (stated precondition: extrapolated positive fields stay positive)."""

    def __init__(self, name, n_in, n_out, pos=False):
        self.name, self.shape, self.pos = name, (n_in, n_out), pos
        rng = np.random.default_rng(sum(map(ord, name)) + 7)
        self.m = rng.uniform(0.1, 1.0, (n_in, n_out)) if pos else rng.uniform(-1, 1, (n_in, n_out))
        self.rows = {}

    def __rmatmul__(self, x):
        x = np.asarray(x, dtype=object)
        if x.shape[-1] != self.shape[0]:
            raise ValueError(f"matmul: {x.shape} @ {self.shape}")
        out = np.empty(x.shape[:-1] + (self.shape[1],), dtype=object)
        for i in np.ndindex(*x.shape[:-1]):
            row = [lift(v) for v in x[i]]
            out[i] = self.row(row)
        return out

    def row(self, row):
        if any(isinstance(v, Dual) for v in row):
            re, im = parts(row)
            return [Dual(a, b) for a, b in zip(self.row(list(re)), self.row(list(im)))]
        if all(v.op == "c" and v.args[0] == 0 for v in row):
            return [ZERO] * self.shape[1]
        k = tuple(key(v) for v in row)
        if k not in self.rows:
            val = np.array([v.val for v in row])  # n_in x K
            o = self.m.T @ val
            p = self.pos and all(v.pos or sign_of(v.nf()) == 1 for v in row)
            self.rows[k] = [
                Node("a", (W.new(f"{self.name}{len(self.rows)}.{j}", p, o[j]),), o[j], p) for j in range(self.shape[1])
            ]
        return self.rows[k]


# ---------------------------------------------------------------------------------------------------------- namespace
def _ew2(f):
    def g(a, b, *x, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                out[i] = f(lift(a[i]), lift(b[i]))
            return out
        return f(lift(a), lift(b))

    return g


def sgn(x):
    if isinstance(x, Dual):
        return Dual(sgn(x.re), ZERO)
    if x.op == "nan":
        return NAN
    return Node("sgn", (x,), np.sign(x.val), False)


def _dsel(a, b, k):
    """max / min of complex numbers: by real part (outside the set where those are equal)"""
    a, b = (x if isinstance(x, Dual) else Dual(x, ZERO) for x in (a, b))
    h = const(Fraction(k, 2))
    return Dual(
        (nmax if k > 0 else nmin)(a.re, b.re), (a.im + b.im) * const(Fraction(1, 2)) + sgn(a.re - b.re) * (a.im - b.im) * h
    )


def nmax(a, b):
    if isinstance(a, Dual) or isinstance(b, Dual):
        return _dsel(a, b, 1)
    if a.op == "nan" or b.op == "nan":
        return NAN
    return (a + b + abs(a - b)) * const(Fraction(1, 2))


def nmin(a, b):
    if isinstance(a, Dual) or isinstance(b, Dual):
        return _dsel(a, b, -1)
    if a.op == "nan" or b.op == "nan":
        return NAN
    return (a + b - abs(a - b)) * const(Fraction(1, 2))


def where1(c, a, b):
    if isinstance(c, Cond):
        k = c.known()
        if k is None:
            if c.op not in ("<", "<=", ">", ">="):
                raise Unsupported("selection on an undetermined equality")
            # outside the set where both sides are equal
            d = sgn(c.b - c.a if c.op in ("<", "<=") else c.a - c.b)
            h = const(Fraction(1, 2))
            return (a + b) * h + (a - b) * h * d
        c = k
    return a if c else b


class AXP:
    pi, inf, nan, newaxis, ndarray, s_ = np.pi, np.inf, np.nan, None, np.ndarray, np.s_

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return getattr(np, k)

    @staticmethod
    def _flt(dtype):
        if dtype is None or dtype is object:
            return True
        try:
            return np.dtype(dtype).kind in "fcO"
        except TypeError:
            return True

    def full(self, shape, v, dtype=None, **k):
        if not self._flt(dtype):
            return np.full(shape, v, dtype=dtype)
        a = np.empty(shape, dtype=object)
        a[...] = lift(v)
        return a

    def zeros(self, shape, dtype=None, **k):
        return self.full(shape, 0, dtype)

    def ones(self, shape, dtype=None, **k):
        return self.full(shape, 1, dtype)

    def empty(self, shape, dtype=None, **k):
        return self.full(shape, float("nan"), dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self.full(k.get("shape") or np.shape(a), 0, dtype)

    def ones_like(self, a, dtype=None, **k):
        return self.full(np.shape(a), 1, dtype)

    def empty_like(self, a, dtype=None, **k):
        return self.full(k.get("shape") or np.shape(a), float("nan"), dtype)

    def full_like(self, a, v, dtype=None, **k):
        return self.full(np.shape(a), v, dtype)

    maximum = staticmethod(_ew2(nmax))
    minimum = staticmethod(_ew2(nmin))
    fmax, fmin = maximum, minimum

    @staticmethod
    def where(c, a=None, b=None):
        if a is None:
            return np.where(c)
        c, a, b = np.broadcast_arrays(np.asarray(c, dtype=object), np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(c.shape, dtype=object)
        for i in np.ndindex(*c.shape):
            out[i] = where1(c[i], lift(a[i]), lift(b[i]))
        return out

    @staticmethod
    def _un(x, f, g):
        if isinstance(x, (Node, Dual, Angle)):
            return f(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = f(lift(x[i]))
            return out
        return g(x)

    def sqrt(self, x, *a, **k):
        return self._un(x, lambda v: v.sqrt(), np.sqrt)

    def exp(self, x, *a, **k):
        return self._un(x, lambda v: v.exp(), np.exp)

    def log(self, x, *a, **k):
        return self._un(x, lambda v: v.log(), np.log)

    def sin(self, x, *a, **k):
        return self._un(x, lambda v: v.sin(), _scalar(np.sin))

    def cos(self, x, *a, **k):
        return self._un(x, lambda v: v.cos(), _scalar(np.cos))

    def hypot(self, x, y):
        return self.sqrt(x * x + y * y) if has(x) or has(y) else np.hypot(x, y)

    def arctan2(self, y, x):
        if not (has(x) or has(y)):
            return np.arctan2(y, x)
        return _ew2(lambda a, b: MATH.atan2(a, b))(y, x)

    def abs(self, x, *a, **k):
        return self._un(x, abs, np.abs)

    absolute = fabs = abs

    def sign(self, x, *a, **k):
        return self._un(x, sgn, np.sign)

    def isnan(self, x):
        if isinstance(x, Node):
            return x.isnan()
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array([isinstance(v, Node) and v.isnan() for v in x.ravel()], dtype=bool).reshape(x.shape)
        return np.isnan(x)

    def linspace(self, start, stop, num=50, **k):
        if k or not (has(start) or has(stop)):
            return np.linspace(start, stop, num, **k)
        out = np.empty(num, dtype=object)
        for i in range(num):
            out[i] = lift(start) + (lift(stop) - lift(start)) * lift(i) / lift(max(num - 1, 1))
        return out

    def power(self, a, b):
        return a**b

    def square(self, a):
        return a * a

    def array(self, a, dtype=None, **k):
        return np.array(a, dtype=object) if has(a) else np.array(a, dtype=dtype, **k)

    asarray = array
    ascontiguousarray = array


def has(x):
    if isinstance(x, (Node, Dual)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    return isinstance(x, (list, tuple)) and any(has(v) for v in x)


class Fld(np.ndarray):
    """A field of symbolic values: comparisons give masks of conditions, and indexing with such a mask selects pointwise
    (the selected values keep their place; storing under a mask keeps the old values where the condition fails)."""

    def _cmp(name):
        def f(self, o):
            return getattr(np, name)(self, o, dtype=object)

        return f

    __lt__, __le__, __gt__, __ge__ = _cmp("less"), _cmp("less_equal"), _cmp("greater"), _cmp("greater_equal")

    @staticmethod
    def _mask(k):
        return isinstance(k, np.ndarray) and k.dtype == object

    def __getitem__(self, k):
        if self._mask(k):
            if k.shape != self.shape:
                raise Unsupported("mask of another shape")
            return self.copy()
        return super().__getitem__(k)

    def __setitem__(self, k, v):
        if self._mask(k):
            if k.shape != self.shape:
                raise Unsupported("mask of another shape")
            v = np.broadcast_to(np.asarray(v, dtype=object), self.shape)
            old = np.asarray(self)
            new = [where1(k[i], lift(v[i]), lift(old[i])) for i in np.ndindex(*self.shape)]
            for i, x in zip(np.ndindex(*self.shape), new):
                np.ndarray.__setitem__(self, i, x)
            return
        super().__setitem__(k, v)


def fld(a):
    return np.asarray(a, dtype=object).view(Fld)


class FXP(AXP):
    """the namespace on fields"""

    class linalg:
        @staticmethod
        def norm(a):
            t = ZERO
            for x in np.asarray(a, dtype=object).ravel():
                t = t + lift(x) * lift(x)
            return t.sqrt()

    def full(self, *a, **k):
        r = AXP.full(self, *a, **k)
        return r.view(Fld) if r.dtype == object else r

    @staticmethod
    def where(c, a=None, b=None):
        return fld(AXP.where(c, a, b)) if a is not None else np.where(c)

    @staticmethod
    def _un(x, f, g):
        r = AXP._un(x, f, g)
        return r.view(Fld) if isinstance(r, np.ndarray) and r.dtype == object else r

    @staticmethod
    def _ew(f):
        h = _ew2(f)
        return lambda a, b, *x, **k: fld(h(a, b)) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else h(a, b)

    def arccos(self, x):
        return self._un(x, lambda v: unary("arccos", v), np.arccos)

    def arcsin(self, x):
        return self._un(x, lambda v: unary("arcsin", v), np.arcsin)

    def tanh(self, x):
        return self._un(x, lambda v: unary("tanh", v), np.tanh)

    def cosh(self, x):
        return self._un(x, lambda v: unary("cosh", v), np.cosh)


FXP.maximum = FXP.fmax = staticmethod(FXP._ew(nmax))
FXP.minimum = FXP.fmin = staticmethod(FXP._ew(nmin))
XPF = FXP()
XPA = AXP()
reset()
