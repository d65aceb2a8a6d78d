"""Symbolic-execution verification-condition generator for the Python code in /repo.

The functions of /repo are *executed*, unchanged, by CPython on symbolic proxies (SInt/SReal/SFP/SBool).  Every branch
on a symbolic condition forks the path (by re-execution with a recorded decision prefix); every contract clause becomes
an obligation `path condition => clause` that is handed to the solver portfolio:

  ring   exact rational-function normal form (sympy.polys), equality goals only
  z3     default tactic                          z3-nlsat  qfnra-nlsat tactic
  cvc5   through the SMT-LIB text of the same query

Nothing here looks at the text of the code under verification.
"""

import os
import sys
import time
import threading
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import numpy as np
import z3


class PathEnd(BaseException):
    """This path needs no further execution (loop cut)."""


class Infeasible(BaseException):
    """The assumptions on this path are contradictory."""


class Unsupported(BaseException):
    """The engine cannot represent an operation.  Never a violation: the obligation becomes undecided."""


class HarnessGap(BaseException):
    """The code asked a stand-in object for something it does not provide.  Never a violation."""


# ---------------------------------------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, report, unit, prefix=(), timeout_ms=8000):
        self.report = report
        self.unit = unit
        self.prefix = list(prefix)
        self.trace = []
        self.alternatives = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 3000)
        self.timeout_ms = timeout_ms
        self.memo = {}
        self.fresh_count = 0
        self.sqrt_hints = []
        self.floor_hints = []
        self.notes = []
        self.inputs = []  # (name, term) of the symbolic inputs, for counterexamples
        self.ghost = {}

    # -- building
    def fresh(self, base, sort="R"):
        self.fresh_count += 1
        name = f"{base}!{self.fresh_count}"
        return {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[sort](name)

    def assume(self, cond):
        t = to_bool_term(cond)
        if t is True:
            return
        if t is False:
            raise Infeasible
        t = z3.simplify(t) if z3.is_true(z3.simplify(t)) else t
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise Infeasible
        self.pc.append(t)
        self.solver.add(t)

    def feasible(self, extra=None):
        r = self.solver.check() if extra is None else self.solver.check(extra)
        return r != z3.unsat

    def branch(self, term):
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            lit = term if d else z3.Not(term)
            self.pc.append(lit)
            self.solver.add(lit)
            return d
        t_ok = self.feasible(term)
        f_ok = self.feasible(z3.Not(term))
        if not t_ok and not f_ok:
            raise Infeasible
        if t_ok and f_ok:
            self.alternatives.append(self.trace + [False])
            d = True
        else:
            d = t_ok
        self.trace.append(d)
        lit = term if d else z3.Not(term)
        self.pc.append(lit)
        self.solver.add(lit)
        return d

    def entails(self, cond, timeout_ms=3000):
        """Is cond a consequence of the path condition? (used for sound simplifications)"""
        t = to_bool_term(cond)
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if self.solver.check(z3.Not(t)) == z3.unsat:
            return True
        st, *_ = decide(self.pc, t, timeout_ms, backends=("nlsat",))
        return st == "proved"

    def prove(self, label, cond, kind="post", backends=None, timeout_ms=None, info=None):
        return self.report.obligation(self, label, cond, kind, backends, timeout_ms, info)


_tls = threading.local()


def ctx():
    c = getattr(_tls, "ctx", None)
    if c is None:
        raise Unsupported("symbolic value used outside a verification context")
    return c


def set_ctx(c):
    _tls.ctx = c


def explore(report, unit, fn, max_paths=4000, timeout_ms=8000, budget_s=240):
    """Run fn(ctx) on every feasible path.  Returns the number of completed paths.
    Exceptions other than the engine's control exceptions propagate to the caller."""
    work = [()]
    done = 0
    t0 = time.time()
    reached_end = 0
    while work:
        prefix = work.pop()
        c = Ctx(report, unit, prefix, timeout_ms)
        old = getattr(_tls, "ctx", None)
        set_ctx(c)
        try:
            fn(c)
            reached_end += 1
        except PathEnd:
            reached_end += 1
        except Infeasible:
            pass
        finally:
            set_ctx(old)
        done += 1
        work.extend(c.alternatives)
        if done > max_paths or time.time() - t0 > budget_s:
            raise Unsupported(f"path budget exhausted in {unit} after {done} paths")
    report.paths += done
    if reached_end == 0:
        raise Unsupported(f"vacuous: no feasible path in {unit}")
    return reached_end


# -------------------------------------------------------------------------------------------------------- the solvers
def smt2_of(pc, goal):
    s = z3.Solver()
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    return s.to_smt2()


def _cvc5(pc, goal, timeout_ms):
    import subprocess

    text = "(set-logic ALL)\n" + smt2_of(pc, goal)
    try:
        r = subprocess.run(
            ["cvc5", "--lang=smt2", f"--tlimit={timeout_ms}", "-"],
            input=text,
            capture_output=True,
            text=True,
            timeout=timeout_ms / 1000 + 5,
        )
    except Exception:
        return "unknown", None
    out = r.stdout.strip().splitlines()
    if out and out[0] == "unsat":
        return "proved", None
    return "unknown", None


def _consts(terms):
    out, seen, stack = {}, set(), list(terms)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return None
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if not (z3.is_arith(x) or z3.is_bool(x)):
                return None
            out[x.get_id()] = x
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return None
        stack.extend(x.children())
    return list(out.values())


def _at_points(pc, goal, tries=8):
    """Look for a counterexample among a few rational points.  Equalities must fail by more than rounding of literals."""
    import random

    names = _consts(list(pc) + [goal])
    if not names or len(names) > 2000:
        return None
    conj, stack = [], [goal]
    while stack:
        x = stack.pop()
        if z3.is_and(x):
            stack.extend(x.children())
        else:
            conj.append(x)
    for t in range(tries):
        rng = random.Random(1000 + t)
        sub = []
        for x in names:
            n = rng.randint(1, 40)
            if t % 2 and rng.random() < 0.5:
                n = -n
            if z3.is_bool(x):
                v = z3.BoolVal(rng.random() < 0.5)
            elif z3.is_int(x):
                v = z3.IntVal(n)
            else:
                v = z3.RealVal(f"{n}/{rng.choice((1, 3, 7, 10))}")
            sub.append((x, v))
        if not all(z3.is_true(z3.simplify(z3.substitute(p, *sub))) for p in pc):
            continue
        for g in conj:
            if z3.is_eq(g) and z3.is_arith(g.arg(0)):
                a, b = (z3.simplify(z3.substitute(y, *sub)) for y in g.children())
                val = lambda y: Fraction(y.numerator_as_long(), y.denominator_as_long()) if z3.is_rational_value(y) else Fraction(y.as_long()) if z3.is_int_value(y) else None
                a, b = val(a), val(b)
                if a is None or b is None or abs(a - b) <= Fraction(1, 10**6) * max(abs(a), abs(b)):
                    continue
            elif not z3.is_false(z3.simplify(z3.substitute(g, *sub))):
                continue
            s = z3.Solver()
            s.add(*[x == v for x, v in sub])
            return s.model() if s.check() == z3.sat else None
    return None


def decide(pc, goal, timeout_ms=8000, backends=None):
    """Returns (status, backend, seconds, model) ; status in proved / refuted / unknown"""
    t0 = time.time()
    goal = goal if not isinstance(goal, bool) else z3.BoolVal(goal)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved", "z3-simplify", time.time() - t0, None
    order = backends or ("ring", "z3", "nlsat", "cvc5", "points")
    model = None
    for b in order:
        if b == "ring":
            from . import ring

            try:
                if ring.prove_goal(pc, goal):
                    return "proved", "ring", time.time() - t0, None
            except ring.RingUnsupported:
                pass
        elif b == "z3":
            s = z3.Solver()
            s.set("timeout", timeout_ms)
            for p in pc:
                s.add(p)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return "proved", "z3", time.time() - t0, None
            if r == z3.sat:
                model = s.model()
                return "refuted", "z3", time.time() - t0, model
        elif b == "nlsat":
            try:
                s = z3.Tactic("qfnra-nlsat").solver()
                s.set("timeout", timeout_ms)
                for p in pc:
                    s.add(p)
                s.add(z3.Not(goal))
                r = s.check()
                if r == z3.unsat:
                    return "proved", "z3-nlsat", time.time() - t0, None
                if r == z3.sat:
                    return "refuted", "z3-nlsat", time.time() - t0, s.model()
            except z3.Z3Exception:
                pass
        elif b == "points":
            try:
                model = _at_points(pc, goal)
            except z3.Z3Exception:
                model = None
            if model is not None:
                return "refuted", "points", time.time() - t0, model
        elif b == "cvc5":
            st, _ = _cvc5(pc, goal, timeout_ms)
            if st == "proved":
                return "proved", "cvc5", time.time() - t0, None
    return "unknown", "portfolio", time.time() - t0, None


# ----------------------------------------------------------------------------------------------------------- proxies
def is_sym(x):
    return isinstance(x, (SInt, SReal, SBool, SFP))


SIMPLE = [False]


class simple_floats:
    """Within this context a double literal within 4 ulp of a fraction with denominator <= 20000 means that fraction."""

    def __enter__(self):
        SIMPLE.append(SIMPLE[0])
        SIMPLE[0] = True

    def __exit__(self, *a):
        SIMPLE[0] = SIMPLE.pop()


def _num_real(x):
    if isinstance(x, bool) or isinstance(x, np.bool_):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported(f"non-finite literal {x} in real arithmetic")
        f = Fraction(x)
        if SIMPLE[0]:
            g = f.limit_denominator(20000)
            if abs(g - f) <= abs(f) * Fraction(1, 2**50):
                f = g
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    return None


def real_term(x):
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SInt):
        return z3.ToReal(x.t)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return real_term(x.item())
    return _num_real(x)


def int_term(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return z3.IntVal(int(x))
    return None


def to_bool_term(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if z3.is_expr(x) and z3.is_bool(x):
        return x
    if isinstance(x, (SInt, SReal)):
        return x.t != 0
    raise Unsupported(f"not a boolean: {type(x)}")


class SBool:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t if z3.is_expr(t) else z3.BoolVal(bool(t))

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SBool(z3.And(self.t, to_bool_term(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SBool(z3.Or(self.t, to_bool_term(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SBool(z3.Xor(self.t, to_bool_term(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def logical_not(self):
        return SBool(z3.Not(self.t))

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return SBool(self.t if o == 1 else z3.Not(self.t) if o == 0 else z3.BoolVal(False))
        return SBool(self.t == to_bool_term(o))

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return ~(self == o)
        return SBool(self.t != to_bool_term(o))

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SReal(real_term(self)) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return SInt(int_term(self)) + o

    __radd__ = __add__

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return f"SBool({self.t})"

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__


def _arr(o):
    return isinstance(o, np.ndarray) and o.ndim > 0


import operator as _op

_OPS = {
    "__add__": _op.add, "__sub__": _op.sub, "__mul__": _op.mul, "__truediv__": _op.truediv, "__floordiv__": _op.floordiv,
    "__mod__": _op.mod, "__pow__": _op.pow, "__lt__": _op.lt, "__le__": _op.le, "__gt__": _op.gt, "__ge__": _op.ge,
    "__eq__": _op.eq, "__ne__": _op.ne,
}


def _elementwise(self, o, name):
    refl = name.startswith("__r") and "__" + name[3:] in _OPS
    f = _OPS["__" + name[3:]] if refl else _OPS[name]
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape):
        out[i] = f(o[i], self) if refl else f(self, o[i])
    return out


class _SNum:
    __slots__ = ()
    __array_priority__ = 1000

    # every mixed operation with a genuine array is left to numpy (elementwise)
    def __hash__(self):
        return hash(self.t)

    def __neg__(self):
        return type(self)(-self.t)

    def __pos__(self):
        return self

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __repr__(self):
        return f"{type(self).__name__}({self.t})"

    def __abs__(self):
        t = z3.simplify(self.t)
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return type(self)(z3.simplify(z3.If(t >= 0, t, -t)))
        return type(self)(z3.If(self.t >= 0, self.t, -self.t))

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        return np.dtype(object)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _real_bin(name, fn):
    def op(self, o):
        if _arr(o):
            return _elementwise(self, o, name)
        if isinstance(o, complex):
            return NotImplemented
        b = real_term(o)
        if b is None:
            return NotImplemented
        return fn(self, b)

    op.__name__ = name
    return op


class SReal(_SNum):
    """An arbitrary real number (z3 Real term)."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t if z3.is_expr(t) else _num_real(t)

    __add__ = _real_bin("__add__", lambda a, b: SReal(a.t + b))
    __radd__ = _real_bin("__radd__", lambda a, b: SReal(b + a.t))
    __sub__ = _real_bin("__sub__", lambda a, b: SReal(a.t - b))
    __rsub__ = _real_bin("__rsub__", lambda a, b: SReal(b - a.t))
    __mul__ = _real_bin("__mul__", lambda a, b: SReal(a.t * b))
    __rmul__ = _real_bin("__rmul__", lambda a, b: SReal(b * a.t))
    __truediv__ = _real_bin("__truediv__", lambda a, b: SReal(a.t / b))
    __rtruediv__ = _real_bin("__rtruediv__", lambda a, b: SReal(b / a.t))
    __lt__ = _real_bin("__lt__", lambda a, b: SBool(a.t < b))
    __le__ = _real_bin("__le__", lambda a, b: SBool(a.t <= b))
    __gt__ = _real_bin("__gt__", lambda a, b: SBool(a.t > b))
    __ge__ = _real_bin("__ge__", lambda a, b: SBool(a.t >= b))
    __eq__ = _real_bin("__eq__", lambda a, b: SBool(a.t == b))
    __ne__ = _real_bin("__ne__", lambda a, b: SBool(a.t != b))
    __hash__ = _SNum.__hash__

    def __floordiv__(self, o):
        b = real_term(o)
        if b is None:
            return NotImplemented
        return SReal(z3.ToReal(sym_floor(SReal(self.t / b)).t))

    def __mod__(self, o):
        b = real_term(o)
        if b is None:
            return NotImplemented
        return SReal(self.t - b * z3.ToReal(sym_floor(SReal(self.t / b)).t))

    def __pow__(self, o):
        if _arr(o):
            return NotImplemented
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __trunc__(self):
        return sym_trunc(self)

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round with digits")
        return sym_round(self)

    def floor(self):
        return SReal(z3.ToReal(sym_floor(self).t))

    def ceil(self):
        return SReal(-z3.ToReal(sym_floor(-self).t))

    def __float__(self):
        v = const_value(self)
        if v is not None:
            return float(v)
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        v = const_value(self)
        if v is not None:
            return int(v)
        raise Unsupported("int() of a symbolic real")

    def __complex__(self):
        return complex(float(self))

    # numpy calls these on elements of object arrays
    def sqrt(self):
        return sym_sqrt(self)

    def sin(self):
        return sym_sincos(self)[0]

    def cos(self):
        return sym_sincos(self)[1]

    def tan(self):
        s, c = sym_sincos(self)
        return s / c

    def exp(self):
        return sym_uf("exp", self)

    def log(self):
        return sym_uf("log", self)

    def arctan(self):
        return sym_uf("arctan", self)

    def arcsin(self):
        return sym_uf("arcsin", self)

    def arccos(self):
        return sym_uf("arccos", self)

    def arctan2(self, o):
        return sym_uf("arctan2", self, o)

    def sinh(self):
        return (sym_uf("exp", self) - 1 / sym_uf("exp", self)) / 2

    def cosh(self):
        return (sym_uf("exp", self) + 1 / sym_uf("exp", self)) / 2

    def fabs(self):
        return abs(self)

    def sign(self):
        return SReal(z3.If(self.t > 0, z3.RealVal(1), z3.If(self.t < 0, z3.RealVal(-1), z3.RealVal(0))))

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def rint(self):
        return SReal(z3.ToReal(sym_round(self).t))

    def maximum(self, o):
        return sym_max(self, o)

    def minimum(self, o):
        return sym_min(self, o)

    def square(self):
        return self * self

    def astype(self, *_a, **_k):
        return self

    def is_integer(self):
        return SBool(z3.IsInt(self.t))


def _int_bin(name, fn, rfn=None):
    def op(self, o):
        if _arr(o):
            return _elementwise(self, o, name)
        if isinstance(o, complex):
            return NotImplemented
        b = int_term(o)
        if b is not None:
            return fn(self.t, b)
        if isinstance(o, (float, np.floating, Fraction, SReal)):
            return getattr(SReal(z3.ToReal(self.t)), name)(o)
        return NotImplemented

    op.__name__ = name
    return op


def _floordiv(a, b):
    b = z3.simplify(b)
    if z3.is_int_value(b):
        n = b.as_long()
        if n == 0:
            raise ZeroDivisionError
        q = a / b if n > 0 else (-a) / z3.IntVal(-n)
    else:
        if ctx().branch(b == 0):
            raise ZeroDivisionError
        q = z3.If(b > 0, a / b, (-a) / (-b))
        for h in ctx().floor_hints:
            ht = int_term(h)
            if ctx().entails(z3.And(b > 0, ht * b <= a, a < ht * b + b)):
                return ht
    return q


class SInt(_SNum):
    """An arbitrary integer (z3 Int term)."""

    __slots__ = ("t", "low")

    def __init__(self, t):
        self.t = t if z3.is_expr(t) else z3.IntVal(int(t))

    __add__ = _int_bin("__add__", lambda a, b: SInt(a + b))
    __radd__ = _int_bin("__radd__", lambda a, b: SInt(b + a))
    __sub__ = _int_bin("__sub__", lambda a, b: SInt(a - b))
    __rsub__ = _int_bin("__rsub__", lambda a, b: SInt(b - a))
    __mul__ = _int_bin("__mul__", lambda a, b: SInt(a * b))
    __rmul__ = _int_bin("__rmul__", lambda a, b: SInt(b * a))
    __truediv__ = _int_bin("__truediv__", lambda a, b: SReal(z3.ToReal(a) / z3.ToReal(b)))
    __rtruediv__ = _int_bin("__rtruediv__", lambda a, b: SReal(z3.ToReal(b) / z3.ToReal(a)))
    __floordiv__ = _int_bin("__floordiv__", lambda a, b: SInt(_floordiv(a, b)))
    __rfloordiv__ = _int_bin("__rfloordiv__", lambda a, b: SInt(_floordiv(b, a)))
    __mod__ = _int_bin("__mod__", lambda a, b: SInt(a - b * _floordiv(a, b)))
    __rmod__ = _int_bin("__rmod__", lambda a, b: SInt(b - a * _floordiv(b, a)))
    __lt__ = _int_bin("__lt__", lambda a, b: SBool(a < b))
    __le__ = _int_bin("__le__", lambda a, b: SBool(a <= b))
    __gt__ = _int_bin("__gt__", lambda a, b: SBool(a > b))
    __ge__ = _int_bin("__ge__", lambda a, b: SBool(a >= b))
    __eq__ = _int_bin("__eq__", lambda a, b: SBool(a == b))
    __ne__ = _int_bin("__ne__", lambda a, b: SBool(a != b))
    __hash__ = _SNum.__hash__

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, mod=None):
        if isinstance(o, (int, np.integer)) and o >= 0:
            r = z3.IntVal(1)
            for _ in range(int(o)):
                r = self.t if z3.is_int_value(r) else r * self.t
            return SInt(r)
        return sym_pow(SReal(z3.ToReal(self.t)), o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    def __and__(self, o):
        v = const_value(self)
        if v is not None and isinstance(o, int):
            return int(v) & o
        # x & (2^n - 1) == x mod 2^n for every integer x (Python's infinite two's complement)
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return SInt(self.t % z3.IntVal(o + 1))
        raise Unsupported("bitwise and")

    __rand__ = __and__

    def __lshift__(self, o):
        if isinstance(o, int):
            r = SInt(self.t * (1 << o))
            r.low = o  # that many low bits are zero
            return r
        raise Unsupported("<<")

    def __or__(self, o):
        for a, b in ((self, o), (o, self)):
            k = getattr(a, "low", None) if isinstance(a, SInt) else None
            if k and bool(AND(b >= 0, b < (1 << k))):
                return SInt(a.t + (b.t if isinstance(b, SInt) else z3.IntVal(int(b))))
        raise Unsupported("| of integers whose bits may overlap")

    __ror__ = __or__

    def __rshift__(self, o):
        if isinstance(o, int):
            return SInt(self.t / z3.IntVal(1 << o))
        raise Unsupported(">>")

    def __index__(self):
        v = const_value(self)
        if v is not None:
            return int(v)
        raise Unsupported("symbolic integer used as a concrete index/size")

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __floor__(self):
        return self

    __ceil__ = __floor__
    __trunc__ = __floor__

    def __round__(self, n=None):
        return self

    def sqrt(self):
        return sym_sqrt(SReal(z3.ToReal(self.t)))

    def bit_length(self):
        raise Unsupported("bit_length")


class SFP(_SNum):
    """An IEEE-754 binary64 number, round-to-nearest-even, including NaN/inf (z3 FloatingPoint term)."""

    __slots__ = ("t",)
    SORT = z3.Float64()
    RM = z3.RNE()

    def __init__(self, t):
        self.t = t if z3.is_expr(t) else z3.FPVal(float(t), self.SORT)

    @staticmethod
    def lift(o):
        if isinstance(o, SFP):
            return o.t
        if isinstance(o, (bool, int, float, np.integer, np.floating)):
            return z3.FPVal(float(o), SFP.SORT)
        return None

    def _b(self, o, f):
        if _arr(o):
            return NotImplemented
        b = SFP.lift(o)
        if b is None:
            return NotImplemented
        return f(self.t, b)

    def __add__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpAdd(self.RM, a, b)))

    def __radd__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpAdd(self.RM, b, a)))

    def __sub__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpSub(self.RM, a, b)))

    def __rsub__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpSub(self.RM, b, a)))

    def __mul__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpMul(self.RM, a, b)))

    def __rmul__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpMul(self.RM, b, a)))

    def __truediv__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpDiv(self.RM, a, b)))

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpDiv(self.RM, b, a)))

    def __lt__(self, o):
        return self._b(o, lambda a, b: SBool(z3.fpLT(a, b)))

    def __le__(self, o):
        return self._b(o, lambda a, b: SBool(z3.fpLEQ(a, b)))

    def __gt__(self, o):
        return self._b(o, lambda a, b: SBool(z3.fpGT(a, b)))

    def __ge__(self, o):
        return self._b(o, lambda a, b: SBool(z3.fpGEQ(a, b)))

    def __eq__(self, o):
        return self._b(o, lambda a, b: SBool(z3.fpEQ(a, b)))

    def __ne__(self, o):
        return self._b(o, lambda a, b: SBool(z3.Not(z3.fpEQ(a, b))))

    __hash__ = _SNum.__hash__

    def __neg__(self):
        return SFP(z3.fpNeg(self.t))

    def __abs__(self):
        return SFP(z3.fpAbs(self.t))

    def __bool__(self):
        return ctx().branch(z3.Not(z3.fpIsZero(self.t)))

    def isnan(self):
        return SBool(z3.fpIsNaN(self.t))

    def isfinite(self):
        return SBool(z3.Not(z3.Or(z3.fpIsNaN(self.t), z3.fpIsInf(self.t))))

    def isinf(self):
        return SBool(z3.fpIsInf(self.t))

    def sqrt(self):
        return SFP(z3.fpSqrt(self.RM, self.t))

    def __float__(self):
        t = z3.simplify(self.t)
        if isinstance(t, z3.FPNumRef):
            return float(eval(str(t))) if False else fp_to_float(t)
        raise Unsupported("float() of a symbolic double")

    def __format__(self, spec):
        return "<sym>"


def fp_to_float(t):
    if t.isNaN():
        return float("nan")
    if t.isInf():
        return float("-inf") if t.isNegative() else float("inf")
    if t.isZero():
        return -0.0 if t.isNegative() else 0.0
    import struct

    bv = z3.simplify(z3.fpToIEEEBV(t)).as_long()
    return struct.unpack("<d", struct.pack("<Q", bv))[0]


for _c in (SReal, SInt):
    _c.__format__ = lambda self, spec: "<sym>"


# ------------------------------------------------------------------------------------------------------ primitives
def const_value(x):
    if isinstance(x, (int, float, Fraction, np.integer, np.floating)):
        return x
    if isinstance(x, (SReal, SInt)):
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def sym_floor(x):
    if isinstance(x, SInt):
        return x
    c = ctx()
    t = z3.simplify(x.t)
    key = ("floor", t.get_id())
    if key in c.memo:
        return c.memo[key][0]
    r = None
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        r = SInt(f.numerator // f.denominator)
    else:
        for h in c.floor_hints:
            hr = real_term(h)
            if c.entails(z3.And(hr <= x.t, x.t < hr + 1)):
                r = SInt(int_term(h))
                break
    if r is None:
        r = SInt(z3.ToInt(x.t))
    c.memo[key] = (r, t)
    return r


def sym_trunc(x):
    if isinstance(x, SInt):
        return x
    t = x.t
    if ctx().entails(t >= 0):
        return sym_floor(x)
    return SInt(z3.If(t >= 0, sym_floor(x).t, -sym_floor(-x).t))


def sym_round(x):
    """Python's round-half-to-even, exactly."""
    if isinstance(x, SInt):
        return x
    f = z3.ToInt(x.t)
    d = x.t - z3.ToReal(f)
    half = z3.RealVal("1/2")
    r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return SInt(r)


def sym_sqrt(x):
    if isinstance(x, SFP):
        return x.sqrt()
    if isinstance(x, SInt):
        x = SReal(z3.ToReal(x.t))
    if not isinstance(x, SReal):
        return np.sqrt(x)
    c = ctx()
    t = z3.simplify(x.t)
    key = ("sqrt", t.get_id())
    if key in c.memo:
        return c.memo[key][0]
    v = const_value(x)
    if v is not None and v >= 0:
        import math

        f = Fraction(v)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return SReal(Fraction(a, b))
    for h in c.sqrt_hints:
        hr = real_term(h)
        if decide([], x.t == hr * hr, 1000, backends=("ring",))[0] == "proved" and c.entails(hr >= 0):
            r = SReal(hr)
            c.memo[key] = (r, t)
            return r
    s = c.fresh("sqrt")
    c.assume(SBool(z3.And(s >= 0, s * s == x.t)))
    r = SReal(s)
    c.memo[key] = (r, t)
    c.memo.setdefault("sqrt_defs", []).append((s, x.t))
    return r


def sym_isqrt(x):
    x = x if isinstance(x, SInt) else SInt(x)
    c = ctx()
    for h in c.sqrt_hints:
        ht = int_term(h)
        if ht is not None and c.entails(z3.And(ht >= 0, ht * ht <= x.t, x.t < (ht + 1) * (ht + 1))):
            return SInt(ht)
    s = c.fresh("isqrt", "I")
    c.assume(SBool(z3.And(s >= 0, s * s <= x.t, x.t < (s + 1) * (s + 1))))
    return SInt(s)


def sym_sincos(x):
    if not isinstance(x, (SReal, SInt)):
        return np.sin(x), np.cos(x)
    c = ctx()
    t = z3.simplify(real_term(x))
    v = const_value(SReal(t))
    if v is not None and v == 0:
        return SReal(0), SReal(1)
    neg = z3.simplify(-t)
    key = ("trig", t.get_id())
    if key in c.memo:
        s, co, _ = c.memo[key]
        return SReal(s), SReal(co)
    nkey = ("trig", neg.get_id())
    if nkey in c.memo:
        s, co, _ = c.memo[nkey]
        return SReal(-s), SReal(co)
    # a trigonometric table supplied by the harness (e.g. sin/cos of an angle given by its rational parametrisation)
    s, co = c.fresh("sin"), c.fresh("cos")
    c.assume(SBool(z3.And(s * s + co * co == 1)))
    c.memo[key] = (s, co, t)
    return SReal(s), SReal(co)


def def_trig(x, s, co):
    """Harness: declare sin/cos of the term x."""
    c = ctx()
    t = z3.simplify(real_term(x))
    c.memo[("trig", t.get_id())] = (real_term(s), real_term(co), t)


_UF = {}


def sym_uf(name, *args):
    ts = [real_term(a) for a in args]
    if any(t is None for t in ts):
        raise Unsupported(f"{name} of {args}")
    key = (name, len(ts))
    if key not in _UF:
        _UF[key] = z3.Function("uf_" + name, *([z3.RealSort()] * (len(ts) + 1)))
    ts = [z3.simplify(t) for t in ts]
    r = _UF[key](*ts)
    if name == "exp":
        v = const_value(SReal(ts[0]))
        if v == 0:
            return SReal(1)
        ctx().assume(SBool(r > 0))
    return SReal(r)


def sym_pow(a, b):
    va = const_value(a)
    vb = const_value(b)
    if vb is not None:
        fb = Fraction(vb)
        if fb.denominator == 1 and abs(fb.numerator) <= 64:
            n = abs(fb.numerator)
            base = real_term(a)
            r = z3.RealVal(1)
            for i in range(n):
                r = base if i == 0 else r * base
            r = SReal(r)
            return r if fb >= 0 else 1 / r
        if fb.denominator == 2 and abs(fb.numerator) <= 16:
            s = sym_sqrt(a if isinstance(a, (SReal, SInt)) else SReal(a))
            return sym_pow(s, fb.numerator)
    r = sym_uf("pow", a, b)
    c = ctx()
    c.assume(SBool(z3.Implies(real_term(a) > 0, r.t > 0)))
    return r


def sym_max(a, b):
    if isinstance(a, SFP) or isinstance(b, SFP):
        a, b = SFP.lift(a), SFP.lift(b)
        return SFP(z3.If(z3.fpGT(b, a), b, a))
    if int_term(a) is not None and int_term(b) is not None:
        x, y = int_term(a), int_term(b)
        return SInt(z3.If(x >= y, x, y))
    x, y = real_term(a), real_term(b)
    return SReal(z3.If(x >= y, x, y))


def sym_min(a, b):
    if isinstance(a, SFP) or isinstance(b, SFP):
        a, b = SFP.lift(a), SFP.lift(b)
        return SFP(z3.If(z3.fpLT(b, a), b, a))
    if int_term(a) is not None and int_term(b) is not None:
        x, y = int_term(a), int_term(b)
        return SInt(z3.If(x <= y, x, y))
    x, y = real_term(a), real_term(b)
    return SReal(z3.If(x <= y, x, y))


def ite(c, a, b):
    t = to_bool_term(c)
    if isinstance(t, bool):
        return a if t else b
    if isinstance(a, SFP) or isinstance(b, SFP):
        return SFP(z3.If(t, SFP.lift(a), SFP.lift(b)))
    if int_term(a) is not None and int_term(b) is not None:
        return SInt(z3.If(t, int_term(a), int_term(b)))
    return SReal(z3.If(t, real_term(a), real_term(b)))


# -------------------------------------------------------------------------------------------------- input variables
def real(name, *conds):
    v = SReal(z3.Real(name))
    c = getattr(_tls, "ctx", None)
    if c is not None:
        c.inputs.append((name, v.t))
    return v


def integer(name):
    v = SInt(z3.Int(name))
    c = getattr(_tls, "ctx", None)
    if c is not None:
        c.inputs.append((name, v.t))
    return v


def boolean(name):
    v = SBool(z3.Bool(name))
    ctx().inputs.append((name, v.t))
    return v


def double(name):
    v = SFP(z3.FP(name, SFP.SORT))
    ctx().inputs.append((name, v.t))
    return v


def real_array(name, shape):
    a = np.empty(shape, dtype=object)
    for idx in np.ndindex(*a.shape):
        a[idx] = SReal(z3.Real(name + "_" + "_".join(map(str, idx))))
    return a


def model_inputs(c, model):
    out = {}
    for name, t in c.inputs:
        try:
            v = model.eval(t, model_completion=True)
            if isinstance(v, z3.FPNumRef):
                out[name] = repr(fp_to_float(v))
            else:
                out[name] = str(v)
        except Exception:
            pass
    return out


AND = lambda *a: SBool(z3.And(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in map(to_bool_term, a)]))
OR = lambda *a: SBool(z3.Or(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in map(to_bool_term, a)]))
NOT = lambda a: SBool(z3.Not(to_bool_term(a))) if not isinstance(to_bool_term(a), bool) else SBool(not to_bool_term(a))
IMP = lambda a, b: OR(NOT(a), b)


def EQ(a, b):
    """Equality clause between scalars (symbolic or not), as an SBool."""
    if isinstance(a, SFP) or isinstance(b, SFP):
        return SBool(SFP.lift(a) == SFP.lift(b))
    if isinstance(a, SBool) or isinstance(b, SBool):
        return SBool(to_bool_term(a) == to_bool_term(b))
    if int_term(a) is not None and int_term(b) is not None:
        return SBool(int_term(a) == int_term(b))
    ra, rb = real_term(a), real_term(b)
    if ra is None or rb is None:
        return SBool(bool(a == b))
    return SBool(ra == rb)
