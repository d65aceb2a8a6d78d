"""Exact rational-function back end: proves equalities  a == b  (and conjunctions of them) by normalising the numerator
of a-b to zero in Q[atoms] modulo the defining relations found in the path condition (v*v == e, s*s + c*c == 1,
v == e).  Sound for all values of the atoms at which the denominators do not vanish."""

from fractions import Fraction
import z3

from sympy.polys.rings import ring as _ring
from sympy import QQ


class RingUnsupported(Exception):
    pass


class _Conv:
    """z3 arithmetic DAG -> (num, den) dictionaries of sympy ring elements.  Two passes: collect atoms, then convert."""

    def __init__(self):
        self.atoms = {}
        self.order = []
        self.R = None

    def atom(self, t):
        i = t.get_id()
        if i not in self.atoms:
            self.atoms[i] = len(self.order)
            self.order.append(t)

    ARITH = None

    def collect(self, t, seen=None):
        seen = self.seen = getattr(self, "seen", {})
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen[x.get_id()] = x
            if z3.is_rational_value(x) or z3.is_int_value(x):
                continue
            k = x.decl().kind()
            if k in _OPS:
                if k == z3.Z3_OP_POWER:
                    e = x.arg(1)
                    if not (z3.is_int_value(e) or z3.is_rational_value(e)):
                        self.atom(x)
                        continue
                    stack.append(x.arg(0))
                    continue
                stack.extend(x.children())
            else:
                self.atom(x)

    def build(self):
        names = [f"g{i}" for i in range(len(self.order))] or ["g0"]
        self.R, *self.gens = _ring(names, QQ)
        self.cache = {}

    def conv(self, t):
        """iterative post-order conversion"""
        R = self.R
        cache = self.cache
        stack = [t]
        one = R.one
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in cache:
                stack.pop()
                continue
            if z3.is_rational_value(x):
                f = Fraction(x.numerator_as_long(), x.denominator_as_long())
                cache[i] = (R.ground_new(QQ(f.numerator, f.denominator)), one)
                stack.pop()
                continue
            if z3.is_int_value(x):
                cache[i] = (R.ground_new(QQ(x.as_long())), one)
                stack.pop()
                continue
            if i in self.atoms:
                cache[i] = (self.gens[self.atoms[i]], one)
                stack.pop()
                continue
            k = x.decl().kind()
            ch = x.children() if k != z3.Z3_OP_POWER else [x.arg(0)]
            todo = [c for c in ch if c.get_id() not in cache]
            if todo:
                stack.extend(todo)
                continue
            v = [cache[c.get_id()] for c in ch]
            if k == z3.Z3_OP_ADD:
                r = v[0]
                for w in v[1:]:
                    r = self.add(r, w)
            elif k == z3.Z3_OP_SUB:
                r = v[0]
                for w in v[1:]:
                    r = self.add(r, (-w[0], w[1]))
            elif k == z3.Z3_OP_UMINUS:
                r = (-v[0][0], v[0][1])
            elif k == z3.Z3_OP_MUL:
                r = v[0]
                for w in v[1:]:
                    r = self.norm((self.red(r[0] * w[0]), self.red(r[1] * w[1])))
            elif k == z3.Z3_OP_DIV:
                if v[1][0] == 0:
                    raise RingUnsupported("division by zero")
                r = self.norm((self.red(v[0][0] * v[1][1]), self.red(v[0][1] * v[1][0])))
            elif k == z3.Z3_OP_TO_REAL:
                r = v[0]
            elif k == z3.Z3_OP_POWER:
                e = x.arg(1)
                f = Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) else Fraction(
                    e.as_long()
                )
                if f.denominator != 1:
                    raise RingUnsupported("fractional power")
                n = f.numerator
                b = v[0] if n >= 0 else (v[0][1], v[0][0])
                r = (one, one)
                for _ in range(abs(n)):
                    r = (self.red(r[0] * b[0]), self.red(r[1] * b[1]))
            else:
                raise RingUnsupported(str(k))
            if len(r[0]) + len(r[1]) > 20000:
                raise RingUnsupported("too large")
            cache[i] = r
            stack.pop()
        return cache[t.get_id()]

    def red(self, p):
        return p

    def norm(self, r):
        n, d = r
        if n == 0:
            return (n, self.R.one)
        if d.is_ground:
            return (n.mul_ground(1 / d.LC), self.R.one)
        if len(n) * len(d) <= 4000:
            g = n.gcd(d)
            if not g.is_ground:
                n, d = n.exquo(g), d.exquo(g)
            if d.is_ground:
                return (n.mul_ground(1 / d.LC), self.R.one)
        return (n, d)

    def add(self, a, b):
        if a[1] == b[1]:
            return self.norm((a[0] + b[0], a[1]))
        if a[1].is_ground and a[1] == 1:
            return self.norm((self.red(a[0] * b[1]) + b[0], b[1]))
        if b[1].is_ground and b[1] == 1:
            return self.norm((a[0] + self.red(b[0] * a[1]), a[1]))
        if len(a[1]) * len(b[1]) <= 4000:
            g = a[1].gcd(b[1])
            if not g.is_ground:
                da, db = a[1].exquo(g), b[1].exquo(g)
                return self.norm((self.red(a[0] * db) + self.red(b[0] * da), self.red(a[1] * db)))
        return self.norm((self.red(a[0] * b[1]) + self.red(b[0] * a[1]), self.red(a[1] * b[1])))


_OPS = {
    z3.Z3_OP_ADD,
    z3.Z3_OP_SUB,
    z3.Z3_OP_MUL,
    z3.Z3_OP_DIV,
    z3.Z3_OP_UMINUS,
    z3.Z3_OP_POWER,
    z3.Z3_OP_TO_REAL,
}


def _conjuncts(f):
    out, stack = [], [f]
    while stack:
        x = stack.pop()
        if z3.is_and(x):
            stack.extend(x.children())
        else:
            out.append(x)
    return out


def _is_var(t):
    return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED


def _relations(pc):
    subst, squares = [], []
    for f in pc:
        for c in _conjuncts(f):
            if not z3.is_eq(c) or not z3.is_arith(c.arg(0)):
                continue
            for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if z3.is_mul(a) and a.num_args() == 2 and a.arg(0).eq(a.arg(1)) and _is_var(a.arg(0)):
                    squares.append((a.arg(0), b))
                    break
                if (
                    z3.is_add(a)
                    and a.num_args() == 2
                    and all(
                        z3.is_mul(x) and x.num_args() == 2 and x.arg(0).eq(x.arg(1)) and _is_var(x.arg(0))
                        for x in a.children()
                    )
                    and (z3.is_rational_value(b))
                ):
                    s, co = a.arg(0).arg(0), a.arg(1).arg(0)
                    squares.append((s, b - co * co))
                    break
                if _is_var(a) and not _occurs(a, b):
                    subst.append((a, b))
                    break
    return subst, squares


def _occurs(v, t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        stack.extend(x.children())
    return False


def prove_eq(pc, a, b):
    subst, squares = _relations(pc)
    diff = a - b
    for v, e in subst[:20]:
        diff = z3.substitute(diff, (v, e))
    conv = _Conv()
    conv.collect(diff)
    # pull in the relations whose variable occurs (transitively)
    rules = []
    pending = list(squares)
    changed = True
    while changed:
        changed = False
        for sq in list(pending):
            if sq[0].get_id() in conv.atoms:
                e = sq[1]
                for v, ee in subst[:20]:
                    e = z3.substitute(e, (v, ee))
                conv.collect(e)
                rules.append((sq[0], e))
                pending.remove(sq)
                changed = True
    if len(conv.order) > 60:
        raise RingUnsupported("too many atoms")
    conv.build()
    num, den = conv.conv(diff)
    if num == 0:
        return True
    # reduce modulo v^2 = n/d, latest definitions first
    for _ in range(3):
        for v, e in reversed(rules):
            i = conv.atoms[v.get_id()]
            n, d = conv.conv(e)
            num = _reduce_square(conv.R, num, i, n, d)
            if num == 0:
                return True
    return False


def _reduce_square(R, p, i, n, d):
    """p modulo  g_i^2 = n/d  (multiplied by a power of d)"""
    maxk = 0
    parts = {}
    for mono, coeff in p.items():
        k = mono[i] // 2
        maxk = max(maxk, k)
        m = list(mono)
        m[i] = mono[i] % 2
        parts.setdefault(k, {})[tuple(m)] = coeff
    if maxk == 0:
        return p
    res = R.zero
    npow, dpow = [R.one], [R.one]
    for k in range(maxk):
        npow.append(npow[-1] * n)
        dpow.append(dpow[-1] * d)
    for k, dct in parts.items():
        q = R.from_dict(dct)
        res = res + q * npow[k] * dpow[maxk - k]
        if len(res) > 50000:
            raise RingUnsupported("too large")
    return res


def prove_goal(pc, goal):
    for g in _conjuncts(goal):
        if z3.is_true(g):
            continue
        if not z3.is_eq(g) or not z3.is_arith(g.arg(0)):
            return False
        if not prove_eq(pc, g.arg(0), g.arg(1)):
            return False
    return True
