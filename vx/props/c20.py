"""C20: the finite-difference operators of the stiff test problems (stiff_pdes) are those of the whole domain, however many
processes share it, and the Jacobian products are the derivatives of the right-hand sides."""

import os
import tempfile
import threading
import types

import numpy as np

from .. import alg, fakempi, sims
from ..core import *
from ..core import Unsupported, int_term, z3
from ..load import imp, inject, need

NS = types.SimpleNamespace
KINDS = ("Dirichlet", "Neumann", "periodic")


# -------------------------------------------------------------------------------------------------------------- oracle
def ghost(U, i, j, kind):
    """Value at a point of the whole domain or one step outside of it."""
    n = len(U)
    if 0 <= i < n and 0 <= j < n:
        return U[j][i]
    if kind == "periodic":
        return U[j % n][i % n]
    if kind == "Dirichlet":
        return 0
    # homogeneous Neumann, second-order one-sided difference: 3 g - 4 a + b = 0
    ii, jj = min(max(i, 0), n - 1), min(max(j, 0), n - 1)
    a, b = U[jj][ii], U[2 * jj - j][2 * ii - i]
    return (4 * a - b) / 3


def stencil(U, kind, what, h):
    n = len(U)
    out = np.empty((n, n), dtype=object)
    g = lambda i, j: ghost(U, i, j, kind)
    for j in range(n):
        for i in range(n):
            if what == "laplacian":
                out[j, i] = (g(i - 1, j) + g(i + 1, j) + g(i, j - 1) + g(i, j + 1) - 4 * g(i, j)) / (h * h)
            else:
                out[j, i] = (g(i + 1, j) - g(i - 1, j) + g(i, j + 1) - g(i, j - 1)) / (2 * h)
    return out


def operators():
    """name, boundary condition, arguments from (v, u, c), result from the stencils of the whole domain"""
    return (
        ("laplacianDirichlet", "Dirichlet", lambda v, u, c, w: (v, c, w), lambda v, u, c, S: c * S("laplacian", v)),
        ("laplacianNeumann", "Neumann", lambda v, u, c, w: (v, c, w), lambda v, u, c, S: c * S("laplacian", v)),
        ("laplacianPeriodic", "periodic", lambda v, u, c, w: (v, c, w), lambda v, u, c, S: c * S("laplacian", v)),
        ("laplacianUsquared", "periodic", lambda v, u, c, w: (v, w), lambda v, u, c, S: S("laplacian", v * v)),
        ("nonLinLapPeriodic", "periodic", lambda v, u, c, w: (v, u, c, w), lambda v, u, c, S: 2 * c * S("laplacian", u * v)),
        ("advectionDirichlet", "Dirichlet", lambda v, u, c, w: (v, c, w), lambda v, u, c, S: c * S("gradient", v)),
        ("advectionNeumann", "Neumann", lambda v, u, c, w: (v, c, w), lambda v, u, c, S: c * S("gradient", v)),
        ("advectionPeriodic", "periodic", lambda v, u, c, w: (v, c, w), lambda v, u, c, S: c * S("gradient", v)),
        ("advectionUsquaredDir", "Dirichlet", lambda v, u, c, w: (v, w), lambda v, u, c, S: S("gradient", v * v) / 2),
        ("advectionUsquared", "periodic", lambda v, u, c, w: (v, w), lambda v, u, c, S: S("gradient", v * v) / 2),
        ("nonLinAdvecDirichlet", "Dirichlet", lambda v, u, c, w: (v, u, c, w), lambda v, u, c, S: c * S("gradient", u * v)),
        ("nonLinAdvecPeriodic", "periodic", lambda v, u, c, w: (v, u, c, w), lambda v, u, c, S: c * S("gradient", u * v)),
    )


def problems():
    """right-hand side, Jacobian product, boundary condition, arguments of the right-hand side, published right-hand side"""
    return (
        ("allencahn_rhs", "allencahn_jtv", "Neumann", lambda u, e, a, g, w: (u, e, w), lambda u, e, a, g, S: e * S("laplacian", u) + u - u * u * u),
        (
            "adr_rhs", "adr_jtv", "Neumann", lambda u, e, a, g, w: (u, e, a, g, w),
            lambda u, e, a, g, S: e * S("laplacian", u) - a * S("gradient", u) + g * u * (u - 0.5) * (1 - u),
        ),
        ("porous_rhs", "porous_jtv", "periodic", lambda u, e, a, g, w: (u, a, w), lambda u, e, a, g, S: S("laplacian", u * u) + a * S("gradient", u)),
        ("burgers_rhs", "burgers_jtv", "Dirichlet", lambda u, e, a, g, w: (u, e, a, w), lambda u, e, a, g, S: e * S("laplacian", u) - a * S("gradient", u * u) / 2),
    )


def block(U, p, m, rank):
    y, x = divmod(rank, p)
    return np.array(U, dtype=object)[y * m : (y + 1) * m, x * m : (x + 1) * m].reshape(-1).copy()


def world(comm, kind, p, m, h=None):
    n = p * m
    w = need(imp("stiff_pdes.initWorld"), "InitWorld")(comm, kind, [0.0, 1.0], n + (1 if kind == "periodic" else 2))
    if h is not None:
        w.dx = h
    return w


def spread(p, fn):
    return fakempi.values(p * p, fn, timeout=120)


def whole(parts, p, m):
    out = np.empty((p * m, p * m), dtype=object)
    for r, b in enumerate(parts):
        b = np.asarray(b, dtype=object)
        if b.size != m * m:
            raise Unsupported(f"result of size {b.size}")
        y, x = divmod(r, p)
        out[y * m : (y + 1) * m, x * m : (x + 1) * m] = b.reshape(m, m)
    return out


# ------------------------------------------------------------------------------------------------------------ symbolic
def stencils(R, p, m):
    for name, kind, args, want in operators():
        unit = f"{name}, {p * p} process{'es' * (p > 1)} of {m}x{m} points"

        def go(name=name, kind=kind, args=args, want=want, unit=unit):
            J = imp("stiff_pdes.JTV")
            f = need(J, name)
            n = p * m
            V, U, c, h = alg.array("v", (n, n)), alg.array("u", (n, n)), alg.atom("c"), alg.atom("h", pos=True)
            with inject(J, np=alg.AXP()):
                got = spread(p, lambda r, comm: f(*args(block(V, p, m, r), block(U, p, m, r), c, world(comm, kind, p, m, h))))
            alg.equal(R, unit, "the operator of the whole domain", whole(got, p, m), want(V, U, c, lambda what, X: stencil(X, kind, what, h)))

        alg.unit(R, unit, go, budget_s=60)


def derivatives(R, p, m):
    for rhs, jtv, kind, args, want in problems():
        unit = f"{rhs} and {jtv}, {p * p} process{'es' * (p > 1)} of {m}x{m} points"

        def go(rhs=rhs, jtv=jtv, kind=kind, args=args, want=want, unit=unit):
            J, P = imp("stiff_pdes.JTV"), imp("stiff_pdes.rhs_jac_pdefuncs")
            f, d = need(P, rhs), need(P, jtv)
            n = p * m
            U, V = alg.array("u", (n, n)), alg.array("v", (n, n))
            e, a, g, dt, h = (alg.atom(x) for x in ("epsilon", "alpha", "gamma", "dt", "h"))
            with inject(J, np=alg.AXP()), inject(P, np=alg.AXP()):
                r0 = spread(p, lambda r, c: f(*args(block(U, p, m, r), e, a, g, world(c, kind, p, m, h))))
                jv = spread(p, lambda r, c: d(block(V, p, m, r), block(U, p, m, r), dt, e, a, g, world(c, kind, p, m, h)))
            S = lambda what, X: stencil(X, kind, what, h)
            alg.equal(R, unit, "the right-hand side of the equation", whole(r0, p, m), want(U, e, a, g, S))
            D = want(alg.duals(U, V), e, a, g, S)
            der = np.empty((n, n), dtype=object)
            for i in np.ndindex(n, n):
                der[i] = alg.parts(D[i])[1] * dt
            alg.equal(R, unit, "the Jacobian product is the derivative of the right-hand side", whole(jv, p, m), der)

        alg.unit(R, unit, go, budget_s=90)


# ------------------------------------------------------------------------------------- any number of points and processes
class Point:
    """One process (px, py) of p x p with m x m points, and one point (i, j) of it; the values around that point."""

    SIDES = {"left": (-1, 0), "right": (1, 0), "bottom": (0, -1), "top": (0, 1)}

    def __init__(self, c, kind):
        self.c, self.kind = c, kind
        self.m, self.p, self.px, self.py, self.size = (integer(x) for x in ("m", "p", "px", "py", "size"))
        self.i, self.j = integer("i"), integer("j")
        for v, top in ((self.px, self.p), (self.py, self.p), (self.i, self.m), (self.j, self.m)):
            c.assume(AND(v >= 0, v < top))
        c.assume(AND(self.m >= 2, self.p >= 1))
        # size = p * p, by the two facts used of it
        c.assume(AND(IMP(self.p > 1, self.size > 3), IMP(self.p <= 1, EQ(self.size, 1))))
        self.h = real("h")
        c.assume(self.h > 0)
        self.n = 0

    def values(self, name):
        return {o: real(f"{name}{o}") for o in [(0, 0)] + list(self.SIDES.values())}

    def free(self):
        self.n += 1
        return real(f"other{self.n}")

    def here(self, side):
        """The neighbour on this side belongs to the domain."""
        d = self.SIDES[side]
        if self.kind == "periodic":
            return True
        return bool({"left": OR(self.px > 0, self.i > 0), "right": OR(self.px < self.p - 1, self.i < self.m - 1), "bottom": OR(self.py > 0, self.j > 0), "top": OR(self.py < self.p - 1, self.j < self.m - 1)}[side])

    def ghost(self, X, side):
        d = self.SIDES[side]
        if self.here(side):
            return X[d]
        if self.kind == "Dirichlet":
            return 0
        return (4 * X[0, 0] - X[-d[0], -d[1]]) / 3

    def stencil(self, what, X):
        g = {s: self.ghost(X, s) for s in self.SIDES}
        if what == "laplacian":
            return (g["left"] + g["right"] + g["bottom"] + g["top"] - 4 * X[0, 0]) / (self.h * self.h)
        return (g["right"] - g["left"] + g["top"] - g["bottom"]) / (2 * self.h)

    def same(self, a, b):
        d = z3.simplify(int_term(a) - int_term(b), som=True)
        return (z3.is_int_value(d) and d.as_long() == 0) or self.c.entails(EQ(a, b))


class Vec:
    """The field of the process: reads next to the point are known, any other read is some number."""

    def __init__(self, pt, X):
        self.pt, self.X = pt, X

    def __getitem__(self, k):
        t = self.pt
        if int_term(k) is None:
            raise Unsupported("index of a field")
        for d, v in self.X.items():
            i, j = t.i + d[0], t.j + d[1]
            if t.same(k, j * t.m + i) and t.c.entails(AND(i >= 0, i < t.m, j >= 0, j < t.m)):
                return v
        return t.free()


class Line:
    """What came from a neighbouring process (zeros before)."""

    def __init__(self, pt):
        self.pt, self.got = pt, None

    def __getitem__(self, k):
        t = self.pt
        if self.got is None:
            return 0
        side, X, ok = self.got
        at, edge = {"left": (t.j, EQ(t.i, 0)), "right": (t.j, EQ(t.i, t.m - 1)), "bottom": (t.i, EQ(t.j, 0)), "top": (t.i, EQ(t.j, t.m - 1))}[side]
        if not ok():
            return 0  # left as it was
        if t.same(k, at) and t.c.entails(edge):
            return X[t.SIDES[side]]
        return t.free()


class Result:
    def __init__(self):
        self.w = []

    def __setitem__(self, k, v):
        self.w.append((k, v))


def anywhere(R):
    for name, kind, args, want in operators():
        unit = f"{name}, any number of points and processes"

        def go(c, name=name, kind=kind, args=args, want=want):
            J = imp("stiff_pdes.JTV")
            f = need(J, name)
            need(J, "getNeighData")
            t = Point(c, kind)
            V, U, co = t.values("v"), t.values("u"), real("c")
            out = Result()
            w = NS(numPointsX=t.m, numPointsY=t.m, procXID=t.px, procYID=t.py, procs_per_xaxis=t.p, procs_per_yaxis=t.p, size=t.size, dx=t.h)

            class Np:
                def zeros(self, n, *a, **k):
                    if not t.same(n, t.m):
                        raise Unsupported("size of a line")
                    return Line(t)

                def zeros_like(self, v):
                    return out

            depth = [0]

            def rng(*a):
                lo, hi = (0, a[0]) if len(a) == 1 else a
                if lo != 0 or not t.same(hi, t.m) or depth[0] > 1:
                    raise Unsupported("loop")
                depth[0] += 1
                yield (t.j, t.i)[depth[0] - 1]
                depth[0] -= 1

            def near(vec, world, top, bottom, left, right):
                """Contract of getNeighData: lines next to other processes of the domain are theirs, the others stay."""
                for side, line in (("top", top), ("bottom", bottom), ("left", left), ("right", right)):
                    has = {"left": t.px > 0, "right": t.px < t.p - 1, "bottom": t.py > 0, "top": t.py < t.p - 1}[side]
                    line.got = (side, vec.X, lambda has=has: bool(has))
                return top, bottom, left, right

            def around(vec, world, top, bottom, left, right):
                """Contract of getExtraPeriodicData: the lines at the ends of the domain as well."""
                for side, line in (("top", top), ("bottom", bottom), ("left", left), ("right", right)):
                    was = line.got
                    has = {"left": EQ(t.px, 0), "right": EQ(t.px, t.p - 1), "bottom": EQ(t.py, 0), "top": EQ(t.py, t.p - 1)}[side]
                    line.got = (side, vec.X, lambda has=has, was=was: bool(has) or (was is not None and was[1] is vec.X and was[2]()))
                return top, bottom, left, right

            with simple_floats(), inject(J, np=Np(), range=rng, getNeighData=near, getExtraPeriodicData=around):
                res = f(*args(Vec(t, V), Vec(t, U), co, w))
            if res is not out:
                raise Unsupported("result")
            if len(out.w) != 1 or not t.same(out.w[0][0], t.j * t.m + t.i):
                raise Unsupported("writes")
            S = lambda what, X: t.stencil(what, X)
            A, B = Values(V), Values(U)
            c.prove("the operator of the whole domain", EQ(out.w[0][1], want(A, B, co, S)))

        R.symbolic(unit, go, budget_s=60)


class Values(dict):
    """The values around the point; products point by point."""

    def __mul__(self, o):
        return Values({k: v * o[k] for k, v in self.items()})


# ------------------------------------------------------------------------------------------------------------ concrete
class rendezvous:
    """A Send that returns only when the message has been received (MPI allows it)."""

    def __enter__(self):
        self.old = fakempi.Comm._send

        def send(comm, data, dest, tag):
            w = comm._w
            with w.cv:
                q = w.slots.setdefault(("p", comm._gid, comm._rank, dest, tag), [])
                q.append(data)
                w.cv.notify_all()
                w.wait_for(lambda: not any(x is data for x in q), "send")

        fakempi.Comm._send = send

    def __exit__(self, *a):
        fakempi.Comm._send = self.old


def real_runs(R):
    def go(ck):
        J, P = imp("stiff_pdes.JTV"), imp("stiff_pdes.rhs_jac_pdefuncs")
        for p, m in ((1, 2), (1, 5), (2, 2), (2, 4), (3, 3), (4, 2)):
            n = p * m
            rng = np.random.default_rng(R.seed + 10 * p + m)
            U, V = rng.standard_normal((n, n)), rng.standard_normal((n, n))
            sl = lambda X, r: block(X, p, m, r).astype(float)
            keep = U.copy(), V.copy()

            def run(fn):
                """Whatever a process does, on both kinds of sends."""
                for sync in (False, True):
                    if sync:
                        with rendezvous():
                            res, _ = fakempi.run_world(p * p, fn, 120)
                    else:
                        res, _ = fakempi.run_world(p * p, fn, 120)
                    for v, e in res:
                        if e is not None:
                            return None, f"{type(e).__name__}: {e}"
                return whole([v for v, _ in res], p, m).astype(float), None

            for name, kind, args, want in operators():
                ck.case(operator=name, processes=p * p, points=m)
                h = 1.0 / (n if kind == "periodic" else n + 1)
                got, err = run(lambda r, c: need(J, name)(*args(sl(V, r), sl(U, r), 0.7, world(c, kind, p, m))))
                w = want(V, U, 0.7, lambda what, X: stencil(X, kind, what, h)).astype(float)
                ck.check("the operator of the whole domain", err is None and np.allclose(got, w, rtol=1e-10, atol=1e-9), err or got.tolist())
            for rhs, jtv, kind, args, want in problems():
                ck.case(problem=rhs, processes=p * p, points=m)
                h = 1.0 / (n if kind == "periodic" else n + 1)
                S = lambda what, X: stencil(X, kind, what, h)
                got, err = run(lambda r, c: need(P, rhs)(*args(sl(U, r), 0.3, 0.8, 1.7, world(c, kind, p, m))))
                ck.check("the right-hand side of the equation", err is None and np.allclose(got, want(U, 0.3, 0.8, 1.7, S).astype(float), rtol=1e-10, atol=1e-9), err)
                t = 1e-4
                der = (want(U + t * V, 0.3, 0.8, 1.7, S) - want(U - t * V, 0.3, 0.8, 1.7, S)).astype(float) / (2 * t)
                got, err = run(lambda r, c: need(P, jtv)(sl(V, r), sl(U, r), 0.25, 0.3, 0.8, 1.7, world(c, kind, p, m)))
                ck.check("the Jacobian product is the derivative of the right-hand side", err is None and np.allclose(got, 0.25 * der, rtol=1e-5, atol=1e-5), err)
            ck.check("the fields are left as they were", np.array_equal(keep[0], U) and np.array_equal(keep[1], V))

    R.concrete("stiff problems on real arrays", go, bound="1-16 processes, random fields, sends that wait and sends that do not")


def domain(R):
    def go(ck):
        I = need(imp("stiff_pdes.initWorld"), "InitWorld")
        for p in (1, 2, 3, 4, 5):
            for kind in KINDS:
                for m, lo, hi in ((2, 0.0, 1.0), (3, -1.0, 2.5)):
                    ck.case(processes=p * p, boundary=kind, points=m, domain=(lo, hi))
                    n = p * m
                    ws = fakempi.values(p * p, lambda r, c: I(c, kind, [lo, hi], n + (1 if kind == "periodic" else 2)))
                    h = (hi - lo) / (n if kind == "periodic" else n + 1)
                    for r, w in enumerate(ws):
                        y, x = divmod(r, p)
                        per = kind == "periodic"
                        at = lambda a, b: (b % p) * p + a % p if per or (0 <= a < p and 0 <= b < p) else None
                        ck.check("neighbours", (w.LeftNeighRank, w.RightNeighRank, w.BottomNeighRank, w.TopNeighRank) == (at(x - 1, y), at(x + 1, y), at(x, y - 1), at(x, y + 1)), (r, w.LeftNeighRank, w.RightNeighRank, w.BottomNeighRank, w.TopNeighRank))
                        ck.check("position", (w.rank, w.size, w.procXID, w.procYID, w.procs_per_xaxis, w.procs_per_yaxis) == (r, p * p, x, y, p, p))
                        ck.check("points", (w.numPointsX, w.numPointsY, w.oneDsize, w.totalPoints, w.numPointsPerAxis) == (m, m, m * m, n * n, n))
                        ck.check("root", bool(w.IamRoot) == (r == 0))
                        off = 0 if per else h
                        ck.check("coordinates", np.allclose([w.dx, w.startX, w.startY], [h, lo + x * m * h + off, lo + y * m * h + off], rtol=1e-13, atol=1e-13))
        for size in (2, 3, 5, 8):
            ck.case(processes=size)
            with sims.quiet():
                res, _ = fakempi.run_world(size, lambda r, c: I(c, "periodic", [0.0, 1.0], 13))
            ck.check("a number of processes that is not a square is refused", all(e is not None for _, e in res))

    R.concrete("distribution of the domain", go, bound="1-25 processes, three boundary conditions")

    def out(ck):
        f = need(imp("stiff_pdes.print_stuff"), "print_sol")
        for p, m in ((1, 3), (2, 2), (3, 2), (2, 4)):
            ck.case(processes=p * p, points=m)
            n = p * m
            U = np.arange(1.0, n * n + 1).reshape(n, n)
            w = fakempi.values(p * p, lambda r, c: world(c, "periodic", p, m))[0]
            with tempfile.TemporaryDirectory() as d:
                path = os.path.join(d, "sol.txt")
                got = f([block(U, p, m, r).astype(float) for r in range(p * p)], path, w)
                text = [float(x) for x in open(path).read().split()]
            ck.check("the gathered solution in the order of the whole domain", np.array_equal(np.ravel(got), U.ravel()) and text == U.ravel().tolist(), np.ravel(got).tolist())

    R.concrete("gathered solution", out, bound="four distributions")


def run(R):
    R.under_contract(
        "InitWorld.__init__", "sendData", "recieveData", "sendPerData", "recievePerData", "getNeighData", "getExtraPeriodicData",
        *[o[0] for o in operators()], *[q[0] for q in problems()], *[q[1] for q in problems()], "print_sol",
    )
    R.assume(
        "machine arithmetic is treated as exact (the same operators run in doubles)",
        "mpi4py delivers messages between a pair of processes with the same tag in the order sent",
        "at least two points per process and direction, the same on every process (the operators are written for that)",
    )
    for p, m in ((1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (4, 2)) + (((3, 4), (4, 4), (5, 3)) if R.thorough else ()):
        stencils(R, p, m)
    for p, m in ((1, 2), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3)) + (((3, 4), (4, 4)) if R.thorough else ()):
        derivatives(R, p, m)
    anywhere(R)
    real_runs(R)
    domain(R)
