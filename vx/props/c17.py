"""C17: the element operators (derivatives, extrapolation to the faces, corrections, filters, quadrature, interpolation)
are exact on the polynomials they are built for, and act on the point they are meant for."""

import itertools
import math
import types

import numpy as np
import sympy

from .. import sims
from ..core import *
from ..core import HarnessGap, Unsupported
from ..frac import F, Field, FXP
from ..load import device, imp, inject, need

NS = types.SimpleNamespace


# -------------------------------------------------------------------------------------------------------------- oracle
def points(k, n):
    """A symmetric set of n points with free positions (the Gauss-Legendre points are one choice)."""
    h = k.gens[: n // 2]
    return [-x for x in h] + ([k.lift(0)] if n % 2 else []) + list(reversed(h))


def cardinal(pts, m, x):
    """Lagrange polynomial m at x, and its derivative there."""
    v = d = None
    v = 1
    for q, p in enumerate(pts):
        if q != m:
            v = v * (x - p) / (pts[m] - p)
    d = 0
    for r in range(len(pts)):
        if r == m:
            continue
        t = 1
        for q, p in enumerate(pts):
            if q not in (m, r):
                t = t * (x - p) / (pts[m] - p)
        d = d + t / (pts[m] - pts[r])
    return v, d


class Oracle:
    def __init__(self, k, n):
        self.k, self.n = k, n
        self.x = points(k, n)
        self.ext = [k.lift(-1)] + self.x + [k.lift(1)]
        # derivative at point i of the extended polynomial with value 1 at extended point m
        self.d = [[cardinal(self.ext, m, self.x[i])[1] for m in range(n + 2)] for i in range(n)]
        self.dfull = [[cardinal(self.ext, m, p)[1] for m in range(n + 2)] for p in self.ext]
        self.dint = [[cardinal(self.x, m, self.x[i])[1] for m in range(n)] for i in range(n)]
        self.neg = [k.lift(cardinal(self.x, m, k.lift(-1))[0]) for m in range(n)]
        self.pos = [k.lift(cardinal(self.x, m, k.lift(1))[0]) for m in range(n)]

    def legendre(self, deg, x):
        a, b = self.k.lift(1), x
        if deg == 0:
            return a
        for i in range(1, deg):
            a, b = b, ((2 * i + 1) * x * b - i * a) / (i + 1)
        return b


def grid(cls, k, o, n, xp):
    g = object.__new__(cls)
    arr = k.array
    g.device = device(xp=xp)
    g.num_solpts = n
    g.solutionPoints = arr(o.x)
    g.solutionPoints_sym = [p.expr() for p in o.x]
    g.extension = arr(o.ext)
    g.extension_sym = [p.expr() for p in o.ext]
    g.glweights = arr([k.lift(1) for _ in range(n)])
    return g


def config(**kw):
    d = dict(filter_apply=False, filter_order=0, filter_cutoff=0.0, expfilter_apply=False, expfilter_order=0, expfilter_strength=0.0, expfilter_cutoff=0.0, apply_sponge=False, sponge_tscale=1.0, sponge_zscale=0.0)
    d.update(kw)
    return NS(**d)


class building:
    """numpy and xp inside geometry.operators work on exact scalars."""

    def __init__(self, k):
        self.xp = FXP(k)
        free = {sympy.Symbol(n) for n in k.names}

        class Sympy:
            """The free positions count as numbers: differentiation is with respect to what else there is."""

            def __getattr__(self, n):
                return getattr(sympy, n)

            def diff(self, e, *v, **kw):
                if not v:
                    e = sympy.sympify(e)
                    s = e.free_symbols - free
                    if len(s) > 1:
                        raise ValueError("more than one variable")
                    v = tuple(s) or (sympy.Symbol("x"),)
                return sympy.diff(e, *v, **kw)

        self.new = {"numpy": self.xp, "sympy": Sympy()}

    def __enter__(self):
        self.m = imp("geometry.operators")
        self.saved = {n: getattr(self.m, n) for n in self.new if hasattr(self.m, n)}
        for n in self.saved:
            setattr(self.m, n, self.new[n])
        return self.xp

    def __exit__(self, *a):
        for n, v in self.saved.items():
            setattr(self.m, n, v)


class Put:
    """Collects equalities and reports one obligation per label."""

    def __init__(self, R, unit, k):
        self.R, self.unit, self.k, self.bad, self.n = R, unit, k, {}, {}

    def __call__(self, label, got, want, where=None):
        self.n[label] = self.n.get(label, 0) + 1
        g, w = self.k.lift(got), self.k.lift(want)
        if not g == w:
            self.bad.setdefault(label, {"at": where, "got": str(g)[:200], "want": str(w)[:200]})

    def matrix(self, label, got, want, shape):
        got = np.asarray(got, dtype=object)
        if got.shape != tuple(shape):
            self.n[label] = self.n.get(label, 0) + 1
            self.bad.setdefault(label, {"shape": got.shape, "expected shape": tuple(shape)})
            return
        for i in np.ndindex(*shape):
            self(label, got[i], want(*i), i)

    def done(self):
        for label in self.n:
            b = self.bad.get(label)
            self.R.direct(self.unit, label, b is None, "rational functions", b)


def order(R, n, dim):
    name = f"{dim}D operators, {n} point{'s' * (n > 1)} at any symmetric positions"

    def go(c):
        k = Field(*[f"a{i}" for i in range(n // 2)])
        o = Oracle(k, n)
        with building(k) as xp:
            cls = need(imp("geometry"), "CubedSphere3D" if dim == 3 else "CubedSphere2D")
            op = need(imp("geometry"), "DFROperators")(grid(cls, k, o, n, xp), config(), device(xp=xp))
        put = Put(R, name, k)
        one = lambda a, b: 1 if a == b else 0
        put.matrix("derivative of the extended polynomial, at all its points", op.diff_ext, lambda i, m: o.dfull[i][m], (n + 2, n + 2))
        put.matrix("derivative, part of the interior values", op.diff_solpt, lambda i, m: o.d[i][m + 1], (n, n))
        put.matrix("derivative, part of the interior values, transposed", op.diff_solpt_tr, lambda m, i: o.d[i][m + 1], (n, n))
        put.matrix("derivative, part of the face values", op.correction, lambda i, s: o.d[i][(n + 1) * s], (n, 2))
        put.matrix("derivative, part of the face values, transposed", op.correction_tr, lambda s, i: o.d[i][(n + 1) * s], (2, n))
        put.matrix("derivative of the interior polynomial", op.diff, lambda i, m: o.dint[i][m], (n, n))
        put.matrix("derivative of the interior polynomial, transposed", op.diff_tr, lambda m, i: o.dint[i][m], (n, n))
        for s in ("west", "south", "down"):
            put.matrix(f"value at the {s} face", getattr(op, "extrap_" + s), lambda m: o.neg[m], (n,))
        for s in ("east", "north", "up"):
            put.matrix(f"value at the {s} face", getattr(op, "extrap_" + s), lambda m: o.pos[m], (n,))
        face = (o.neg, o.pos)
        # filter of the highest mode: keeps polynomials of lower degree, removes the Legendre polynomial of the top one
        H = np.asarray(op.highfilter, dtype=object)
        for deg in range(n):
            v = [o.legendre(deg, x) for x in o.x]
            for i in range(n):
                put("filter of the highest mode", sum((H[i, m] * v[m] for m in range(n)), k.lift(0)), v[i] if deg < n - 1 else 0, (deg, i))
        P = n**dim
        loc = list(itertools.product(range(n), repeat=dim))
        if dim == 3:
            put.matrix("filter of the highest mode, along the vertical", op.highfilter_k, lambda a, b: H[loc[b][0], loc[a][0]] * one(loc[a][1:], loc[b][1:]), (P, P))
        axes = {"x": dim - 1, "y": dim - 2, "z": 0}
        fl = list(itertools.product(range(n), repeat=dim - 1))
        q = len(fl)
        drop = lambda t, ax: t[:ax] + t[ax + 1 :]
        for nm, ax in axes.items():
            put.matrix(
                f"derivative along {nm} of every line of points",
                getattr(op, "derivative_" + nm),
                lambda a, b: o.d[loc[b][ax]][loc[a][ax] + 1] * one(drop(loc[a], ax), drop(loc[b], ax)),
                (P, P),
            )
            put.matrix(
                f"values at the two faces along {nm}",
                getattr(op, "extrap_" + nm),
                lambda a, b: face[b // q][loc[a][ax]] * one(drop(loc[a], ax), fl[b % q]),
                (P, 2 * q),
            )
            put.matrix(
                f"correction from the two faces along {nm}",
                getattr(op, {"x": "correction_WE", "y": "correction_SN", "z": "correction_DU"}[nm]),
                lambda a, b: o.d[loc[b][ax]][(n + 1) * (a // q)] * one(drop(loc[b], ax), fl[a % q]),
                (2 * q, P),
            )
        put.done()

    R.symbolic(name, go)


def spectral(R, n):
    """The exponential filter: modes up to the cutoff are kept, the others damped by the stated factor."""
    name = f"exponential filter, {n} points"

    def go(c):
        cls = need(imp("geometry"), "DFROperators")
        for strength, order_, cutoff in ((0.5, 2, 0.25), (36.0, 8, 0.0), (2.0, 4, 0.5)):
            k = Field(*[f"a{i}" for i in range(n // 2)], *[f"s{i}" for i in range(n)])
            k.spare = list(k.gens[n // 2 :])
            o = Oracle(k, n)
            with building(k) as xp:
                g = grid(need(imp("geometry"), "CubedSphere3D"), k, o, n, xp)
                E = np.asarray(object.__new__(cls).make_filter(strength, order_, cutoff, g), dtype=object)
                put = Put(R, name, k)
                for deg in range(n):
                    m = deg / (n - 1)
                    s = k.lift(1) if m <= cutoff else xp.exp(-strength * ((m - cutoff) / (1 - cutoff)) ** order_)
                    v = [o.legendre(deg, x) for x in o.x]
                    for i in range(n):
                        put(
                            f"strength {strength}, order {order_}, cutoff {cutoff}: every mode is scaled by its own factor",
                            sum((E[i, j] * v[j] for j in range(n)), k.lift(0)), s * v[i], (deg, i),
                        )
                put.done()

    R.symbolic(name, go, budget_s=100)

    def three(c):
        pos = n // 2
        k = Field(*[f"a{i}" for i in range(pos)], *[f"e{i}{j}" for i in range(n) for j in range(n)])
        o = Oracle(k, n)
        E = k.array(np.array(k.gens[pos:], dtype=object).reshape(n, n))
        cls = need(imp("geometry"), "DFROperators")
        need(cls, "make_filter")

        class Stub(cls):
            def make_filter(self, *a, **kw):
                return E.copy()

        with building(k) as xp:
            g = grid(need(imp("geometry"), "CubedSphere3D"), k, o, n, xp)
            op = Stub(g, config(expfilter_apply=True, expfilter_strength=1.0, expfilter_order=2, expfilter_cutoff=0.0), device(xp=xp))
        put = Put(R, name + ", three directions", k)
        loc = list(itertools.product(range(n), repeat=3))
        put.matrix(
            "any one-dimensional filter is applied along each direction",
            op.expfilter_new,
            lambda a, b: E[loc[b][0], loc[a][0]] * E[loc[b][1], loc[a][1]] * E[loc[b][2], loc[a][2]],
            (n**3, n**3),
        )
        put.done()

    R.symbolic(name + ", three directions", three, budget_s=100)


def application(R):
    def go(c):
        op = object.__new__(need(imp("geometry"), "DFROperators"))
        n = 2
        P = n**3
        E = real_array("E", (P, P))
        op.expfilter_new, op.expfilter_apply, op.apply_sponge = E, True, False
        Q, g, ig = real_array("Q", (2, 1, 2, 1, P)), real_array("g", (1, 2, 1, P)), real_array("ig", (1, 2, 1, P))
        keep = Q.copy()
        out = op.apply_filters(Q, None, NS(sqrtG_new=g, inv_sqrtG_new=ig), real("dt"))
        for i in np.ndindex(*Q.shape):
            e = i[1:-1]
            want = 0
            for m in range(P):
                want = want + E[m, i[-1]] * g[e + (m,)] * keep[i[:-1] + (m,)]
            c.prove(f"the weighted field is filtered {i}", EQ(np.asarray(out)[i], want * ig[i[1:]]), backends=("ring", "points"))
        # The vertical relaxation comes after the filter, with the time step of each call
        w = imp("common.definitions").idx_2d_rho_w
        beta = real_array("beta", (1, 2, 1, P))
        op.apply_sponge, op.beta = True, beta
        nv = w + 1
        for filtered in (True, False):
            op.expfilter_apply = filtered
            for call in (1, 2):
                dt = real(f"dt{call}{filtered}")
                c.assume(dt >= 0)
                for b in beta.ravel():
                    c.assume(b >= 0)
                Q = real_array(f"Q{call}{filtered}", (nv, 1, 2, 1, P))
                keep2 = Q.copy()
                out = np.asarray(op.apply_filters(Q, None, NS(sqrtG_new=g, inv_sqrtG_new=ig), dt))
                for i in np.ndindex(*out.shape):
                    want = keep2[i]
                    if filtered:
                        want = 0
                        for m in range(P):
                            want = want + E[m, i[-1]] * g[i[1:-1] + (m,)] * keep2[i[:-1] + (m,)]
                        want = want * ig[i[1:]]
                    left = out[i] * (1 + beta[i[1:]] * dt) if i[0] == w else out[i]
                    c.prove(f"{'filtered, then ' if filtered else ''}relaxed, call {call} {i}", EQ(left, want), backends=("ring", "points"))
        op.apply_sponge = False
        op.expfilter_apply = False
        same = op.apply_filters(keep, None, NS(), real("dt"))
        c.prove("without a filter the state is returned as it is", AND(*[EQ(a, b) for a, b in zip(np.ravel(same), keep.ravel())]))

    R.symbolic("filters applied to a state", go)


def sponge(R):
    def go(ck):
        for over in ({"num_solpts": 3}, {"num_solpts": 2, "num_elements_vertical": 5}, {"num_solpts": 4, "num_elements_horizontal": 1}):
            for ts, zs in ((7.0, 500.0), (0.5, 1200.0), (30.0, 0.0)):
                o = dict(over, apply_sponge=1, sponge_tscale=ts, sponge_zscale=zs)
                ck.case(**o)
                with sims.quiet():
                    sim = sims.simulation("bubble", o)
                rng = np.random.default_rng(R.seed)
                Q = rng.standard_normal(np.shape(sim.Q))
                keep = Q.copy()
                sim.operators.apply_filters(Q.copy(), sim.geometry, sim.metric, 11.0)
                dt = 3.0
                out = np.asarray(sim.operators.apply_filters(Q, sim.geometry, sim.metric, dt))
                z = np.asarray(sim.geometry.X3)
                bottom = sim.config.z1 - zs
                beta = np.zeros_like(z)
                if zs > 0:
                    up = z >= bottom
                    beta[up] = np.sin(0.5 * np.pi * (z[up] - bottom) / zs) ** 2 / ts
                w = imp("common.definitions").idx_2d_rho_w
                want = keep.copy()
                want[w] = keep[w] / (1 + beta * dt)
                ck.check("vertical momentum relaxes in the sponge layer, nothing else changes", out.shape == want.shape and np.allclose(out, want, rtol=1e-13, atol=1e-13))

    R.concrete("sponge layer", go, bound="three grids, three layers")

    def filt(ck):
        for o in (
            {"num_solpts": 2, "expfilter_strength": 0.8, "expfilter_order": 2, "expfilter_cutoff": 0.3},
            {"num_solpts": 3, "expfilter_strength": 1.5, "expfilter_order": 2, "expfilter_cutoff": 0.1},
            {"num_solpts": 4, "expfilter_strength": 3.0, "expfilter_order": 4, "expfilter_cutoff": 0.4},
        ):
            o = dict(o, expfilter_apply=1, case_number=31, num_elements_horizontal=1, num_elements_vertical=2)
            ck.case(**o)
            from .. import fakempi

            def one(rank, comm):
                sim = sims.simulation("euler3d", o, comm=comm)
                rng = np.random.default_rng(R.seed + rank)
                Q = np.asarray(sim.Q) * (1 + 0.1 * rng.standard_normal(np.shape(sim.Q)))
                out = np.asarray(sim.operators.apply_filters(Q.copy(), sim.geometry, sim.metric, 1.0))
                w = np.asarray(sim.geometry.glweights)
                W = np.einsum("k,j,i->kji", w, w, w).ravel() * np.asarray(sim.metric.sqrtG_new)
                a, b = (Q * W).sum(axis=-1), (out * W).sum(axis=-1)
                scale = (np.abs(Q) * W).sum(axis=-1) + 1e-300
                flat = np.ones_like(Q) / np.asarray(sim.metric.sqrtG_new)
                c = np.asarray(sim.operators.apply_filters(flat.copy(), sim.geometry, sim.metric, 1.0))
                # products of Legendre modes: each is scaled by the product of its three factors
                n, err = o["num_solpts"], 0.0
                x = np.asarray(sim.geometry.solutionPoints, dtype=float)
                L = [np.polynomial.legendre.Legendre.basis(d)(x) for d in range(n)]
                cut = o["expfilter_cutoff"]
                S = [1.0 if d / (n - 1) <= cut else np.exp(-o["expfilter_strength"] * ((d / (n - 1) - cut) / (1 - cut)) ** o["expfilter_order"]) for d in range(n)]
                for d in itertools.product(range(n), repeat=3):
                    mode = np.einsum("k,j,i->kji", L[d[0]], L[d[1]], L[d[2]]).ravel()
                    field = np.ones_like(Q) * mode / np.asarray(sim.metric.sqrtG_new)
                    got = np.asarray(sim.operators.apply_filters(field.copy(), sim.geometry, sim.metric, 1.0))
                    err = max(err, float((np.abs(got - field * S[d[0]] * S[d[1]] * S[d[2]]) * np.asarray(sim.metric.sqrtG_new)).max()))
                return float((np.abs(a - b) / scale).max()), float((np.abs(c - flat) / flat).max()), float(np.abs(out - Q).max()), err

            with sims.quiet():
                res = fakempi.values(6, one)
            for r in res:
                ck.check("the filter keeps the total of every element", r[0] < 1e-11, r)
                ck.check("the filter keeps constants of the weighted field", r[1] < 1e-11, r)
                ck.check("the filter acts", r[2] > 1e-6, r)
                ck.check("every mode of the weighted field is scaled by its factor", r[3] < 1e-10, r)

        o = {"num_solpts": 1, "expfilter_strength": 2.0, "expfilter_order": 2, "expfilter_cutoff": 0.0, "expfilter_apply": 1, "case_number": 31, "num_elements_horizontal": 2, "num_elements_vertical": 2}
        ck.case(**o)

        def single(rank, comm):
            sim = sims.simulation("euler3d", o, comm=comm)
            Q = np.asarray(sim.Q).copy()
            return np.array_equal(np.asarray(sim.operators.apply_filters(Q.copy(), sim.geometry, sim.metric, 1.0)), Q)

        with sims.quiet():
            res = fakempi.values(6, single)
        ck.check("with one point per element there is no mode to filter", all(res), res)

    R.concrete("exponential filter on the real grid", filt, bound="three grids, all modes; one point per element")


# ------------------------------------------------------------------------------------------ filter inside the derivative
def inverse(R):
    """Row reduction inverts every regular matrix (zero pivots included) and refuses singular ones."""
    for n in (1, 2, 3):
        name = f"inverse by row reduction, any {n}x{n} matrix"

        def go(c, n=n, name=name):
            inv = need(imp("geometry.operators"), "inv")
            holes = [()] + [((0, 0),)] * (n > 1) + [((0, 0), (1, 0)), ((0, 0), (1, 1)), ((0, 1), (0, 0), (1, 0))] * (n > 2)
            k = Field(*[f"m{i}" for i in range(n * n)])
            put = Put(R, name, k)
            for h in holes:
                A = np.empty((n, n), dtype=object)
                for i in np.ndindex(n, n):
                    A[i] = k.lift(0) if i in h else k.gens[i[0] * n + i[1]]
                keep = A.copy()
                B = np.asarray(inv(A), dtype=object)
                put.matrix("the product with the matrix is the identity", np.asarray(keep @ B, dtype=object), lambda a, b: 1 if a == b else 0, (n, n))
                put.matrix("the matrix is left as it was", A, lambda a, b: keep[a, b], (n, n))
            put.done()

        R.symbolic(name, go, budget_s=60)

    def real(ck):
        inv = need(imp("geometry.operators"), "inv")
        for A in ([[0, 1], [1, 0]], [[0, 2, 1], [0, 0, 3], [4, 1, 1]], [[0, 0, 1], [2, 1, 0], [3, 0, 2]], [[1, 2], [3, 4]], [[0, 1, 0, 0], [0, 0, 0, 2], [3, 0, 1, 0], [1, 0, 1, 1]]):
            ck.case(matrix=A)
            out = np.asarray(inv(np.array(A, dtype=float)), dtype=float)
            ck.check("the product with the matrix is the identity", out.shape == np.shape(A) and np.allclose(np.array(A) @ out, np.eye(len(A)), atol=1e-12), out.tolist())
        for A in ([[1.0, 2.0], [2.0, 4.0]], [[1.0, 2.0, 3.0]]):
            ck.case(matrix=A)
            try:
                inv(np.array(A))
                ck.check("a matrix without an inverse is refused", False)
            except np.linalg.LinAlgError:
                ck.check("a matrix without an inverse is refused", True)

    R.concrete("inverse by row reduction of real matrices", real, bound="seven matrices")


def smoothed(R, n, order_, cut):
    """filter_exponential: for any change of basis, mode i is scaled by exp(-alpha ((i - Nc) / (N - Nc))^s) above the cutoff."""
    name = f"filter of the derivative, {n} modes of any basis, order {order_}, cutoff mode {cut}"

    def go(c):
        fe = need(imp("geometry.operators"), "filter_exponential")
        k = Field(*[f"v{i}" for i in range(n * n)], *[f"s{i}" for i in range(n)])
        k.spare = list(k.gens[n * n :])
        xp = FXP(k)
        V = np.empty((n, n), dtype=object)
        for i in np.ndindex(n, n):
            V[i] = k.gens[i[0] * n + i[1]]
        # F V = V S determines F: with W for the inverse of V, the result is compared as V S W for free W
        W = V.T.copy()

        class Sympy:
            def __getattr__(self, nm):
                return getattr(sympy, nm)

            def exp(self, x):
                return xp.exp(float(x))

        class Numpy:
            def __getattr__(self, nm):
                return getattr(np, nm)

            def finfo(self, t):
                return np.finfo(np.float64)

        with inject(imp("geometry.operators"), sympy=Sympy(), numpy=Numpy()):
            out = np.asarray(fe(n - 1, cut, order_, V, W), dtype=object)
        a = -math.log(np.finfo(float).eps)
        s = [k.lift(1) if i <= cut else xp.exp(-a * ((i - cut) / (n - 1 - cut)) ** order_) for i in range(n)]
        put = Put(R, name, k)
        put.matrix("every mode is scaled by its own factor", out, lambda i, j: sum((V[i, m] * s[m] * W[m, j] for m in range(n)), k.lift(0)), (n, n))
        put.done()

    R.symbolic(name, go, budget_s=60)


def derivative_filter(R):
    def go(ck):
        leg = np.polynomial.legendre
        for kind, n, order_, cut in (("bubble", 2, 16, 0.25), ("bubble", 3, 4, 0.5), ("bubble", 4, 8, 0.0), ("sw", 3, 6, 0.25), ("euler3d", 2, 4, 0.4)):
            o = {"num_solpts": n, "filter_apply": 1, "filter_order": order_, "filter_cutoff": cut}
            ck.case(grid=kind, **o)
            if kind != "bubble":
                o["num_elements_horizontal"] = 1

            def one(rank, comm):
                sim = sims.simulation(kind, o, comm=comm)
                return sim.operators, np.asarray(sim.geometry.solutionPoints, dtype=float)

            with sims.quiet():
                if kind == "bubble":
                    sim = sims.simulation(kind, o)
                    op, x = sim.operators, np.asarray(sim.geometry.solutionPoints, dtype=float)
                else:
                    from .. import fakempi

                    op, x = fakempi.values(6, one)[3]
            ext = np.concatenate(([-1.0], x, [1.0]))
            N = n + 1
            nc = math.floor(cut * N)
            sig = np.array([1.0 if i <= nc else np.finfo(float).eps ** (((i - nc) / (N - nc)) ** order_) for i in range(N + 1)])
            D = np.empty((N + 1, N + 1))
            for m in range(N + 1):
                # the mode m, differentiated, and its Legendre modes scaled
                d = leg.legder(np.eye(N + 1)[m]) if m else np.zeros(1)
                d = np.pad(d, (0, N + 1 - len(d)))
                D[:, m] = leg.legval(ext, d * sig)
            want = D @ np.linalg.inv(leg.legvander(ext, N))
            close = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, dtype=float), b, rtol=1e-10, atol=1e-10)
            ck.check("the derivative of every mode, filtered", close(op.diff_ext, want), np.asarray(op.diff_ext, dtype=float).tolist())
            ck.check("its interior part", close(op.diff_solpt, want[1:-1, 1:-1]) and close(op.diff_solpt_tr, want[1:-1, 1:-1].T))
            ck.check("its face part", close(op.correction, want[1:-1][:, [0, -1]]) and close(op.correction_tr, want[1:-1][:, [0, -1]].T))
            dim = 3 if kind == "euler3d" else 2
            I = np.eye(n)
            kr = lambda *a: a[0] if len(a) == 1 else np.kron(a[0], kr(*a[1:]))
            for nm, ax in {"x": dim - 1, "y": dim - 2, "z": 0}.items():
                if hasattr(op, "derivative_" + nm):
                    fac = [I] * dim
                    fac[ax] = want[1:-1, 1:-1].T
                    ck.check(f"its form along {nm}", close(getattr(op, "derivative_" + nm), kr(*fac)))
                    corr = []
                    for s in (0, -1):
                        fac = [I] * dim
                        fac[ax] = want[1:-1, s].reshape(1, -1)
                        corr.append(kr(*fac))
                    ck.check(f"its correction along {nm}", close(getattr(op, {"x": "correction_WE", "y": "correction_SN", "z": "correction_DU"}[nm]), np.vstack(corr)))

    R.concrete("derivative with its filter on the real grids", go, bound="five grids, orders and cutoffs")


# ------------------------------------------------------------------------- operators along the lines of a block of points
def lines(R, n, ne, nv, nvar):
    name = f"derivatives on a block of points, {ne}x{ne}x{nv} elements of {n} points, {nvar or 'a single'} field{'s' * (nvar > 1)}"

    def go(c):
        op = object.__new__(need(imp("geometry"), "DFROperators"))
        D, C = real_array("D", (n, n)), real_array("C", (n, 2))
        lo, hi, H = real_array("lo", (n,)), real_array("hi", (n,)), real_array("H", (n, n))
        op.diff_solpt, op.correction = D, C
        op.diff_solpt_tr, op.correction_tr = D.T.copy(), C.T.copy()
        op.extrap_west = op.extrap_south = op.extrap_down = lo
        op.extrap_east = op.extrap_north = op.extrap_up = hi
        op.highfilter = H
        g = NS(num_solpts=n, ni=ne * n, nj=ne * n, nk=nv * n, num_elements_x1=ne, num_elements_x2=ne, num_elements_x3=nv)
        lead = (nvar,) if nvar else ()
        nk, nj, ni = nv * n, ne * n, ne * n
        f = real_array("f", lead + (nk, nj, ni))
        bi = real_array("bi", lead + (nk, nj, ne, 2))
        bj = real_array("bj", lead + (nk, ne, 2, ni))
        bk = real_array("bk", lead + (nv, 2, nj, ni))
        fi, fj, fk = (real_array(t, lead + s) for t, s in (("ti", (nk, nj, ne + 1)), ("tj", (nk, ne + 1, ni)), ("tk", (nv + 1, nj, ni))))
        if not nvar:
            fi, fj, fk, bi, bj, bk = fi, fj, fk, bi, bj, bk
        keep = f.copy()

        def want_d(ax, border, itf=None):
            out = np.empty(f.shape, dtype=object)
            L = len(lead)
            for idx in np.ndindex(*f.shape):
                p = list(idx)
                e, i = divmod(p[L + ax], n)
                s = 0
                for m in range(n):
                    p[L + ax] = e * n + m
                    s = s + D[i, m] * f[tuple(p)]
                for side in range(2):
                    if itf is None:
                        q = list(idx)
                        q[L + ax : L + ax + 1] = [e, side]
                        b = border[tuple(q)]
                    else:
                        q = list(idx)
                        q[L + ax] = e + side
                        b = itf[tuple(q)]
                    s = s + C[i, side] * b
                out[idx] = s
            return out

        def want_e(ax):
            sh = list(f.shape)
            L = len(lead)
            sh[L + ax : L + ax + 1] = [sh[L + ax] // n, 2]
            out = np.empty(sh, dtype=object)
            for idx in np.ndindex(*sh):
                e, side = idx[L + ax], idx[L + ax + 1]
                s = 0
                for m in range(n):
                    q = list(idx)
                    q[L + ax : L + ax + 2] = [e * n + m]
                    s = s + (lo, hi)[side][m] * f[tuple(q)]
                out[idx] = s
            return out

        def eq(label, got, want):
            got = np.asarray(got, dtype=object)
            if got.shape != want.shape:
                raise Unsupported(f"{label}: shape {got.shape}")
            c.prove(label, AND(*[EQ(a, b) for a, b in zip(got.ravel(), want.ravel())]), backends=("ring", "points"))

        for nm, ax, b in (("i", 2, bi), ("j", 1, bj), ("k", 0, bk)):
            w = want_d(ax, b)
            eq(f"derivative along {nm}", getattr(op, "comma_" + nm)(f, b, g), w)
            out = np.empty(f.shape, dtype=object)
            eq(f"derivative along {nm}, into a given array", getattr(op, "comma_" + nm)(f, b, g, out=out), w)
            eq(f"derivative along {nm}, the given array", out, w)
            eq(f"face values along {nm}", getattr(op, "extrapolate_" + nm)(f, g), want_e(ax))
        w = np.empty(f.shape, dtype=object)
        for idx in np.ndindex(*f.shape):
            p = list(idx)
            e, i = divmod(p[len(lead)], n)
            s = 0
            for m in range(n):
                p[len(lead)] = e * n + m
                s = s + H[i, m] * f[tuple(p)]
            w[idx] = s
        eq("filter along k", op.filter_k(f, g), w)
        w = np.stack([want_d(2, None, fi), want_d(1, None, fj), want_d(0, None, fk)])
        z = imp("geometry.operators")
        eq("gradient", with_objects(z, lambda: op.grad(f, fi, fj, fk, g)), w)
        c.prove("the field is left as it was", AND(*[EQ(a, b) for a, b in zip(f.ravel(), keep.ravel())]))

    R.symbolic(name, go)


def real_lines(R):
    def go(ck):
        from .. import fakempi

        for n, ne, nv, nvar in ((2, 2, 1, 0), (3, 1, 2, 2), (3, 2, 3, 5), (1, 3, 2, 1)):
            ck.case(points=n, elements=(ne, nv), fields=nvar)
            with sims.quiet():
                op, g = fakempi.values(6, lambda rank, comm: (lambda s: (s.operators, s.geometry))(sims.simulation("euler3d", {"num_solpts": n, "num_elements_horizontal": ne, "num_elements_vertical": nv, "case_number": 31}, comm=comm)))[2]
            rng = np.random.default_rng(R.seed + n)
            lead = (nvar,) if nvar else ()
            v = max(nvar, 1)
            nk, nj, ni = nv * n, ne * n, ne * n
            f = rng.standard_normal(lead + (nk, nj, ni))
            keep = f.copy()
            D, C = np.asarray(op.diff_solpt, dtype=float), np.asarray(op.correction, dtype=float)
            E = np.stack([np.asarray(op.extrap_west, dtype=float), np.asarray(op.extrap_east, dtype=float)])
            e = f.reshape(v, nv, n, ne, n, ne, n)
            b = {"i": rng.standard_normal((v, nk, nj, ne, 2)), "j": rng.standard_normal((v, nk, ne, 2, ni)), "k": rng.standard_normal((v, nv, 2, nj, ni))}
            d = {"i": np.einsum("im,vazbycm->vazbyci", D, e), "j": np.einsum("jm,vazbmcx->vazbjcx", D, e), "k": np.einsum("km,vambycx->vakbycx", D, e)}
            d["i"] = d["i"].reshape(v, nk, nj, ni) + np.einsum("is,vkjcs->vkjci", C, b["i"]).reshape(v, nk, nj, ni)
            d["j"] = d["j"].reshape(v, nk, nj, ni) + np.einsum("js,vkbsx->vkbjx", C, b["j"]).reshape(v, nk, nj, ni)
            d["k"] = d["k"].reshape(v, nk, nj, ni) + np.einsum("ks,vasyx->vakyx", C, b["k"]).reshape(v, nk, nj, ni)
            x = {
                "i": np.einsum("sm,vazbycm->vazbycs", E, e).reshape(lead + (nk, nj, ne, 2)),
                "j": np.einsum("sm,vazbmcx->vazbscx", E, e).reshape(lead + (nk, ne, 2, ni)),
                "k": np.einsum("sm,vambycx->vasbycx", E, e).reshape(lead + (nv, 2, nj, ni)),
            }
            ok = lambda a, w: np.shape(a) == np.shape(w) and np.allclose(a, w, rtol=1e-11, atol=1e-11)
            for nm in "ijk":
                bb = b[nm].reshape(lead + b[nm].shape[1:])
                w = d[nm].reshape(f.shape)
                ck.check(f"derivative along {nm}", ok(getattr(op, "comma_" + nm)(f, bb, g), w))
                out = np.full(f.shape, 7.0)
                r = getattr(op, "comma_" + nm)(f, bb, g, out=out)
                ck.check(f"derivative along {nm}, into a given array", ok(r, w) and ok(out, w))
                ck.check(f"face values along {nm}", np.allclose(np.ravel(getattr(op, "extrapolate_" + nm)(f, g)), x[nm].ravel(), rtol=1e-11, atol=1e-11))
            H = np.asarray(op.highfilter, dtype=float)
            ck.check("filter along k", ok(op.filter_k(f, g), np.einsum("km,vambycx->vakbycx", H, e).reshape(f.shape)))
            t = [rng.standard_normal((v,) + s_) for s_ in ((nk, nj, ne + 1), (nk, ne + 1, ni), (nv + 1, nj, ni))]
            ext = (np.stack((t[0][..., :-1], t[0][..., 1:]), -1), np.stack((t[1][:, :, :-1], t[1][:, :, 1:]), -2), np.stack((t[2][:, :-1], t[2][:, 1:]), -3))
            w = np.stack([
                np.einsum("im,vazbycm->vazbyci", D, e).reshape(v, nk, nj, ni) + np.einsum("is,vkjcs->vkjci", C, ext[0]).reshape(v, nk, nj, ni),
                np.einsum("jm,vazbmcx->vazbjcx", D, e).reshape(v, nk, nj, ni) + np.einsum("js,vkbsx->vkbjx", C, ext[1]).reshape(v, nk, nj, ni),
                np.einsum("km,vambycx->vakbycx", D, e).reshape(v, nk, nj, ni) + np.einsum("ks,vasyx->vakyx", C, ext[2]).reshape(v, nk, nj, ni),
            ]).reshape((3,) + f.shape)
            tt = [y.reshape(lead + y.shape[1:]) for y in t]
            ck.check("gradient", ok(op.grad(f, *tt, g), w))
            ck.check("the field is left as it was", np.array_equal(f, keep))

    R.concrete("derivatives on blocks of points of real grids", go, bound="four grids, random fields")


def with_objects(mod, fn):
    """numpy.zeros of the module makes arrays that can hold the symbols."""

    class NP:
        def __getattr__(self, k):
            return getattr(np, k)

        def zeros(self, shape, **k):
            a = np.empty(shape, dtype=object)
            a[...] = 0
            return a

    saved = mod.numpy
    mod.numpy = NP()
    try:
        return fn()
    finally:
        mod.numpy = saved


# -------------------------------------------------------------------------------------------------- exact point sets
def quadrature(R, n):
    name = f"quadrature with {n} points"

    def go(c):
        sym, num, w = need(imp("geometry"), "gauss_legendre")(n)
        x = sympy.Symbol("x")
        P = sympy.legendre(n, x)
        ok = len(sym) == n and all(sympy.simplify(sympy.expand(P.subs(x, p))) == 0 for p in sym)
        R.direct(name, "the points are the roots of the Legendre polynomial", ok, "sympy")
        vals = [sympy.N(p, 40) for p in sym]
        R.direct(name, "the points increase", all(a < b for a, b in zip(vals, vals[1:])), "sympy")
        R.direct(name, "the stored points are the nearest doubles to a few units", all(abs(float(v) - float(p)) <= 4e-16 for v, p in zip(vals, num)), "sympy")
        dP = sympy.diff(P, x)
        for i, p in enumerate(sym):
            we = sympy.N(2 / ((1 - p**2) * dP.subs(x, p) ** 2), 40)
            R.direct(name, f"weight {i}", abs(float(we) - float(w[i])) <= 1e-15, "sympy", {"got": float(w[i]), "want": float(we)})

    R.symbolic(name, go)


def real_points(R):
    def go(ck):
        com = imp("geometry")
        gl = need(com, "gauss_legendre")
        for n in range(1, 13):
            ck.case(points=n)
            sym, x, w = gl(n)
            for d in range(2 * n):
                ex = 2 / (d + 1) if d % 2 == 0 else 0.0
                ck.check("quadrature is exact to degree 2n-1", abs(float(np.sum(np.asarray(w) * np.asarray(x) ** d)) - ex) < 1e-13, {"degree": d})
        for dim, cname in ((3, "CubedSphere3D"), (2, "CubedSphere2D")):
            for n in range(1, 7 if dim == 2 else 5):
                ck.case(points=n, dimensions=dim)
                sym, x, w = gl(n)
                g = object.__new__(need(com, cname))
                g.device = device()
                g.num_solpts, g.solutionPoints, g.solutionPoints_sym, g.glweights = n, np.asarray(x), sym, np.asarray(w)
                g.extension = np.concatenate([[-1.0], x, [1.0]])
                g.extension_sym = [sympy.Integer(-1)] + list(sym) + [sympy.Integer(1)]
                op = need(com, "DFROperators")(g, config(), device())
                rng = np.random.default_rng(R.seed + n)
                X = np.meshgrid(*([np.asarray(x)] * dim), indexing="ij")  # slowest direction first
                for trial in range(3):
                    co = rng.standard_normal((n + 2,) * dim)
                    pol = np.polynomial.polynomial
                    val = pol.polyval2d if dim == 2 else pol.polyval3d
                    for ax, nm in ((dim - 1, "x"), (dim - 2, "y"), (0, "z")):
                        # degree n+1 along the direction, n-1 in the others
                        cut = tuple(slice(0, n + 2 if a == ax else n) for a in range(dim))
                        c_ = np.zeros_like(co)
                        c_[cut] = co[cut]
                        f = val(*X, c_).ravel()
                        faces = []
                        for s in (-1.0, 1.0):
                            Y = np.meshgrid(*[np.array([s]) if a == ax else np.asarray(x) for a in range(dim)], indexing="ij")
                            faces.append(val(*Y, c_).ravel())
                        fl = np.concatenate(faces)
                        d = val(*X, pol.polyder(c_, axis=ax)).ravel()
                        got = f @ getattr(op, "derivative_" + nm) + fl @ getattr(op, {"x": "correction_WE", "y": "correction_SN", "z": "correction_DU"}[nm])
                        ck.check(f"derivative along {nm} of a polynomial", np.allclose(got, d, rtol=1e-9, atol=1e-9 * (1 + np.abs(d).max())))
                        low = np.zeros_like(co)
                        cut = (slice(0, n),) * dim
                        low[cut] = co[cut]
                        f = val(*X, low).ravel()
                        fl = np.concatenate([val(*np.meshgrid(*[np.array([s]) if a == ax else np.asarray(x) for a in range(dim)], indexing="ij"), low).ravel() for s in (-1.0, 1.0)])
                        ck.check(f"face values along {nm} of a polynomial", np.allclose(f @ getattr(op, "extrap_" + nm), fl, rtol=1e-9, atol=1e-9 * (1 + np.abs(fl).max())))
                ck.check("weights of the two-dimensional quadrature", np.allclose(op.quad_weights, np.outer(w, w)))

    R.concrete("operators at the Gauss-Legendre points", go, bound="1-6 points (2D), 1-4 points (3D); polynomials with random coefficients")


def run(R):
    R.under_contract(
        "DFROperators.__init__", "DFROperators.make_filter", "DFROperators.comma_i", "DFROperators.comma_j", "DFROperators.comma_k",
        "DFROperators.extrapolate_i", "DFROperators.extrapolate_j", "DFROperators.extrapolate_k", "DFROperators.filter_k", "DFROperators.grad",
        "DFROperators.apply_filters", "DFROperators.apply_filter_3d",
        "diffmat", "lagrange_poly", "legvander", "check_skewcentrosymmetry", "gauss_legendre", "inv", "row_reduce", "filter_exponential",
    )
    R.assume(
        "machine arithmetic is treated as exact rational arithmetic (the same operators are compared in doubles on random polynomials)",
        "numpy.linalg.inv returns the inverse",
    )
    top = 5 if R.thorough else 4
    for n in range(1, top + 1):
        order(R, n, 2)
        if n < 5:
            order(R, n, 3)
    order(R, 5, 2)
    for n in (2, 3, 4):
        spectral(R, n)
    application(R)
    sponge(R)
    inverse(R)
    for n, order_, cut in ((3, 2, 0), (3, 16, 1), (4, 4, 1), (4, 6, 2)):
        smoothed(R, n, order_, cut)
    derivative_filter(R)
    lines(R, 2, 2, 1, 0)
    lines(R, 3, 1, 2, 2)
    real_lines(R)
    for n in range(1, 6):
        quadrature(R, n)
    real_points(R)
