"""C14: Jacobian-vector products are the directional derivative of the right-hand side."""

import numpy as np

from .. import alg
from ..alg import XPA, array, atom, equal
from ..core import HarnessGap
from ..load import imp, need
from . import c13


def lifted(w, names):
    """The values received from the neighbours and the state, each with a direction of change."""
    for n in names:
        x = getattr(w, n)
        if isinstance(x, dict):
            setattr(w, n, {k: perturbed(f"{n}{k}", v) for k, v in x.items()})
        else:
            setattr(w, n, perturbed(n, x))


def perturbed(name, x):
    if isinstance(x, tuple):
        return tuple(perturbed(f"{name}{i}", c) for i, c in enumerate(x))
    return alg.duals(x, array("d" + name, np.shape(x)))


def compare(R, name, out, want_fn):
    """code ran with complex semantics of abs; the oracle is differentiated by the rules of calculus"""
    alg.MODULUS = False
    try:
        want = want_fn()
    finally:
        alg.MODULUS = True
    gr, gi = alg.parts(out)
    wr, wi = alg.parts(want)
    equal(R, name, "real part is the right-hand side", gr.reshape(wr.shape), wr)
    equal(R, name, "imaginary part is its derivative", gi.reshape(wi.shape), wi)


def sw(R, ne, ns, topo):
    name = f"complex step through the shallow-water equations, {ne}x{ne} elements" + (" with topography" if topo else "")

    def go():
        w = c13.SW(ne, ns, topo)
        lifted(w, ("Q", "recv"))
        rhs = need(imp("rhs.rhs_sw"), "RhsShallowWater")(w.Q.shape, w.geom, w.ops, w.metric, w.topo, w.ptopo, ns, ne)
        compare(R, name, rhs(w.Q), w.oracle)

    alg.unit(R, name, go)


MODULUS3 = "complex step through the absolute wave speeds of the Euler equations on the sphere"


def euler3(R, ne, nv, ns, modulus=False):
    """modulus: |x| of the flux functions as numpy evaluates it on complex numbers (a known finding: its derivative is lost);
    otherwise |x| is differentiated by the rules of calculus on both sides and everything else is as it runs"""
    name = MODULUS3 if modulus else f"complex step through the Euler equations on the sphere, {ne}x{ne}x{nv} elements"

    def go():
        alg.MODULUS = modulus
        try:
            inner()
        finally:
            alg.MODULUS = True

    def inner():
        w = c13.Euler3(ne, nv, ns, 31)
        lifted(w, ("Q", "recv"))
        pde = need(imp("pde.pde_euler_cubesphere"), "PDEEulerCubesphere")(w.geom, w.cfg, w.metric)
        rhs = need(imp("rhs.rhs_dfr"), "RHSDirecFluxReconstruction_mpi")(pde, w.geom, w.ops, w.metric, None, w.ptopo, w.cfg, w.Q.shape)
        w.extrapolate()
        out = rhs(w.Q)
        compare(R, name, out, w.oracle)

    alg.unit(R, name, go, budget_s=300)


def euler2(R, nx, nz, ns):
    name = f"complex step through the Euler equations on the plane, {nx}x{nz} elements"

    def go():
        w = c13.Euler2(nx, nz, ns)
        lifted(w, ("Q",))
        pde = need(imp("pde.pde_euler_cartesian"), "PDEEulerCartesian")(w.geom, w.cfg, None)
        rhs = need(imp("rhs.rhs_dfr"), "RHSDirecFluxReconstruction")(pde, w.geom, w.ops, None, None, None, w.cfg, w.Q.shape)
        compare(R, name, rhs(w.Q), w.oracle)

    alg.unit(R, name, go)


# ------------------------------------------------------------------------------------------------------ the products
class CArr:
    """Array of exact complex numbers (re, im: arrays of algebraic values), with the operations a product needs."""

    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, re, im=None):
        self.re = np.asarray(re, dtype=object)
        self.im = XPA.zeros(self.re.shape) if im is None else np.asarray(im, dtype=object)

    @staticmethod
    def of(o):
        if isinstance(o, CArr):
            return o
        if isinstance(o, complex):
            return CArr(alg.lift(o.real), alg.lift(o.imag))
        return CArr(o if isinstance(o, np.ndarray) else alg.lift(o))

    def __add__(self, o):
        o = CArr.of(o)
        return CArr(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __neg__(self):
        return CArr(-self.re, -self.im)

    def __sub__(self, o):
        return self + (-CArr.of(o))

    def __rsub__(self, o):
        return CArr.of(o) - self

    def __mul__(self, o):
        o = CArr.of(o)
        return CArr(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (complex, CArr)):
            raise HarnessGap("division by a complex number")
        return CArr(self.re / o, self.im / o)

    real = property(lambda s: CArr(s.re))
    imag = property(lambda s: CArr(s.im))
    shape = property(lambda s: s.re.shape)
    ndim = property(lambda s: s.re.ndim)
    size = property(lambda s: s.re.size)
    dtype = np.dtype(float)

    def reshape(self, *sh):
        sh = sh[0] if len(sh) == 1 else sh
        return CArr(self.re.reshape(sh), self.im.reshape(sh))

    def flatten(self):
        return self.reshape((self.size,))

    ravel = flatten

    def copy(self):
        return CArr(self.re.copy(), self.im.copy())

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise HarnessGap(f"array.{k}")


class Quadratic:
    """F(x)_i = a_i + sum B_ij x_j + sum C_ijk x_j x_k, evaluated exactly on complex arguments; its derivative is known."""

    def __init__(self, shape):
        n = int(np.prod(shape))
        self.shape, self.n = shape, n
        self.a, self.B, self.C = array("a", (n,)), array("B", (n, n)), array("C", (n, n, n))
        self.calls = 0

    def __call__(self, x):
        if not isinstance(x, CArr) or x.shape != self.shape:
            raise HarnessGap("right-hand side called with something else than a state")
        self.calls += 1
        r, m = x.re.ravel(), x.im.ravel()
        re, im = [], []
        for i in range(self.n):
            p, q = self.a[i], alg.ZERO
            for j in range(self.n):
                p, q = p + self.B[i, j] * r[j], q + self.B[i, j] * m[j]
                for k in range(self.n):
                    p = p + self.C[i, j, k] * (r[j] * r[k] - m[j] * m[k])
                    q = q + self.C[i, j, k] * (r[j] * m[k] + m[j] * r[k])
            re.append(p)
            im.append(q)
        mk = lambda v: np.array(v, dtype=object).reshape(self.shape)
        return CArr(mk(re), mk(im))

    def jv(self, x, v):
        r, v = x.re.ravel(), v.re.ravel()
        out = []
        for i in range(self.n):
            s = alg.ZERO
            for j in range(self.n):
                s = s + self.B[i, j] * v[j]
                for k in range(self.n):
                    s = s + self.C[i, j, k] * (r[j] * v[k] + v[j] * r[k])
            out.append(s)
        return out

    def second(self, v):
        v = v.re.ravel()
        return [sum((self.C[i, j, k] * v[j] * v[k] for j in range(self.n) for k in range(self.n)), alg.ZERO) for i in range(self.n)]


def products(R, shape, flat):
    name = f"products with the Jacobian of any quadratic map on {shape}" + (", flat vectors" if flat else "")

    def go():
        m = imp("solvers.matvec")
        F = Quadratic(shape)
        Q, V = CArr(array("q", shape)), CArr(array("v", (F.n,) if flat else shape))
        dt = atom("dt")
        q0, v0 = Q.re.copy(), V.re.copy()
        r0 = F(Q)
        jv, sec = F.jv(Q, V), F.second(V)
        got = m.matvec_fun(V, dt, Q, r0, F, "complex")
        equal(R, name, "complex step", got.re, alg.arr1([dt * x for x in jv]))
        equal(R, name, "complex step is real", got.im, XPA.zeros((F.n,)))
        # one-sided difference: derivative plus a first-order remainder with a small positive step
        got = m.matvec_fun(V, dt, Q, r0, F, "fd")
        eps = step_of(R, name, got, [dt * x for x in jv], [dt * x for x in sec])
        half = alg.const(0.5)
        for lab, f in (
            ("matvec_rat", lambda: m.matvec_rat(V, dt, Q, r0, F)),
            ("MatvecOpRat", lambda: m.MatvecOpRat(dt, Q, r0, F)(V)),
        ):
            got = f()
            # I - dt/2 J
            step_of(R, name + f" ({lab})", got, [v - half * dt * x for v, x in zip(V.re.ravel(), jv)], [-(half * dt * x) for x in sec])
        equal(R, name, "state unchanged", Q.re, q0)
        equal(R, name, "vector unchanged", V.re, v0)

    alg.unit(R, name, go)


def step_of(R, name, got, main, second):
    """got = main + eps * second with one eps, 0 < |eps| < 1e-2: read off eps at one entry, prove the rest."""
    g = got.re.ravel()
    d = float((g[0].val[0] - main[0].val[0]) / second[0].val[0])
    R.direct(name, "difference step is small", abs(d) < 1e-2, detail={"step": d})
    # the step must be one constant: the exact double used by the code is recovered by rounding to 2**-k multiples
    cand = [d] + [float(np.float32(d)), float(np.sqrt(np.finfo(np.float32).eps)), float(np.sqrt(np.finfo(float).eps))]
    best = min(cand, key=lambda c: abs(c - d))
    best = next((c for c in cand[1:] if abs(c - d) < 1e-9 * max(abs(c), 1e-30) + 1e-12), best)
    e = alg.const(best)
    for i in range(len(g)):
        equal(R, name, f"difference quotient [{i}]", g[i], main[i] + e * second[i])
    equal(R, name, "real", got.im, XPA.zeros(got.im.shape))
    return best


# ------------------------------------------------------------------------------------------------------- bounded part
def real_runs(R):
    from .. import fakempi, sims

    class Abs:
        """numpy, with |x| differentiated as in calculus"""

        def __getattr__(self, k):
            return getattr(np, k)

        def abs(self, x, *a, **k):
            return np.sign(x.real) * x if np.iscomplexobj(x) else np.abs(x, *a, **k)

        absolute = fabs = abs

    def one(ck, kind, over, size, perturb, smooth=False):
        def f(rank, comm):
            sim = sims.simulation(kind, over, comm=comm) if size > 1 else sims.simulation(kind, over)
            rng = np.random.default_rng(10 + rank)
            q = perturb(np.array(sim.initial_Q, dtype=float), rng)
            scale = np.abs(q).max(axis=tuple(range(1, q.ndim)), keepdims=True)
            v = rng.uniform(-1, 1, q.shape) * scale
            m = imp("solvers.matvec")
            rhs = sim.rhs.full
            if smooth:
                sim.device.xp = Abs()
            r0 = rhs(q)
            c = m.matvec_fun(v, 1.0, q, r0, rhs, "complex").reshape(q.shape)
            r1 = rhs(q)
            h = 2e-6
            d = lambda h: (rhs(q + h * v) - rhs(q - h * v)) / (2 * h)
            fd = (4 * d(h / 2) - d(h)) / 3
            return c, fd, bool(np.array_equal(r0, r1))

        ck.case(kind=kind, options=over, processes=size, state="random, seed 10 + rank")
        with sims.quiet():
            res = fakempi.values(size, f) if size > 1 else [f(0, None)]
        for rank, (c, fd, same) in enumerate(res):
            s = np.abs(fd).max(axis=tuple(range(1, fd.ndim)), keepdims=True)
            d = np.abs(c - fd) / s
            ck.check("a complex evaluation leaves the next real one alone", same)
            # kinks of the flux functions within the difference step: a few entries may differ
            ck.check("complex step equals the derivative", np.quantile(d, 0.99) < 1e-5, f"process {rank}: {np.quantile(d, 0.99)}")

    def go(ck):
        def sw(q, rng):
            q[0] *= rng.uniform(0.9, 1.1, q[0].shape)
            q[1:] += rng.uniform(-0.3, 0.3, q[1:].shape) * np.abs(q[1:]).max()
            return q

        def e3(q, rng):
            q[0] *= rng.uniform(0.95, 1.05, q[0].shape)
            q[4] *= rng.uniform(0.95, 1.05, q[4].shape)
            q[1:3] += rng.uniform(-1, 1, q[1:3].shape) * np.abs(q[1:3]).max()
            q[3] += rng.uniform(-1, 1, q[3].shape) * 1e-2
            return q

        def e2(q, rng):
            q[0] *= rng.uniform(0.9, 1.1, q[0].shape)
            q[3] *= rng.uniform(0.9, 1.1, q[3].shape)
            q[1:3] = rng.uniform(-80, 80, q[1:3].shape)
            return q

        one(ck, "sw", {"case_number": 5, "num_solpts": 2}, 6, sw)
        one(ck, "euler3d", {"case_number": 31}, 6, e3, True)
        one(ck, "euler3d", {"case_number": 21}, 6, e3, True)
        one(ck, "bubble", {"num_solpts": 3}, 1, e2)

    def known(ck):
        def e3(q, rng):
            q[0] *= rng.uniform(0.95, 1.05, q[0].shape)
            q[1:3] += rng.uniform(-1, 1, q[1:3].shape) * np.abs(q[1:3]).max()
            return q

        one(ck, "euler3d", {"case_number": 31}, 6, e3)

    R.concrete("complex step against differences in real runs", go, bound="4 systems, one random state and direction each")
    R.concrete(MODULUS3, known, bound="one random state and direction")


def run(R):
    R.under_contract(
        "solvers.matvec.matvec_fun",
        "solvers.matvec.matvec_rat",
        "solvers.matvec.MatvecOpRat",
        "rhs.rhs_sw.RhsShallowWater.__call__",
        "rhs.rhs_dfr.RHSDirecFluxReconstruction",
        "rhs.rhs_dfr.RHSDirecFluxReconstruction_mpi",
        "pde.fluxes.rusanov_3d_hori_i_new",
        "pde.fluxes.rusanov_3d_hori_j_new",
        "pde.fluxes.rusanov_3d_vert_new",
        "pde/interface.cpp: pointwise_eulercartesian_2d, riemann_eulercartesian_ausm_2d",
    )
    R.assume("complex arithmetic to first order in the imaginary part (step 1.5e-8: the remainder is below rounding)")
    R.assume("states where the two sides of a max, min or absolute value coincide (kinks of the fluxes) are left out")
    products(R, (2,), False)
    products(R, (1, 2), True)
    sw(R, 1, 2, False)
    sw(R, 2, 1, True)
    euler3(R, 1, 1, 1)
    euler3(R, 2, 2, 1)
    euler3(R, 1, 1, 1, modulus=True)
    euler2(R, 2, 2, 1)
    if R.thorough:
        sw(R, 2, 2, True)
        euler3(R, 1, 2, 2)
        euler2(R, 2, 2, 2)
    real_runs(R)
