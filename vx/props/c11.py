"""C11: linear and nonlinear solvers return a solution with the residual they report."""

import math
import sys
import types

import numpy as np
import scipy.linalg

from ..core import *
from .. import core, fakempi, load, sims
from ..fn import UFun, everywhere, alleq, flat, same
from ..load import imp, need, inject, HarnessGap, XPS, SMATH


class SFun:
    """N: R^n -> R>=0, any function (a norm by contract: equal vectors have equal norms)"""

    def __init__(self, c, name, frame=None):
        self.c, self.name, self.calls = c, name, []

    def __call__(self, v, *a, **k):
        for w, val in self.calls:
            if w.shape == np.shape(v) and same(self.c, w, v):
                return val
        val = real(f"{self.name}{len(self.calls)}")
        self.c.assume(val >= 0)
        self.calls.append((np.array(v, dtype=object), val))
        return val


class local_math:
    """`import math` inside a function gets the symbolic version"""

    def __enter__(self):
        self.old = sys.modules["math"]
        sys.modules["math"] = SMATH

    def __exit__(self, *a):
        sys.modules["math"] = self.old


def run(R):
    fg, gc, nl, go, mv = (imp("solvers." + m) for m in ("fgmres", "gcrot", "nonlin", "global_operations", "matvec"))
    need(fg, "fgmres")
    need(nl, "newton_krylov")
    need(go, "global_norm", "global_dotprod", "global_inf_norm")
    need(mv, "matvec_fun", "matvec_rat", "MatvecOpRat")
    R.under_contract("fgmres", "rotg", "_apply_givens", "newton_krylov", "_nonlin_line_search", "KrylovJacobian.matvec",
                     "global_norm", "global_dotprod", "global_inf_norm", "matvec_fun", "matvec_rat", "MatvecOpRat",
                     "gcrot (bounded)", "_ortho_1_sync_igs (bounded)")
    R.trust("scipy's triangular solve and scalar line search: any result (havoc), with the evaluations they make",
            "allreduce by contract (sum / maximum over the processes)")
    R.assume("mathematical reals in the symbolic part")

    # -------------------------------------------------------------------------------------------- global operations
    def globals_(c):
        n = 3
        a, b = real_array("a", (n,)), real_array("b", (n,))
        other = real("other")
        seen = []

        class Comm:
            rank, size = 0, 4

            def allreduce(self, x, op=None):
                seen.append(op)
                nm = getattr(op, "name", None) if op is not None else "SUM"
                if nm in (None, "SUM"):
                    return x + other
                if nm == "MAX":
                    return sym_max(x, other)
                return SReal.__new__(SReal) if False else real("unknown_reduction")

            def __getattr__(self, k):
                raise HarnessGap(f"reduction through {k}")

        comm = Comm()
        d = load.device(comm=comm, xp=XPS)
        with inject(go, numpy_too=True):
            c.assume(other >= 0)
            r = go.global_norm(a, d)
            c.prove("the norm is the root of the sum of squares over all processes", AND(EQ(r * r, sum((x * x for x in a), 0) + other), r >= 0))
            r = go.global_dotprod(a, b, comm)
            c.prove("the dot product sums over all processes", EQ(r, sum((x * y for x, y in zip(a, b)), 0) + other))
            r = go.global_inf_norm(a, comm)
            c.prove("the infinity norm bounds every entry of every process", AND(r >= other, *[AND(r >= x, r >= -x) for x in a]))
            c.prove("and is attained", OR(EQ(r, other), *[OR(EQ(r, x), EQ(r, -x)) for x in a]))

    R.symbolic("global operations", globals_)

    # ------------------------------------------------------------------------------------------------------- fgmres
    def fgmres_contract(restart, maxiter, guess, heg=False):
        n = restart + 2

        def body(c):
            A = UFun(c, "A")
            N = SFun(c, "N")
            Pc = UFun(c, "P")
            b = real_array("b", (n,))
            x0 = real_array("x0", (n,)) if guess else None
            tol = real("tol")
            c.assume(tol >= 0)
            b_in, x0_in = b.copy(), None if x0 is None else x0.copy()
            cnt = [0]

            def havoc(arr):
                cnt[0] += 1
                for k in np.ndindex(*arr.shape):
                    arr[k] = real(f"h{cnt[0]}_" + "_".join(map(str, k)))

            def ortho(Q, Rm, T, K, j, device=None):
                havoc(Q[max(0, j - 2): j])
                havoc(Rm[: j, max(0, j - 2): j])
                cnt[0] += 1
                v = real(f"vnorm{cnt[0]}")
                c.assume(NOT(EQ(v, 0)))
                Rm[j - 2, j - 2] = v
                return v

            def rot(a, b):
                cnt[0] += 1
                return tuple(real(f"rot{cnt[0]}{s}") for s in "csr")

            class XA:
                class linalg:
                    @staticmethod
                    def solve_triangular(M, g, **k):
                        cnt[0] += 1
                        return real_array(f"y{cnt[0]}_", (len(g),))

            d = load.device(xp=XPS, xalg=XA())
            pairs = [(go.global_norm, lambda v, *a, **k: N(v))]
            for nm, st in (("_ortho_1_sync_igs", ortho), ("rotg", rot)):
                f = getattr(fg, nm, None)
                if callable(f):
                    pairs.append((f, st))
            with everywhere(pairs), inject(fg, go, numpy_too=True, print=lambda *a, **k: None):
                out = fg.fgmres(A, b, x0=x0, tol=tol, restart=restart, maxiter=maxiter, preconditioner=Pc, hegedus=heg, device=d)
            if not N.calls:
                raise HarnessGap("norms are not computed by global_norm")
            x, nr, nb, it, flag, res = out
            c.prove("the right-hand side and the guess are not touched", AND(alleq(b, b_in), SBool(True) if x0 is None else alleq(x0, x0_in)))
            c.prove("the reported norm of b is that of b", EQ(nb, N(b_in)))
            zero = all(isinstance(v, (int, float)) and v == 0 for v in flat(x))
            if zero and not isinstance(nr, SReal):
                c.prove("a zero solution without iterations is only for a zero right-hand side", AND(EQ(N(b_in), 0), EQ(nr, 0), SBool(flag == 0)))
                return
            true = N(b_in - A(x))
            c.prove("the reported residual is the norm of b - A x", EQ(nr, true))
            if flag == 0:
                c.prove("convergence is reported only below the tolerance", OR(true < tol * nb, EQ(true, 0)))
            c.prove("the last entry of the history is the reported residual", EQ(res[-1][0] * nb, nr))

        return body

    for restart, maxiter, guess, heg in ((1, 1, True, False), (1, 2, False, False), (2, 1, True, False), (1, 1, True, True)):
        R.symbolic(f"fgmres: residual and flag (restart {restart}, {maxiter} outer, guess {guess}, hegedus {heg})",
                   fgmres_contract(restart, maxiter, guess, heg), max_paths=3000, budget_s=100)

    def givens(c):
        a, b = real("a"), real("b")
        with local_math(), inject(fg):
            co, s, r = fg.rotg(a, b)
        c.prove("a rotation", EQ(co * co + s * s, 1))
        c.prove("it sends (a, b) to (r, 0)", AND(EQ(co * a + s * b, r), EQ(co * b - s * a, 0)))
        for k in (1, 2, 3):
            Q = [real_array(f"Q{k}{i}", (2, 2)) for i in range(k)]
            v = real_array(f"v{k}", (k + 2,))
            w = v.copy()
            fg._apply_givens(Q, w, k)
            ref = list(v)
            for i in range(k):
                ref[i], ref[i + 1] = Q[i][0, 0] * ref[i] + Q[i][0, 1] * ref[i + 1], Q[i][1, 0] * ref[i] + Q[i][1, 1] * ref[i + 1]
            c.prove(f"{k} rotations applied in order", alleq(w, ref))

    R.symbolic("Givens rotations", givens)

    # -------------------------------------------------------------------------------------------------------- newton
    def newton(search, maxiter):
        def body(c):
            f = UFun(c, "F")
            N, NI = SFun(c, "N2_"), SFun(c, "Ninf")
            x0 = real_array("x", (1, 2))
            x_in = x0.copy()
            tols = {k: real(k) for k in ("f_tol", "f_rtol", "x_tol", "x_rtol")}
            c.assume(AND(*[v > 0 for v in tols.values()]))
            said = []
            cnt = [0]

            def inf_norm(v, *a, **k):
                if any(isinstance(e, float) and not math.isfinite(e) for e in flat(v)):
                    cnt[0] += 1
                    M = real(f"big{cnt[0]}")
                    c.assume(M > 0)
                    return M
                return NI(v)

            class Jac:
                def __init__(self, x, fx, func, *a, **k):
                    self.update(x, fx)

                def solve(self, rhs, tol=0):
                    c.prove("the Newton correction is computed for the current residual", AND(alleq(rhs, self.f), alleq(f(np.reshape(self.x, (1, 2))), self.f)))
                    cnt[0] += 1
                    return real_array(f"dx{cnt[0]}_", (2,))

                def update(self, x, fx):
                    self.x, self.f = np.array(x, dtype=object), np.array(fx, dtype=object)

            def search_(phi, *a, **k):
                cnt[0] += 1
                phi(1.0)
                how = 0 if boolean(f"first{cnt[0]}") else 1
                if how == 0:
                    return (1.0, 0.0) if search == "armijo" else (1.0, 0.0, 0.0)
                s = real(f"s{cnt[0]}")
                c.assume(AND(s > 0, s < 1))
                phi(s)
                if boolean(f"second{cnt[0]}"):
                    return (s, 0.0) if search == "armijo" else (s, 0.0, 0.0)
                return (None, 0.0) if search == "armijo" else (None, 0.0, 0.0)

            ls = types.SimpleNamespace(scalar_search_armijo=search_, scalar_search_wolfe1=search_)
            import scipy

            sp = types.SimpleNamespace(__version__=scipy.__version__, optimize=types.SimpleNamespace(_linesearch=ls, linesearch=ls), sparse=scipy.sparse)
            pairs = [(go.global_norm, lambda v, *a, **k: N(v)), (go.global_inf_norm, inf_norm)]
            J = getattr(nl, "KrylovJacobian", None)
            if J is None:
                raise HarnessGap("KrylovJacobian is gone")
            pairs.append((J, Jac))
            with everywhere(pairs), inject(nl, numpy_too=True, print=lambda *a, **k: said.append(" ".join(map(str, a))), scipy=sp):
                y, it, hist = nl.newton_krylov(f, x0, maxiter=maxiter, line_search=search, **tols)
            if not NI.calls:
                raise HarnessGap("norms are not computed by global_inf_norm")
            c.prove("the starting point is not touched", alleq(x0, x_in))
            c.prove("the solution has the shape of the guess", SBool(np.shape(y) == (1, 2)))
            gave_up = any("maximum" in s.lower() for s in said)
            if not gave_up:
                c.prove("a solution is announced only with a residual below the tolerance", NI(f(y).ravel()) <= tols["f_tol"])
                c.prove("the last residual of the history is that of the solution", EQ(hist[-1][0], NI(f(y).ravel())))
            else:
                c.prove("giving up only after all iterations", SBool(len(hist) == maxiter))

        return body

    for search, maxiter in ((None, 2), ("armijo", 2), ("wolfe", 1)):
        R.symbolic(f"newton_krylov, line search {search}", newton(search, maxiter), max_paths=3000, budget_s=100)

    def kjac(c):
        n = 2
        M, a, x, v = real_array("M", (n, n)), real_array("a", (n,)), real_array("x", (n,)), real_array("v", (n,))
        om = real("omega")
        c.assume(om > 0)
        N = SFun(c, "N")
        F_ = lambda z: M @ z + a
        K = nl.KrylovJacobian.__new__(nl.KrylovJacobian)
        K.func, K.x0, K.f0, K.omega = F_, x, F_(x), om
        with everywhere([(go.global_norm, lambda w, *aa, **k: N(w))]), inject(nl, numpy_too=True):
            r = K.matvec(v)
        nv = N(v)
        for i in range(n):
            c.prove(f"exact for an affine function [{i}]", IMP(NOT(EQ(nv, 0)), EQ(r[i], sum((M[i, j] * v[j] for j in range(n)), 0))))

    R.symbolic("KrylovJacobian.matvec", kjac)

    # ----------------------------------------------------------------------------------------------- Jacobian products
    class Cx:
        """complex number with symbolic parts"""

        __array_ufunc__ = None

        def __init__(self, re, im=0):
            self.re, self.im = re, im

        @staticmethod
        def lift(o):
            return o if isinstance(o, Cx) else Cx(o.real, o.imag) if isinstance(o, complex) else Cx(o, 0)

        def __add__(self, o):
            if isinstance(o, np.ndarray):
                return NotImplemented
            o = Cx.lift(o)
            return Cx(self.re + o.re, self.im + o.im)

        __radd__ = __add__

        def __sub__(self, o):
            o = Cx.lift(o)
            return Cx(self.re - o.re, self.im - o.im)

        def __rsub__(self, o):
            return Cx.lift(o) - self

        def __mul__(self, o):
            o = Cx.lift(o)
            return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

        __rmul__ = __mul__

        def __truediv__(self, o):
            if isinstance(o, (Cx, complex)):
                raise core.Unsupported("division by a complex number")
            return Cx(self.re / o, self.im / o)

    class CArr(np.ndarray):
        @property
        def imag(self):
            out = np.empty(self.shape, dtype=object)
            for k in np.ndindex(*self.shape):
                z = np.asarray(self)[k]
                out[k] = z.im if isinstance(z, Cx) else z.imag if isinstance(z, (complex, float)) else 0
            return out

        @property
        def real(self):
            out = np.empty(self.shape, dtype=object)
            for k in np.ndindex(*self.shape):
                z = np.asarray(self)[k]
                out[k] = z.re if isinstance(z, Cx) else z
            return out

    class PArr(np.ndarray):
        """the perturbation vector: multiplied by a complex constant it becomes complex"""

        def __rmul__(self, o):
            if isinstance(o, complex):
                out = np.empty(self.shape, dtype=object)
                for k in np.ndindex(*self.shape):
                    out[k] = Cx(np.asarray(self)[k] * o.real, np.asarray(self)[k] * o.imag)
                return out.view(CArr)
            return np.asarray(self) * o

        def __mul__(self, o):
            return self.__rmul__(o) if isinstance(o, complex) else np.asarray(self) * o

    def jac(method):
        def body(c):
            n = 2
            with core.simple_floats():
                q = real_array("q", (1, n))
                v = real_array("v", (n,)).view(PArr)
                vv = np.asarray(v)
                L = real_array("L", (n, n))
                a = real_array("a", (n,))
                B = real_array("B", (n, n, n))
                dt = real("dt")

                def f(Q):
                    z = [np.asarray(Q).ravel()[i] for i in range(n)]
                    out = np.empty(n, dtype=object)
                    for i in range(n):
                        s = a[i]
                        for j in range(n):
                            s = s + z[j] * L[i, j]
                            if method == "complex":
                                for k in range(n):
                                    s = s + (z[j] * z[k]) * B[i, j, k]
                        out[i] = s
                    return out.reshape(1, n).view(CArr)

                r0 = f(q)
                with inject(mv, float=float):
                    if method == "rat":
                        got = mv.matvec_rat(v, dt, q, r0, f)
                        got2 = mv.MatvecOpRat(dt, q, r0, f)(v)
                    else:
                        got = mv.matvec_fun(v, dt, q, r0, f, method)
                        got2 = got
                for g in (got, got2):
                    c.prove("a flat vector", SBool(np.shape(g) == (n,)))
                    for i in range(n):
                        J = 0
                        for j in range(n):
                            J = J + L[i, j] * vv[j]
                            if method == "complex":
                                for k in range(n):
                                    J = J + B[i, j, k] * (vv[j] * q[0, k] + q[0, j] * vv[k])
                        want = vv[i] - dt * J / 2 if method == "rat" else dt * J
                        e = np.asarray(g).ravel()[i]
                        c.prove(f"the product with the Jacobian, exact for {'quadratic' if method == 'complex' else 'affine'} functions [{i}]", EQ(e, want))

        return body

    for m in ("complex", "fd", "rat"):
        R.symbolic(f"Jacobian product, {m}", jac(m))

    concrete(R, fg, gc, nl, go, mv)


class Op:
    def __init__(self, M, comm=None, split=None, broken=None):
        self.M, self.comm, self.split, self.n, self.broken = M, comm, split, 0, broken

    def matvec(self, v):
        self.n += 1
        if self.comm is None:
            out = self.M @ v
        else:
            full = np.concatenate(self.comm.allgather(np.array(v)))
            out = (self.M @ full)[self.split[self.comm.rank]: self.split[self.comm.rank + 1]]
        if self.broken is not None and self.n >= self.broken:
            out = out * np.nan
        return out

    __call__ = matvec


def concrete(R, fg, gc, nl, go, mv):
    rng = np.random.default_rng(100 + R.seed)

    def split(n, ranks):
        cuts = sorted(int(x) for x in rng.choice(np.arange(24, n - 23), ranks - 1, replace=False)) if ranks > 1 else []
        # every part needs more rows than the restart length
        s = [0] + [int(round(i * n / ranks)) + int(rng.integers(-3, 4)) * (0 < i < ranks) for i in range(1, ranks)] + [n]
        return s

    def ops(ck):
        for trial in range(60 if R.thorough else 12):
            ranks = [1, 2, 4, 6][trial % 4]
            n = 40 * ranks
            s = split(n, ranks)
            a, b = rng.normal(size=n) * 10.0 ** rng.integers(-3, 4), rng.normal(size=n)
            ck.case(ranks=ranks, parts=s)

            def body(rank, comm):
                d = load.device(comm=comm)
                la, lb = a[s[rank]: s[rank + 1]], b[s[rank]: s[rank + 1]]
                return float(go.global_norm(la, d)), float(go.global_dotprod(la, lb, comm)), float(go.global_inf_norm(la, comm))

            got, _ = fakempi.run_world(ranks, body)
            for v, e in got:
                if e is not None:
                    raise e
                ck.check("global norm", np.isclose(v[0], np.linalg.norm(a), rtol=1e-12))
                ck.check("global dot product", abs(v[1] - a @ b) < 1e-10 * np.linalg.norm(a) * np.linalg.norm(b))
                ck.check("global infinity norm", v[2] == np.max(np.abs(a)))

    R.concrete("global operations on several processes", ops, bound="random vectors on 1-6 processes")

    def fgm(ck):
        for trial in range(80 if R.thorough else 20):
            ranks = [1, 4, 2, 1][trial % 4]
            n = [60, 160, 90, 40][trial % 4]
            s = split(n, ranks)
            hard = trial % 5 == 4
            M = (np.eye(n) * (1 + rng.random()) + rng.normal(size=(n, n)) * (0.6 if not hard else 4) / math.sqrt(n)) * 10.0 ** rng.integers(-2, 3)
            b = rng.normal(size=n)
            x0 = rng.normal(size=n) if trial % 3 else None
            restart = [20, 7, 12, 25][trial % 4]
            tol = [1e-5, 1e-9, 1e-12, 1e-2][(trial // 4) % 4]
            maxiter = [1, 3, 40, 2][(trial // 2) % 4]
            D = np.diag(1 + 0.3 * rng.random(n)) if trial % 2 else None
            heg = x0 is not None and trial % 7 == 1
            ck.case(ranks=ranks, n=n, restart=restart, maxiter=maxiter, tol=tol, hard=hard, guess=x0 is not None, preconditioner=D is not None, seed=R.seed, trial=trial)

            def body(rank, comm):
                d = load.device(comm=comm)
                sl = slice(s[rank], s[rank + 1])
                op = Op(M, comm, s) if ranks > 1 else Op(M)
                pre = None if D is None else (lambda v: np.diag(D)[sl] * v)
                lb, lx = b[sl].copy(), None if x0 is None else x0[sl].copy()
                out = fg.fgmres(op, lb, x0=lx, tol=tol, restart=restart, maxiter=maxiter, preconditioner=pre, hegedus=heg, device=d)
                return out + (np.array_equal(lb, b[sl]) and (lx is None or np.array_equal(lx, x0[sl])),)

            with sims.quiet():
                got, _ = fakempi.run_world(ranks, body)
            for v, e in got:
                if e is not None:
                    raise e
            x = np.concatenate([v[0] for v, _ in got])
            true = np.linalg.norm(b - M @ x)
            for v, _ in got:
                nr, nb, it, flag, res = v[1:6]
                ck.check("the reported residual is the norm of b - A x", abs(nr - true) < 1e-9 * np.linalg.norm(b) * max(1, np.linalg.norm(M, 2)), lambda: (float(nr), float(true)))
                ck.check("the reported norm of b", np.isclose(nb, np.linalg.norm(b), rtol=1e-12))
                ck.check("flag 0 exactly when converged", (flag == 0) == (nr < tol * nb), lambda: (flag, float(nr), tol * nb))
                ck.check("history ends with the reported residual", np.isclose(res[-1][0], nr / nb))
                r0 = b if x0 is None else b - M @ x0
                if not heg:
                    ck.check("history starts with the initial residual", np.isclose(res[0][0], np.linalg.norm(r0) / np.linalg.norm(b), rtol=1e-10))
                ck.check("the residual never grows", all(p[0] >= q[0] * (1 - 1e-6) - 1e-12 for p, q in zip(res, res[1:])), lambda: [float(p[0]) for p in res])
                ck.check("inputs untouched", v[6])
            nr, nb, it, flag, res = got[0][0][1:6]
            if not hard and maxiter == 40:
                ck.check("a well-conditioned system is solved", flag == 0, lambda: float(nr / nb))
            if not hard:
                # one cycle gives the smallest residual over the Krylov space
                if maxiter == 1 or it <= restart:
                    P = np.eye(n) if D is None else D
                    r0 = (b - M @ x0) if x0 is not None else b
                    if not heg:
                        K = [r0 / np.linalg.norm(r0)]
                        for _ in range(it - 1):
                            w = M @ (P @ K[-1])
                            for k in K:
                                w -= k * (k @ w)
                            for k in K:
                                w -= k * (k @ w)
                            K.append(w / np.linalg.norm(w))
                        W = M @ P @ np.array(K).T
                        y = np.linalg.lstsq(W, r0, rcond=None)[0]
                        best = np.linalg.norm(r0 - W @ y)
                        ck.check("a cycle gives the smallest residual in its Krylov space", nr <= best * 1.001 + 1e-9 * nb, lambda: (float(nr), float(best)))

    R.concrete("fgmres on random systems", fgm, bound="systems of 40-160 unknowns on 1-4 processes")

    def parts(ck):
        """systems whose parts converge at different rates on different processes: everyone leaves together"""
        for ranks in (2, 3, 4):
            for done in range(ranks):
                for how in ("solved", "zero"):
                    n = 40
                    ck.case(ranks=ranks, finished=done, how=how, seed=R.seed)

                    def body(rank, comm):
                        g = np.random.default_rng([R.seed, rank])
                        M = np.diag(2.0 ** g.integers(-2, 3, n)) if rank == done else np.eye(n) * 3 + g.normal(size=(n, n)) * 0.3
                        x = g.integers(1, 9, n) * (0.0 if rank == done and how == "zero" else 0.25)
                        b = M @ x
                        out = fg.fgmres(lambda v: M @ v, b, x0=x.copy() if rank == done else np.zeros(n), tol=1e-9, restart=4, maxiter=40, device=load.device(comm=comm))
                        return out, M, b

                    with sims.quiet():
                        got = fakempi.values(ranks, body)
                    true = math.sqrt(sum(float(np.sum((b - M @ o[0]) ** 2)) for o, M, b in got))
                    for o, M, b in got:
                        ck.check("every process reports the same outcome", (o[3], o[4]) == (got[0][0][3], got[0][0][4]) and np.isclose(o[1], got[0][0][1]), (o[3], o[4]))
                        ck.check("the system is solved", o[4] == 0 and np.isclose(o[1], true, rtol=1e-6), (o[4], float(o[1]), true))

    R.concrete("fgmres with a part that is already solved", parts, bound="2-4 processes")

    def corner(ck):
        n = 50
        M = np.eye(n) + rng.normal(size=(n, n)) * 0.5 / math.sqrt(n)
        xs = np.round(rng.normal(size=n) * 8) / 8
        d = load.device()
        ck.case(corner="zero right-hand side")
        x, nr, nb, it, flag, res = fg.fgmres(Op(M), np.zeros(n), x0=xs.copy(), device=d)
        ck.check("zero right-hand side gives zero", np.all(x == 0) and nr == 0 and flag == 0)
        Mi = np.triu(np.round(M * 16) / 16) + np.eye(n)
        b = Mi @ xs
        ck.case(corner="exact guess")
        x, nr, nb, it, flag, res = fg.fgmres(Op(Mi), b, x0=xs.copy(), device=d)
        ck.check("an exact guess is the solution", np.allclose(x, xs, atol=1e-12) and flag == 0, lambda: (flag, nr))
        for at in range(1, 26):
            ck.case(corner="the operator gives NaN from call", call=at)
            try:
                with np.errstate(all="ignore"):
                    x, nr, nb, it, flag, res = fg.fgmres(Op(M, broken=at), rng.normal(size=n), maxiter=1, restart=20, tol=1e-13, device=d)
            except (ValueError, ArithmeticError, np.linalg.LinAlgError):
                continue
            ck.check("NaN is never reported as converged", flag != 0 or (np.isfinite(nr) and nr < 1e-13 * nb), lambda: (flag, float(nr)))

    R.concrete("fgmres corner cases", corner, bound="zero right-hand side, exact guess, NaN from each operator call")

    gcr = getattr(gc, "gcrot", None)
    if gcr is not None:
        def g1(ck):
            n = 60
            for trial in range(30 if R.thorough else 8):
                M = np.eye(n) + 0.5 * rng.normal(size=(n, n)) / math.sqrt(n) * (1 + trial % 3)
                b = rng.normal(size=n)
                tol = [1e-8, 1e-4][trial % 2]
                mi = [60, 2, 60, 1][trial % 4]
                ck.case(solver="gcrot", history=trial, tol=tol, maxiter=mi, seed=R.seed)
                b0 = b.copy()
                g0 = rng.normal(size=n)
                g1_ = g0.copy()
                x, beta, it, flag, _ = gcr(Op(M), b, x0=g1_ if trial % 2 else None, tol=tol, maxiter=mi, m=20 if mi > 2 else 4)
                true = np.linalg.norm(b - M @ x) / np.linalg.norm(b)
                ck.check("convergence is reported only below the tolerance", flag != 0 or true <= tol * 1.01, lambda: (flag, float(true), tol))
                ck.check("a well-conditioned system is solved", flag == 0 or mi < 60, lambda: (flag, float(true)))
                if flag == 0:
                    ck.check("the reported residual is the norm of b - A x", abs(beta / np.linalg.norm(b) - true) < 1e-10)
                ck.check("inputs untouched", np.array_equal(b, b0) and np.array_equal(g0, g1_))

        R.concrete("gcrot on a sequence of systems", g1, bound="8 systems of 60 unknowns in sequence, one process")

        def g2(ck):
            n = 80
            s = [0, 40, 80]
            M = np.eye(n) + 0.4 * rng.normal(size=(n, n)) / math.sqrt(n)
            b = rng.normal(size=n)
            ck.case(solver="gcrot", processes=2)

            def body(rank, comm):
                gcr.__dict__.pop("CU", None)
                return gcr(Op(M, comm, s), b[s[rank]: s[rank + 1]].copy(), tol=1e-8, maxiter=30)

            ok, what = False, ""
            try:
                with sims.quiet(), np.errstate(all="ignore"):
                    got, _ = fakempi.run_world(2, body, timeout=20)
                x = np.concatenate([v[0] for v, _ in got])
                what = float(np.linalg.norm(b - M @ x) / np.linalg.norm(b))
                ok = what < 1e-6 or any(v[3] != 0 for v, _ in got)
            except Exception as e:
                what = f"{type(e).__name__}: {e}"
            ck.check("convergence is reported only below the tolerance", ok, lambda: what)

        R.concrete("gcrot on two processes", g2, bound="one system")

    def newt(ck):
        for trial in range(24 if R.thorough else 8):
            ranks = [1, 4][trial % 2]
            n = 50 * ranks
            s = split(n, ranks)
            M = np.eye(n) * 1.5 + rng.normal(size=(n, n)) * 0.4 / math.sqrt(n)
            a = rng.normal(size=n)
            f_tol = [1e-6, 1e-9][trial % 2]
            ls = ["armijo", None, "wolfe"][trial % 3]
            F = lambda x: M @ x + 0.3 * np.sin(x) + a
            ck.case(ranks=ranks, line_search=ls, f_tol=f_tol, seed=R.seed, trial=trial)
            x0 = rng.normal(size=n)

            def body(rank, comm):
                sl = slice(s[rank], s[rank + 1])

                def fl(v):
                    if ranks == 1:
                        return F(v.ravel()).reshape(v.shape)
                    full = np.concatenate(comm.allgather(np.array(v.ravel())))
                    return F(full)[sl].reshape(v.shape)

                lx = x0[sl].reshape(1, -1).copy()
                out = nl.newton_krylov(fl, lx, f_tol=f_tol, line_search=ls)
                return out + (np.array_equal(lx.ravel(), x0[sl]),)

            with sims.quiet():
                got, _ = fakempi.run_world(ranks, body)
            for v, e in got:
                if e is not None:
                    raise e
            x = np.concatenate([v[0].ravel() for v, _ in got])
            ck.check("the solution satisfies the equations to the tolerance", np.max(np.abs(F(x))) <= f_tol * 1.0001, lambda: float(np.max(np.abs(F(x)))))
            for v, _ in got:
                ck.check("same number of iterations everywhere", v[1] == got[0][0][1])
                ck.check("shape kept, guess untouched", v[0].ndim == 2 and v[3])

    R.concrete("newton_krylov on random nonlinear systems", newt, bound="8 systems of 50-200 unknowns on 1 and 4 processes")

    def jac(ck):
        for trial in range(10):
            n = 30
            A = rng.normal(size=(n, n))
            f = lambda Q: (A @ np.sin(Q.ravel()) + Q.ravel() ** 3).reshape(Q.shape)
            q = rng.normal(size=(2, 15))
            v = rng.normal(size=n)
            dt = float(10.0 ** rng.integers(-3, 3))
            J = A @ np.diag(np.cos(q.ravel())) + np.diag(3 * q.ravel() ** 2)
            ck.case(trial=trial, dt=dt, seed=R.seed)
            e1 = np.max(np.abs(mv.matvec_fun(v, dt, q, f(q), f, "complex") - dt * J @ v)) / dt
            e2 = np.max(np.abs(mv.matvec_fun(v, dt, q, f(q), f, "fd") - dt * J @ v)) / dt
            e3 = np.max(np.abs(mv.matvec_rat(v, dt, q, f(q), f) - (v - 0.5 * dt * J @ v))) / dt
            ck.check("complex-step product", e1 < 1e-9 * 100, lambda: e1)
            ck.check("finite-difference product", e2 < 0.05, lambda: e2)
            ck.check("product with I - dt/2 J", e3 < 0.05, lambda: e3)

    R.concrete("Jacobian products of a smooth function", jac, bound="10 random functions of 30 variables")
