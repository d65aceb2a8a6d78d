"""C12: exponential solvers return the phi-function combination they are asked for."""

import math
import types

import numpy as np
import scipy.linalg

from ..core import *
from .. import core, fakempi, load, sims
from ..fn import UFun, everywhere, alleq, flat, same
from ..load import imp, need, inject, HarnessGap, XPS
from .c11 import SFun

KRYLOV = ["kiops", "kiops_nest", "pmex", "pmex_1s", "pmex_ne1s", "cwy_1s", "cwy_ne", "cwy_ne1s", "icwy_1s", "icwy_ne",
          "icwy_ne1s", "icwy_neiop", "dcgs2"]


def phi(tau, A, u):
    """sum_j tau^j phi_j(tau A) u_j, by the exponential of the augmented matrix"""
    p, n = u.shape[0] - 1, u.shape[1]
    out = []
    for t in tau:
        M = np.zeros((n + p, n + p))
        M[:n, :n] = A
        for k in range(p):
            M[:n, n + k] = u[p - k]
        for k in range(p - 1):
            M[n + k, n + k + 1] = 1
        v = np.zeros(n + p)
        v[:n] = u[0]
        if p:
            v[-1] = 1
        out.append((scipy.linalg.expm(t * M) @ v)[:n])
    return np.array(out)


def run(R):
    S = imp("solvers")
    ex = imp("solvers.exode")
    rk = imp("integrators.explicit_runge_kutta")
    bt = imp("integrators.butcher")
    RK = need(rk, "RungeKutta")
    need(RK, "step", "_step_impl", "_reassess_stepsize")
    R.under_contract("exode", "RungeKutta.step", "RungeKutta._step_impl", "RungeKutta._reassess_stepsize", "Krylov solvers (bounded): " + ", ".join(KRYLOV))
    R.trust("scipy.linalg.expm")
    R.assume("mathematical reals in the symbolic part; tau positive and increasing")

    # ------------------------------------------------------------------------------------------ Runge-Kutta integrator
    def stepsize(c):
        o = RK.__new__(RK)
        o.h, o.t_bound, o.max_step, o.h_min_a, o.h_min_b = (real(k) for k in ("h", "t_bound", "max_step", "h_min_a", "h_min_b"))
        t = real("t")
        o.standard_sc = False
        c.assume(AND(o.h > 0, t >= 0, o.h_min_a > 0, o.h_min_b > 0, t < o.t_bound))
        h0 = o.h
        with inject(rk, numpy_too=True):
            h, mn = o._reassess_stepsize(t)
        c.assume(o.max_step >= mn)
        d = o.t_bound - t
        c.prove("the step is positive", h > 0)
        c.prove("the step never passes the end", t + h <= o.t_bound)
        c.prove("the step is not above its maximum", h <= o.max_step)
        c.prove("no needlessly short step", OR(h >= h0, EQ(h, d), EQ(h, d / 2), h >= mn, EQ(h, o.max_step)))
        c.prove("a step that reaches the end reaches it exactly", IMP(AND(d <= h0, h0 >= mn, h0 <= o.max_step), EQ(h, d)))

    R.symbolic("step size near the end", stepsize)

    def stages(s, fsal):
        def body(c):
            n = 2
            A = np.zeros((s, s), dtype=object)
            for i in range(s):
                for j in range(i):
                    A[i, j] = real(f"A{i}{j}")
            B, C, E = real_array("B", (s,)), real_array("C", (s,)), real_array("E", (s + 1,))
            if not fsal:
                E[s] = 0
            f = UFun(c, "f")

            def fun(t, y):
                v = np.empty(n + 1, dtype=object)
                v[0], v[1:] = t, y
                return f(v)[1:]

            y, t, tb, h0 = real_array("y", (n,)), real("t"), real("t_bound"), real("h")
            c.assume(AND(t >= 0, tb > t, h0 > 0))
            N = SFun(c, "N")
            o = RK.__new__(RK)
            o.n_stages, o.A, o.B, o.C, o.E = s, A, B, C, E
            o.t, o.y, o.t_bound, o.h, o.n = t, y, tb, h0, n
            o.fun = o._fun = fun
            o.f = fun(t, y)
            o.K = np.empty((s + 1, n), dtype=object)
            o.K[:] = 0
            o.FSAL = 1 if fsal else 0
            o.h_previous = o.y_old = None
            o.failed_steps = o.num_of_steps = o.nfev = 0
            o.atol, o.rtol = real("atol"), real("rtol")
            c.assume(AND(o.atol > 0, o.rtol > 0))
            o.error_exponent, o.minbeta1, o.minbeta2, o.minalpha = -1, -1, 0, 0
            o.safety = o.safety_sc = real("safety")
            o.standard_sc, o.error_norm_old, o.tiny_err, o.status = True, None, real("tiny"), "running"
            min_step = real("min_step")
            used = []
            lim = []

            def reassess(tt):
                c.prove("the step size is chosen for the current time", EQ(tt, t))
                return h0, min_step

            o._reassess_stepsize = reassess

            def limiter(u, k):
                v = real(f"lim{len(lim)}")
                c.assume(v > 0)
                lim.append(v)
                return v

            tries = [0]

            def norm(v, *a, **k):
                tries[0] += 1
                r = N(v)
                if tries[0] >= 2 and not used:
                    c.assume(OR(r < 1, SBool(tries[0] == 2)))
                return r

            pairs = [(imp("solvers.global_operations").global_inf_norm, norm)]
            if callable(getattr(rk, "limiter", None)):
                pairs.append((rk.limiter, limiter))
            quiet = types.SimpleNamespace(error=lambda *a, **k: None, warning=lambda *a, **k: None, info=lambda *a, **k: None, debug=lambda *a, **k: None)
            with everywhere(pairs), inject(rk, numpy_too=True, logging=quiet):
                y_in, f_in = y.copy(), o.f.copy()
                ok = o._step_impl()
            if not ok:
                c.prove("a failed step leaves time and state", AND(EQ(o.t, t), alleq(o.y, y_in)))
                raise core.PathEnd
            if not tries[0]:
                raise HarnessGap("the error norm is not computed by global_inf_norm")
            h = o.t - t
            K = [f_in]
            for i in range(1, s):
                K.append(fun(t + C[i] * h, y_in + h * sum((A[i, j] * K[j] for j in range(i)), np.zeros(n, dtype=object))))
            new = y_in + h * sum((B[i] * K[i] for i in range(s)), np.zeros(n, dtype=object))
            for i in range(n):
                c.prove(f"the new state is the Runge-Kutta combination of its stages [{i}]", EQ(o.y[i], new[i]))
            fnew = fun(o.t, o.y)
            for i in range(n):
                c.prove(f"the derivative kept for the next step is that of the new time and state [{i}]", EQ(o.f[i], fnew[i]))
            KE = K + ([fnew] if fsal else [])
            err = h * sum((E[i] * KE[i] for i in range(len(KE))), np.zeros(n, dtype=object))
            hit = [v for w, v in N.calls if same(c, w * (o.atol + np.array([sym_max(abs(a), abs(b)) for a, b in zip(y_in, o.y)], dtype=object) * o.rtol), err)]
            c.prove("accepted only with an estimated error below the tolerance", OR(SBool(False), *[v < 1 for v in hit]))
            c.prove("the old state is not changed", alleq(y, y_in))

        return body

    for s in (1, 2, 3):
        for fsal in (False, True):
            R.symbolic(f"Runge-Kutta step, {s} stages, fsal={fsal}", stages(s, fsal), max_paths=600, budget_s=60)

    def status(c):
        o = RK.__new__(RK)
        o.t, o.t_bound, o.n, o.status, o.t_old = real("t"), real("t_bound"), 3, "running", None
        c.assume(o.t <= o.t_bound)
        t, new, good = o.t, real("t_new"), boolean("success")
        c.assume(AND(new > t, new <= o.t_bound))

        def impl():
            if good:
                o.t = new
                return True
            return False

        o._step_impl = impl
        quiet = types.SimpleNamespace(error=lambda *a, **k: None)
        with inject(rk, logging=quiet):
            o.step()
        c.prove("finished exactly at the end", EQ(o.status == "finished", o.t >= o.t_bound) if o.status != "failed" else NOT(good))
        c.prove("failed exactly when the step failed", IMP(SBool(o.status == "failed"), NOT(good)))
        if o.status == "finished":
            try:
                o.step()
                c.prove("no step after the end", SBool(False))
            except RuntimeError:
                c.prove("no step after the end", SBool(True))

    R.symbolic("Runge-Kutta status", status)

    # ----------------------------------------------------------------------------------------------------------- exode
    def exo(p):
        def body(c):
            n = 2
            A = UFun(c, "A")
            u = real_array("u", (p + 1, n))
            u_in = u.copy()
            t, x = real("t"), real_array("x", (n,))
            got = {}

            class Rec:
                def __init__(self, fun, t0, y0, tf, **k):
                    got.update(fun=fun, t0=t0, y0=np.array(y0, dtype=object), tf=tf, k=k)
                    self.status, self.t, self.t_old, self.y = "running", 0.0, 0.0, None
                    self.nfev = self.failed_steps = self.error_estimation = self.error_norm_old = self.h_previous = self.h = 0

                def step(self):
                    self.t_old, self.t = self.t, self.t + 0.5
                    self.y = real_array(f"Y{int(self.t * 2)}", (n,))
                    got["y"] = self.y
                    self.status = "finished" if self.t >= 1 else "running"

            old = dict(bt.METHODS)
            name = "ZZREC"
            bt.METHODS[name] = Rec
            fs = getattr(ex.exode, "first_step", None)
            try:
                with inject(ex, numpy_too=True), core.simple_floats():
                    w, st = ex.exode(1.0, A, u, method=name)
                    val = got["fun"](t, x.copy())
                    val2 = got["fun"](t, x.copy())
            finally:
                bt.METHODS.pop(name, None)
                if fs is None:
                    ex.exode.__dict__.pop("first_step", None)
                else:
                    ex.exode.first_step = fs
            with core.simple_floats():
                Ax = A(x)
                for i in range(n):
                    want = Ax[i]
                    for j in range(p):
                        want = want + t**j / math.factorial(j) * u_in[j + 1, i]
                    c.prove(f"the derivative is A x + sum_j t^j/j! u_j+1 [{i}]", EQ(val[i], want))
                    c.prove(f"evaluating it again gives the same [{i}]", EQ(val2[i], want))
            c.prove("from u_0 at 0 to 1", AND(alleq(got["y0"], u_in[0]), SBool(got["t0"] == 0.0 and got["tf"] == 1.0)))
            c.prove("the result is the state at the end", alleq(w, got["y"]))
            c.prove("the vectors are not changed", alleq(u, u_in))

        return body

    for p in (0, 1, 2, 4):
        R.symbolic(f"exode, p={p}", exo(p))

    bounded(R, S, ex, bt)


def bounded(R, S, ex, bt):
    rng = np.random.default_rng(R.seed)

    def solve(name, A, u, tau, ranks, tol, **kw):
        n = A.shape[0]
        f = getattr(S, name)
        cuts = [int(round(i * n / ranks)) for i in range(ranks + 1)]

        def body(r, comm):
            sl = slice(cuts[r], cuts[r + 1])

            def mv(v):
                if ranks == 1:
                    return A @ v
                return (A @ np.concatenate(comm.allgather(np.array(v))))[sl]

            k = dict(kw)
            if name in ("kiops", "pmex"):
                k["device"] = load.device(comm=comm)
            lu = u[:, sl].copy()
            keep = lu.copy()
            w, st = f(list(tau), mv, lu, tol=tol, **k)
            return np.atleast_2d(np.array(w, dtype=float)), st, np.array_equal(lu, keep)

        with sims.quiet(), np.errstate(all="ignore"):
            got, _ = fakempi.run_world(ranks, body)
        for v, e in got:
            if e is not None:
                raise e
        return np.concatenate([v[0] for v, _ in got], axis=1), [v[1] for v, _ in got], all(v[2] for v, _ in got)

    n = 72
    base = rng.normal(size=(n, n)) / math.sqrt(n)
    skew = base - base.T
    lap = -(np.diag(2 * np.ones(n)) - np.diag(np.ones(n - 1), 1) - np.diag(np.ones(n - 1), -1))
    low = np.outer(rng.normal(size=n), rng.normal(size=n)) / n
    cases = [
        ("plain, one vector", base, 1, [1.0], 1, {}),
        ("only the exponential", base * 2, 0, [1.0], 1, {}),
        ("four vectors", base * 3, 4, [1.0], 4, {}),
        ("several output times", base * 2, 3, [0.25, 0.6, 1.0], 1, {}),
        ("small Krylov space: many substeps", base * 12, 3, [1.0], 4, {"mmax": 16}),
        ("many substeps, several output times", base * 12, 3, [0.3, 0.45, 1.0], 1, {"mmax": 16}),
        ("longer interval", base * 5, 2, [2.5], 1, {"mmax": 20}),
        ("diffusion", lap * 10, 2, [1.0], 1, {"mmax": 30}),
        ("oscillation", skew * 6, 2, [0.5, 1.0], 4, {"mmax": 30}),
        ("zero first vector", base * 3, 2, [1.0], 2, {}),
        ("zero operator", base * 0, 3, [0.5, 1.0], 1, {}),
        ("operator of rank one", low, 2, [1.0], 1, {}),
        ("multiple of the identity", np.eye(n) * -0.5, 1, [1.0], 2, {}),
        ("two eigenvalues", np.diag(np.where(np.arange(n) < 40, -1.0, -2.0)), 1, [1.0], 1, {}),
        ("two eigenvalues, three vectors", np.diag(np.where(np.arange(n) < 30, -1.0, 0.5)), 2, [0.4, 1.0], 4, {}),
        ("large vectors", base * 2, 2, [1.0], 1, {}),
        ("six vectors, many substeps", base * 12, 6, [0.55, 1.0], 1, {"mmax": 18}),
        ("divided by the times", base * 3, 2, [0.25, 0.5, 1.0], 2, {"task1": True}),
    ]

    def krylov(name):
        def body(ck):
            if not callable(getattr(S, name, None)):
                raise HarnessGap(f"{name} is gone")
            tol = 1e-9
            for label, A, p, tau, ranks, kw in cases:
                u = rng.normal(size=(p + 1, n))
                if "zero first" in label:
                    u[0] = 0
                if "large" in label:
                    u *= 1e6
                ck.case(solver=name, case=label, p=p, tau=tau, processes=ranks, seed=R.seed, **kw)
                w, st, frame = solve(name, A, u, tau, ranks, tol if "large" not in label else 1e-3, **kw)
                ref = phi(tau, A, u)
                if kw.get("task1"):
                    ref = ref / np.reshape(tau, (-1, 1))
                sc = np.max(np.abs(ref))
                ck.check("one row per output time", w.shape == ref.shape, lambda: w.shape)
                err = float(np.max(np.abs(w - ref)) / sc)
                ck.check("the phi combination at every output time", err < 2e-7, lambda: f"relative error {err:.2e}")
                ck.check("the vectors are not changed", frame)
                ck.check("finite statistics, the same on every process", all(np.array_equal(np.asarray(s, dtype=float)[:4], np.asarray(st[0], dtype=float)[:4]) for s in st))
            if R.thorough:
                for trial in range(30):
                    p = int(rng.integers(0, 5))
                    ranks = int(rng.choice([1, 2, 4]))
                    A = base * float(rng.uniform(0.1, 15)) + skew * float(rng.uniform(0, 5))
                    k = int(rng.integers(1, 4))
                    tau = sorted(float(x) for x in rng.uniform(0.1, 1, k))
                    u = rng.normal(size=(p + 1, n)) * 10.0 ** rng.integers(-2, 2)
                    mmax = int(rng.choice([14, 24, 64]))
                    ck.case(solver=name, random=trial, p=p, tau=tau, processes=ranks, mmax=mmax, seed=R.seed)
                    w, st, frame = solve(name, A, u, tau, ranks, 1e-10 * np.max(np.abs(u)), mmax=mmax)
                    ref = phi(tau, A, u)
                    err = float(np.max(np.abs(w - ref)) / np.max(np.abs(ref)))
                    ck.check("the phi combination at every output time", err < 2e-7, lambda: f"relative error {err:.2e}")

        return body

    for name in KRYLOV:
        R.concrete(f"{name} against dense phi functions", krylov(name), bound=f"{len(cases)} problems of {n} unknowns, 1-4 processes", budget_s=60 if not R.thorough else 300)

    def exo(ck):
        fs = getattr(ex.exode, "first_step", None)
        methods = list(bt.METHODS)
        for m in methods:
            hi = bt.METHODS[m].order >= 8
            for p in (1, 3, 5):
                A = base * 2
                u = rng.normal(size=(p + 1, n))
                ck.case(solver="exode", method=m, p=p, seed=R.seed)
                ex.exode.__dict__.pop("first_step", None)
                keep = u.copy()
                tol = 1e-7
                with sims.quiet():
                    w, st = ex.exode(1.0, lambda v: A @ v, u, method=m, rtol=tol, atol=tol)
                ref = phi([1.0], A, u)[0]
                err = float(np.max(np.abs(w - ref)) / np.max(np.abs(ref)))
                ck.check("the phi combination at the end", err < 2e-5, lambda: f"relative error {err:.2e}")
                ck.check("the vectors are not changed", np.array_equal(u, keep))
                with sims.quiet():
                    w2, _ = ex.exode(1.0, lambda v: A @ v, u, method=m, rtol=tol, atol=tol)
                err = float(np.max(np.abs(w2 - ref)) / np.max(np.abs(ref)))
                ck.check("again, with the remembered first step", err < 2e-5, lambda: f"relative error {err:.2e}")
        # the vector spread over several processes, one of them with a much rougher part
        for m in methods:
            for ranks in (2, 3):
                p = 2
                cuts = [0, 40, n] if ranks == 2 else [0, 10, 50, n]
                D = np.diag(np.where(np.arange(n) < cuts[1], 0.0, -np.linspace(1, 60, n)))
                u = rng.normal(size=(p + 1, n))
                ck.case(solver="exode", method=m, p=p, processes=ranks, seed=R.seed)
                ex.exode.__dict__.pop("first_step", None)
                tol = 1e-7

                def body(r, comm):
                    sl = slice(cuts[r], cuts[r + 1])
                    return ex.exode(1.0, lambda v: D[sl, sl] @ v, u[:, sl].copy(), method=m, rtol=tol, atol=tol)

                with sims.quiet():
                    got = fakempi.values(ranks, body)
                ref = phi([1.0], D, u)[0]
                w = np.concatenate([np.ravel(g[0]) for g in got])
                err = float(np.max(np.abs(w - ref)) / np.max(np.abs(ref)))
                ck.check("the phi combination at the end", err < 2e-5, lambda: f"relative error {err:.2e}")
                ck.check("every process takes the same steps", all(same_stats(g[1], got[0][1]) for g in got), lambda: [g[1] for g in got])
        if fs is None:
            ex.exode.__dict__.pop("first_step", None)
        else:
            ex.exode.first_step = fs

    def same_stats(a, b):
        try:
            return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        except (TypeError, ValueError):
            return True

    R.concrete("exode against dense phi functions", exo, bound="every Runge-Kutta method, p = 1, 3 and 5, 72 unknowns, 1-3 processes")
