"""C10: every time integrator advances the state by the scheme its name promises."""

import copy
import itertools
import math
from fractions import Fraction as F

import numpy as np
import scipy.linalg
import z3

from ..core import *
from .. import core, fakempi, sims, load
from ..fn import UFun, everywhere, alleq, flat, same
from ..load import imp, need, inject, HarnessGap, Gap, XPS

SOLVER_OF = {"pmex_ne": "pmex", "kiops_ne": "kiops_nest"}
EXP = ["kiops", "kiops_nest", "pmex", "pmex_1s", "pmex_ne1s", "cwy_1s", "cwy_ne", "cwy_ne1s", "icwy_1s", "icwy_ne",
       "icwy_ne1s", "icwy_neiop", "dcgs2", "exode"]


class Rig:
    """Callees of the integrators replaced by their contracts."""

    def __init__(self, c):
        self.c = c
        self.S = imp("solvers")
        self.newton, self.lin, self.exp, self.count = [], [], [], 0
        self.methods = set()
        pairs = []
        for name in EXP:
            f = getattr(self.S, name, None)
            if callable(f):
                pairs.append((f, self.exp_stub(name)))
        pairs.append((need(self.S, "newton_krylov"), self.newton_stub))
        pairs.append((need(self.S, "fgmres"), self.fgmres_stub))
        pairs.append((need(self.S, "matvec_fun"), self.matvec_fun))
        pairs.append((need(self.S, "matvec_rat"), self.matvec_rat))
        self.pairs = pairs
        self.flag = 0

    def vec(self, shape, name):
        self.count += 1
        return real_array(f"{name}{self.count}_", shape)

    def newton_stub(self, Fn, x0, *a, **k):
        Y = self.vec(np.shape(x0), "Y")
        res = Fn(Y)
        self.newton.append((Y, res))
        for r in flat(res):
            self.c.assume(EQ(r, 0))
        return Y.copy(), 1, [(0.0, 0.0, 0.0)]

    def fgmres_stub(self, A, b, *a, **k):
        X = self.vec(np.shape(b), "X")
        for l, r in zip(flat(A(X)), flat(b)):
            self.c.assume(EQ(l, r))
        self.lin.append((X, k))
        return X.copy(), 0.0, 1.0, 1, self.flag, [(0.0, 0.0, 0.0)]

    def matvec_fun(self, vec, dt, Q, rhs, rhs_handle, method="complex", *a, **k):
        handle = rhs_handle
        if not isinstance(handle, UFun):
            raise HarnessGap("Jacobian of something else than the right-hand side")
        self.check_rhs(handle, Q, rhs)
        self.methods.add(method)
        return dt * handle.J(Q, vec)

    def matvec_rat(self, vec, dt, Q, rhs, rhs_handle, *a, **k):
        handle = rhs_handle
        if not isinstance(handle, UFun):
            raise HarnessGap("Jacobian of something else than the right-hand side")
        self.check_rhs(handle, Q, rhs)
        v = np.asarray(vec, dtype=object).ravel()
        return v - dt * handle.J(Q, v) / 2

    def check_rhs(self, handle, Q, rhs):
        """precondition of the Jacobian products: rhs is the right-hand side at Q"""
        if not same(self.c, handle(Q), rhs):
            self.c.prove("the Jacobian product gets the right-hand side of its state", alleq(handle(Q), rhs))

    def exp_stub(self, name):
        def stub(tau, A, u, *a, **k):
            u = np.array(u, dtype=object)
            n = u.shape[1]
            one = name == "exode"
            taus = [1.0] if np.ndim(tau) == 0 else [float(t) for t in tau]
            w = self.vec((len(taus), n), "w")
            self.exp.append({"name": name, "tau": taus, "A": A, "u": u, "w": w, "kw": k})
            stats = (1, 0, 1, 1, 0.0, 4, 1, 1)
            return (w[0].copy() if one else w.copy()), stats

        return stub

    def __enter__(self):
        self.mods = [imp(m) for m in ("integrators.integrator", "integrators.euler1", "integrators.tvdrk3", "integrators.backward_euler",
                                      "integrators.bdf2", "integrators.crank_nicolson", "integrators.imex2", "integrators.ros2",
                                      "integrators.rosexp2", "integrators.partrosexp2", "integrators.splitting", "integrators.epi",
                                      "integrators.epi_stiff", "integrators.srerk", "solvers.matvec")]
        self.ev = everywhere(self.pairs)
        self.ev.__enter__()
        self.inj = inject(*self.mods, numpy_too=True, print=lambda *a, **k: None)
        self.inj.__enter__()
        self.sf = core.simple_floats()
        self.sf.__enter__()
        return self

    def __exit__(self, *a):
        self.sf.__exit__()
        self.inj.__exit__()
        self.ev.__exit__()


_cfg = None


def config(**over):
    global _cfg
    if _cfg is None:
        _cfg = sims.config("sw")
    cfg = copy.copy(_cfg)
    for k, v in over.items():
        setattr(cfg, k, v)
    return cfg


def step(I, Q, dt):
    """One step through the public interface; the state given to it stays as it was"""
    keep = Q.copy()
    y = I.step(Q, dt)
    if not all(a is b for a, b in zip(flat(Q), flat(keep))):
        core.ctx().prove("the state given to the step is left unchanged", alleq(Q, keep))
    return y


def after(c, rig, o, shape, dt, done):
    """[done] earlier steps from other states: a one-step scheme keeps nothing of them"""
    for i in range(done):
        step(o, real_array(f"p{i}_", shape), dt)
    if rig is not None:
        rig.newton.clear()
        rig.lin.clear()
        rig.exp.clear()
    return o


def solver_names():
    f = next((f for f in sims.fields() if f["name"] == "exponential_solver"), None)
    names = list(f.get("selectables") or f.get("selectable") or []) if f else []
    return names


def run(R):
    I = imp("integrators")
    need(I, "Euler1", "Tvdrk3", "BackwardEuler", "Bdf2", "CrankNicolson", "Imex2", "Ros2", "RosExp2", "PartRosExp2",
         "StrangSplitting", "Epi", "EpiStiff", "Srerk")
    R.under_contract("Euler1.__step__", "Tvdrk3.__step__", "BackwardEuler.__step__", "Bdf2.__step__", "CrankNicolson.__step__",
                     "Imex2.__step__", "Ros2.__prestep__/__step__", "RosExp2.__step__", "PartRosExp2.__step__", "LieSplitting/StrangSplitting.__step__",
                     "Epi.__init__/__step__", "EpiStiff.__init__/__step__", "Srerk.__init__/__step__", "alpha_coeff",
                     "Simulation._create_time_integrator", "butcher tableaux (evaluated)")
    R.trust("solvers by contract: newton_krylov returns a root, fgmres a solution, the exponential solvers the phi combination, "
            "matvec_fun/matvec_rat the Jacobian product (their own contracts: C11, C12, C13)")
    R.assume("mathematical reals; double literals such as 2/3 mean the fraction they approximate (within 4 ulp)")
    shapes = [(2,), (1, 2)]
    histories = [((2,), 0), ((1, 2), 0), ((2,), 1), ((2,), 2)]

    def dev():
        return load.device(xp=XPS)

    def start(c, shape):
        dt = real("dt")
        c.assume(dt > 0)
        return dt, real_array("q", shape), UFun(c, "f")

    def res_eq(c, label, lhs, rhs):
        for i, (a, b) in enumerate(zip(flat(lhs), flat(rhs))):
            c.prove(f"{label} [{i}]", EQ(a, b))

    def one_projection(c, rig, i, rows, tau=(1.0,)):
        if len(rig.exp) <= i:
            raise HarnessGap("no exponential projection was made")
        e = rig.exp[i]
        c.prove("projection to the end of the step", SBool(len(e["tau"]) == len(tau) and all(abs(a - b) < 1e-13 for a, b in zip(e["tau"], tau))))
        if e["u"].shape[0] < rows:
            c.prove("enough phi vectors", SBool(False))
            raise core.PathEnd

    # ------------------------------------------------------------------------------------------------ explicit
    def explicit(c):
        for shape, done in histories:
            dt, q, f = start(c, shape)
            with Rig(c):
                e = step(after(c, None, I.Euler1(config(), f, device=dev()), shape, dt, done), q.copy(), dt)
                t = step(after(c, None, I.Tvdrk3(config(), f, device=dev()), shape, dt, done), q.copy(), dt)
            with core.simple_floats():
                c.prove("shape kept", SBool(e.shape == shape and t.shape == shape))
                res_eq(c, "euler1 = q + dt f(q)", e, q + dt * f(q))
                q1 = q + dt * f(q)
                q2 = q * F(3, 4) + (q1 + dt * f(q1)) * F(1, 4)
                q3 = q * F(1, 3) + (q2 + dt * f(q2)) * F(2, 3)
                res_eq(c, "tvdrk3 = the three-stage SSP Runge-Kutta scheme", t, q3)

    R.symbolic("explicit schemes", explicit)

    # ------------------------------------------------------------------------------------------------ implicit
    def implicit(name):
        def body(c):
            for shape, done in histories:
                if name == "Bdf2" and done:
                    continue
                dt, q, f = start(c, shape)
                with Rig(c) as rig:
                    cls = getattr(I, name)
                    o = cls(config(tolerance=1e-6), f, device=dev())
                    after(c, rig, o, shape, dt, done)
                    y = step(o, q.copy(), dt)
                    if name == "BackwardEuler":
                        res_eq(c, "backward_euler: y = q + dt f(y)", y, q + dt * f(y))
                    elif name == "CrankNicolson":
                        res_eq(c, "crank_nicolson: y = q + dt/2 (f(q)+f(y))", y, q + dt / 2 * (f(q) + f(y)))
                    else:
                        res_eq(c, "bdf2 first step: y = q + dt f(y)", y, q + dt * f(y))
                        z = step(o, y.copy(), dt)
                        res_eq(c, "bdf2: 3z - 4y + q = 2 dt f(z)", 3 * z - 4 * y + q, 2 * dt * f(z))
                        w = step(o, z.copy(), dt)
                        res_eq(c, "bdf2 third step: 3w - 4z + y = 2 dt f(w)", 3 * w - 4 * z + y, 2 * dt * f(w))
                    c.prove("shape kept", SBool(y.shape == shape))

        return body

    for name in ("BackwardEuler", "CrankNicolson", "Bdf2"):
        R.symbolic(name, implicit(name), timeout_ms=20000)

    def bdf2_change(c):
        """A step of another length: consistency (a linear solution is continued exactly)."""
        dt, q, f = start(c, (2,))
        h = real("h")
        c.assume(AND(h > 0, h < dt - 1))
        with Rig(c) as rig:
            o = I.Bdf2(config(tolerance=1e-6), f, device=dev())
            y = step(o, q.copy(), dt)
            z = step(o, y.copy(), h)
            for a, b in zip(flat(f(z)), flat(f(y))):
                c.assume(EQ(a, b))
            res_eq(c, "bdf2 with another step: with f constant the state moves by h f", z, y + h * f(y))

    R.symbolic("Bdf2 after a change of step", bdf2_change, timeout_ms=20000)

    def imex(c):
        for shape, done in histories:
            dt, q, fe = start(c, shape)
            fi = UFun(c, "g")
            with Rig(c) as rig:
                y = step(after(c, rig, I.Imex2(config(), fe, fi, device=dev()), shape, dt, done), q.copy(), dt)
                if len(rig.newton) != 1:
                    raise HarnessGap("imex2 does not solve one nonlinear system")
                s = rig.newton[0][0]
                res_eq(c, "imex2 stage: s = q + dt/2 (fe(q) + fi(s))", s, q + dt / 2 * (fe(q) + fi(s)))
                res_eq(c, "imex2: y = q + dt (fe(s) + fi(s))", y, q + dt * (fe(s) + fi(s)))

    R.symbolic("Imex2", imex, timeout_ms=20000)

    def ros(c):
        for shape, done in histories:
            for flag in (0, -1):
                dt, q, f = start(c, shape)
                with Rig(c) as rig:
                    o = I.Ros2(config(tolerance=1e-6, gmres_restart=20, linear_solver="fgmres"), f, device=dev())
                    rig.flag = -1 - flag  # the earlier steps end the other way
                    after(c, rig, o, shape, dt, done)
                    rig.flag = flag
                    y = step(o, q.copy(), dt)
                    d = (y - q).ravel()
                    res_eq(c, "ros2: (I - dt/2 J)(y - q) = dt f(q)", d - dt / 2 * f.J(q, d), dt * f(q).ravel())
                    c.prove("a failed linear solve is reported", SBool((o.failure_flag != 0) == (flag != 0)))
                    c.prove("shape kept", SBool(y.shape == shape))

    R.symbolic("Ros2", ros, timeout_ms=20000)

    def rosexp(c):
        for shape, done in histories:
            dt, q, ff = start(c, shape)
            fi = UFun(c, "g")
            with Rig(c) as rig:
                o = I.RosExp2(config(tolerance=1e-6, gmres_restart=20), ff, fi, device=dev())
                after(c, rig, o, shape, dt, done)
                y = step(o, q.copy(), dt)
                one_projection(c, rig, 0, 2)
                e = rig.exp[0]
                v = real_array("v", (2,))
                res_eq(c, "rosexp2 operator: dt (Jfull - Jimp)", e["A"](v.copy()), dt * (ff.J(q, v) - fi.J(q, v)))
                res_eq(c, "rosexp2 phi_0 vector is zero", e["u"][0], np.zeros(2))
                res_eq(c, "rosexp2 phi_1 vector is f(q)", e["u"][1], ff(q).ravel())
                d = (y - q).ravel()
                res_eq(c, "rosexp2: (I - dt/2 Jimp)(y - q) = dt phi_1 f(q)", d - dt / 2 * fi.J(q, d), dt * e["w"][0])

    R.symbolic("RosExp2", rosexp, timeout_ms=20000)

    def partros(c):
        for shape, done in histories:
            dt, q, ff = start(c, shape)
            fi = UFun(c, "g")
            with Rig(c) as rig:
                o = I.PartRosExp2(config(tolerance=1e-6, gmres_restart=20), ff, fi, device=dev())
                after(c, rig, o, shape, dt, done)
                y = step(o, q.copy(), dt)
                one_projection(c, rig, 0, 2)
                e = rig.exp[0]
                v = real_array("v", (2,))
                res_eq(c, "partrosexp2 operator: dt (Jfull - Jimp)", e["A"](v.copy()), dt * (ff.J(q, v) - fi.J(q, v)))
                res_eq(c, "partrosexp2 phi_0 vector is half the implicit part", e["u"][0], fi(q).ravel() / 2)
                res_eq(c, "partrosexp2 phi_1 vector is the explicit part", e["u"][1], (ff(q) - fi(q)).ravel())
                d = (y - q).ravel()
                res_eq(c, "partrosexp2: (I - dt/2 Jimp)(y - q) = dt (phi terms + half the implicit part)",
                       d - dt / 2 * fi.J(q, d), dt * (e["w"][0] + fi(q).ravel() / 2))

    R.symbolic("PartRosExp2", partros, timeout_ms=20000)

    # ----------------------------------------------------------------------------------------------- splitting
    def splitting(c):
        dt, q, f = start(c, (2,))
        with Rig(c):
            log = []

            class Sub(I.Euler1):
                def __init__(self, name):
                    super().__init__(config(), lambda v: v, device=dev())
                    self.name, self.fun = name, {}

                def __step__(self, Q, h):
                    out = real_array(f"{self.name}{len(log)}_", (2,))
                    log.append((self.name, Q, h, out))
                    return out

            sp = imp("integrators.splitting")
            seqs = {"StrangSplitting": [("a", F(1, 2)), ("b", 1), ("a", F(1, 2))], "LieSplitting": [("a", 1), ("b", 1)]}
            for cls, seq in seqs.items():
                if not hasattr(sp, cls):
                    continue
                log.clear()
                o = getattr(sp, cls)(config(), Sub("a"), Sub("b"))
                y = step(o, q, dt)
                c.prove(f"{cls}: sub-schemes in order", SBool([l[0] for l in log] == [s[0] for s in seq]))
                if len(log) != len(seq):
                    continue
                prev = q
                for l, s in zip(log, seq):
                    res_eq(c, f"{cls}: each stage starts from the previous one", l[1], prev)
                    c.prove(f"{cls}: each stage has its share of the step", EQ(l[2], dt * s[1]))
                    prev = l[3]
                res_eq(c, f"{cls}: the last stage is the result", y, prev)

    R.symbolic("operator splitting", splitting)

    # ----------------------------------------------------------------------------------------------- alpha_coeff
    ig = imp("integrators.integrator")

    def alpha(m):
        def body(c):
            cs = [real(f"c{i}") for i in range(m)]
            c.assume(AND(*[NOT(EQ(x, 0)) for x in cs]))
            for a, b in itertools.combinations(cs, 2):
                c.assume(NOT(EQ(a, b)))
            with inject(ig, numpy_too=True), core.simple_floats():
                al = need(ig, "alpha_coeff")(list(cs))
            for k in range(m):
                for j in range(m):
                    lhs = sum((al[k, i] * cs[i] ** (j + 2) for i in range(m)), 0)
                    c.prove(f"moments: sum_i alpha[{k},i] c_i^{j + 2}", EQ(lhs, math.factorial(k + 2) if j == k else 0))

        return body

    for m in (1, 2, 3, 4):
        R.symbolic(f"alpha_coeff, {m} nodes", alpha(m), timeout_ms=20000)

    # -------------------------------------------------------------------------------------------------- EPI
    names = solver_names()
    if not names:
        R.undecided.append("exponential solver names not found in the schema")
        names = ["kiops", "pmex"]

    def taylor_history(c, f, q, states, p, tag):
        """f(y_{n-i}) = f(q) + J (y_{n-i} - q) + sum_j rho_j (-i)^j: a remainder with any Taylor coefficients up to degree p-1.
        Returned as a substitution for the variables f(y_{n-i})."""
        rho = {j: real_array(f"rho{tag}{j}_", (np.size(q),)) for j in range(2, p)}
        subs = []
        for i, y in enumerate(states, start=1):
            rem = sum((rho[j] * ((-i) ** j) for j in rho), np.zeros(np.size(q), dtype=object))
            rhs = f(q).ravel() + f.J(q, (y - q).ravel()) + rem
            subs += [(a.t, core.real_term(b)) for a, b in zip(flat(f(y)), flat(rhs))]
        return rho, subs

    class InitStub:
        """the starting method: returns prescribed states"""

        def __init__(self, log):
            self.log = log
            self.failure_flag = 0

        def step(self, Q, h):
            out = real_array(f"init{len(self.log)}_", np.shape(Q))
            self.log.append((Q, h, out))
            return out

    def epi(cls, order, name, shape):
        def body(c):
            dt, q0, f = start(c, shape)
            with Rig(c) as rig:
                log = []
                sub = 2
                o = getattr(I, cls)(config(tolerance=1e-6, exponential_solver=name, jacobian_method="fd"), order, f,
                                    init_method=InitStub(log), init_substeps=sub, device=dev())
                q = q0.copy()
                states = []
                while not rig.exp and len(states) < 8:
                    states.append(q)
                    n0 = len(log)
                    nq = step(o, q.copy(), dt)
                    if rig.exp:
                        break
                    c.prove("starting steps use the starting method", SBool(len(log) == n0 + sub))
                    if len(log) != n0 + sub:
                        return
                    res_eq(c, "starting substep starts from the state", log[n0][0], q)
                    for s in log[n0:]:
                        c.prove("starting substeps share the step", EQ(s[1], dt / sub))
                    res_eq(c, "starting substeps are chained", log[n0 + 1][0], log[n0][2])
                    q = nq
                if not rig.exp:
                    raise HarnessGap("no exponential projection was made")
                prev = states[:-1][::-1]  # y_{n-1}, y_{n-2}, ...
                need_prev = {"Epi": {2: 0, 3: 1, 4: 2, 5: 3, 6: 4}, "EpiStiff": {k: k - 2 for k in range(2, 9)}}[cls][order]
                c.prove(f"{cls} {order}: no more starting steps than states it needs", SBool(len(prev) <= need_prev))
                check_phi(c, rig, cls, order, name, f, q, nq, dt, prev)
                # the next step uses the newest states
                states2 = [q] + prev
                k = len(rig.exp)
                q2 = step(o, nq.copy(), dt)
                if len(rig.exp) == k + 1 and prev:
                    check_phi(c, rig, cls, order, name, f, nq, q2, dt, states2[: len(prev)], which=k, tag="next step: ")

        return body

    def check_phi(c, rig, cls, order, name, f, q, nq, dt, prev, which=0, tag=""):
        e = rig.exp[which]
        want = SOLVER_OF.get(name, name)
        c.prove(f"{tag}the configured exponential solver is used", SBool(e["name"] == want))
        one_projection(c, rig, which, 2)
        v = real_array(f"v{which}_", (np.size(q),))
        res_eq(c, f"{tag}operator is dt J", e["A"](v.copy()), dt * f.J(q, v))
        c.prove(f"{tag}the configured Jacobian method is used", SBool(rig.methods <= {"fd"}))
        u = e["u"]
        res_eq(c, f"{tag}phi_0 vector is zero", u[0], np.zeros(np.size(q)))
        tol = e["kw"].get("tol", e["kw"].get("atol"))
        c.prove(f"{tag}the configured tolerance is used", SBool(tol is None or abs(tol - 1e-6) < 1e-18))
        rho, subs = taylor_history(c, f, q, prev, order, which)
        # stiff part: phi_1 vector
        res_eq(c, f"{tag}phi_1 vector is f(q)", u[1], f(q).ravel())
        zero = np.zeros(np.size(q), dtype=object)
        if cls == "Epi":
            # classical order conditions: coefficient of (dt J)^l rho_j
            for l in range(0, order):
                lhs = sum((u[k] * F(1, math.factorial(l + k)) for k in range(2, u.shape[0])), zero)
                rhs = sum((rho[j] * F(math.factorial(j), math.factorial(l + j + 1)) for j in rho if j + l + 1 <= order), zero)
                # terms with j + l + 1 > order are free
                free = {j for j in rho if j + l + 1 > order}
                sub0 = [(x.t, z3.RealVal(0)) for j in free for x in flat(rho[j])]
                for i, (a, b) in enumerate(zip(flat(lhs), flat(rhs))):
                    d = core.SReal(core.real_term(a) - core.real_term(b))
                    d = reduce_history(d, subs)
                    if sub0:
                        d = core.SReal(z3.substitute(core.real_term(d), *sub0))
                    c.prove(f"{tag}order {order}: terms of degree {l} in dt J match the exact solution [{i}]", EQ(d, 0))
        else:
            for k in range(2, u.shape[0]):
                want_v = rho[k - 1] * math.factorial(k - 1) if (k - 1) in rho else zero
                for i, (a, b) in enumerate(zip(flat(u[k]), flat(want_v))):
                    d = reduce_history(core.SReal(core.real_term(a) - core.real_term(b)), subs)
                    c.prove(f"{tag}stiff order {order}: phi_{k} vector is {k - 1}! rho_{k - 1} [{i}]", EQ(d, 0))
            c.prove(f"{tag}enough phi vectors", SBool(order == 2 or u.shape[0] >= order + 1))
        res_eq(c, f"{tag}result = q + dt * projection", nq, q + dt * e["w"][0].reshape(np.shape(q)))

    def reduce_history(d, subs):
        t = core.real_term(d)
        return core.SReal(z3.substitute(t, *subs)) if subs else d

    for order in (2, 3, 4, 5, 6):
        for name in names if order == 3 else names[:1]:
            R.symbolic(f"Epi order {order} with {name}", epi("Epi", order, name, (2,)), timeout_ms=20000)
    R.symbolic("Epi order 4, two-dimensional state", epi("Epi", 4, "kiops", (1, 2)), timeout_ms=20000)
    for order in (2, 3, 4, 5, 6):
        R.symbolic(f"EpiStiff order {order}", epi("EpiStiff", order, "kiops", (2,)), timeout_ms=20000)
    for name in ("pmex", "exode"):
        R.symbolic(f"EpiStiff order 3 with {name}", epi("EpiStiff", 3, name, (2,)), timeout_ms=20000)

    def epi_change(cls, order):
        def body(c):
            dt, q, f = start(c, (2,))
            h = real("h")
            c.assume(AND(h > 0, OR(h > dt + F(1, 10**6), h < dt - F(1, 10**6))))
            with Rig(c) as rig:
                log = []
                o = getattr(I, cls)(config(tolerance=1e-6, exponential_solver="kiops", jacobian_method="fd"), order, f, init_method=InitStub(log), init_substeps=1, device=dev())
                a = step(o, q.copy(), dt)
                b = step(o, a.copy(), h)
                c.prove("a change of step restarts the history", SBool(not rig.exp and len(log) == 2))
                if rig.exp or len(log) != 2:
                    return
                d = step(o, b.copy(), h)
                if rig.exp:
                    check_phi(c, rig, cls, order, "kiops", f, b, d, h, [a])
                else:
                    c.prove("and only as many starting steps as needed", SBool(order > 3))

        return body

    R.symbolic("Epi after a change of step", epi_change("Epi", 3))
    R.symbolic("EpiStiff after a change of step", epi_change("EpiStiff", 3))

    # ------------------------------------------------------------------------------------------------ SRERK
    def srerk(order, name):
        def body(c):
            dt, q, f = start(c, (2,))
            with Rig(c) as rig:
                o = I.Srerk(config(tolerance=1e-6, exponential_solver=name, jacobian_method="fd"), order, f, device=dev())
                after(c, rig, o, (2,), dt, 1 if order == 3 else 0)
                y = step(o, q.copy(), dt)
                n = len(rig.exp)
                if n < 2:
                    raise HarnessGap("srerk made fewer than two projections")
                for s, e in enumerate(rig.exp):
                    c.prove("the configured exponential solver is used", SBool(e["name"] == SOLVER_OF.get(name, name)))
                    v = real_array(f"v{s}_", (2,))
                    res_eq(c, f"stage {s}: operator is dt J", e["A"](v.copy()), dt * f.J(q, v))
                    c.prove("the configured Jacobian method is used", SBool(rig.methods <= {"fd"}))
                    res_eq(c, f"stage {s}: phi_1 vector is f(q)", e["u"][1], f(q).ravel())
                    res_eq(c, f"stage {s}: phi_0 and phi_2 vectors are zero", flat(e["u"][0]) + (flat(e["u"][2]) if e["u"].shape[0] > 2 else []), [0] * (2 + 2 * (e["u"].shape[0] > 2)))
                    ts = e["tau"]
                    c.prove(f"stage {s}: nodes are distinct, increasing, in (0, 1]", SBool(all(0 < t <= 1 + 1e-12 for t in ts) and all(b > a for a, b in zip(ts, ts[1:]))))
                    if s == 0:
                        continue
                    pre = rig.exp[s - 1]
                    m = len(pre["tau"])
                    c.prove(f"stage {s}: one phi vector per node", SBool(e["u"].shape[0] == m + 3))
                    # interpolation of the remainder, for any remainder values r_i at the nodes: the coefficients are moments
                    rs = []
                    for i in range(m):
                        z = q + dt * pre["w"][i].reshape(np.shape(q))
                        rs.append((f(z) - f(q)).ravel() - f.J(q, (z - q).ravel()))
                    al = moments(pre["tau"])
                    for k in range(m):
                        want = sum((rs[i] * al[k][i] for i in range(m)), np.zeros(2, dtype=object))
                        for a, b in zip(flat(e["u"][k + 3]), flat(want)):
                            close(c, f"stage {s}: phi_{k + 3} vector interpolates the remainder at the nodes", a, b, rs)
                c.prove("the last projection is to the end of the step", SBool(len(rig.exp[-1]["tau"]) == 1 and abs(rig.exp[-1]["tau"][0] - 1) < 1e-14))
                degs = [len(e["tau"]) for e in rig.exp[:-1]]
                c.prove("node counts reach the order", SBool(all(b <= a + 2 for a, b in zip([0] + degs, degs)) and degs[-1] == order - 2))
                res_eq(c, "result = q + dt * projection", y, q + dt * rig.exp[-1]["w"][0].reshape(np.shape(q)))

        return body

    def moments(cs):
        """independent: solve the Vandermonde moment conditions exactly"""
        import sympy

        m = len(cs)
        M = sympy.Matrix(m, m, lambda j, i: sympy.Rational(F(cs[i])) ** (j + 2))
        inv = M.inv()
        # alpha M^T = diag((k+2)!)
        return [[F(int((inv[i, k]).p), int((inv[i, k]).q)) * math.factorial(k + 2) for i in range(m)] for k in range(m)]

    def close(c, label, a, b, rs):
        """linear in the remainder: coefficients agree to 1e-9 relative (node roots are doubles)"""
        syms = {}
        for r in rs:
            for x in flat(r):
                syms[id(x)] = x
        t = z3.simplify(core.real_term(a) - core.real_term(b))
        # every remainder value in [-1, 1]  =>  |a - b| < 1e-8
        box = AND(*[AND(core.SReal(core.real_term(x)) <= 1, core.SReal(core.real_term(x)) >= -1) for x in syms.values()])
        vs = []
        sub = []
        for x in syms.values():
            v = z3.Real(f"r{len(vs)}")
            vs.append(v)
        # express through fresh variables: f(z_i) = r_i + f(q) + J(z_i - q)
        c.prove(label, IMP(box, AND(core.SReal(t) < F(1, 10**8), core.SReal(t) > -F(1, 10**8))))

    for order in (3, 4, 5, 6):
        R.symbolic(f"Srerk order {order}", srerk(order, "kiops"), timeout_ms=30000)
    for name in [n for n in names if n not in ("kiops", "exode", "pmex_ne")]:
        R.symbolic(f"Srerk order 3 with {name}", srerk(3, name), timeout_ms=20000)

    # -------------------------------------------------------------------------------------------- selection by name
    def selection(ck):
        sm = imp("simulation.simulation")
        from .. import kernels
        kernels.use_build()
        with sims.quiet():
            sim0 = sims.simulation("bubble", {"output_dir": kernels.scratch()})
        table = {"euler1": ("Euler1", {}), "tvdrk3": ("Tvdrk3", {}), "ros2": ("Ros2", {}), "rosexp2": ("RosExp2", {}),
                 "partrosexp2": ("PartRosExp2", {}), "imex2": ("Imex2", {}), "backward_euler": ("BackwardEuler", {}),
                 "bdf2": ("Bdf2", {}), "crank_nicolson": ("CrankNicolson", {}), "strang_epi2_ros2": ("StrangSplitting", {}),
                 "strang_ros2_epi2": ("StrangSplitting", {})}
        for o in (2, 3, 4, 5, 6):
            table[f"epi{o}"] = ("Epi", {"n": o})
            table[f"epi_stiff{o}"] = ("EpiStiff", {"n": o})
        for o in (3, 4, 5, 6):
            table[f"srerk{o}"] = ("Srerk", {"n": o})
        s = copy.copy(sim0)
        s.config = copy.copy(sim0.config)

        class Parts:
            pass

        s.rhs = Parts()
        s.rhs.full = lambda q: ("full", q)
        s.rhs.implicit = lambda q: ("implicit", q)
        s.rhs.explicit = lambda q: ("explicit", q)
        need(s, "_create_time_integrator")
        for name, (cls, par) in table.items():
            ck.case(time_integrator=name)
            s.config.time_integrator = name
            with sims.quiet():
                it = s._create_time_integrator()
            ck.check("the named integrator is created", type(it).__name__ == cls, lambda: type(it).__name__)
            if name.startswith("strang"):
                a, b = it.scheme1, it.scheme2
                names2 = [type(a).__name__.lower(), type(b).__name__.lower()]
                ck.check("sub-schemes in the order of the name", names2 == [n.rstrip("2") if n.startswith("epi") else n for n in name.split("_")[1:]], lambda: names2)
                for sch in (a, b):
                    part = "implicit" if type(sch).__name__ == "Ros2" else "explicit"
                    h = getattr(sch, "rhs_handle", None) or getattr(sch, "rhs", None)
                    ck.check("each sub-scheme gets its part of the right-hand side", h(0)[0] == part)
            elif cls in ("Imex2",):
                ck.check("explicit and implicit parts", it.rhs_exp(0)[0] == "explicit" and it.rhs_imp(0)[0] == "implicit")
            elif cls == "PartRosExp2":
                ck.check("full and implicit parts", it.rhs_full(0)[0] == "full" and it.rhs_imp(0)[0] == "implicit")
            else:
                h = getattr(it, "rhs_handle", None) or getattr(it, "rhs", None) or getattr(it, "rhs_full", None)
                ck.check("full right-hand side", h is not None and h(0)[0] == "full")
        for bad in ("epi", "epi7x", "nonsense", "tvdrk"):
            ck.case(time_integrator=bad)
            s.config.time_integrator = bad
            try:
                with sims.quiet():
                    it = s._create_time_integrator()
                ck.fail("an unknown integrator name is refused", None, type(it).__name__)
            except (ValueError, KeyError):
                pass

    R.concrete("integrator selected by name", selection, bound="31 names")

    concrete(R, I, names)
    tableaux(R)


# ------------------------------------------------------------------------------------------------------------ bounded
def phi(k, A):
    n = A.shape[0]
    M = np.zeros((n * (k + 1), n * (k + 1)))
    M[:n, :n] = A
    for i in range(k):
        M[i * n : (i + 1) * n, (i + 1) * n : (i + 2) * n] = np.eye(n)
    return scipy.linalg.expm(M)[:n, k * n : (k + 1) * n]


class ODE:
    """A small non-stiff nonlinear system with its Jacobian, in two parts."""

    def __init__(self, seed):
        g = np.random.default_rng(seed)
        n = self.n = 40
        self.L = g.normal(size=(n, n)) * 0.5 / math.sqrt(n)
        self.M = g.normal(size=(n, n)) * 0.5 / math.sqrt(n)
        self.a = g.normal(size=n)
        self.q0 = g.normal(size=n) * 0.5

    def lin(self, q):
        return (self.L @ np.ravel(q)).reshape(np.shape(q))

    def non(self, q):
        x = np.ravel(q)
        return (self.a * 0.5 + self.M @ np.sin(x)).reshape(np.shape(q))

    def full(self, q):
        return self.lin(q) + self.non(q)

    def jac(self, q):
        return self.L + self.M @ np.diag(np.cos(np.ravel(q)))

    def flow(self, q, t):
        from scipy.integrate import solve_ivp

        return solve_ivp(lambda t, y: self.full(y), (0, t), q, rtol=3e-14, atol=1e-14, method="DOP853").y[:, -1]

    def exact(self, t):
        return self.flow(self.q0, t)


class Exact:
    """A starting method without error"""

    failure_flag = 0

    def __init__(self, ode):
        self.ode = ode

    def step(self, Q, h):
        return self.ode.flow(Q, h)


def concrete(R, I, names):
    def build(name, ode, solver="kiops", tol=1e-12):
        cfg = config(tolerance=tol, exponential_solver=solver, jacobian_method="complex", gmres_restart=20, linear_solver="fgmres",
                     verbose_solver=0)
        d = load.device()
        f = ode.full
        if name.startswith("epi_stiff"):
            return I.EpiStiff(cfg, int(name[9:]), f, init_method=Exact(ode), init_substeps=1, device=d)
        if name.startswith("epi"):
            return I.Epi(cfg, int(name[3:]), f, init_method=Exact(ode), init_substeps=1, device=d)
        if name.startswith("srerk"):
            return I.Srerk(cfg, int(name[5:]), f, device=d)
        two = {"rosexp2": I.RosExp2, "partrosexp2": I.PartRosExp2}
        if name in two:
            return two[name](cfg, f, ode.non, device=d)
        if name == "imex2":
            return I.Imex2(cfg, ode.lin, ode.non, device=d)
        if name == "strang":
            return I.StrangSplitting(cfg, I.Epi(cfg, 2, ode.lin, device=d), I.Ros2(cfg, ode.non, device=d))
        return {"euler1": I.Euler1, "tvdrk3": I.Tvdrk3, "ros2": I.Ros2, "backward_euler": I.BackwardEuler, "bdf2": I.Bdf2,
                "crank_nicolson": I.CrankNicolson}[name](cfg, f, device=d)

    orders = {"euler1": 1, "tvdrk3": 3, "ros2": 2, "backward_euler": 1, "bdf2": 2, "crank_nicolson": 2, "rosexp2": 2 if False else 1,
              "partrosexp2": 2, "imex2": 2, "strang": 2, "epi2": 2, "epi3": 3, "epi4": 4, "epi5": 5, "epi6": 6, "epi_stiff2": 2,
              "epi_stiff3": 3, "epi_stiff4": 4, "epi_stiff5": 5, "srerk3": 3, "srerk4": 4, "srerk5": 5, "srerk6": 6}

    def conv(ck):
        for seed in range(2 if not R.thorough else 6):
            ode = ODE(100 * R.seed + seed)
            T = 1.0
            ref = ode.exact(T)
            for name, p in orders.items():
                errs = []
                ns = (10, 20)
                for n in ns:
                    ck.case(integrator=name, seed=seed, steps=n, ode="q' = L q + a/2 + M sin q")
                    it = build(name, ode)
                    q = ode.q0.copy()
                    with sims.quiet():
                        for _ in range(n):
                            q = it.step(q, T / n)
                    errs.append(float(np.max(np.abs(q - ref))))
                rate = math.log2(errs[0] / errs[1]) if errs[1] > 0 else 99
                ok = rate > p - 0.45 or errs[1] < 5e-9
                ck.check("the error falls with the order of the scheme", ok, lambda: f"errors {errs}, rate {rate:.2f}, order {p}")

    R.concrete("convergence order on a nonlinear system", conv, bound="2 random 40-variable systems, 10 and 20 steps", budget_s=140)

    def change(ck):
        """a shorter last step, as the run takes it"""
        ode = ODE(7 + R.seed)
        for name, p in orders.items():
            ck.case(integrator=name, steps="20 of 1/20 then one of 1/55")
            it = build(name, ode)
            q = ode.q0.copy()
            with sims.quiet():
                for _ in range(20):
                    q = it.step(q, 1 / 20)
                e1 = np.max(np.abs(q - ode.exact(1.0)))
                q = it.step(q, 1 / 55)
            e2 = np.max(np.abs(q - ode.exact(1 + 1 / 55)))
            ck.check("a shorter last step keeps the accuracy", e2 < 1.5 * e1 + 2e-3 * (1 if p == 1 else 0.5) / 4, lambda: f"{e1} -> {e2}")

    R.concrete("a last step of another length", change, bound="every integrator, one system")

    def steady(ck):
        ode = ODE(11 + R.seed)
        q = ode.q0
        ode.a = -2 * (ode.lin(q) + ode.M @ np.sin(q))  # makes q an equilibrium
        for name in orders:
            ck.case(integrator=name, state="equilibrium")
            it = build(name, ode)
            y = q.copy()
            with sims.quiet():
                for _ in range(3):
                    y = it.step(y, 0.3)
            if name in ("imex2", "strang", "rosexp2", "partrosexp2"):
                continue
            ck.check("an equilibrium stays", np.max(np.abs(y - q)) < 1e-8, lambda: float(np.max(np.abs(y - q))))

    R.concrete("equilibria are kept", steady, bound="one equilibrium, three steps")

    def memory(ck):
        """one-step schemes depend on the given state and step alone, and leave the given state as it was"""
        ode = ODE(13 + R.seed)
        g = np.random.default_rng(R.seed)
        one = ("euler1", "tvdrk3", "ros2", "backward_euler", "crank_nicolson", "rosexp2", "partrosexp2", "imex2", "strang", "epi2", "epi_stiff2", "srerk3", "srerk4")
        for name in orders:
            it = build(name, ode)
            q = ode.q0.copy()
            for k in range(5):
                h = 0.2 if k != 3 else 0.15
                ck.case(integrator=name, earlier_steps=k, dt=h)
                keep = q.copy()
                with sims.quiet():
                    y = it.step(q, h)
                    z = build(name, ode).step(keep.copy(), h) if name in one else y
                ck.check("the state given to the step is left unchanged", np.array_equal(q, keep))
                ck.check("the step depends on the given state and step alone", np.max(np.abs(y - z)) < 1e-8, lambda: float(np.max(np.abs(y - z))))
                q = y if name not in one else y + 0.3 * g.normal(size=q.shape)

    R.concrete("a step after others", memory, bound="one system, five steps from unrelated states")

    def solvers(ck):
        ode = ODE(5 + R.seed)
        ref = {}
        for kind in ("epi3", "srerk3"):
            for name in names:
                if name == "dcgs2":  # C12: known finding
                    continue
                if kind == "srerk3" and name in ("exode", "pmex_ne"):
                    continue
                ck.case(integrator=kind, exponential_solver=name)
                it = build(kind, ode, name, 1e-10)
                if hasattr(it, "init_method") and it.init_method is not None:
                    pass
                q = ode.q0.copy()
                with sims.quiet():
                    for _ in range(4):
                        q = it.step(q, 0.1)
                ref.setdefault(kind, q)
                tol = 2e-4 if name == "exode" else 1e-7
                ck.check("every exponential solver gives the same step", np.max(np.abs(q - ref[kind])) < tol, lambda: float(np.max(np.abs(q - ref[kind]))))

    R.concrete("all exponential solvers, same result", solvers, bound="one system, 4 steps, epi3 and srerk3")


# ----------------------------------------------------------------------------------------------------------- tableaux
def trees(n, _c={}):
    """rooted trees with n nodes as sorted tuples of subtrees"""
    if n in _c:
        return _c[n]
    if n == 1:
        _c[1] = [()]
        return _c[1]
    out = set()

    def forests(total, maxtree):
        if total == 0:
            yield ()
            return
        for k in range(min(total, maxtree[0]), 0, -1):
            for idx, t in enumerate(trees(k)):
                if (k, idx) > maxtree:
                    continue
                for rest in forests(total - k, (k, idx)):
                    yield (t,) + rest

    for fo in forests(n - 1, (n - 1, 10**9)):
        out.add(tuple(sorted(fo, key=repr)))
    _c[n] = sorted(out, key=repr)
    return _c[n]


def size(t):
    return 1 + sum(size(s) for s in t)


def density(t):
    d = size(t)
    for s in t:
        d *= density(s)
    return d


def weight(t, A, memo):
    if t in memo:
        return memo[t]
    memo.setdefault((), np.ones(A.shape[0], dtype=A.dtype))
    v = memo[()]
    for s in t:
        v = v * (A @ weight(s, A, memo))
    memo[t] = v
    return v


def tableaux(R):
    bt = imp("integrators.butcher")
    METHODS = need(bt, "METHODS")

    def body(ck):
        for key, cls in METHODS.items():
            A = np.asarray(cls.A, dtype=np.longdouble)
            B = np.asarray(cls.B, dtype=np.longdouble)
            C = np.asarray(cls.C, dtype=np.longdouble)
            E = np.asarray(cls.E, dtype=np.longdouble)
            s = cls.n_stages
            ck.case(method=key)
            if A.shape != (s, s):
                ck.fail("the tableau is explicit and of the declared size", None, str(A.shape))
                continue
            ck.check("the tableau is explicit and of the declared size", A.shape == (s, s) and np.all(np.triu(A.astype(float)) == 0) and B.shape == (s,) and E.shape == (s + 1,))
            ck.check("nodes are the row sums", np.max(np.abs(A.sum(axis=1) - C)) < 1e-11, lambda: float(np.max(np.abs(A.sum(axis=1) - C))))
            scale = max(1.0, float(np.max(np.abs(A))) ** 2)
            worst = {}
            memo = {}
            top = min(int(cls.order), 8 if not R.thorough else 10)
            for n in range(1, top + 1):
                w = 0.0
                for t in trees(n):
                    w = max(w, abs(float(B @ weight(t, A, memo) - np.longdouble(1) / density(t))))
                worst[n] = w
            lin = {}
            v = np.ones(s, dtype=np.longdouble)
            for n in range(1, int(cls.order) + 1):
                lin[n] = abs(float(B @ v - np.longdouble(1) / math.factorial(n)))
                v = A @ v
            quad = {n: abs(float(B @ C ** (n - 1) - np.longdouble(1) / n)) for n in range(1, int(cls.order) + 1)}
            tol = 1e-9 * scale
            good = sum(1 for n in worst if all(worst[k] < tol for k in range(1, n + 1)))
            table = {"order": cls.order, "conditions": {n: f"{w:.1e}" for n, w in worst.items()}, "linear": {n: f"{w:.1e}" for n, w in lin.items()}}
            if key in LINEAR_ONLY:
                ck.check("order conditions for linear problems hold", all(x < tol for n, x in lin.items()) and good >= LINEAR_ONLY[key], lambda: table)
            else:
                ck.check("all order conditions up to the declared order hold", good >= top and all(x < tol for x in lin.values()) and all(x < tol for x in quad.values()), lambda: table)
            # the error estimator: an embedded method of the declared lower order; exact solutions of low degree have no error
            w = 0.0
            n_e = int(cls.error_estimator_order)
            tolE = 1e-7 * scale  # published digits
            memoE = {}
            AE = np.zeros((s + 1, s + 1), dtype=np.longdouble)
            AE[:s, :s] = A
            AE[s, :s] = B
            okE = 0
            for n in range(1, min(n_e, 6) + 1):
                w = max(abs(float(E @ weight(t, AE, memoE))) for t in trees(n))
                if w < tolE:
                    okE += 1
                else:
                    break
            wl = []
            v = np.ones(s + 1, dtype=np.longdouble)
            for n in range(1, n_e + 1):
                wl.append(abs(float(E @ v)))
                v = AE @ v
            ck.check("the error estimate vanishes up to its order", (okE >= min(n_e, 6) or key in LINEAR_ONLY) and all(x < tolE for x in wl), lambda: f"{okE} {wl}")
            top1 = max(abs(float(E @ weight(t, AE, memoE))) for t in trees(min(n_e, 6) + 1)) if n_e < 6 else 1.0
            ck.check("and not beyond (it estimates something)", top1 > 1e-12 or n_e >= 6, lambda: top1)

    R.concrete("Butcher tableaux satisfy their order conditions", body, bound="all rooted trees up to order 8 (10 thorough), linear and quadrature conditions to the declared order")


LINEAR_ONLY = {}
