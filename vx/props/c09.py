"""C09: the run advances in time exactly to its end, one integrator step and one output per step, and stops on NaN."""

import copy
import shutil

import numpy as np
import z3

from ..core import *
from .. import core, fakempi, kernels, sims
from ..load import imp, need, inject, HarnessGap, Gap


def run(R):
    sm = imp("simulation.simulation")
    need(sm.Simulation, "step", "run")
    R.under_contract("simulation.Simulation.step", "simulation.Simulation.run (loop: bounded, 3 outcomes)", "integrators.Integrator.step", "simulation.Simulation._check_for_nan (bounded)")
    R.assume("time step positive and finite, current and end time finite (precondition of step)")
    R.trust("the integrator, filters and output are called through their interfaces (their own contracts are other properties)")
    scratch = kernels.scratch()
    kernels.use_build()
    with sims.quiet():
        sim0 = sims.simulation("bubble", {"output_dir": scratch})

    class Token:
        """A state the step must hand on untouched."""

        def __init__(self, name):
            self.name = name

    def rig(dt, t, t_end, n, flag=0, arr=None):
        s = copy.copy(sim0)
        s.config = copy.copy(s.config)
        s.config.dt, s.config.t_end = dt, t_end
        s.t, s.step_id = t, n
        s.integrator = copy.copy(s.integrator)
        s.integrator.failure_flag = flag
        s.integrator.latest_time = 0.0
        log = []
        Q0 = np.array(sim0.initial_Q)
        Q1 = Q0 + 1.0 if arr is None else arr
        s.Q = Q0

        def istep(Q, h):
            log.append(("integrate", Q, h))
            return Q1

        s.integrator.step = istep
        s.operators = copy.copy(s.operators)

        def filters(Q, geom=None, metric=None, dt=None):
            log.append(("filter", Q, dt))
            return Q

        s.operators.apply_filters = filters
        s.output = copy.copy(s.output)
        s.output.step = lambda Q, k: log.append(("output", Q, k))
        s.output.finalize = lambda *a: log.append(("finalize",))
        return s, log, Q0, Q1

    def step_contract(mk, kind, flag):
        def body(c):
            dt, t, te = mk("dt"), mk("t"), mk("t_end")
            n = integer("step_id")
            c.assume(AND(dt > 0, t >= 0, te >= 0, n >= 0))
            if kind == "double":
                c.assume(AND(dt.isfinite(), t.isfinite(), te.isfinite(), NOT(dt.isnan()), NOT(t.isnan()), NOT(te.isnan())))
            s, log, Q0, Q1 = rig(dt, t, te, n, flag)
            with inject(sm, print=lambda *a, **k: None):
                ret = s.step()
            calls = [e for e in log if e[0] == "integrate"]
            outs = [e for e in log if e[0] == "output"]
            if not calls:
                c.prove("no step is taken only at or after the end", t >= te)
                c.prove("past the end nothing is changed", AND(EQ(s.t, t), EQ(s.step_id, n), SBool(s.Q is Q0), SBool(not log), SBool(not ret)))
                return
            h = calls[0][2]
            c.prove("steps are only taken before the end", t < te)
            c.prove("one integrator step from the current state", SBool(len(calls) == 1 and calls[0][1] is Q0))
            if kind == "real":  # in doubles: bounded (bit-blasting the subtraction against the addition does not finish)
                c.prove("the step is never longer than asked", h <= dt)
            c.prove("the step is not negative", h >= 0)
            c.prove("the time never passes the end", s.t <= te)
            c.prove("the new time is the old time plus the step used", OR(EQ(s.t, t + h), EQ(s.t, te)))
            if kind == "real":
                c.prove("the time advances by exactly the step used", EQ(s.t, t + h))
                c.prove("the time advances", s.t > t)
            c.prove("a full step is taken unless the end is nearer", OR(EQ(h, dt), AND(EQ(s.t, te), EQ(h, te - t))))
            c.prove("the step counter counts steps", EQ(s.step_id, n + 1))
            c.prove("the state is the integrator's result", SBool(isinstance(s.Q, np.ndarray) and np.array_equal(s.Q, Q1)))
            fl = [e for e in log if e[0] == "filter"]
            c.prove("the filters act once, on the new state, with the step used", AND(SBool(len(fl) == 1 and np.array_equal(fl[0][1], Q1)), EQ(fl[0][2], h) if fl else SBool(False)))
            c.prove("integrate, filter, output", SBool([e[0] for e in log] == ["integrate", "filter", "output"]))
            c.prove("output is called once, with the new state and step", AND(SBool(len(outs) == 1 and np.array_equal(outs[0][1], Q1)), EQ(outs[0][2], n + 1) if outs else SBool(False)))
            c.prove("the run goes on unless the integrator failed", SBool(bool(ret) == (flag == 0)))

        return body

    for flag in (0, 1):
        R.symbolic(f"step, mathematical time, integrator flag {flag}", step_contract(real, "real", flag))
        R.symbolic(f"step, IEEE double time, integrator flag {flag}", step_contract(double, "double", flag), timeout_ms=60000)

    # number of steps: with t = n*dt as invariant, the run takes ceil(t_end/dt) steps (mathematical time)
    def count(c):
        dt, te = real("dt"), real("t_end")
        n = integer("n")
        c.assume(AND(dt > 0, te > 0, n >= 0))
        t = SReal(z3.ToReal(n.t)) * dt
        s, log, Q0, Q1 = rig(dt, t, te, n)
        with inject(sm, print=lambda *a, **k: None):
            s.step()
        if any(e[0] == "integrate" for e in log):
            c.prove("invariant: before the end, time is step count times step", OR(EQ(s.t, (n + 1) * dt), EQ(s.t, te)))
            c.prove("the shortened step ends the run", IMP(NOT(EQ(s.t, (n + 1) * dt)), s.t >= te))
        else:
            c.prove("all steps were taken", n * dt >= te)

    R.symbolic("step count induction", count)

    # ------------------------------------------------------------------ Integrator.step
    it = imp("integrators.integrator")

    def integ(c):
        dt, t = real("dt"), real("t")
        n = integer("n")
        calls = []

        class I(it.Integrator):
            def __step__(self, Q, h):
                calls.append((Q, h))
                return ("new", Q)

        with inject(it, print=lambda *a, **k: None):
            i = I(sim0.config, device=sim0.device)
            i.sim_time, i.num_completed_steps = t, n
            r = i.step("Q", dt)
        c.prove("the scheme is applied once to the given state and step", AND(SBool(len(calls) == 1 and calls[0][0] == "Q"), EQ(calls[0][1], dt)))
        c.prove("its result is returned", SBool(r == ("new", "Q")))
        c.prove("the integrator's clock advances by the step", EQ(i.sim_time, t + dt))
        c.prove("steps are counted", EQ(i.num_completed_steps, n + 1))

    R.symbolic("Integrator.step", integ)

    def integ_real(ck):
        class I(it.Integrator):
            def __step__(self, Q, h):
                self.calls.append((Q, h))
                return Q + h

            def __prestep__(self, Q, h):
                self.pre.append((Q, h, len(self.calls)))

        with sims.quiet():
            i = I(sim0.config, device=sim0.device)
            i.calls, i.pre, i.sim_time = [], [], 5.0
            Q = np.zeros(3)
            for k, h in enumerate((0.5, 0.25, 2.0, 0.125)):
                ck.case(step=k, dt=h)
                t, n, old = i.sim_time, i.num_completed_steps, Q
                Q = i.step(Q, h)
                ck.check("one application of the scheme to the given state and step", len(i.calls) == k + 1 and i.calls[-1][0] is old and i.calls[-1][1] == h)
                ck.check("its result is returned", np.array_equal(Q, old + h))
                ck.check("the preparation is made once, before, with the same state and step", len(i.pre) == k + 1 and i.pre[-1][0] is old and i.pre[-1][1:] == (h, k))
                ck.check("clock and step count advance", i.sim_time == t + h and i.num_completed_steps == n + 1 == k + 1, (i.sim_time, i.num_completed_steps))

    R.concrete("Integrator.step on numbers", integ_real, bound="four steps")

    # ------------------------------------------------------------------ bounded
    def nan(ck):
        rng = np.random.default_rng(R.seed)
        n = 6
        for trial in range(60 if R.thorough else 14):
            who = sorted(set(int(x) for x in rng.integers(0, n, int(rng.integers(0, 3)))))
            bad = [np.nan, np.inf][trial % 5 == 4]
            pos = [int(rng.integers(0, 48)) for _ in range(n)]
            ck.case(bad_ranks=who, value=str(bad), positions=pos)

            def body(rank, comm):
                with_bad = rank in who
                s = sims.simulation("sw", {"output_dir": scratch}, comm)
                Q1 = np.array(s.Q)
                if with_bad:
                    Q1.flat[pos[rank] % Q1.size] = bad
                s.integrator.step = lambda Q, h: Q1
                s.integrator.latest_time = 0.0
                outs = []
                s.output.step = lambda Q, k: outs.append(k)
                try:
                    s.step()
                    return "ok", outs
                except ValueError as e:
                    return "raised", outs

            with sims.quiet():
                res, w = fakempi.run_world(n, body)
            for rank, (v, e) in enumerate(res):
                if e is not None:
                    ck.fail("no process is left waiting", {**ck.current, "rank": rank}, repr(e))
                    continue
                if who and bad != bad:
                    ck.check("NaN anywhere stops every process, before any output", v == ("raised", []), (rank, v))
                elif not who:
                    ck.check("no NaN: every process goes on", v == ("ok", [1]), (rank, v))
            if trial == 0:
                who = []

    R.concrete("NaN detection", nan, bound="14 (60) placements over 6 processes")

    def after(ck):
        """What happens between the integrator and the output: filters, then the check, then prescribed winds."""
        for what, case in (("filter", 0), ("filter gives NaN", 0), ("prescribed winds", 11), ("prescribed winds", 12)):
            for dt, t, te in ((0.5, 2.0, 10.0), (1.0, 9.25, 10.0)):
                ck.case(what=what, case_number=case, dt=dt, t=t, t_end=te)
                Q1 = np.random.default_rng(R.seed).uniform(1, 2, (5, 2, 2, 4))
                s, log, _, _ = rig(dt, t, te, 4, arr=Q1.copy())
                s.config.case_number = case
                h = min(dt, te - t)
                if what.startswith("filter"):
                    s.operators.apply_filters = lambda Q, geom=None, metric=None, dt=None: np.where(Q > 1.5, np.nan if "NaN" in what else 7.0 * dt, Q)
                    want = np.where(Q1 > 1.5, 7.0 * h, Q1)
                else:
                    W = [np.random.default_rng(k).uniform(1, 2, (2, 2, 4)) for k in range(3)]
                    at = []

                    def winds(name):
                        def f(*a, **k):
                            at.append((name, k.get("time", a[4] if len(a) > 4 else None)))
                            return tuple(w.copy() for w in W)

                        return f

                    want = Q1.copy()
                    d = imp("common.definitions")
                    for k, w in zip((d.idx_rho_u1, d.idx_rho_u2, d.idx_rho_w), W):
                        want[k] = Q1[d.idx_rho] * w
                ok, err = None, None
                with sims.quiet(), inject(sm, **({} if case == 0 else {"dcmip_T11_update_winds": winds(11), "dcmip_T12_update_winds": winds(12)})):
                    try:
                        ok = s.step()
                    except ValueError as e:
                        err = e
                outs = [e for e in log if e[0] == "output"]
                if "NaN" in what:
                    ck.check("NaN after the filters stops the run before any output", err is not None and not outs, (err, len(outs)))
                    continue
                if err is not None:
                    raise err
                ck.check("the state", np.allclose(s.Q, want, rtol=1e-15, atol=0))
                ck.check("is the one output", len(outs) == 1 and np.array_equal(outs[0][1], s.Q))
                if case:
                    ck.check("the winds are those of the new time", at == [(case, s.t)], (at, s.t))

    R.concrete("between the integrator and the output", after, bound="eight steps")

    def runs(ck):
        rng = np.random.default_rng(R.seed)
        for trial in range(400 if R.thorough else 100):
            dt = float(rng.choice([0.1, 0.25, 1.0, 1 / 3, 0.7, 5.0, 1e-3 * 123]))
            te = float(rng.choice([1.0, 2.0, 0.3, 10.0, 7.0, dt * 4, dt * 4 + 1e-9, dt * 0.5, 0.0, dt * (4 + 1e-4), dt * (4 - 1e-4), dt * 4.01, dt * 3.99]))
            n0 = int(rng.choice([0, 0, 1, 3]))
            ck.case(dt=dt, t_end=te, starting_step=n0)
            s, log, Q0, Q1 = rig(dt, dt * n0, te, n0)
            s.starting_step, s.initial_Q = n0, Q0
            with sims.quiet():
                s.run()
            hs = [e[2] for e in log if e[0] == "integrate"]
            ks = [e[2] for e in log if e[0] == "output"]
            ck.check("finalised once, last", [e[0] for e in log].count("finalize") == 1 and log[-1] == ("finalize",), [e[0] for e in log][-3:])
            ck.check("ends at the end time", abs(s.t - max(te, dt * n0)) <= 1e-12 * max(te, 1) if hs or te <= dt * n0 else False, s.t)
            ck.check("output steps are consecutive", ks == list(range(n0 + 1, n0 + 1 + len(hs))), ks)
            exp = max(0, int(np.ceil(te / dt - 1e-9)) - n0)
            ck.check("the step is never longer than asked", all(0 <= h <= dt for h in hs), hs[-1:])
            ck.check("number of steps", len(hs) in (exp, exp + 1) and (len(hs) == exp or hs[-1] < 1e-6 * dt), (len(hs), exp))
            ck.check("steps add up to the elapsed time", abs(sum(hs) - max(0.0, te - dt * n0)) <= 1e-10 * max(te, 1), sum(hs))
        # failure flag ends the run
        for fail_at in (1, 2, 5):
            ck.case(integrator_fails_at_step=fail_at)
            s, log, Q0, Q1 = rig(1.0, 0.0, 10.0, 0)
            s.starting_step, s.initial_Q = 0, Q0
            old = s.integrator.step

            def st(Q, h):
                r = old(Q, h)
                if len([e for e in log if e[0] == "integrate"]) == fail_at:
                    s.integrator.failure_flag = 1
                return r

            s.integrator.step = st
            with sims.quiet():
                s.run()
            ck.check("a failed integrator stops the run", len([e for e in log if e[0] == "integrate"]) == fail_at, len(log))
            ck.check("finalised after failure", log[-1] == ("finalize",))

    R.concrete("whole runs", runs, bound="100 (400) time step / end time pairs")
    shutil.rmtree(scratch, ignore_errors=True)
