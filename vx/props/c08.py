"""C08: saved states restart the run they were saved from."""

import contextlib
import copy
import io
import os
import shutil
import tempfile

import numpy as np

from ..core import *
from .. import core, fakempi, kernels, sims
from ..load import imp, need, inject, HarnessGap, Gap


def run(R):
    om = imp("output.output_manager")
    st = imp("output.state")
    sm = imp("simulation.simulation")
    R.under_contract(
        "output.output_manager.OutputManager.step",
        "output.output_manager.OutputManager.load_state_from_file",
        "output.output_manager.OutputManager.state_file_name (bounded)",
        "output.state.save_state/load_state (bounded)",
        "simulation.Simulation._determine_starting_state",
    )
    R.trust("numpy.save/numpy.load and the file system", "the MPI contracts used by gather/distribute (C04) and by SingleProcess (C05)")
    scratch = kernels.scratch()
    kernels.use_build()

    def base(over=None):
        o = {"output_dir": scratch}
        o.update(over or {})
        with sims.quiet():
            return sims.simulation("bubble", o)

    # ------------------------------------------------------------------ frequencies, every step and every frequency
    OM = need(om, "OutputManager")
    need(OM, "step", "__write_result__", "__blockstats__", "_gather_field", "_distribute_field")
    need(om, "save_state", "load_state")

    class Rec(OM):
        def __init__(self, like):
            self.__dict__.update(like.__dict__)
            self.events = []

        def __write_result__(self, Q, step_id):
            self.events.append(("write", Q, step_id))

        def __blockstats__(self, Q, step_id):
            self.events.append(("stats", Q, step_id))

        def state_file_name(self, step_id):
            return ("name", step_id)

        def _gather_field(self, f, nd):
            return ("gathered", f, nd)

    sim0 = base()

    def freq(c):
        o = Rec(sim0.output)
        o.config = copy.copy(o.config)
        fs = {k: integer(k) for k in ("output_freq", "save_state_freq", "stat_freq")}
        for k, v in fs.items():
            setattr(o.config, k, v)
        n = integer("step")
        c.assume(n >= 0)
        saved = []
        with inject(om, save_state=lambda state, cfg, name, **k: saved.append((state, cfg, name)), print=lambda *a, **k: None):
            o.step("Q", n)
        kinds = [e[0] for e in o.events]

        def due(f):
            return AND(f > 0, EQ(n % f, 0)) if not isinstance(f, int) else (f > 0 and n % f == 0)

        import z3

        def duet(f):
            return SBool(z3.And(f.t > 0, n.t % f.t == 0))

        c.prove("results are written exactly at multiples of the output frequency", EQ(SBool("write" in kinds), duet(fs["output_freq"])))
        c.prove("states are saved exactly at multiples of the save frequency", EQ(SBool(bool(saved)), duet(fs["save_state_freq"])))
        c.prove("statistics are printed exactly at multiples of their frequency", EQ(SBool("stats" in kinds), duet(fs["stat_freq"])))
        c.prove("each output is made once, from the given state", SBool(kinds.count("write") <= 1 and kinds.count("stats") <= 1 and len(saved) <= 1 and all(e[1] == "Q" for e in o.events)))
        if saved:
            s = saved[0]
            c.prove("the state saved is the gathered given state", SBool(s[0][:2] == ("gathered", "Q")))
            c.prove("it is saved under the name of this step", EQ(s[2][1], n) if isinstance(s[2], tuple) else SBool(False))

    R.symbolic("output frequencies", freq)

    def freq_real(ck):
        class Hooks(OM):
            def __init__(self, like):
                self.__dict__.update(like.__dict__)
                self.events = []

            def __write_result__(self, Q, step_id):
                self.events.append(("write", step_id))

            def __blockstats__(self, Q, step_id):
                self.events.append(("stats", step_id))

        for fo, fs, ft in ((0, 0, 0), (1, 0, 2), (3, 2, 0), (0, 4, 5), (2, 3, 7), (5, 1, 1), (-1, -2, -3)):
            d = os.path.join(scratch, "freq")
            shutil.rmtree(d, ignore_errors=True)
            ck.case(output_freq=fo, save_state_freq=fs, stat_freq=ft, steps=16)
            o = Hooks(sim0.output)
            o.config = copy.copy(o.config)
            o.config.output_freq, o.config.save_state_freq, o.config.stat_freq = fo, fs, ft
            o.output_dir = o.config.output_dir = d
            os.makedirs(d)
            with sims.quiet():
                for k in range(16):
                    before = set(os.listdir(d))
                    o.step(np.array(sim0.Q) + k, k)
                    new = set(os.listdir(d)) - before
                    due = fs > 0 and k % fs == 0
                    ck.check("a state file appears exactly at multiples of its frequency", len(new) == int(due), (k, new))
                    if due and new:
                        back, _ = st.load_state(o.state_file_name(k), schema=o.config.schema, device=o.device)
                        ck.check("it is the state of its step", np.array_equal(back, np.array(sim0.Q) + k), k)
            for kind, f in (("write", fo), ("stats", ft)):
                got = [e[1] for e in o.events if e[0] == kind]
                ck.check("results and statistics exactly at multiples of their frequency", got == [k for k in range(16) if f > 0 and k % f == 0], (kind, got))
        shutil.rmtree(os.path.join(scratch, "freq"), ignore_errors=True)

    R.concrete("output at the steps asked", freq_real, bound="7 settings x 16 steps")

    # ------------------------------------------------------------------ loading
    def load(ndim, outcome):
        def body(c):
            o = Rec(sim0.output)
            have = tuple(integer(f"have{i}") for i in range(ndim))
            want = tuple(integer(f"want{i}") for i in range(ndim))
            n = integer("step")
            c.assume(AND(n >= 1, *[x >= 1 for x in have + want]))

            class A:
                shape = have

            arr = A()
            names = []

            def ls(name, *a, **k):
                names.append(name)
                if outcome is not None:
                    raise outcome
                return "global", None

            o._distribute_field = lambda f, nd: arr if f == "global" else "?"
            o.device = Gap("device", xp=Gap("xp", asarray=lambda a: a, array=lambda a: a, ceil=np.ceil))
            with inject(om, load_state=ls, print=lambda *a, **k: None):
                try:
                    Q, k = o.load_state_from_file(n, want)
                    err = None
                except (Exception, SystemExit) as e:
                    if isinstance(e, HarnessGap):
                        raise
                    err = e
            same = AND(*[a == b for a, b in zip(have, want)])
            if outcome is not None:
                c.prove("an unreadable file is an error", SBool(err is not None))
            elif err is not None:
                c.prove("a state is refused only for its shape", NOT(same))
            else:
                c.prove("an accepted state has the expected shape", same)
                c.prove("the state returned is this process's part of the file", SBool(Q is arr))
                c.prove("the step returned is the step asked for", EQ(k, n))
            c.prove("the file read is the one named for the step", EQ(names[0][1], n) if names and isinstance(names[0], tuple) else SBool(False))

        return body

    for nd in (3, 4, 5):
        R.symbolic(f"load a {nd}-dimensional state", load(nd, None))
    R.symbolic("load an unreadable state", load(3, OSError("x")))

    need(sm.Simulation, "_determine_starting_state")

    def start(outcome):
        def body(c):
            s = copy.copy(sim0)
            s.config = copy.copy(s.config)
            n = integer("starting_step")
            c.assume(n >= 0)
            s.config.starting_step = n
            s.output = copy.copy(s.output)
            calls = []

            def lf(step, shape):
                calls.append((step, shape))
                if outcome is not None:
                    raise outcome
                return "loaded", step

            s.output.load_state_from_file = lf
            with inject(sm, print=lambda *a, **k: None):
                try:
                    Q, k = s._determine_starting_state()
                except (Exception, SystemExit) as e:
                    if isinstance(e, HarnessGap):
                        raise
                    Q, k = None, None
            c.prove("the run starts from some state", SBool(Q is not None))
            if Q is None:
                return
            if isinstance(Q, str):
                c.prove("a loaded state is used only when asked for, with its step", AND(n > 0, EQ(k, n)))
            else:
                c.prove("otherwise the initial state is used, at step 0", AND(SBool(Q is s.initial_Q), EQ(k, 0)))
                if outcome is None:
                    c.prove("a readable state is not ignored", n <= 0)
            c.prove("the state asked for is that of the starting step, with the expected shape", AND(*[AND(EQ(a, n), SBool(tuple(b) == s.initial_Q.shape)) for a, b in calls], SBool(True)))

        return body

    for nm, o in [("readable", None), ("missing", FileNotFoundError("f")), ("wrong shape", ValueError("v")), ("other process failed", SystemExit(1)),
                  ("truncated", EOFError("e")), ("not text", UnicodeDecodeError("utf-8", b"x", 0, 1, "r")), ("I/O error", OSError("o"))]:
        R.symbolic(f"starting state: {nm}", start(o))

    # ------------------------------------------------------------------ bounded: files
    def files(ck):
        rng = np.random.default_rng(R.seed)
        com = imp("common")
        schema = com.load_default_schema()
        d = tempfile.mkdtemp(dir=scratch)
        extra = ["", "\n\n# trailing comment\n", "\n; ϕ0 = π\n"]
        k = 0
        for kind in ("bubble", "sw", "euler3d"):
            for shape in [(4, 3, 2), (3, 2, 2, 4), (5, 1, 2, 2, 8), (1,), (2, 0), ()]:
                for dt in (np.float64, np.complex128, np.float32):
                    t = sims.text(kind) + extra[k % 3]
                    k += 1
                    cfg = com.Configuration(t, schema)
                    a = rng.standard_normal(shape).astype(dt) if dt is not np.complex128 else rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
                    a = np.asarray(a)
                    if a.size > 3:
                        a.flat[0], a.flat[1], a.flat[2] = np.nan, -0.0, np.inf
                    f = f"{d}/s{k}.npy"
                    ck.case(kind=kind, shape=shape, dtype=str(np.dtype(dt)))
                    st.save_state(a, cfg, f)
                    b, c2 = st.load_state(f, schema)
                    ck.check("state array bit for bit", b.shape == a.shape and b.dtype == a.dtype and b.tobytes() == a.tobytes(), f"{b.shape} {b.dtype}")
                    for opts in cfg.sections.values():
                        for n in opts:
                            ck.check("same option values", getattr(c2, n, None) == getattr(cfg, n), n)
        # cut short at any byte
        cfg = com.Configuration(sims.text("bubble"), schema)
        a = rng.standard_normal((4, 2, 3, 2))
        f = f"{d}/full.npy"
        st.save_state(a, cfg, f)
        raw = open(f, "rb").read()
        g = f"{d}/cut.npy"
        for n in range(0, len(raw), 1 if R.thorough else 3):
            ck.case(cut=n, length=len(raw))
            with open(g, "wb") as h:
                h.write(raw[:n])
            try:
                b, _ = st.load_state(g, schema)
            except Exception:
                continue
            ck.check("a file cut short gives the whole state or an error", b.shape == a.shape and np.array_equal(a, b), b.shape)

    R.concrete("state files", files, bound="3 configurations x 6 shapes x 3 types; every 3rd (every) cut point")

    def names(ck):
        import itertools

        seen = {}
        for dt, nx, nz, ns in itertools.product((1.0, 0.5, 30.0), (3, 4), (4, 5), (1, 2)):
            ck.case(dt=dt, nx=nx, nz=nz, ns=ns)
            with sims.quiet():
                s = sims.simulation("bubble", {"output_dir": scratch, "dt": dt, "num_elements_horizontal": nx, "num_elements_vertical": nz, "num_solpts": ns})
            for step in (0, 1, 10, 9999, 10000, 10001, 65537, 1000001, 99999999, 123456789, 1123456789):
                n = s.output.state_file_name(step)
                key = (dt, nx, nz, ns, step)
                ck.check("one file per problem size, time step and step", n not in seen, (n, seen.get(n)))
                ck.check("inside the output directory", os.path.dirname(os.path.abspath(n)) == os.path.abspath(scratch), n)
                seen[n] = key
            if not R.thorough and len(seen) > 130:
                break

    R.concrete("file names", names, bound="24 problem sizes x 11 steps")

    # ------------------------------------------------------------------ bounded: restart of real runs
    def restart(ck):
        def one(kind, n1, n2, over, integ, corrupt=None):
            d = tempfile.mkdtemp(dir=scratch)
            o = dict(over, output_dir=d, save_state_freq=1, time_integrator=integ)

            def first(rank, comm):
                s = sims.simulation(kind, o, comm)
                hist = [s.Q.copy()]
                for _ in range(3):
                    s.step()
                    hist.append(np.array(s.Q))
                return hist, s.output.state_file_name(2), s.config.dt

            def second(rank, comm):
                s = sims.simulation(kind, dict(o, starting_step=2, save_state_freq=0), comm)
                q0 = np.array(s.Q)
                a = (s.step_id, s.starting_step, s.t, float(s.integrator.sim_time))
                init = np.array(s.initial_Q)
                s.step()
                return q0, a, np.array(s.Q), s.step_id, s.t, init

            with sims.quiet():
                r1, _ = fakempi.run_world(n1, first)
            for v, e in r1:
                if e is not None:
                    raise e
            name = r1[0][0][1]
            dt = r1[0][0][2]
            if corrupt:
                corrupt(name)
            with sims.quiet():
                r2, _ = fakempi.run_world(n2, second)
            for rank, (v, e) in enumerate(r2):
                if e is not None:
                    ck.fail("a restart must not fail or hang", {**ck.current, "rank": rank}, repr(e))
                    return
            if corrupt:
                for rank, (v, _) in enumerate(r2):
                    ck.check("an unusable state: every process starts from step 0", v[1][0] == 0 and v[1][1] == 0 and v[1][2] == 0.0, v[1])
                    ck.check("... and from the initial state", np.array_equal(v[0], r1[rank][0][0][0]))
                return
            for rank, (v, _) in enumerate(r2):
                ck.check("the run starts at the saved step and time", v[1] == (2, 2, 2 * dt, 2 * dt), v[1])
                ck.check("one step later", v[3] == 3 and v[4] == 3 * dt, v[3:5])
                if n1 == n2:
                    ck.check("the state is the one saved", np.array_equal(v[0], r1[rank][0][0][2]), f"rank {rank}")
                    ck.check("the next step is the one of the original run", np.array_equal(v[2], r1[rank][0][0][3]), f"rank {rank}")
            if n1 != n2:
                def cube(get, n, nd):
                    k = int(round((n // 6) ** 0.5))
                    tiles = [get(i) for i in range(n)]
                    out = []
                    for p in range(6):
                        rows = [np.concatenate(tiles[p * k * k + r * k : p * k * k + (r + 1) * k], axis=nd - 1) for r in range(k)]
                        out.append(np.concatenate(rows, axis=nd - 2))
                    return np.stack(out)

                nd = 3 if kind == "sw" else 4
                A = cube(lambda i: r1[i][0][0][2], n1, nd)
                B = cube(lambda i: r2[i][0][0], n2, nd)
                ck.check("the state is the one saved, on another number of processes", np.array_equal(A, B))

        def trunc(name):
            with open(name, "r+b") as f:
                f.truncate(200)

        def gone(name):
            os.remove(name)

        def shape(name):
            with open(name, "wb") as f:
                np.save(f, np.zeros((6, 3, 2, 2)))

        def square(name):
            a = np.load(open(name, "rb"))
            with open(name, "wb") as f:
                np.save(f, np.zeros((6, 3, 8, 8, 4)))

        for kind, n1, n2, over, integ in [
            ("bubble", 1, 1, {}, "tvdrk3"),
            ("bubble", 1, 1, {}, "epi2"),
            ("sw", 6, 6, {}, "tvdrk3"),
            ("sw", 6, 24, {"num_elements_horizontal": 4}, "tvdrk3"),
            ("sw", 24, 6, {"num_elements_horizontal": 4}, "tvdrk3"),
            ("euler3d", 6, 6, {}, "tvdrk3"),
        ]:
            ck.case(kind=kind, saved_on=n1, restarted_on=n2, integrator=integ)
            one(kind, n1, n2, over, integ)
        for nm, f in (("cut short", trunc), ("missing", gone), ("wrong shape", shape), ("other grid", square)):
            ck.case(kind="sw", state=nm)
            one("sw", 6, 6, {}, "tvdrk3", f)

    def last(ck):
        """A run whose end is not a whole number of steps; a run repeated over the files of another."""
        for dt, t_end, n in ((0.1, 0.25, 3), (0.5, 0.75, 2), (0.3, 0.9, 3)):
            d = tempfile.mkdtemp(dir=scratch)
            o = {"output_dir": d, "dt": dt, "t_end": t_end, "save_state_freq": 1, "time_integrator": "tvdrk3"}
            for start in (None, 0.25):
                ck.case(dt=dt, t_end=t_end, repeated=start is not None)
                with sims.quiet():
                    s = sims.simulation("bubble", dict(o))
                    if start is not None:
                        s.Q = s.Q * (1 + 1e-6 * start)
                    hist = [np.array(s.Q)]
                    while len(hist) < n + 3 and s.step():
                        hist.append(np.array(s.Q))
                for k in range(1, len(hist)):
                    with sims.quiet():
                        r = sims.simulation("bubble", dict(o, starting_step=k, save_state_freq=0))
                    ck.check(f"step {k} can be restarted from", r.starting_step == k and r.step_id == k, (r.starting_step, r.step_id))
                    ck.check(f"the state of step {k} is the last one saved for it", np.array_equal(r.Q, hist[k]))

    R.concrete("every saved step of a run", last, bound="three runs, each repeated from another state")

    R.concrete("restarts", restart, bound="6 runs and 4 damaged states, 6 and 24 processes on threads")
    shutil.rmtree(scratch, ignore_errors=True)
