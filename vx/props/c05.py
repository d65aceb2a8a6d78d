"""C05: run-on-one-process contexts: same value everywhere, failure everywhere, one collective on every process."""

import numpy as np

from ..core import *
from .. import core, fakempi
from ..load import imp, need, HarnessGap


class Boom(Exception):
    pass


class RoleComm:
    def __init__(self, rank, size, root_value=None, sums=None):
        self.rank, self.size = rank, size
        self.log = []
        self.root_value = root_value
        self.sums = sums

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def bcast(self, v=None, root=0):
        self.log.append(("bcast", root, v))
        if self.root_value is not None:
            return self.root_value[0]
        return v

    def allreduce(self, v, op=None):
        self.log.append(("allreduce", op, v))
        return v + self.sums

    def Split(self, color=0, key=0):
        self.log.append(("Split", color, key))
        return "sub"

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise HarnessGap(f"comm.{k}")


class Answer(ValueError):
    """An exception returned, not raised."""

    def __eq__(self, o):
        return type(o).__name__ == "Answer" and o.args == self.args

    __hash__ = None


WRONG = Answer("only a value")

OUTCOMES = [
    ("value", lambda: {"a": [1, 2]}, None),
    ("None", lambda: None, None),
    ("falsy value", lambda: 0, None),
    ("empty", lambda: (), None),
    ("an exception object as value", lambda: WRONG, None),
    ("exception", None, Boom("x")),
    ("ValueError", None, ValueError("v")),
    ("SystemExit", None, SystemExit(3)),
    ("KeyboardInterrupt", None, KeyboardInterrupt()),
]


def run(R):
    wm = imp("wx_mpi")
    R.under_contract(
        "wx_mpi.SingleProcess.__init__/__enter__/__exit__",
        "wx_mpi.Conditional.__enter__/__exit__",
        "wx_mpi.do_once",
        "wx_mpi.MultipleProcesses.__exit__",
    )
    R.trust("contract of MPI bcast (every process gets the root's object) and allreduce (sum)")
    R.assume("the outcome of the body is one of: any returned object, any raised exception (represented by 9 classes of outcome)")

    def use(comm, root, outcome, ran):
        name, val, exc = outcome
        with wm.SingleProcess(comm, root) as s, wm.Conditional(s):
            ran.append(1)
            if exc is not None:
                raise exc
            s.return_value = val()
        return s.return_value

    def single(outcome):
        def body(c):
            rank, root, size = integer("rank"), integer("root"), integer("size")
            c.assume(AND(size >= 1, rank >= 0, rank < size, root >= 0, root < size))
            name, val, exc = outcome
            # the root
            rc = RoleComm(root, size)
            ran = []
            try:
                got, err = use(rc, root, outcome, ran), None
            except BaseException as e:
                if isinstance(e, (PathEnd, Infeasible, Unsupported, HarnessGap)):
                    raise
                got, err = None, e
            c.prove("the root runs the body once", SBool(len(ran) == 1))
            bc = [x for x in rc.log]
            c.prove("the root takes part in exactly one broadcast", SBool(len(bc) == 1 and bc[0][0] == "bcast"))
            c.prove("the broadcast is rooted at the working process", EQ(bc[0][1], root))
            c.prove("the root's own outcome is kept", SBool((err is exc) if exc is not None else (err is None and got == val())))
            # any other process
            c.assume(rank != root)
            oc = RoleComm(rank, size, root_value=(bc[0][2],))
            ran2 = []
            try:
                got2, err2 = use(oc, root, outcome, ran2), None
            except BaseException as e:
                if isinstance(e, (PathEnd, Infeasible, Unsupported, HarnessGap)):
                    raise
                got2, err2 = None, e
            c.prove("the others do not run the body", SBool(len(ran2) == 0))
            c.prove("every other process takes part in exactly one broadcast", SBool(len(oc.log) == 1 and oc.log[0][0] == "bcast"))
            c.prove("with the same root", EQ(oc.log[0][1], root))
            if exc is None:
                c.prove("every process gets the root's value", SBool(err2 is None and got2 == val()))
            else:
                c.prove("a failure of the root stops every process", SBool(err2 is not None))

        return body

    for o in OUTCOMES:
        R.symbolic(f"single process, outcome {o[0]}", single(o))

    def tried(f, *a, **k):
        try:
            return f(*a, **k)
        except BaseException as e:
            if isinstance(e, (PathEnd, Infeasible, Unsupported, HarnessGap)):
                raise
            return e

    def once(c):
        size, rank = integer("size"), integer("rank")
        c.assume(AND(size >= 1, rank >= 0, rank < size))
        calls = []
        tok = object()

        def act(*a):
            calls.append(a)
            return tok

        rc = RoleComm(SInt(0), size)
        got = tried(wm.do_once, act, 1, "b", comm=rc)
        c.prove("the action is called once with its arguments", SBool(calls == [(1, "b")]))
        c.prove("the caller gets the result", SBool(got is tok))
        c.assume(rank != 0)
        oc = RoleComm(rank, size, root_value=(rc.log[0][2],))
        got = tried(wm.do_once, act, 1, "b", comm=oc)
        c.prove("the action is not called elsewhere", SBool(len(calls) == 1))
        c.prove("every process gets the result", SBool(got is tok))

    R.symbolic("do once", once)

    def multi(c):
        size, rank, n, others = integer("size"), integer("rank"), integer("n"), integer("other_errors")
        c.assume(AND(size >= 1, rank >= 0, rank < size, n >= 0, others >= 0, others < size))
        fails = boolean("this_one_fails")
        comm = RoleComm(rank, size, sums=others)
        ran = []
        err = None
        skip = AND(n > 0, rank >= n)
        f = bool(fails)
        try:
            with wm.MultipleProcesses(comm, n) as s, wm.Conditional(s):
                ran.append(1)
                if f:
                    raise Boom()
        except BaseException as e:
            if isinstance(e, (PathEnd, Infeasible, Unsupported, HarnessGap)):
                raise
            err = e
        c.prove("the active processes, and only they, run the body", EQ(SBool(len(ran) == 1), NOT(skip)))
        c.prove("exactly one reduction", SBool(len([x for x in comm.log if x[0] == "allreduce"]) == 1))
        mine = comm.log[-1][2]
        c.prove("a failure is counted, a skipped or successful process is not", EQ(mine, SInt(1) if (ran and f) else SInt(0)))
        if ran and f:
            c.prove("a failing process raises its exception", SBool(isinstance(err, Boom)))
        else:
            c.prove("no failure anywhere: everyone goes on", IMP(others == 0, SBool(err is None)))
            if not ran:
                c.prove("a failure elsewhere stops the idle processes", IMP(others > 0, SBool(err is not None)))

    R.symbolic("several processes", multi)

    def world(ck):
        for size in (1, 2, 3, 5):
            for root in range(size):
                for o in OUTCOMES:
                    name, val, exc = o
                    ck.case(size=size, root=root, outcome=name)
                    ran = []

                    def body(rank, comm):
                        with wm.SingleProcess(comm, root) as s, wm.Conditional(s):
                            ran.append(rank)
                            if exc is not None:
                                raise exc
                            s.return_value = val()
                        return s.return_value

                    res, w = fakempi.run_world(size, body)
                    ck.check("body runs on the root only", ran == [root], ran)
                    for rank, (v, e) in enumerate(res):
                        ck.check("no deadlock or mismatched collective", not isinstance(e, fakempi.MPIError), repr(e))
                        if exc is None:
                            ck.check("value everywhere", e is None and v == val(), repr((v, e)))
                        else:
                            ck.check("failure everywhere", e is not None, repr(v))
                            if rank == root:
                                ck.check("root keeps its exception", e is exc, repr(e))
                        ck.check("one collective each", sum(1 for g, r, op in w.log if r == rank) == 1, w.log)
                    # two contexts in a row, the second after a failed one elsewhere
            ck.case(size=size, do_once=True)
            n = []

            def body(rank, comm):
                a = wm.do_once(lambda x: n.append(x) or 7, 3, comm=comm)
                b = wm.do_once(lambda: n.append("b"), comm=comm)
                return a, b

            res, w = fakempi.run_world(size, body)
            ck.check("do_once", all(e is None and v == (7, None) for v, e in res) and n == [3, "b"], repr((res, n)))

            def bodyw(rank, comm):
                def f():
                    raise Boom()

                try:
                    wm.do_once(f, comm=comm)
                    out = "ok"
                except BaseException as e:
                    out = type(e).__name__
                return out, wm.do_once(lambda: 5, comm=comm)

            ck.case(size=size, do_once_fails=True)
            res, w = fakempi.run_world(size, bodyw)
            ck.check(
                "after a failure the processes are still in step",
                all(e is None and v[0] != "ok" and v[1] == 5 for v, e in res),
                repr(res),
            )
            # one group of the processes uses the context on its own, each group in its own way
            def bodyg(rank, comm):
                odd = rank % 2
                sub = comm.Split(odd, rank)
                out = [wm.do_once(lambda: ("group", odd), comm=sub) for _ in range(1 + odd)]
                with wm.SingleProcess(comm=sub, root_rank=sub.size - 1) as s, wm.Conditional(s):
                    s.return_value = rank
                return out, s.return_value

            ck.case(size=size, groups=2)
            res, w = fakempi.run_world(size, bodyg)
            want = [([("group", r % 2)] * (1 + r % 2), max(k for k in range(size) if k % 2 == r % 2)) for r in range(size)]
            ck.check("groups of processes are independent", [v for v, _ in res] == want and all(e is None for _, e in res), repr(res))
            # default communicator
            res, w = fakempi.run_world(size, lambda rank, comm: wm.do_once(lambda: comm.rank))
            ck.check("default communicator is the world", all(e is None and v == 0 for v, e in res), repr(res))
            for nproc in range(0, size + 1):
                for bad, exc in [(None, None)] + [(r, e) for r in range(size) for e in (Boom, SystemExit, KeyboardInterrupt)]:
                    ck.case(size=size, num_procs=nproc, failing=bad, how=exc and exc.__name__)
                    ran = []
                    subs = {}

                    def bodym(rank, comm):
                        with wm.MultipleProcesses(*([comm, nproc] if nproc else [comm])) as s, wm.Conditional(s):
                            ran.append(rank)
                            if s.sub_comm is not None:
                                subs[rank] = (s.sub_comm.rank, s.sub_comm.size)
                            if rank == bad:
                                raise exc()
                        return "done"

                    res, w = fakempi.run_world(size, bodym)
                    active = [r for r in range(size) if nproc == 0 or r < nproc]
                    ck.check("active set", sorted(ran) == active, ran)
                    ck.check("the active processes have a communicator of their own, in order", subs == {r: (i, len(active)) for i, r in enumerate(active)}, subs)
                    for rank, (v, e) in enumerate(res):
                        ck.check("no deadlock", not isinstance(e, fakempi.MPIError), repr(e))
                        if bad is None or bad not in active:
                            ck.check("everyone goes on", e is None and v == "done", repr(e))
                        elif rank == bad:
                            ck.check("failure kept", isinstance(e, exc), repr(e))
                        elif rank not in active:
                            ck.check("idle process stops", e is not None)

    R.concrete("threaded contexts", world, bound="1-5 processes, every root, 8 outcomes")

    # the database of solver statistics is opened and written by one process
    def database(ck):
        import os
        import shutil
        import tempfile
        import types

        from .. import kernels, sims

        kernels.use_build()
        out = need(imp("output.solver_stats"), "SolverStatsOutput")
        info = (1.0, 2.0, 0.5, 3, 0.1, 0, [(0.5, 0.1, 1.0)], None, None)
        for size in (1, 2, 4):
            for how in ("fine", "cannot be opened", "cannot be written"):
                scratch = tempfile.mkdtemp(prefix="c05-", dir=kernels.scratch())
                try:
                    ck.case(size=size, database=how)
                    where = os.path.join(scratch, "nowhere") if how == "cannot be opened" else scratch
                    cfg = sims.config("bubble", {"store_solver_stats": 1, "output_dir": scratch, "solver_stats_file": "x.db"})
                    cfg.output_dir = where

                    def body(rank, comm):
                        o = out(cfg, types.SimpleNamespace(comm=comm))
                        o.write_output(*info)
                        if how == "cannot be written" and rank == 0:
                            import sqlite3

                            db = sqlite3.connect(os.path.join(scratch, "x.db"))
                            with db:
                                db.execute("drop table results_data")
                            db.close()
                        comm.barrier()
                        o.write_output(*info)
                        return "done"

                    with sims.quiet():
                        res, w = fakempi.run_world(size, body)
                    for rank, (v, e) in enumerate(res):
                        ck.check("no process is left waiting for the database", not isinstance(e, fakempi.MPIError), repr(e))
                        if how == "fine":
                            if e is not None:
                                raise e
                            ck.check("every process goes on", e is None and v == "done", repr(e))
                        else:
                            ck.check("every process fails with the one that uses the database", e is not None, repr((rank, v)))
                finally:
                    shutil.rmtree(scratch, ignore_errors=True)

    R.concrete("database used by one process", database, bound="1, 2, 4 processes; database fine, not to be opened, not to be written")
