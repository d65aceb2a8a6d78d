"""C02: scalar halo exchange delivers the neighbour's values at the same physical points, for every shape and value."""

import numpy as np
import z3

from ..core import *
from .. import core, cube, fakempi
from ..load import imp, need, device, inject
from ..symarray import SymArray, SymXP, base_array, prod
from .exch import *


def variants():
    """(name, make(c) -> (array shape, canonical dims, boundary shape, flip argument, positions of the flipped axes))"""

    def v1(c):
        n, L = integer("n"), integer("L")
        c.assume(AND(n >= 1, L >= 1))
        return (n, L), (n, L), (L,), None, {1}

    def v2(c):
        n, A, B = integer("n"), integer("A"), integer("B")
        c.assume(AND(n >= 1, A >= 2, B >= 2))
        return (n, A, B), (n, A * B), (A * B,), None, {1}

    def v3(c):
        n, H, P = integer("nk"), integer("H"), integer("P")
        c.assume(AND(n >= 1, H >= 2, P >= 2))
        return (n, H, P * P), (n, H, P, P), (H, P, P), (-3, -1), {1, 3}

    def v4(c):
        L = integer("L")
        c.assume(L >= 1)
        return (L,), (L,), (L,), None, {0}

    return [("line", v1), ("elements x points", v2), ("3D side", v3), ("single line", v4)]


def run(R):
    R.under_contract(
        "process_topology.ProcessTopology.start_exchange_scalars",
        "process_topology.get_base_shape",
        "process_topology.ExchangeRequest.__init__",
        "process_topology.ExchangeRequest.wait",
    )
    R.trust("contract of MPI neighbour all-to-all and of xp.empty/flip/reshape (row-major)")
    R.assume(
        "the receiver's slot of a link is the sender's side facing it (C01: neighbours are distinct and symmetric)",
        "array shapes are symbolic; elements per side and points per element >= 2 in the multi-dimensional layouts",
    )
    pt = imp("process_topology")
    k = 2

    def link(name, mk, p, r, cc, side, at):
        def body(c):
            shape, canon, bshape, fd, axes = mk(c)
            p2, r2, c2, s2, rev = cube.neighbor(p, r, cc, k, side, at)
            xp = SymXP()
            kw = {} if fd is None else {"flip_dim": fd}
            with inject(pt):
                me, mcomm = make_topo(k, p, r, cc, xp)
                nb, ncomm = make_topo(k, p2, r2, c2, xp)
                mine = [base_array(f"me{i}", shape, canon) for i in range(4)]
                theirs = [base_array(f"nb{i}", shape, canon) for i in range(4)]
                rq = me.start_exchange_scalars(*mine, boundary_shape=bshape, **kw)
                nb.start_exchange_scalars(*theirs, boundary_shape=bshape, **kw)
                recv = mcomm.graph.calls[-1][1]
                send = ncomm.graph.calls[-1][0]
                for i in range(4):
                    recv[i] = send[s2] if i == side else send[(s2 + 1 + i) % 4]
                got = rq.wait()[side]
            c.prove("the request is waited for", SBool(mcomm.graph.waited))
            c.prove("received array has the shape of the sent one", AND(*[EQ(a, b) for a, b in zip(got.shape, shape)])
                    if len(got.shape) == len(shape) else SBool(False))
            idx = [integer(f"i{n}") for n in range(len(canon))]
            for i, d in zip(idx, canon):
                c.assume(AND(i >= 0, i < d))
            src = edge_pos(rev, axes, canon, idx)
            c.prove(
                "value = neighbour's value at the same point of the shared edge",
                EQ(got.at_pos(canon, tuple(idx)), theirs[s2].at_pos(canon, src)),
            )

        return body

    for name, mk in variants():
        for p, r, cc, side, at in tiles_and_sides(k):
            R.symbolic(
                f"{name}: panel {p} {cube.NAMES[side]} {'panel edge' if at else 'interior'}", link(name, mk, p, r, cc, side, at)
            )

    # get_base_shape raises when the boundary length does not fit
    def bad(c):
        n, A, B, L = integer("n"), integer("A"), integer("B"), integer("L")
        c.assume(AND(n >= 2, A >= 2, B >= 2, L >= 1))
        with inject(pt):
            try:
                s = pt.get_base_shape((n, A, B), (L,))
            except ValueError:
                c.prove("rejected only when no suffix of the shape matches", AND(L != B, L != A * B, L != n * A * B))
                return
            except IndexError:
                c.prove("index error only when the data is too small", L > n * A * B)
                return
        c.prove("accepted shape has the same number of elements", EQ(prod(s), n * A * B))
        c.prove("accepted shape ends with the boundary", EQ(s[-1], L))

    R.symbolic("get_base_shape", bad)

    # ---- threads: all ranks, real numpy
    def world(ck):
        rng = np.random.default_rng(R.seed)
        ks = (1, 2, 3) if R.thorough else (1, 2, 3)
        shapes = [
            ((5,), (5,), -1),
            ((3, 4), (4,), -1),
            ((2, 3, 4), (12,), -1),
            ((2, 3, 2, 2), (4,), -1),
            ((2, 3, 4), (3, 2, 2), (-3, -1)),
            ((2, 1, 3, 9), (3, 3, 3), (-3, -1)),
            ((1,), (1,), -1),
        ]
        for k in ks:
            size = 6 * k * k
            for shape, bshape, fd in shapes:
                for dt, kind in [(np.float64, "random"), (np.complex128, "random"), (np.float32, "random"), (np.float64, "sparse"), (np.float64, "uniform"), (np.float64, "special")] if k < 3 else [(np.float64, "random")]:
                    data = rng.standard_normal((size, 4) + shape).astype(dt)
                    if dt is np.complex128:
                        data = data + 1j * rng.standard_normal(data.shape)
                    if kind == "sparse":
                        data = data * (rng.random((size, 4) + (1,) * len(shape)) < 0.5) * (rng.random(data.shape) < 0.7)
                    elif kind == "uniform":
                        data[...] = np.arange(size * 4.0).reshape((size, 4) + (1,) * len(shape)) + 1
                    elif kind == "special":
                        data[...] = rng.choice([np.nan, np.inf, -np.inf, 1e300, -1e-300, 0.0, 1.0], data.shape)
                    keep = data.copy()
                    ck.case(k=k, shape=shape, boundary=bshape, flip_dim=fd, dtype=np.dtype(dt).name, values=kind)

                    def body(rank, comm):
                        t = pt.ProcessTopology(device(comm), comm=comm)
                        rq = t.start_exchange_scalars(*data[rank], boundary_shape=bshape, flip_dim=fd)
                        # a second exchange in flight, completed in the opposite order
                        rq2 = t.start_exchange_scalars(*(-data[rank]), boundary_shape=bshape, flip_dim=fd)
                        b = rq2.wait()
                        a = rq.wait()
                        return a, b

                    res, w = fakempi.run_world(size, body)
                    for rank in range(size):
                        v, e = res[rank]
                        if e is not None:
                            ck.fail("exchange raised", {**ck.current, "rank": rank}, repr(e))
                            break
                        p, rem = divmod(rank, k * k)
                        r, c = divmod(rem, k)
                        for side in cube.SIDES:
                            at = [r == 0, r == k - 1, c == 0, c == k - 1][side]
                            p2, r2, c2, s2, rev = cube.neighbor(p, r, c, k, side, at)
                            exp = keep[p2 * k * k + r2 * k + c2, s2]
                            if rev:
                                lead = shape[: len(shape)]
                                base = None
                                n = int(np.prod(shape)) // int(np.prod(bshape))
                                ax = fd if isinstance(fd, tuple) else (-1,)
                                exp = np.flip(exp.reshape((n,) + bshape), axis=ax).reshape(shape)
                            for sgn, got in ((1, v[0][side]), (-1, v[1][side])):
                                ck.check(
                                    "received value",
                                    got.shape == shape and got.dtype == dt and np.array_equal(got, sgn * exp, equal_nan=True),
                                    lambda: {"rank": rank, "side": side, "got": got, "expected": sgn * exp},
                                )
                    ck.check("input arrays unchanged", np.array_equal(data, keep, equal_nan=True))

    R.concrete("threaded exchange", world, bound="6, 24 and 54 ranks, 7 shapes, 3 dtypes, 4 kinds of fields, two exchanges in flight")
