"""C03: vector halo exchange preserves the physical vector (contravariant) / covector (covariant)."""

import numpy as np
import z3

from ..core import *
from .. import core, cube, fakempi
from ..load import imp, need, device, inject
from ..symarray import SymArray, SymXP, base_array, prod
from .exch import *


def _dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def frame(p):
    return cube.point(p, 0, 0), *cube.tangent(p)


def to_other_panel(p, X, Y, a1, a2, p2, X2, Y2):
    """Contravariant components (angular coordinates) of the same tangent vector in panel p2 at the same point."""
    o, ex, ey = frame(p)
    o2, ex2, ey2 = frame(p2)
    u, v = a1 * (1 + X * X), a2 * (1 + Y * Y)
    vec = [u * ex[i] + v * ey[i] for i in range(3)]
    d = cube.point(p, X, Y)
    # the scale of d is the same in both panels on their common edge; remove the component along d by zeroing o2
    t = _dot(vec, o2)
    w = [vec[i] - t * d[i] for i in range(3)]
    return _dot(w, ex2) / (1 + X2 * X2), _dot(w, ey2) / (1 + Y2 * Y2)


def edge_coords(side, s):
    return cube.edge_xy(side, s)


def run(R):
    R.under_contract(
        "process_topology.ProcessTopology.start_exchange_vectors",
        "process_topology.ProcessTopology.__init__ (48 component conversions)",
        "process_topology.ExchangeRequest",
        "process_topology.get_base_shape",
    )
    R.trust("contract of MPI neighbour all-to-all and of xp.empty/flip/reshape (row-major)")
    R.assume(
        "real arithmetic for the conversions",
        "vector components are those of the equiangular coordinates; the coordinate passed is the gnomonic coordinate",
    )
    pt = imp("process_topology")
    k = 2

    def mk2(c):
        n, A, B = integer("n"), integer("A"), integer("B")
        c.assume(AND(n >= 1, A >= 2, B >= 2))
        return (n, A, B), (n, A * B), (A * B,), None, {1}

    def mk3(c):
        n, H, P = integer("nk"), integer("H"), integer("P")
        c.assume(AND(n >= 1, H >= 2, P >= 2))
        return (n, H, P * P), (n, H, P, P), (H, P, P), (-3, -1), {1, 3}

    def link(mk, ncomp, cov, p, r, cc, side, at):
        def body(c):
            shape, canon, bshape, fd, axes = mk(c)
            p2, r2, c2, s2, rev = cube.neighbor(p, r, cc, k, side, at)
            xp = SymXP()
            kw = {} if fd is None else {"flip_dim": fd}
            if cov:
                kw["covariant"] = True
            lead = len(canon) - len(bshape)
            with inject(pt):
                me, mcomm = make_topo(k, p, r, cc, xp)
                nb, ncomm = make_topo(k, p2, r2, c2, xp)
                mine = [[base_array(f"me{i}{j}", shape, canon) for j in range(ncomp)] for i in range(4)]
                theirs = [[base_array(f"nb{i}{j}", shape, canon) for j in range(ncomp)] for i in range(4)]
                sn, we = base_array("coord_sn", bshape, bshape), base_array("coord_we", bshape, bshape)
                rq = me.start_exchange_vectors(*mine, sn, we, **kw)
                nb.start_exchange_vectors(*theirs, sn, we, **kw)
                recv = mcomm.graph.calls[-1][1]
                send = ncomm.graph.calls[-1][0]
                for i in range(4):
                    recv[i] = send[s2] if i == side else send[(s2 + 1 + i) % 4]
                got = rq.wait()[side]
            c.prove("as many components as sent", SBool(len(got) == ncomp))
            idx = tuple(integer(f"i{n}") for n in range(len(canon)))
            for i, d in zip(idx, canon):
                c.assume(AND(i >= 0, i < d))
            src = edge_pos(rev, axes, canon, idx)
            bd = sn if s2 in (0, 1) else we
            x = bd.at_pos(canon[lead:], src[lead:])  # gnomonic coordinate along the sender's side at that point
            a = [theirs[s2][j].at_pos(canon, src) for j in range(ncomp)]
            g = [got[j].at_pos(canon, idx) for j in range(ncomp)]
            for j in range(ncomp):
                c.prove(f"component {j} has the shape sent", SBool(len(got[j].shape) == len(shape)))
            if at:
                Xs, Ys = cube.edge_xy(s2, x)
                xr = -x if rev else x
                Xr, Yr = cube.edge_xy(side, xr)
                c.prove(
                    "lemma: same point of the cube",
                    AND(*[EQ(u, v) for u, v in zip(cube.point(p2, Xs, Ys), cube.point(p, Xr, Yr))]),
                    kind="aux",
                )
                if not cov:
                    e1, e2 = to_other_panel(p2, Xs, Ys, a[0], a[1], p, Xr, Yr)
                    c.prove("first component of the same physical vector", EQ(g[0], e1))
                    c.prove("second component of the same physical vector", EQ(g[1], e2))
                else:
                    b1, b2 = real("b1"), real("b2")
                    e1, e2 = to_other_panel(p2, Xs, Ys, b1, b2, p, Xr, Yr)
                    c.prove(
                        "pairing with every vector is preserved",
                        EQ(g[0] * e1 + g[1] * e2, a[0] * b1 + a[1] * b2),
                    )
            else:
                c.prove("interior border: components unchanged", AND(EQ(g[0], a[0]), EQ(g[1], a[1])))
            if ncomp == 3:
                c.prove("vertical component unchanged", EQ(g[2], a[2]))

        return body

    for cov in (False, True):
        for nm, mk, nc in (("2 components, elements x points", mk2, 2), ("3 components, 3D side", mk3, 3)):
            for p, r, cc, side, at in tiles_and_sides(k):
                R.symbolic(
                    f"{'covariant' if cov else 'contravariant'} {nm}: panel {p} {cube.NAMES[side]} "
                    f"{'panel edge' if at else 'interior'}",
                    link(mk, nc, cov, p, r, cc, side, at),
                )

    # ---- threads
    def world(ck):
        rng = np.random.default_rng(R.seed)
        for k in (1, 2) if not R.thorough else (1, 2, 3):
            size = 6 * k * k
            for shape, bshape, fd, nc in [
                ((6,), (6,), -1, 2),
                ((2, 3, 2), (6,), -1, 2),
                ((2, 3, 4), (3, 2, 2), (-3, -1), 3),
                ((2, 6), (6,), -1, 3),
            ]:
                for cov in (False, True):
                  for dt, kind in [(np.float64, "random"), (np.complex128, "random"), (np.float64, "sparse"), (np.float64, "first"), (np.float64, "second"), (np.float64, "uniform"), (np.float64, "small")]:
                    n = 6
                    # line coordinates of each tile
                    def coords(j):
                        xs = -1 + 2 * (j + (np.arange(n) + 0.5) / n) / k
                        if len(bshape) == 3:
                            return np.repeat(xs.reshape(3, 1, 2), 2, axis=1)
                        return xs

                    data = rng.standard_normal((size, 4, nc) + shape).astype(dt)
                    if dt is np.complex128:
                        data = data + 1j * rng.standard_normal(data.shape)
                    if kind == "sparse":  # tiles, sides and points at rest
                        data = data * (rng.random((size, 4, nc) + (1,) * len(shape)) < 0.5) * (rng.random(data.shape) < 0.7)
                    elif kind == "first":
                        data[:, :, 1:] = 0
                    elif kind == "second":
                        data[:, :, 0] = 0
                    elif kind == "uniform":
                        data[...] = rng.standard_normal((1, 1, nc) + (1,) * len(shape))
                    elif kind == "small":
                        data *= 1e-9
                    tol = 1e-12 * max(np.abs(data).max(), 1e-300)
                    keep = data.copy()
                    ck.case(k=k, shape=shape, boundary=bshape, covariant=cov, components=nc, dtype=np.dtype(dt).name, values=kind)

                    def body(rank, comm):
                        t = pt.ProcessTopology(device(comm), comm=comm)
                        rem = rank % (k * k)
                        r, c = divmod(rem, k)
                        rq = t.start_exchange_vectors(
                            *[tuple(data[rank, i]) for i in range(4)], coords(c), coords(r), flip_dim=fd, covariant=cov
                        )
                        # a second exchange in flight, completed in the opposite order
                        rq2 = t.start_exchange_vectors(
                            *[tuple(-2 * data[rank, i]) for i in range(4)], coords(c), coords(r), flip_dim=fd, covariant=cov
                        )
                        b = rq2.wait()
                        return rq.wait(), b

                    res, w = fakempi.run_world(size, body)
                    m = int(np.prod(shape)) // int(np.prod(bshape))
                    for rank in range(size):
                        v, e = res[rank]
                        if e is not None:
                            ck.fail("exchange raised", {**ck.current, "rank": rank}, repr(e))
                            break
                        p, rem = divmod(rank, k * k)
                        r, c = divmod(rem, k)
                        for side in cube.SIDES:
                            at = [r == 0, r == k - 1, c == 0, c == k - 1][side]
                            p2, r2, c2, s2, rev = cube.neighbor(p, r, c, k, side, at)
                            A = keep[p2 * k * k + r2 * k + c2, s2].reshape((nc, m) + bshape)
                            x = coords(c2 if s2 < 2 else r2)
                            exp = A.copy()
                            if at:
                                Xs, Ys = cube.edge_xy(s2, x)
                                Xr, Yr = cube.edge_xy(side, -x if rev else x)
                                if not cov:
                                    exp[0], exp[1] = to_other_panel(p2, Xs, Ys, A[0], A[1], p, Xr, Yr)
                                else:
                                    # rows of the inverse transpose
                                    m11, m21 = to_other_panel(p2, Xs, Ys, 1.0, 0.0, p, Xr, Yr)
                                    m12, m22 = to_other_panel(p2, Xs, Ys, 0.0, 1.0, p, Xr, Yr)
                                    det = m11 * m22 - m12 * m21
                                    exp[0] = (m22 * A[0] - m21 * A[1]) / det
                                    exp[1] = (-m12 * A[0] + m11 * A[1]) / det
                            if rev:
                                exp = np.flip(exp, axis=fd if isinstance(fd, tuple) else (-1,))
                            for j in range(nc):
                              for f, got in ((1, v[0][side][j]), (-2, v[1][side][j])):
                                ck.check(
                                    f"component {j}" + (" covariant" if cov else " contravariant"),
                                    got.shape == shape and got.dtype == dt
                                    and np.allclose(got, f * exp[j].reshape(shape), rtol=1e-12, atol=10 * tol),
                                    lambda: {"rank": rank, "panel": p, "side": cube.NAMES[side],
                                             "got": got.ravel()[:3], "expected": f * exp[j].ravel()[:3]},
                                )
                    ck.check("input arrays unchanged", np.array_equal(data, keep))

    R.concrete("threaded vector exchange", world, bound="6 and 24 (54) ranks, 4 shapes, co- and contravariant, real and complex, 6 kinds of fields, two exchanges in flight")
