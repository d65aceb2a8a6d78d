"""C04: gathering tiles and distributing them again are exact placements, for every tile count."""

import numpy as np
import z3

from ..core import *
from .. import core, cube, fakempi
from ..load import imp, need, device, inject, Gap
from ..symarray import *
from ..symarray import SymXP
from .. import symarray


class RoleComm:
    """Communicator contract seen by one role: gather/scatter/bcast with the given behaviour."""

    def __init__(self, size, rank, **ops):
        self.size, self.rank = size, rank
        self.ops = ops
        self.sent = {}

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def Create_dist_graph_adjacent(self, *a, **k):
        return Gap("graph")

    def Split(self, color=0, key=0):
        return self.ops["split"](color, key)

    def bcast(self, v=None, root=0):
        return v

    def gather(self, v, root=0):
        self.sent["gather"] = v
        self.sent["gather_root"] = root
        return self.ops["gather"](v)

    def scatter(self, v=None, root=0):
        self.sent["scatter"] = v
        self.sent["scatter_root"] = root
        self.sent["generics"] = core.ctx().ghost.pop("generics", [])
        return self.ops["scatter"](v)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise HarnessGap(f"comm.{k}")


def build(pt, k, p, r, c, panel_comm, roots_comm):
    rank = p * k * k + r * k + c
    n = [0]

    def split(color, key):
        n[0] += 1
        return panel_comm if n[0] == 1 else roots_comm

    comm = RoleComm(6 * k * k, rank, split=split)
    cx = core.ctx()
    cx.sqrt_hints = [k]
    cx.floor_hints = [SInt(p), r, k * k, k]
    t = pt.ProcessTopology(device(comm, xp=SymXP()), comm=comm)
    return t


def run(R):
    R.under_contract(
        "process_topology.ProcessTopology.gather_tiles_to_panel",
        "process_topology.ProcessTopology.gather_cube",
        "process_topology.ProcessTopology.distribute_cube",
    )
    R.trust("contracts of MPI gather/scatter/bcast/Split and of xp.concatenate/stack/reshape/slicing (row-major)")
    R.assume(
        "loops that build the lists of rows/tiles are checked for one arbitrary iteration (no state carried between iterations)"
    )
    pt = imp("process_topology")


    LAY = {
        # name: (leading dims, element dims) ; num_dim = len(lead) + 2
        "plane": (0, 0),
        "plane of element vectors": (0, 1),
        "variables x plane": (1, 0),
        "variables x levels x plane x points": (2, 1),
    }

    def dims(c, nl, ne, t):
        lead = tuple(integer(f"n{i}") for i in range(nl))
        el = tuple(integer(f"e{i}") for i in range(ne))
        for d in lead + el:
            c.assume(d >= 1)
        return lead, el

    def gather(nl, ne, p):
        def body(c):
            k, t = integer("k"), integer("t")
            c.assume(AND(k >= 1, t >= 1))
            lead, el = dims(c, nl, ne, t)
            num_dim = nl + 2
            shape = lead + (t, t) + el
            F = z3.Function("tile", *([z3.IntSort()] * (2 + len(shape))), z3.RealSort())

            def tile(pp, m):
                def pos(d, i):
                    j = redescribe(d, i, shape)
                    return SReal(F(core.int_term(pp), core.int_term(m), *[core.int_term(x) for x in j]))

                return SymArray(shape, pos)

            with inject(pt, range=sym_range):
                # panel roots assemble their panels; only the panel p we query and panel 0 (the cube root) are distinct roles
                def as_panel_root(q, roots_gather):
                    pc = RoleComm(k * k, SInt(0), gather=lambda v: SymList(k * k, lambda i: tile(q, i)))
                    rc = RoleComm(6, q, gather=roots_gather)
                    T = build(pt, k, q, SInt(0), SInt(0), pc, rc)
                    out = T.gather_cube(tile(q, SInt(0)), num_dim)
                    return out, pc, rc


                out, pc, rc = as_panel_root(p, lambda v: None)
                panel = rc.sent["gather"]
                c.prove("a panel root that is not the cube root returns nothing", SBool(out is None or p == 0))
                panels = [panel if q == p else Gap(f"panel {q}", shape=panel.shape) for q in range(6)]
                r, cc = integer("row"), integer("col")
                c.assume(AND(r >= 0, r < k, cc >= 0, cc < k))
                pc0 = RoleComm(k * k, SInt(0), gather=lambda v: SymList(k * k, lambda i: tile(0, i)))
                rc0 = RoleComm(6, 0, gather=lambda v: panels)
                T0 = build(pt, k, 0, SInt(0), SInt(0), pc0, rc0)
                cubearr = T0.gather_cube(tile(0, SInt(0)), num_dim)
                # a tile that is not a panel root returns nothing
                pc1 = RoleComm(k * k, r * k + cc, gather=lambda v: None)
                T1 = build(pt, k, p, r, cc, pc1, Gap("COMM_NULL"))
                if not c.entails(EQ(k, 1)):
                    c.prove("other ranks return nothing", SBool(T1.gather_cube(tile(p, r * k + cc), num_dim) is None))
            exp_shape = (6,) + lead + (k * t, k * t) + el
            c.prove(
                "shape of the gathered cube",
                AND(*[EQ(a, b) for a, b in zip(cubearr.shape, exp_shape)])
                if len(cubearr.shape) == len(exp_shape)
                else SBool(False),
            )
            li = tuple(integer(f"l{i}") for i in range(nl))
            ei = tuple(integer(f"x{i}") for i in range(ne))
            y, x = integer("y"), integer("x")
            for i, d in zip(li + ei + (y, x), lead + el + (t, t)):
                c.assume(AND(i >= 0, i < d))
            q = (p,) + li + (HInt(r, y, t), HInt(cc, x, t)) + ei
            got = cubearr.at_pos(exp_shape, q)
            want = SReal(F(*[core.int_term(v) for v in (p, r * k + cc) + li + (y, x) + ei]))
            c.prove("element of tile (row, col) lands at its place on the panel", EQ(got, want))

        return body

    def distribute(nl, ne, p):
        def body(c):
            k, t = integer("k"), integer("t")
            c.assume(AND(k >= 1, t >= 1))
            lead, el = dims(c, nl, ne, t)
            num_dim = nl + 2
            shape = (6,) + lead + (k * t, k * t) + el
            canon = (6,) + lead + (k * t, k * t) + ((prod(el),) if ne else ())
            F = z3.Function("cube", *([z3.IntSort()] * len(canon)), z3.RealSort())

            def pos(d, i):
                j = redescribe(d, i, canon)
                return SReal(F(*[core.int_term(x) for x in j]))

            field = SliceArray(shape, pos)
            r, cc = integer("row"), integer("col")
            c.assume(AND(r >= 0, r < k, cc >= 0, cc < k))
            stop = object()

            class Stop(BaseException):
                pass

            def halt(v):
                raise Stop

            with inject(pt, range=sym_range):
                # the cube root: hands the list of panels to the panel roots
                rc0 = RoleComm(6, 0, scatter=halt)
                T0 = build(pt, k, 0, SInt(0), SInt(0), RoleComm(k * k, 0), rc0)
                c.floor_hints = c.floor_hints + [t]
                try:
                    T0.distribute_cube(field, num_dim)
                    c.prove("the root scatters the panels", SBool(False))
                    return
                except Stop:
                    pass
                except ValueError:
                    c.prove("a cube that fits is not rejected", SBool(False))
                    return
                plist = rc0.sent["scatter"]
                c.prove("one panel for each panel root", SBool(len(plist) == 6))
                # the panel root p: hands out tiles
                pcp = RoleComm(k * k, 0, scatter=halt)
                if p == 0:
                    rcp = RoleComm(6, 0, scatter=lambda v: v[0])
                else:
                    rcp = RoleComm(6, p, scatter=lambda v: plist[p])
                Tp = build(pt, k, p, SInt(0), SInt(0), pcp, rcp)
                c.floor_hints = c.floor_hints + [t]
                direct = None
                try:
                    direct = Tp.distribute_cube(field if p == 0 else None, num_dim)
                except Stop:
                    pass
                if direct is not None:
                    c.prove("direct return only with one tile per panel", EQ(k, 1))
                    tile = direct
                else:
                    tl = pcp.sent["scatter"]
                    gens = pcp.sent["generics"]
                    m = r * k + cc
                    if isinstance(tl, list) and len(tl) == 1 and len(gens) == 2:
                        (gi, a, b), (gj, a2, b2) = gens
                        c.prove("one tile for each process of the panel", EQ((b - a) * (b2 - a2), k * k))
                        c.assume(AND(EQ(gi, a + r), EQ(gj, a2 + cc)))
                        tile = tl[0]
                    elif isinstance(tl, list) and len(tl) == 1 and len(gens) == 1:
                        g, a, b = gens[0]
                        c.prove("one tile for each process of the panel", EQ(b - a, k * k))
                        c.assume(EQ(g, a + m))
                        tile = tl[0]
                    else:
                        raise Unsupported("shape of the tile list")
                    # the tile itself returns what it receives
                    if not c.entails(AND(EQ(r, 0), EQ(cc, 0))):
                        got = []
                        pct = RoleComm(k * k, m, scatter=lambda v: tile)
                        Tt = build(pt, k, p, r, cc, pct, Gap("COMM_NULL"))
                        res = None
                        if bool(m == 0):
                            res = tile
                        else:
                            res = Tt.distribute_cube(None, num_dim)
                        c.prove("the process returns the tile it received", SBool(res is tile))
            tshape = lead + (t, t) + el
            c.prove(
                "shape of the tile",
                AND(*[EQ(a, b) for a, b in zip(tile.shape, tshape)]) if len(tile.shape) == len(tshape) else SBool(False),
            )
            li = tuple(integer(f"l{i}") for i in range(nl))
            ei = tuple(integer(f"x{i}") for i in range(ne))
            y, x = integer("y"), integer("x")
            for i, d in zip(li + ei + (y, x), lead + el + (t, t)):
                c.assume(AND(i >= 0, i < d))
            got = tile.at_pos(tshape, li + (y, x) + ei)
            wantidx = (p,) + li + (r * t + y, cc * t + x) + ei
            want = SReal(F(*[core.int_term(v) for v in wantidx]))
            c.prove("tile element is the cube's element at its place", EQ(got, want))

        return body

    for nm, (nl, ne) in LAY.items():
        for p in range(6):
            R.symbolic(f"gather {nm}, panel {p}", gather(nl, ne, p))
            R.symbolic(f"distribute {nm}, panel {p}", distribute(nl, ne, p))

    # ---- threads, real numpy
    def there_and_back(ck, k, lead, el, t, nd, cubev):
        size = 6 * k * k
        def body(rank, comm):
            T = pt.ProcessTopology(device(comm), comm=comm)
            tile = T.distribute_cube(cubev if rank == 0 else None, nd)
            keep = tile.copy()
            back = T.gather_cube(tile, nd)
            if not np.array_equal(tile, keep, equal_nan=True):
                tile = None
            return tile, back

        res, w = fakempi.run_world(size, body)
        for rank in range(size):
            v, e = res[rank]
            if e is not None:
                ck.fail("raised", {**ck.current, "rank": rank}, repr(e))
                break
            tile, back = v
            p, rem = divmod(rank, k * k)
            r, c = divmod(rem, k)
            sl = (p,) + (slice(None),) * len(lead) + (slice(r * t, (r + 1) * t), slice(c * t, (c + 1) * t))
            ck.check("tile", tile is not None and tile.dtype == cubev.dtype and tile.shape == lead + (t, t) + el and np.array_equal(tile, cubev[sl], equal_nan=True), f"rank {rank}")
            if rank == 0:
                ck.check("gather after distribute", back is not None and back.dtype == cubev.dtype and np.array_equal(back, cubev, equal_nan=True), None)
            else:
                ck.check("nothing off the root", back is None)

    def world(ck):
        rng = np.random.default_rng(R.seed)
        for k in (1, 2, 3) if not R.thorough else (1, 2, 3, 4):
            size = 6 * k * k
            for lead, el, t in [((), (), 2), ((), (3,), 1), ((3,), (), 2), ((2, 3), (4,), 2), ((4,), (2, 2), 1), ((), (), 1), ((2,), (), 3)]:
                shape = lead + (k * t, k * t) + el
                nd = len(lead) + 2
                for kind in ("random", "complex", "integers", "single", "special", "repeated"):
                  if kind != "random" and (k == 3 or len(el) == 1 and kind != "integers"):
                      continue
                  cubev = rng.standard_normal((6,) + shape)
                  if kind == "complex":
                      cubev = cubev + 1j * rng.standard_normal(cubev.shape)
                  elif kind == "integers":
                      cubev = rng.integers(2**62, 2**63 - 1, cubev.shape)
                  elif kind == "single":
                      cubev = cubev.astype(np.float32)
                  elif kind == "special":
                      cubev = rng.choice([np.nan, np.inf, -np.inf, 1e300, 0.0, 1.0], cubev.shape)
                  elif kind == "repeated":
                      cubev = np.broadcast_to(np.arange(6.0).reshape((6,) + (1,) * len(shape)), cubev.shape).copy()
                  ck.case(k=k, lead=lead, tile=t, elem=el, values=kind)
                  there_and_back(ck, k, lead, el, t, nd, cubev)
            # bad fields are rejected on every rank
            for bad in ((5, 4 * k, 4 * k), (6, 4 * k, 4 * k + 1), (6, k * 2 + 1, k * 2 + 1) if k > 1 else (7, 2, 2), (6, 4 * k)):
                ck.case(k=k, bad_shape=bad)

                def body(rank, comm):
                    T = pt.ProcessTopology(device(comm), comm=comm)
                    return T.distribute_cube(np.zeros(bad) if rank == 0 else None, 2)

                res, w = fakempi.run_world(size, body)
                for rank, (v, e) in enumerate(res):
                    ck.check(
                        "a field that cannot be split raises on every process",
                        e is not None and not isinstance(e, fakempi.MPIError),
                        repr(e),
                    )
            # 1-D gather: first row of tiles end to end
            ck.case(k=k, one_d=True)

            def body1(rank, comm):
                T = pt.ProcessTopology(device(comm), comm=comm)
                return T.gather_tiles_to_panel(np.arange(3.0) + 10 * rank, 1)

            res, w = fakempi.run_world(size, body1)
            for rank, (v, e) in enumerate(res):
                if e is not None:
                    ck.fail("1-D gather raised", None, repr(e))
                    continue
                p, rem = divmod(rank, k * k)
                if rem == 0:
                    exp = np.concatenate([np.arange(3.0) + 10 * (p * k * k + j) for j in range(k)])
                    ck.check("1-D gather", v is not None and np.array_equal(v, exp), v)
                else:
                    ck.check("1-D gather off the panel root", v is None)

    R.concrete("threaded gather/distribute", world, bound="k<=3 (4), 7 layouts, 6 kinds of values, 4 malformed fields")
