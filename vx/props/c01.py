"""C01: the process topology is the adjacency of the cubed sphere, for every tile count and every tile."""

import numpy as np

from ..core import *
from .. import core, cube
from ..load import imp, need, device, inject, Gap


def _rank_of(p, r, c, k):
    return p * k * k + r * k + c


class SymComm:
    """Contract of the communicator during construction: only its size and rank are observed."""

    def __init__(self, size, rank=None):
        self._size, self._rank = size, rank
        self.graph = None

    size = property(lambda s: s._size)
    rank = property(lambda s: s._rank)

    def Get_size(self):
        return self._size

    def Get_rank(self):
        return self._rank

    def Create_dist_graph_adjacent(self, sources, destinations, *a, **k):
        self.graph = (list(sources), list(destinations))
        return Gap("graph")

    def Split(self, color=0, key=0):
        return Gap("panel_comm", rank=0, size=1)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise core.HarnessGap(f"comm.{k}")


def run(R):
    pt = imp("process_topology")
    Topo = need(pt, "ProcessTopology")
    R.under_contract("process_topology.ProcessTopology.__init__ (neighbour tables, rank arithmetic, size check)")
    R.trust("communicator contract: Get_size/Get_rank return the size and the rank")
    R.assume(
        "int(size/6), int(sqrt(.)) and floor(rank/.) are computed in binary64; treated as exact (true below 2^52 processes)"
    )

    # ---- all tiles of all cubes: symbolic k, row, col; panel enumerated (6 values)
    def tile(panel):
        def body(c):
            k, r, cc = integer("k"), integer("row"), integer("col")
            c.assume(k >= 1)
            c.assume(AND(r >= 0, r < k, cc >= 0, cc < k))
            rank = _rank_of(panel, r, cc, k)
            size = 6 * k * k
            c.sqrt_hints = [k]
            c.floor_hints = [SInt(panel), r, k * k, k]
            comm = SymComm(size, rank)
            with inject(pt):
                t = Topo(device(comm), comm=comm)
            c.prove("panel of the tile", EQ(t.my_panel, panel))
            c.prove("row of the tile", EQ(t.my_row, r))
            c.prove("column of the tile", EQ(t.my_col, cc))
            c.prove("tiles per panel side", EQ(t.num_lines_per_panel, k))
            src, dst = comm.graph
            exp = []
            for side in cube.SIDES:
                at = {0: r == 0, 1: r == k - 1, 2: cc == 0, 3: cc == k - 1}[side]
                at = bool(at)  # already decided on this path by the code's own branch, or forks here
                p2, r2, c2, s2, rev = cube.neighbor(panel, r, cc, k, side, at)
                n = _rank_of(p2, r2, c2, k)
                exp.append(n)
                nm = cube.NAMES[side]
                c.prove(f"{nm}: receives from the tile across that edge", EQ(src[side], n))
                c.prove(f"{nm}: sends to the tile across that edge", EQ(dst[side], n))
                c.prove(f"{nm}: neighbour is a valid rank", AND(src[side] >= 0, src[side] < size))
                fl = t.flip[side]
                c.prove(f"{nm}: reversal flag matches the edge orientation", SBool(bool(fl) == bool(rev)))
            for i in range(4):
                for j in range(i):
                    c.prove(f"neighbours {i},{j} are distinct", src[i] != src[j])

        return body

    for p in range(6):
        R.symbolic(f"tile of panel {p}", tile(p))

    # ---- a size that is not 6 k^2 is rejected; a size 6 m^2 is accepted
    def accepted(c):
        n = integer("size")
        c.assume(n >= 1)
        c.floor_hints = [SInt(0)]
        comm = SymComm(n, SInt(0))
        try:
            with inject(pt):
                t = Topo(device(comm), rank=SInt(0), comm=comm)
        except ValueError:
            return
        L = t.num_lines_per_panel
        c.prove("accepted size is six squares", AND(EQ(6 * L * L, n), L >= 1))

    def not_rejected(c):
        m = integer("m")
        c.assume(m >= 1)
        comm = SymComm(6 * m * m, SInt(0))
        c.sqrt_hints = [m]
        c.floor_hints = [m * m, m, SInt(0)]
        try:
            with inject(pt):
                Topo(device(comm), rank=SInt(0), comm=comm)
        except ValueError:
            c.prove("six squares are not rejected", SBool(False))
            return
        c.prove("six squares are accepted", SBool(True))

    R.symbolic("wrong process counts are rejected", accepted)
    R.symbolic("right process counts are accepted", not_rejected)

    # ---- lemma: the oracle adjacency is an involution (so the distributed graph is consistent)
    def lemma(c):
        k, r, cc = integer("k"), integer("row"), integer("col")
        c.assume(AND(k >= 1, r >= 0, r < k, cc >= 0, cc < k))
        for p in range(6):
            for side in cube.SIDES:
                for at in (True, False):
                    cond = {0: r == 0, 1: r == k - 1, 2: cc == 0, 3: cc == k - 1}[side]
                    cond = cond if at else NOT(cond)
                    p2, r2, c2, s2, rev = cube.neighbor(p, r, cc, k, side, at)
                    p3, r3, c3, s3, rev3 = cube.neighbor(p2, r2, c2, k, s2, at)
                    if not (p3 == p and s3 == side and rev3 == rev):
                        c.prove("adjacency is symmetric", SBool(False))
                    cond2 = {0: EQ(r2, 0), 1: EQ(r2, k - 1), 2: EQ(c2, 0), 3: EQ(c2, k - 1)}[s2]
                    c.prove(
                        f"symmetric p{p} s{side} {at}",
                        IMP(cond, AND(EQ(r3, r), EQ(c3, cc), cond2 if at else NOT(cond2))),
                        kind="aux",
                    )

    R.symbolic("lemma: adjacency is an involution", lemma)

    # ---- bounded replay on the real constructor
    def concrete(ck):
        kmax = 12 if R.thorough else 7
        for k in range(1, kmax + 1):
            size = 6 * k * k
            tops = []
            for rank in range(size):
                comm = SymComm(size, rank)
                ck.case(size=size, rank=rank)
                tops.append((Topo(device(comm), comm=comm), comm))
            for rank, (t, comm) in enumerate(tops):
                ck.current = {"size": size, "rank": rank}
                p, rem = divmod(rank, k * k)
                r, c = divmod(rem, k)
                ck.check("panel/row/col", (t.my_panel, t.my_row, t.my_col) == (p, r, c))
                src, dst = comm.graph
                for side in cube.SIDES:
                    at = [r == 0, r == k - 1, c == 0, c == k - 1][side]
                    p2, r2, c2, s2, rev = cube.neighbor(p, r, c, k, side, at)
                    n = _rank_of(p2, r2, c2, k)
                    ck.check("receives from the tile across the edge", src[side] == n, f"{src} side {side} expected {n}")
                    ck.check("sends to the tile across the edge", dst[side] == n, f"{dst} side {side} expected {n}")
                    ck.check("reversal flag", bool(t.flip[side]) == rev, f"{t.flip} side {side}")
                ck.check("distinct neighbours", len(set(src)) == 4, str(src))
        for size in range(1, 700 if not R.thorough else 5000):
            k = round((size / 6) ** 0.5)
            good = k >= 1 and 6 * k * k == size
            ck.case(size=size)
            try:
                Topo(device(SymComm(size, 0)), comm=SymComm(size, 0))
                ok = True
            except ValueError:
                ok = False
            ck.check("size accepted iff it is six squares", ok == good, f"accepted={ok}")
        # very large cubes: the float arithmetic of the size check
        rng = np.random.default_rng(R.seed)
        for _ in range(200):
            k = int(rng.integers(1, 3_000_000))
            size = 6 * k * k
            p, r, c = int(rng.integers(6)), int(rng.integers(k)), int(rng.integers(k))
            comm = SymComm(size, _rank_of(p, r, c, k))
            ck.case(k=k, panel=p, row=r, col=c)
            t = Topo(device(comm), comm=comm)
            ck.check("panel/row/col (large)", (t.my_panel, t.my_row, t.my_col) == (p, r, c))

    R.concrete("topology replay", concrete, bound="all tiles for k<=7 (12), sizes <= 700 (5000), 200 random huge cubes")

    # the elements of a panel are shared out evenly, or the count is refused
    def share(ck):
        from .. import fakempi, sims

        S = need(imp("simulation"), "Simulation")
        need(S, "_make_device")

        class Stop(Exception):
            pass

        class Shell(S):
            def _make_device(self):
                raise Stop

        class One:
            """one process of a communicator of the given size, up to the point where the elements are shared"""

            def __init__(self, size, rank):
                self.size, self.rank = size, rank

            Get_size = lambda s: s.size
            Get_rank = lambda s: s.rank
            bcast = lambda s, v=None, root=0: v

            def __getattr__(self, k):
                if k.startswith("__"):
                    raise AttributeError(k)
                raise core.HarnessGap(f"comm.{k}")

        for n in (1, 2, 3, 4, 5, 6, 8, 9, 12, 30):
            for size in (1, 5, 6, 7, 12, 24, 36, 54, 96, 150, 216, 294, 384, 486, 600, 1350, 5400):
                ck.case(elements=n, processes=size)
                cfg = sims.config("sw", {"num_elements_horizontal": n})
                sh = Shell.__new__(Shell)
                with sims.quiet():
                    try:
                        sh.__init__(cfg, comm=One(size, 0))
                        raise core.HarnessGap("the constructor does not make a device")
                    except Stop:
                        ok = True
                    except ValueError:
                        ok = False
                k = round((size / 6) ** 0.5)
                fits = 6 * k * k == size and n % k == 0
                if not fits:
                    ck.check("a count that does not tile the panels evenly is refused", not ok)
                if fits and 2 * k <= n or size == 6:
                    ck.check("a count that tiles the panels in tiles of two elements or more is accepted", ok)
                if ok and fits:
                    ck.check("every process gets its share of the elements", sh.config.num_elements_horizontal * k == n == sh.config.num_elements_horizontal_total, sh.config.num_elements_horizontal)

    R.concrete("sharing the elements of a panel", share, bound="10 panel sizes x 17 process counts")
    R.under_contract("Simulation._adjust_num_elements (bounded)", "Simulation.allowed_pe_counts (bounded)")
