"""Shared by C02/C03: symbolic and threaded drivers of the halo exchange."""

import numpy as np
import z3

from ..core import *
from .. import core, cube, fakempi
from ..load import imp, need, device, inject, Gap
from ..symarray import SymArray, SymBuf, SymXP, base_array, prod


class Graph:
    """Contract of the neighbour all-to-all: slot i of the send buffer goes to destination i; after Wait, slot i of the
    receive buffer holds what source i sent to this process."""

    def __init__(self):
        self.calls = []

    def Ineighbor_alltoall(self, s, r):
        self.calls.append((s, r))
        self.waited = False

        class Rq:
            def Wait(rq, *a):
                self.waited = True

            wait = Wait

            def __getattr__(rq, k):
                if k.startswith("__"):
                    raise AttributeError(k)
                raise HarnessGap(f"request.{k}")

        return Rq()

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise HarnessGap(f"graph comm.{k}")


class TopoComm:
    def __init__(self, size, rank):
        self.size, self.rank = size, rank
        self.edges = None
        self.graph = Graph()

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def Create_dist_graph_adjacent(self, s, d, *a, **k):
        self.edges = (list(s), list(d))
        return self.graph

    def Split(self, color=0, key=0):
        return Gap("panel_comm", rank=0, size=1)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise HarnessGap(f"comm.{k}")


def tiles_and_sides(k=2):
    """One representative (rank, side) for each panel edge and one interior border per panel and direction."""
    seen, out = set(), []
    for p in range(6):
        for r in range(k):
            for c in range(k):
                for side in cube.SIDES:
                    at = [r == 0, r == k - 1, c == 0, c == k - 1][side]
                    if (p, side, at) in seen:
                        continue
                    seen.add((p, side, at))
                    out.append((p, r, c, side, at))
    return out


def make_topo(k, p, r, c, xp):
    pt = imp("process_topology")
    comm = TopoComm(6 * k * k, p * k * k + r * k + c)
    return need(pt, "ProcessTopology")(device(comm, xp=xp), comm=comm), comm


def edge_pos(line_rev, axes_rev, dims, idx):
    return tuple(d - 1 - i if n in axes_rev and line_rev else i for n, (d, i) in enumerate(zip(dims, idx)))


def deliver(sender_comm, s2, recv_comm, side, vector):
    send = sender_comm.graph.calls[-1][0]
    recv = recv_comm.graph.calls[-1][1]
    recv[side] = send[s2]
