"""Independent geometry of the cubed sphere (the oracle): panels 0..3 go eastward round the equator, panel 4 lies
north and panel 5 south of panel 0; each panel carries gnomonic coordinates (X, Y) in [-1, 1]^2, X to the east and Y to
the north of panel 0's own frame.  From doc/img/panel_numbering.svg and the documentation of the topology."""

from fractions import Fraction as F

SOUTH, NORTH, WEST, EAST = 0, 1, 2, 3
SIDES = (SOUTH, NORTH, WEST, EAST)
NAMES = ("south", "north", "west", "east")


def point(p, X, Y):
    """Point of the cube surface (the sphere point is its normalisation)."""
    return [(1, X, Y), (-X, 1, Y), (-1, -X, Y), (X, -1, Y), (-Y, X, 1), (Y, X, -1)][p]


def edge_xy(side, s):
    """Panel coordinates of the point at parameter s in [-1,1] along a panel edge (increasing local coordinate)."""
    return [(s, -1), (s, 1), (-1, s), (1, s)][side]


def edge_link():
    """(panel, side) -> (panel', side', reversed): which edge it coincides with; derived from the geometry alone."""
    ends = {}
    for p in range(6):
        for sd in SIDES:
            ends[p, sd] = (point(p, *edge_xy(sd, -1)), point(p, *edge_xy(sd, 1)))
    link = {}
    for k, (a, b) in ends.items():
        m = [(k2, False) for k2, e in ends.items() if k2 != k and e == (a, b)]
        m += [(k2, True) for k2, e in ends.items() if k2 != k and e == (b, a)]
        assert len(m) == 1
        link[k] = (m[0][0][0], m[0][0][1], m[0][1])
    return link


LINK = edge_link()


def neighbor(p, r, c, k, side, at_edge):
    """Tile across the given side: (panel, row, col, its side, reversed).  r, c, k may be symbolic."""
    if not at_edge:
        dr, dc = [(-1, 0), (1, 0), (0, -1), (0, 1)][side]
        return p, r + dr, c + dc, side ^ 1, False
    p2, s2, rev = LINK[p, side]
    a = c if side in (SOUTH, NORTH) else r
    a2 = k - 1 - a if rev else a
    if s2 == SOUTH:
        return p2, 0, a2, s2, rev
    if s2 == NORTH:
        return p2, k - 1, a2, s2, rev
    if s2 == WEST:
        return p2, a2, 0, s2, rev
    return p2, a2, k - 1, s2, rev


def tangent(p):
    """Derivatives of point(p, X, Y) with respect to X and Y."""
    o = point(p, 0, 0)
    ex = tuple(a - b for a, b in zip(point(p, 1, 0), o))
    ey = tuple(a - b for a, b in zip(point(p, 0, 1), o))
    return ex, ey
