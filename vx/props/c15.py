"""C15: the grid lies where it should, and metric terms and wind conversions are those of that grid."""

from fractions import Fraction
import math
from types import SimpleNamespace as NS

import numpy as np

from .. import alg, cube, fakempi, sims
from ..alg import MATH, Angle, Dual, angle, atom, equal
from ..core import HarnessGap, Unsupported
from ..load import device, imp, need


class GeoXP(alg.AXP):
    """tan of a grid angle is a free positive-or-negative number: one atom per angle and direction"""

    def __init__(self):
        self.seen = {}

    def tan(self, x, *a, **k):
        x = np.asarray(x)
        if x.dtype == object:
            return self._un(x, lambda v: self.at(v.args[0]) if isinstance(v, alg.Node) and v.op == "c" else v.tan(), np.tan)
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = self.at(x[i])
        return out if out.shape else out.item()

    def at(self, v):
        k = round(float(v), 9) + 0.0
        if k not in self.seen:
            self.seen[k] = atom(f"tan({k:+.4f})", lo=-1.0, hi=1.0)
        return self.seen[k]

    linalg = NS(norm=lambda *a, **k: _Norm())


class _Norm:
    """norm used in a self-check of the code: the arrays compared are compared by our own obligations"""

    def __truediv__(self, o):
        return 0.0

    def __rtruediv__(self, o):
        return 0.0

    def __float__(self):
        return 0.0


class patched:
    """math and numpy of the geometry modules on symbolic values"""

    def __init__(self, xp, *mods):
        self.xp, self.mods = xp, [imp(m) for m in mods]

    def __enter__(self):
        self.old = []
        for m in self.mods:
            g = m.__dict__
            for k, v in list(g.items()):
                if v is math:
                    self.old.append((g, k, v))
                    g[k] = MATH
                elif v is np:
                    self.old.append((g, k, v))
                    g[k] = self.xp
        return self

    def swap(self, xp):
        for g, k, v in self.old:
            if v is np:
                g[k] = xp

    def __exit__(self, *a):
        for g, k, v in self.old:
            g[k] = v


MODS = ("geometry.cubed_sphere_2d", "geometry.cubed_sphere_3d", "geometry.sphere", "geometry.metric2d", "geometry.metric3d")


def tile(panel, lines, row, col):
    return NS(my_panel=panel, num_lines_per_panel=lines, my_row=row, my_col=col, size=6 * lines * lines, rank=0)


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), alg.ZERO)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


class Frame:
    """The cube turned by the grid rotation: centre of panel 0 at (lambda0, phi0), its x2 axis turned clockwise from north
    by alpha0.  Vectors in coordinates fixed to the planet (z: the axis of rotation)."""

    def __init__(self, lam, phi, alp, panel):
        L = alg.lift
        sl, cl, sp, cp, sa, ca = (L(f(x)) for x in (lam, phi, alp) for f in (MATH.sin, MATH.cos))
        C = [cl * cp, sl * cp, sp]
        E = [-sl, cl, alg.ZERO]
        N = [-cl * sp, -sl * sp, cp]
        U = [ca * e - sa * n for e, n in zip(E, N)]
        V = [sa * e + ca * n for e, n in zip(E, N)]
        self.axes = C, U, V
        self.panel = panel
        # axes of this panel in the planet's coordinates
        o = cube.point(panel, 0, 0)
        ex, ey = cube.tangent(panel)
        self.O, self.X, self.Y = (self.turn(v) for v in (o, ex, ey))

    def turn(self, v):
        return [sum((alg.lift(c) * a[i] for c, a in zip(v, self.axes)), alg.ZERO) for i in range(3)]

    def direction(self, X, Y):
        return [o + X * x + Y * y for o, x, y in zip(self.O, self.X, self.Y)]


def expected_1d(ns, ne, k, t):
    """equiangular coordinates of the solution points of tile t of k along a panel side, and of the element boundaries"""
    pts = imp("geometry.quadrature").gauss_legendre(ns)[1]
    d = math.pi / 2 / k / ne
    x = [-math.pi / 4 + t * math.pi / 2 / k + (e + (1 + float(p)) / 2) * d for e in range(ne) for p in pts]
    b = [-math.pi / 4 + t * math.pi / 2 / k + e * d for e in range(ne + 1)]
    return x, b, d


def build2(panel, ne, ns, k, row, col, rot, xp):
    C = need(imp("geometry.cubed_sphere_2d"), "CubedSphere2D")
    return C(ne, ns, *rot, tile(panel, k, row, col), NS(), device(xp=xp))


def interior2(ne, ns):
    """(element row, element column, point in element) -> indices of the point along x2 and x1"""
    for a in range(ne):
        for b in range(ne):
            for j in range(ns):
                for i in range(ns):
                    yield (a, b, j * ns + i), a * ns + j, b * ns + i


def faces2(ne, ns):
    """entries of the interface arrays that belong to the tile: ('i' or 'j', entry, boundary index, point index)"""
    for a in range(ne):
        for b in range(ne + 1):  # boundary b is the west side of element b and the east side of element b - 1
            for q in range(ns):
                yield "i", (a, b + 1, q), b, a * ns + q
                yield "i", (a, b, ns + q), b, a * ns + q
                yield "j", (b + 1, a, q), b, a * ns + q
                yield "j", (b, a, ns + q), b, a * ns + q


class Sym2:
    """A shallow-water grid with free rotation angles and free gnomonic coordinates, and the arrays it should hold."""

    def __init__(self, panel, ne, ns, k, row, col, degenerate):
        self.xp = GeoXP()
        self.ne, self.ns = ne, ns
        lam = angle("lambda0")
        self.rot = (lam, 0.0, 0.0) if degenerate else (lam, angle("phi0"), angle("alpha0"))
        x1, b1, d = expected_1d(ns, ne, k, col)
        x2, b2, _ = expected_1d(ns, ne, k, row)
        T = self.xp.at
        self.d = d
        self.x1, self.b1, self.x2, self.b2 = ([T(v) for v in l] for l in (x1, b1, x2, b2))
        self.ang = x1, x2
        self.frame = Frame(*self.rot, panel)
        self.geom = build2(panel, ne, ns, k, row, col, self.rot, self.xp)
        if not isinstance(np.asarray(self.geom.X, dtype=object).flat[0], alg.Node):
            raise HarnessGap("gnomonic coordinates are not taken from the namespace of the device")

    def free(self):
        """any element size, radius and rotation speed from here on"""
        g = self.geom
        self.d = g.delta_x1 = g.delta_x2 = atom("element size", True)
        g.earth_radius = atom("radius", True)
        g.rotation_speed = atom("rotation speed")

    def points(self):
        for e, j, i in interior2(self.ne, self.ns):
            yield "", e, self.x1[i], self.x2[j]
        for s, e, b, q in faces2(self.ne, self.ns):
            yield ("_itf_i", e, self.b1[b], self.x2[q]) if s == "i" else ("_itf_j", e, self.x1[q], self.b2[b])


def col(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def grid2(R, panel, ne, ns, k, row, colm, degenerate):
    name = f"grid of the sphere, panel {panel}, tile ({row},{colm}) of {k}x{k}, {ne}x{ne} elements of order {ns}" + (
        ", grid axis along the planet's" if degenerate else ""
    )

    def go():
        with patched(GeoXP(), *MODS):
            for neg in (False, True):
                alg.NEGATIVE = neg
                try:
                    w = Sym2(panel, ne, ns, k, row, colm, degenerate)
                finally:
                    alg.NEGATIVE = False
                if not neg:
                    first = w
                g, f = w.geom, w.frame
                Re = alg.lift(g.earth_radius)
                got, want = {}, {}
                for s, e, X, Y in w.points():
                    def put(label, a, b):
                        got.setdefault(label, []).append(a)
                        want.setdefault(label, []).append(b)

                    v = f.direction(X, Y)
                    dl = (1 + X * X + Y * Y).sqrt()
                    put("gnomonic X", getattr(g, "X" + s)[e], X)
                    put("gnomonic Y", getattr(g, "Y" + s)[e], Y)
                    put("distance to the panel's plane", getattr(g, "delta" + s)[e], dl)
                    if not neg:
                        for c in range(3):
                            put("place on the sphere", getattr(g, "cart" + s)[(c,) + e], Re * v[c] / dl)
                    hyp = (v[0] * v[0] + v[1] * v[1]).sqrt()
                    for a, b, lab in ((MATH.sin, v[2] / dl, "sine of the latitude"), (MATH.cos, hyp / dl, "cosine of the latitude")):
                        put(lab, a(getattr(g, "polar" + s)[(1,) + e]), b)
                    for a, b, lab in ((MATH.sin, v[1] / hyp, "sine of the longitude"), (MATH.cos, v[0] / hyp, "cosine of the longitude")):
                        put(lab, a(getattr(g, "polar" + s)[(0,) + e]), b)
                    if s == "":
                        put("cosine of the latitude (stored)", g.coslat[e], hyp / dl)
                        put("sine of the longitude (stored)", g.sinlon[e], v[1] / hyp)
                        put("cosine of the longitude (stored)", g.coslon[e], v[0] / hyp)
                        put("sine of the latitude (stored)", g.sinlat[e], v[2] / dl)
                for l in got:
                    equal(R, name, l + (" (after a turn of the longitude)" if neg else ""), col(got[l]), col(want[l]))
            g = first.geom
            equal(R, name, "element size", np.array([g.delta_x1, g.delta_x2], dtype=object), col([alg.lift(first.d)] * 2))
            equal(R, name, "angles along x1", g.x1, col([alg.lift(v) for v in first.ang[0]]))
            equal(R, name, "angles along x2", g.x2, col([alg.lift(v) for v in first.ang[1]]))
            equal(R, name, "coordinates along the south and north edges", g.boundary_sn, col(first.x1))
            equal(R, name, "coordinates along the west and east edges", g.boundary_we, col(first.x2))

    alg.unit(R, name, go, budget_s=200)


# ------------------------------------------------------------------------------------------------------ the plane
def plane_points(pts, x0, x1, n):
    """boundaries of n equal elements of [x0, x1], and the places of the solution points pts of each"""
    d = (x1 - x0) / n
    return d, [x0 + e * d for e in range(n + 1)], [x0 + (e + (p + 1) / 2) * d for e in range(n) for p in pts]


def plane_fields(g, pts, dom, nx, nz):
    ns = len(pts)
    dx, _, x = plane_points(pts, dom[0], dom[1], nx)
    dz, bz, z = plane_points(pts, dom[2], dom[3], nz)
    yield "size of the elements along x", [g.Δx1], [dx]
    yield "size of the elements along z", [g.Δx3], [dz]
    yield "heights of the element boundaries", list(g.itf_Z), bz
    for lab, a, pick in (("x", "X1", lambda k, i: x[i]), ("z", "X3", lambda k, i: z[k])):
        blk, el = getattr(g, a + "_cartesian"), getattr(g, a)
        yield lab + " of every point", [blk[k, i] for k in range(nz * ns) for i in range(nx * ns)], [
            pick(k, i) for k in range(nz * ns) for i in range(nx * ns)
        ]
        yield lab + " of every point, by element", [
            el[b, a, j * ns + i] for b in range(nz) for a in range(nx) for j in range(ns) for i in range(ns)
        ], [pick(b * ns + j, a * ns + i) for b in range(nz) for a in range(nx) for j in range(ns) for i in range(ns)]


def plane(R, nx, nz, ns):
    name = f"grid of the plane, {nx}x{nz} elements of order {ns}"

    def go():
        pts = [atom(f"solution point {i}", lo=-1.0, hi=1.0) for i in range(ns)]
        x0, z0 = atom("x0"), atom("z0")
        x1, z1 = x0 + atom("width", True), z0 + atom("height", True)
        dom = x0, x1, z0, z1
        used = []

        def gl(n, *a, **k):
            used.append(n)
            _, p, w = real(n)
            return [alg_sympy(v) for v in p], col(pts), col([alg.lift(1)] * n)

        gm = imp("geometry.geometry")
        real = need(gm, "gauss_legendre")
        import sympy

        alg_sympy = sympy.Float
        gm.gauss_legendre = gl
        try:
            g = need(imp("geometry"), "Cartesian2D")((x0, x1), (z0, z1), nx, nz, ns, device(xp=alg.AXP()))
        finally:
            gm.gauss_legendre = real
        if used != [ns]:
            raise HarnessGap("the solution points are not asked from gauss_legendre once")
        for lab, a, b in plane_fields(g, pts, dom, nx, nz):
            equal(R, name, lab, col(a), col(b))

    alg.unit(R, name, go, budget_s=60)


def plane_numbers(R):
    def go(ck):
        def compare(g, pts, dom, nx, nz):
            for lab, a, b in plane_fields(g, pts, dom, nx, nz):
                a, b = np.array(a, dtype=float), np.array(b, dtype=float)
                ck.check(lab, np.allclose(a, b, rtol=1e-10, atol=1e-9), f"{a[:4]} instead of {b[:4]}")

        for nx, nz, ns, dom in ((7, 5, 4, (-300.0, 1000.0, 0.0, 1500.0)), (1, 1, 1, (0.0, 2.0, -1.0, 3.0)), (2, 9, 3, (0.0, 1e3, 0.0, 1e4))):
            ck.case(elements=[nx, nz], order=ns, domain=dom)
            g = need(imp("geometry"), "Cartesian2D")(dom[:2], dom[2:], nx, nz, ns, device())
            compare(g, np.polynomial.legendre.leggauss(ns)[0], dom, nx, nz)
        over = {"num_elements_horizontal": 4, "num_elements_vertical": 3, "x0": 10, "x1": 50, "z0": 5, "z1": 20}
        ck.case(simulation=over)
        with sims.quiet():
            sim = sims.simulation("bubble", over)
        compare(sim.geometry, np.polynomial.legendre.leggauss(sim.config.num_solpts)[0], (10.0, 50.0, 5.0, 20.0), 4, 3)

    R.concrete("grid of the plane, numbers", go)


# ------------------------------------------------------------------------------------------------------ metric, 2D
class Local:
    """Tangent vectors of r(x1, x2) = R q / |q|, q = O + tan(x1) X + tan(x2) Y in an orthonormal frame, and their
    derivatives, from the definition (derivatives by dual numbers)."""

    def __init__(self, X, Y, radius):
        self.X, self.Y, self.R = X, Y, radius

    def basis(self, X, Y):
        R = self.R
        d2 = 1 + X * X + Y * Y
        d = d2.sqrt()
        q = [alg.ONE, X, Y]
        e1 = [R * (1 + X * X) * ((1 if c == 1 else 0) / d - q[c] * X / (d2 * d)) for c in range(3)]
        e2 = [R * (1 + Y * Y) * ((1 if c == 2 else 0) / d - q[c] * Y / (d2 * d)) for c in range(3)]
        return e1, e2

    def all(self):
        X, Y = self.X, self.Y
        e = self.basis(X, Y)
        one = alg.ONE
        d1 = self.basis(Dual(X, 1 + X * X), Dual(Y, alg.ZERO))  # d tan(x) / dx = 1 + tan^2 x
        d2 = self.basis(Dual(X, alg.ZERO), Dual(Y, 1 + Y * Y))
        de = [[[c.im if isinstance(c, Dual) else alg.ZERO for c in v] for v in dd] for dd in (d1, d2)]  # de[j][i] = d e_i / d x_j
        return e, de


def inverse2(a, b, c):
    """inverse of [[a, b], [b, c]]"""
    det = a * c - b * b
    return c / det, -b / det, a / det


def metric2(R, panel, ns, degenerate):
    ne = 2
    name = f"metric of the sphere, panel {panel}" + (", grid axis along the planet's" if degenerate else "")

    def go():
        with patched(GeoXP(), *MODS):
            w = Sym2(panel, ne, ns, 2, 1, 0, degenerate)
            g, f = w.geom, w.frame
            w.free()
            m = need(imp("geometry.metric2d"), "Metric2D")(g)
            Re, Om = alg.lift(g.earth_radius), alg.lift(g.rotation_speed)
            h = alg.lift(w.d) / 2  # reference element: one unit is half an element
            got, want = {}, {}

            def put(label, a, b):
                got.setdefault(label, []).append(a)
                want.setdefault(label, []).append(b)

            done = set()
            for s, e, X, Y in w.points():
                if s and (s, id(X), id(Y)) in done:
                    continue
                done.add((s, id(X), id(Y)))
                L = Local(X, Y, Re)
                (e1, e2), de = L.all()
                g11, g12, g22 = dot(e1, e1), dot(e1, e2), dot(e2, e2)
                D = 1 + X * X + Y * Y
                # the determinant is R^4 (1+X^2)^2 (1+Y^2)^2 / D^3; checked here, used for the root
                U = Unit(X, Y)
                for k, v in (("11", g11), ("12", g12), ("22", g22)):
                    put("products of the tangent vectors", v, Re * Re * U[int(k[0]) - 1][int(k[1]) - 1])
                put("determinant of the tangent vectors", (g11 * g22 - g12 * g12), Re**4 * (1 + X * X) ** 2 * (1 + Y * Y) ** 2 / D**3)
                root = Re**2 * (1 + X * X) * (1 + Y * Y) / (D * D.sqrt())
                i11, i12, i22 = inverse2(g11, g12, g22)
                put("area element", getattr(m, "sqrtG" + s)[e], root * h * h)
                for k, v in (("11", i11), ("12", i12), ("21", i12), ("22", i22)):
                    put("contravariant metric " + k, getattr(m, f"H_contra_{k}{s}")[e], v / (h * h))
                if s:
                    continue
                put("inverse of the area element", m.inv_sqrtG[e], 1 / (root * h * h))
                for (a, b), v in (((0, 0), i11), ((0, 1), i12), ((1, 0), i12), ((1, 1), i22)):
                    put("contravariant metric, as one array", m.h_contra[(a, b) + e], v / (h * h))
                for k, v in (("11", g11), ("12", g12), ("21", g12), ("22", g22)):
                    put("covariant metric " + k, getattr(m, f"H_cov_{k}")[e], v * h * h)
                ginv = [[i11, i12], [i12, i22]]
                es = [e1, e2]
                z = [f.O[2], f.X[2], f.Y[2]]  # axis of the planet in this panel's frame
                for k in range(2):
                    up = [ginv[k][0] * a + ginv[k][1] * b for a, b in zip(e1, e2)]  # e^k
                    for j in range(2):
                        turn = dot(up, cross(z, es[j])) * Om
                        put(f"rotation symbol {k+1}0{j+1}", at(getattr(m, f"christoffel_{k+1}_0{j+1}"), e), turn)
                        put(f"rotation symbol {k+1}{j+1}0", at(getattr(m, f"christoffel_{k+1}_{j+1}0"), e), turn)
                        for i in range(2):
                            put(
                                f"Christoffel symbol {k+1}{i+1}{j+1}",
                                at(getattr(m, f"christoffel_{k+1}_{i+1}{j+1}"), e),
                                dot(up, de[j][i]) * h,
                            )
                v = f.direction(X, Y)
                put("Coriolis parameter", m.coriolis_f[e], 2 * Om * v[2] / D.sqrt())
            for l in got:
                equal(R, name, l, col(got[l]), col(want[l]))

    alg.unit(R, name, go, budget_s=200)


def at(a, e):
    return a[e] if np.ndim(a) else alg.lift(a)


def winds2(R, panel, ns, degenerate):
    name = f"wind conversions, shallow water, panel {panel}" + (", grid axis along the planet's" if degenerate else "")

    def go():
        with patched(GeoXP(), *MODS):
            w = Sym2(panel, 2, ns, 2, 1, 0, degenerate)
            g, f = w.geom, w.frame
            w.free()
            Re = alg.lift(g.earth_radius)
            h = alg.lift(w.d) / 2
            sh = np.shape(g.X)
            c1, c2 = alg.array("u1", sh), alg.array("u2", sh)
            u, v = g.contra2wind(c1, c2)
            gu, gv = [], []
            for s, e, X, Y in w.points():
                if s:
                    continue
                (e1, e2), _ = Local(X, Y, Re).all()
                vec = [(a * c1[e] + b * c2[e]) * h for a, b in zip(e1, e2)]  # in the panel's frame
                ph = [o * vec[0] + x * vec[1] + y * vec[2] for o, x, y in zip(f.O, f.X, f.Y)]
                p = f.direction(X, Y)
                D = (1 + X * X + Y * Y).sqrt()
                hy = (p[0] * p[0] + p[1] * p[1]).sqrt()
                east = [-p[1] / hy, p[0] / hy, alg.ZERO]
                north = [-p[2] * p[0] / (hy * D), -p[2] * p[1] / (hy * D), hy / D]
                gu.append((u[e], dot(ph, east)))
                gv.append((v[e], dot(ph, north)))
            equal(R, name, "zonal wind of the contravariant components", col([a for a, _ in gu]), col([b for _, b in gu]))
            equal(R, name, "meridional wind of the contravariant components", col([a for a, _ in gv]), col([b for _, b in gv]))
            r1, r2 = g.wind2contra(u, v)
            equal(R, name, "first component there and back", r1, c1)
            equal(R, name, "second component there and back", r2, c2)

    alg.unit(R, name, go, budget_s=200)


# -------------------------------------------------------------------------------------------------------------- 3D
class Xp3(GeoXP):
    """also: linspace with a symbolic end, and linear systems whose solution is left open"""

    def __init__(self):
        super().__init__()
        self.systems = []
        self.linalg = NS(norm=lambda *a, **k: _Norm(), solve=self.solve)

    def linspace(self, a, b, n=50, *x, **k):
        n = k.get("num", n)
        if isinstance(a, alg.Node) or isinstance(b, alg.Node):
            return col([a + (b - a) * alg.rat(Fraction(i, n - 1)) for i in range(n)])
        return np.linspace(a, b, n, *x, **{q: v for q, v in k.items() if q != "num"})

    def solve(self, A, b):
        sol = alg.array(f"solution{len(self.systems)}", b.shape)
        self.systems.append((A, b, sol))
        return sol


class Operators:
    """Derivatives and extrapolations of fields, known by their contracts only: results are new numbers named after the
    operator; the fields they were applied to are recorded."""

    def __init__(self, ns, ne, nv, up):
        self.ns, self.ne, self.nv = ns, ne, nv
        self.calls = {}
        self.up = up  # identities of heights: their derivative along the vertical is positive (terrain below the top)
        n3, n2 = ns**3, 2 * ns**2
        for k in "xyz":
            setattr(self, f"derivative_{k}", alg.LinOp("D" + k, n3, n3))
            setattr(self, f"extrap_{k}", alg.LinOp("E" + k, n3, n2))
        for k in ("WE", "SN", "DU"):
            setattr(self, "correction_" + k, alg.LinOp("C" + k, n2, n3))

    def _new(self, kind, shape, args, pos=False):
        out = alg.array(f"{kind}{len(self.calls.get(kind, []))}", shape, pos)
        self.calls.setdefault(kind, []).append((args, out))
        return out

    def comma_i(self, f, ext, geom):
        return self._new("comma_i", f.shape, (f, ext))

    def comma_j(self, f, ext, geom):
        return self._new("comma_j", f.shape, (f, ext))

    def comma_k(self, f, ext, geom):
        return self._new("comma_k", f.shape, (f, ext), pos=id(f.flat[0]) in self.up)

    def extrapolate_i(self, f, geom):
        return self._new("extrapolate_i", f.shape[:-1] + (self.ne, 2), (f,))

    def extrapolate_j(self, f, geom):
        return self._new("extrapolate_j", (f.shape[0], self.ne, 2, f.shape[2]), (f,))

    def extrapolate_k(self, f, geom):
        return self._new("extrapolate_k", (self.nv, 2) + f.shape[1:], (f,))

    def grad(self, f, fi, fj, fk, geom):
        return self._new("grad", (3,) + f.shape, (f, fi, fj, fk))


class Partner:
    """Process grid whose neighbours send anything."""

    def __init__(self, panel, k, row, colm):
        self.__dict__.update(vars(tile(panel, k, row, colm)))
        self.sent = []

    def start_exchange_vectors(self, s, n, w, e, *a, **k):
        got = tuple(tuple(alg.array(f"from {x}{len(self.sent)}.{c}", f.shape) for c, f in enumerate(v)) for x, v in zip("snwe", (s, n, w, e)))
        self.sent.append(((s, n, w, e), a, k, got))
        return NS(wait=lambda: got)


class Sym3:
    """An Euler grid with free rotation angles, gnomonic coordinates, radius, rotation speed, model top and topography."""

    def __init__(self, panel, ne, nv, ns, k, row, colm, degenerate, deep, topo=True):
        self.xp = Xp3()
        self.ne, self.nv, self.ns, self.deep = ne, nv, ns, deep
        lam = angle("lambda0")
        self.rot = (lam, 0.0, 0.0) if degenerate else (lam, angle("phi0"), angle("alpha0"))
        x1, b1, d = expected_1d(ns, ne, k, colm)
        x2, b2, _ = expected_1d(ns, ne, k, row)
        T = self.xp.at
        self.x1, self.b1, self.x2, self.b2 = ([T(v) for v in l] for l in (x1, b1, x2, b2))
        pts = imp("geometry.quadrature").gauss_legendre(ns)[1]
        self.eta = [(e + (1 + float(p)) / 2) / nv for e in range(nv) for p in pts]
        self.beta = [e / nv for e in range(nv + 1)]
        self.frame = Frame(*self.rot, panel)
        self.ptopo = Partner(panel, k, row, colm)
        self.top = atom("model top", True)
        C = need(imp("geometry.cubed_sphere_3d"), "CubedSphere3D")
        par = NS(case_number=0, depth_approx="deep" if deep else "shallow")
        g = self.geom = C(ne, nv, ns, *self.rot, self.top, self.ptopo, par, device(xp=self.xp))
        if not isinstance(np.asarray(g.X_new, dtype=object).flat[0], alg.Node):
            raise HarnessGap("gnomonic coordinates are not taken from the namespace of the device")
        self.sizes = abs(g.delta_x1 - d) + abs(g.delta_x2 - d) + abs(g.delta_eta - 1 / nv)
        self.d1 = g.delta_x1 = 2 * atom("half the element size 1", True)
        self.d2 = g.delta_x2 = 2 * atom("half the element size 2", True)
        self.de = g.delta_eta = 2 * atom("half the element size 3", True)
        self.Re = g.earth_radius = atom("radius", True)
        self.Re.cut = "glue"
        self.Om = g.rotation_speed = atom("rotation speed")
        n = ne * ns
        z = lambda name, sh: alg.array(name, sh, True) if topo else np.full(sh, alg.ZERO, dtype=object)
        self.zb, self.zi, self.zj = z("floor", (n, n)), z("floor_i", (n, ne + 1)), z("floor_j", (ne + 1, n))
        fb = np.empty((ne, ne, ns * ns), dtype=object)
        fi, fj = (np.full(sh, alg.ZERO, dtype=object) for sh in ((ne, ne + 2, 2 * ns), (ne + 2, ne, 2 * ns)))
        for e, j, i in interior2(ne, ns):
            fb[e] = self.zb[j, i]
        for s, e, b, q in faces2(ne, ns):
            if s == "i":
                fi[e] = self.zi[q, b]
            else:
                fj[e] = self.zj[b, q]
        if topo:
            g.apply_topography(self.zb, self.zi, self.zj, fb, fi, fj)
        else:
            g.apply_topography(None, None, None, None, None, None)

    def height(self, zb, eta):
        return zb + (self.top - zb) * alg.lift(eta)

    def points(self):
        """(which, entry in the element layout, entry in the block layout, X, Y, height)"""
        ne, nv, ns = self.ne, self.nv, self.ns
        m = ns * ns
        for c in range(nv):
            for k in range(ns):
                z = c * ns + k
                for (a, b, p), j, i in interior2(ne, ns):
                    yield "", (c, a, b, k * m + p), (z, j, i), self.x1[i], self.x2[j], self.height(self.zb[j, i], self.eta[z])
                for a in range(ne):
                    for q in range(ns):
                        l = a * ns + q
                        for b in range(ne + 1):
                            h = self.height(self.zi[l, b], self.eta[z])
                            for e in ((c, a, b + 1, k * ns + q), (c, a, b, m + k * ns + q)):
                                yield "_itf_i", e, (z, l, b), self.b1[b], self.x2[l], h
                            h = self.height(self.zj[b, l], self.eta[z])
                            for e in ((c, b + 1, a, k * ns + q), (c, b, a, m + k * ns + q)):
                                yield "_itf_j", e, (z, b, l), self.x1[l], self.b2[b], h
        for b in range(nv + 1):
            for (a, e1, p), j, i in interior2(ne, ns):
                h = self.height(self.zb[j, i], self.beta[b])
                yield "_itf_k", (b + 1, a, e1, p), (b, j, i), self.x1[i], self.x2[j], h
                yield "_itf_k", (b, a, e1, m + p), (b, j, i), self.x1[i], self.x2[j], h



class Collect:
    def __init__(self, R, name):
        self.R, self.name, self.got, self.want = R, name, {}, {}

    def __call__(self, label, a, b):
        self.got.setdefault(label, []).append(a)
        self.want.setdefault(label, []).append(b)

    def done(self):
        for l in self.got:
            equal(self.R, self.name, l, col(self.got[l]), col(self.want[l]))


def grid3(R, panel, ne, nv, ns, degenerate, deep=True):
    name = f"grid of the atmosphere, panel {panel}, {ne}x{ne}x{nv} elements of order {ns}" + (
        ", grid axis along the planet's" if degenerate else ""
    )

    def go():
        with patched(Xp3(), *MODS):
            w = Sym3(panel, ne, nv, ns, 2, 1, 0, degenerate, deep)
            g, f = w.geom, w.frame
            put = Collect(R, name)
            put("element sizes", alg.lift(w.sizes if w.sizes > 1e-12 else 0), alg.ZERO)
            for s, e, o, X, Y, h in w.points():
                v = f.direction(X, Y)
                dl = (1 + X * X + Y * Y).sqrt()
                for a, suf, at_ in (("gnomonic", s, e), ("coordVec_gnom", s, o)):
                    G = getattr(g, a + suf)
                    put(f"gnomonic X ({a})", G[(0,) + at_], X)
                    put(f"gnomonic Y ({a})", G[(1,) + at_], Y)
                    put(f"height ({a})", G[(2,) + at_], h)
                for a, at_ in (("cart", e), ("coordVec_cart", o)):
                    for c in range(3):
                        put(f"place ({a})", getattr(g, a + s)[(c,) + at_], (w.Re + h) * v[c] / dl)
                hyp = (v[0] * v[0] + v[1] * v[1]).sqrt()
                for a, at_ in (("polar", e), ("coordVec_latlon", o)):
                    P = getattr(g, a + s)
                    put(f"sine of the latitude ({a})", MATH.sin(P[(1,) + at_]), v[2] / dl)
                    put(f"cosine of the latitude ({a})", MATH.cos(P[(1,) + at_]), hyp / dl)
                    put(f"sine of the longitude ({a})", MATH.sin(P[(0,) + at_]), v[1] / hyp)
                    put(f"cosine of the longitude ({a})", MATH.cos(P[(0,) + at_]), v[0] / hyp)
                    put(f"height ({a})", P[(2,) + at_], h)
                if s == "":
                    put("X", g.X_new[e], X)
                    put("Y", g.Y_new[e], Y)
                    put("distance to the panel's plane", g.delta_new[e], dl)
                    put("its square", g.delta2_new[e], 1 + X * X + Y * Y)
                    put("stored cosine of the latitude", g.coslat_new[e], hyp / dl)
                    put("stored cosine of the longitude", g.coslon_new[e], v[0] / hyp)
            put.done()
            ns_, ne_ = w.ns, w.ne
            sn, we = (np.empty((ne_, ns_, ns_), dtype=object) for _ in range(2))
            for b in range(ne_):
                for k in range(ns_):
                    for q in range(ns_):
                        sn[b, k, q], we[b, k, q] = w.x1[b * ns_ + q], w.x2[b * ns_ + q]
            equal(R, name, "coordinates along the south and north edges", g.boundary_sn_new, sn)
            equal(R, name, "coordinates along the west and east edges", g.boundary_we_new, we)

    alg.unit(R, name, go, budget_s=250)


def metric3(R, panel, ne, nv, ns, degenerate, deep, full=True):
    name = f"metric of the {'deep' if deep else 'shallow'} atmosphere, panel {panel}, {ne}x{ne}x{nv} elements of order {ns}" + (
        ", grid axis along the planet's" if degenerate else ""
    )

    def go():
        with patched(Xp3(), *MODS) as pt:
            w = Sym3(panel, ne, nv, ns, 2, 1, 0, degenerate, deep)
            pt.swap(w.xp)
            g, f = w.geom, w.frame
            M = need(imp("geometry.metric3d"), "Metric3DTopo")
            n, N = ne * ns, nv * ns
            H = {s: {} for s in ("", "_itf_i", "_itf_j", "_itf_k")}
            for s, e, o, X, Y, h in w.points():
                H[s][o] = (X, Y, h)
            # heights as the operators will see them: one number per point
            hc = g.coordVec_gnom[2]
            ops = Operators(ns, ne, nv, {id(x) for x in np.asarray(hc, dtype=object).flat})
            m = M(g, ops)
            m.build_metric()
            put = Collect(R, name)
            C = ops.calls
            need_calls = [k for k in ("comma_i", "comma_j", "comma_k") if k not in C]
            if need_calls or len(w.xp.systems) == 0 or "grad" not in C:
                raise HarnessGap("the metric no longer differentiates through the operators of its contract")
            # slopes: derivatives of the heights, with the heights of both sides of every element
            d = []
            for k, ax in (("comma_i", 2), ("comma_j", 1), ("comma_k", 0)):
                (fld, ext), out = C[k][0]
                for o, (X, Y, h) in H[""].items():
                    put("slopes are taken of the heights", fld[o], h)
                    el = o[ax] // ns
                    for side in range(2):
                        face = o[:ax] + (el + side,) + o[ax + 1 :]
                        at_ = {2: (o[0], o[1], el, side), 1: (o[0], el, side, o[2]), 0: (el, side, o[1], o[2])}[ax]
                        put("slopes use the heights at the sides of the element", ext[at_], H[("_itf_k", "_itf_j", "_itf_i")[ax]][face][2])
                d.append(out)
            slope = lambda c, o: d[c][o] * 2 / (w.d1, w.d2, w.de)[c]
            S = {"": {o: [slope(c, o) for c in range(3)] for o in H[""]}}
            # slopes on the sides: mean of both sides, in the coordinates of this panel
            ex = {}
            for k in "ijk":
                calls = C.get("extrapolate_" + k, [])
                if len(calls) < 3:
                    raise HarnessGap("slopes are not extrapolated through the operators")
                ex[k] = []
                for c in range(3):
                    hit = next((out for (fld,), out in calls if fld.shape == d[c].shape and same(fld, S[""], c)), None)
                    if hit is None:
                        raise HarnessGap(f"slope {c + 1} is not extrapolated to the sides {k}")
                        return
                    ex[k].append(hit)
            contra_call = next((x for x in w.ptopo.sent if not x[2].get("covariant")), None)
            if contra_call is None:
                raise HarnessGap("no exchange of contravariant slopes")
            sent, got = contra_call[0], contra_call[3]
            for s, ax in (("_itf_i", 2), ("_itf_j", 1), ("_itf_k", 0)):
                S[s] = {}
                for o, (X, Y, h) in H[s].items():
                    b, rest = o[ax], o[:ax] + o[ax + 1 :]
                    low, high = [], []  # slopes seen from the element below / above this side
                    K = s[-1]
                    last = nv if ax == 0 else ne
                    at_ = lambda el, sd: {2: (o[0], o[1], el, sd), 1: (o[0], el, sd, o[2]), 0: (el, sd, o[1], o[2])}[ax]
                    if b > 0:
                        low = [ex[K][c][at_(b - 1, 1)] for c in range(3)]
                    if b < last:
                        high = [ex[K][c][at_(b, 0)] for c in range(3)]
                    if ax and (b == 0 or b == last):
                        up = UnitInverse(X, Y)
                        dn = Unit(X, Y)
                        mine = high if b == 0 else low
                        side = {(1, 0): 0, (1, last): 1, (2, 0): 2, (2, last): 3}[(ax, b)]
                        q = (o[0], o[2] if ax == 1 else o[1])
                        for c in range(2):
                            put("slopes sent to the neighbour are contravariant", sent[side][c][q], up[c][0] * mine[0] + up[c][1] * mine[1])
                        put("vertical slope sent to the neighbour", sent[side][2][q], mine[2])
                        r = [got[side][c][q] for c in range(3)]
                        other = [dn[c][0] * r[0] + dn[c][1] * r[1] for c in range(2)] + [r[2]]
                        low, high = mine, other
                    low, high = low or high, high or low
                    S[s][o] = [(p + q_) * alg.const(Fraction(1, 2)) for p, q_ in zip(low, high)]
            half = [w.d1 / 2, w.d2 / 2, w.de / 2]
            hc_old, hv_old, rg_old = {}, {}, {}
            expect = {}
            for s in H:
                for o, (X, Y, h) in H[s].items():
                    dr = S[s][o]
                    Rr = w.Re + h if deep else w.Re
                    U = Unit(X, Y)
                    cov = [[half[a] * half[b] * ((Rr * Rr * U[a][b] if a < 2 and b < 2 else alg.ZERO) + dr[a] * dr[b]) for b in range(3)] for a in range(3)]
                    D = 1 + X * X + Y * Y
                    root = half[0] * half[1] * half[2] * Rr * Rr * (1 + X * X) * (1 + Y * Y) / (D * D.sqrt()) * abs(dr[2])
                    P = UnitInverse(X, Y)
                    if not s and o[0] == 0:
                        for a in range(2):
                            for b in range(2):
                                put("inverse of the sphere's metric", P[a][0] * U[0][b] + P[a][1] * U[1][b], alg.ONE if a == b else alg.ZERO)
                    con = [[None] * 3 for _ in range(3)]
                    for a in range(2):
                        for b in range(2):
                            con[a][b] = P[a][b] / (Rr * Rr) / (half[a] * half[b])
                    for a in range(2):
                        con[a][2] = con[2][a] = -(P[a][0] * dr[0] + P[a][1] * dr[1]) / (Rr * Rr * dr[2]) / (half[a] * half[2])
                    q2 = P[0][0] * dr[0] * dr[0] + 2 * P[0][1] * dr[0] * dr[1] + P[1][1] * dr[1] * dr[1]
                    con[2][2] = (1 + q2 / (Rr * Rr)) / (dr[2] * dr[2]) / (half[2] * half[2])
                    expect[s, o] = cov, con, root
            own = {}  # the metric terms of the code: equal to the expected ones by the obligations below, used in their place after
            for s, e, o, X, Y, h in w.points():
                own[s, o] = [[getattr(m, f"h_contra{s}_new")[(a, b) + e] for b in range(3)] for a in range(3)], getattr(m, f"sqrtG{s}_new")[e]
            for s, e, o, X, Y, h in w.points():
                cov, con, root = expect[s, o]
                if not full and s == "" and o[0] > 0:
                    continue
                for a in range(3):
                    for b in range(3):
                        put(f"contravariant metric{s}", getattr(m, f"h_contra{s}_new")[(a, b) + e], con[a][b])
                        put(f"covariant metric{s}", getattr(m, f"h_cov{s}_new")[(a, b) + e], cov[a][b])
                put(f"volume element{s}", getattr(m, f"sqrtG{s}_new")[e], root)
                if s:
                    continue
                put("inverse of the volume element", m.inv_sqrtG_new[e], 1 / root)
                put("inverse of the vertical slope", m.inv_dzdeta_new[e], 1 / (d[2][o]))
                put("volume element (block)", m.sqrtG[o], root)
                # symbols of the planet's rotation: e^k . (Omega x e_j)
                Rr = w.Re + h if deep else w.Re
                D = 1 + X * X + Y * Y
                nrm = [alg.ONE / D.sqrt(), X / D.sqrt(), Y / D.sqrt()]
                t1, t2 = Local(X, Y, alg.ONE).basis(X, Y)
                dr = S[""][o]
                eb = [[half[a] * ((Rr * (t1, t2)[a][c] if a < 2 else alg.ZERO) + dr[a] * nrm[c]) for c in range(3)] for a in range(3)]
                zz = [f.O[2], f.X[2], f.Y[2]]
                for k in range(3):
                    up = [sum((con[k][b] * eb[b][c] for b in range(3)), alg.ZERO) for c in range(3)]
                    for j in range(3):
                        put(f"rotation symbol {k+1}0{j+1}", m.christoffel[(k, j) + e], dot(up, cross(zz, eb[j])) * w.Om)
                v = f.direction(X, Y)
                if o[0] == 0:
                    put("Coriolis parameter", m.coriolis_f[o[1:]], 2 * w.Om * v[2] / D.sqrt())
            # symbols of the grid: solution of (sqrt(g) h^ab);c = 0 with the discrete derivatives of sqrt(g) h^ab
            (fields, G), = C["grad"][:1]
            for s, fld in zip(("", "_itf_i", "_itf_j", "_itf_k"), fields):
                for o in H[s]:
                    con, root = own[s, o]
                    for a in range(3):
                        for b in range(3):
                            put(f"field whose gradient is taken{s}", fld[(a, b) + o], root * con[a][b])
            if len(w.xp.systems) == 1:
                A, rhs, sol = w.xp.systems[0]
                sys_at = {o: (A[o], rhs[o], sol[o]) for o in H[""]} if rhs.ndim == 4 else None
            else:
                sys_at = {o: x for o, x in zip(H[""], w.xp.systems)} if len(w.xp.systems) == len(H[""]) else None
            if sys_at is None or next(iter(sys_at.values()))[1].shape != (27,):
                raise HarnessGap("the system of the symbols has another form")
            pairs = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]
            for s, e, o, X, Y, h in w.points():
                if s:
                    continue
                A, rhs, sol = sys_at[o]
                Gm = sol.reshape(3, 3, 3)
                for k in range(3):
                    for q, (i, j) in enumerate(pairs):
                        put("symbols are taken from the solution", m.christoffel[(k, 3 + q) + e], Gm[k, i, j])
                if o[0] >= ns or o[1] >= ns or o[2] >= ns:
                    continue  # rows of one element
                con, root = own["", o]
                A = A.reshape(3, 3, 3, 3, 3, 3)
                for a in range(3):
                    for b in range(3):
                        for c in range(3):
                            row = {}
                            for dd in range(3):
                                for key_, val in (((dd, c, dd), con[a][b]), ((a, dd, c), -con[dd][b]), ((b, c, dd), -con[a][dd])):
                                    row[key_] = row.get(key_, alg.ZERO) + val
                            put("right-hand side of the symbols", rhs.reshape(3, 3, 3)[a, b, c], G[(c, a, b) + o])
                            for idx in np.ndindex(3, 3, 3):
                                put("system of the symbols", A[(a, b, c) + idx], root * row[idx] if idx in row else alg.ZERO)
            put.done()

    alg.unit(R, name, go, budget_s=700 if R.thorough else 200)


def same(fld, S, c):
    return all(alg.decide(fld[o], v[c])[0] == "proved" for o, v in list(S.items())[:3])


def Unit(X, Y):
    """products of the tangent vectors of the unit sphere (checked against their definition in the units of the sphere)"""
    D, p, q = 1 + X * X + Y * Y, 1 + X * X, 1 + Y * Y
    return [[p * p * q / (D * D), -X * Y * p * q / (D * D)], [-X * Y * p * q / (D * D), p * q * q / (D * D)]]


def UnitInverse(X, Y):
    D, p, q = 1 + X * X + Y * Y, 1 + X * X, 1 + Y * Y
    return [[D / p, D * X * Y / (p * q)], [D * X * Y / (p * q), D / q]]


def winds3(R, panel, degenerate, deep, terrain=True):
    """conversions of the Euler grid; the metric is known by its contract (the obligations of the units of the metric)"""
    tail = f"{'deep' if deep else 'shallow'} atmosphere, panel {panel}" + (", grid axis along the planet's" if degenerate else "")
    name = "wind conversions, " + tail

    def go():
        with patched(Xp3(), *MODS):
            w = Sym3(panel, 1, 1, 2, 2, 1, 0, degenerate, deep)
            g, f = w.geom, w.frame
            sh = np.shape(g.X_new)
            c = [alg.array(f"u{q + 1}", sh) for q in range(3)]
            half = [w.d1 / 2, w.d2 / 2, w.de / 2]
            pts = [p for p in w.points() if p[0] == ""]

            def metric(slopes):
                m = NS(
                    h_cov_new=np.full((3, 3) + sh, alg.ZERO, dtype=object),
                    h_contra_new=np.full((3, 3) + sh, alg.ZERO, dtype=object),
                    inv_dzdeta_new=np.full(sh, alg.ZERO, dtype=object),
                )
                for s, e, o, X, Y, h in pts:
                    dr = [q[e] for q in slopes]
                    Rr = w.Re + h if deep else w.Re
                    U, P = Unit(X, Y), UnitInverse(X, Y)
                    for a in range(3):
                        for b in range(3):
                            m.h_cov_new[(a, b) + e] = half[a] * half[b] * ((Rr * Rr * U[a][b] if a < 2 and b < 2 else alg.ZERO) + dr[a] * dr[b])
                    for a in range(2):
                        for b in range(2):
                            m.h_contra_new[(a, b) + e] = P[a][b] / (Rr * Rr) / (half[a] * half[b])
                        t = -(P[a][0] * dr[0] + P[a][1] * dr[1]) / (Rr * Rr * dr[2]) / (half[a] * half[2])
                        m.h_contra_new[(a, 2) + e] = m.h_contra_new[(2, a) + e] = t
                    q2 = P[0][0] * dr[0] * dr[0] + 2 * P[0][1] * dr[0] * dr[1] + P[1][1] * dr[1] * dr[1]
                    m.h_contra_new[(2, 2) + e] = (1 + q2 / (Rr * Rr)) / (dr[2] * dr[2]) / (half[2] * half[2])
                    m.inv_dzdeta_new[e] = 1 / (dr[2] * half[2])
                return m

            zero = np.full(sh, alg.ZERO, dtype=object)
            up = alg.array("vertical slope", sh, True)
            steep = [alg.array("slope 1", sh), alg.array("slope 2", sh), up]
            m = metric(steep)
            u, v, ww = g.contra2wind_3d(c[0].copy(), c[1].copy(), c[2].copy(), m)
            u2, v2 = g.contra2wind_2d(c[0].copy(), c[1].copy())
            put = Collect(R, name)
            for s, e, o, X, Y, h in pts:
                Rr = w.Re + h if deep else w.Re
                t = Local(X, Y, Rr).basis(X, Y)
                vec = [half[0] * t[0][q] * c[0][e] + half[1] * t[1][q] * c[1][e] for q in range(3)]  # in the panel's frame
                ph = [o_ * vec[0] + x * vec[1] + y * vec[2] for o_, x, y in zip(f.O, f.X, f.Y)]
                p = f.direction(X, Y)
                D = (1 + X * X + Y * Y).sqrt()
                hy = (p[0] * p[0] + p[1] * p[1]).sqrt()
                east = [-p[1] / hy, p[0] / hy, alg.ZERO]
                north = [-p[2] * p[0] / (hy * D), -p[2] * p[1] / (hy * D), hy / D]
                E, N = dot(ph, east), dot(ph, north)
                put("zonal wind of the contravariant components", u[e], E)
                put("meridional wind of the contravariant components", v[e], N)
                put("horizontal winds of two components", u2[e], E)
                put("horizontal winds of two components", v2[e], N)
                put("vertical wind of the contravariant components", ww[e], sum((half[a] * steep[a][e] * c[a][e] for a in range(3)), alg.ZERO))
            put.done()
            flat = metric([zero, zero, up])
            u, v, ww = g.contra2wind_3d(c[0].copy(), c[1].copy(), c[2].copy(), flat)
            back = g.wind2contra(u, v, ww, flat)
            for q in range(3):
                equal(R, name, f"component {q + 1} there and back over flat terrain", back[q], c[q])
            b1, b2 = g.wind2contra_2d(u2, v2)
            equal(R, name, "first component there and back, two components", b1, c[0])
            equal(R, name, "second component there and back, two components", b2, c[1])
            if terrain:
                u, v, ww = g.contra2wind_3d(c[0].copy(), c[1].copy(), c[2].copy(), m)
                back = g.wind2contra(u, v, ww, m)
                for q in range(3):
                    equal(R, TERRAIN, f"component {q + 1} there and back", back[q], c[q])

    alg.unit(R, name, go, budget_s=200)


TERRAIN = "wind conversions over terrain, there and back"


# ------------------------------------------------------------------------------------------- real grids (bounded replay)
def frame_float(rot, panel):
    lam, phi, alp = rot
    sl, cl, sp, cp, sa, ca = (f(x) for x in (lam, phi, alp) for f in (math.sin, math.cos))
    E, N = np.array([-sl, cl, 0.0]), np.array([-cl * sp, -sl * sp, cp])
    M = np.array([[cl * cp, sl * cp, sp], ca * E - sa * N, sa * E + ca * N]).T
    o = np.array(cube.point(panel, 0, 0), dtype=float)
    ex, ey = (np.array(v, dtype=float) for v in cube.tangent(panel))
    return np.stack([M @ o, M @ ex, M @ ey], axis=1)  # columns: axes of the panel


def basis_float(x1, x2):
    """unit vector and tangent vectors of the unit sphere (in the panel's frame) at equiangular coordinates"""
    X, Y = np.tan(x1), np.tan(x2)
    q = np.stack([np.ones_like(X), X, Y])
    d = np.sqrt(1 + X * X + Y * Y)
    e = [np.zeros_like(q), np.zeros_like(q)]
    for a, (T, c) in enumerate(((X, 1), (Y, 2))):
        e[a] = -q * T / d**3
        e[a][c] += 1 / d
        e[a] *= 1 + T * T
    return q / d, e[0], e[1]


def rel(a, b):
    s = np.abs(b).max()
    return float(np.abs(a - b).max() / (s if s else 1.0))


def lagrange(pts):
    """derivative at pts of the polynomial through pts, -1 and 1: (matrix for pts, matrix for the ends)"""
    from numpy.polynomial import polynomial as P

    nodes = np.concatenate((pts, [-1.0, 1.0]))
    D = np.zeros((len(pts), len(nodes)))
    for j in range(len(nodes)):
        c = np.array([1.0])
        for k in range(len(nodes)):
            if k != j:
                c = P.polymul(c, np.array([-nodes[k], 1.0]) / (nodes[j] - nodes[k]))
        D[:, j] = P.polyval(pts, P.polyder(c))
    return D[:, :-2], D[:, -2:]


def rotation(g, over):
    """the requested angles, as stored (24 bits: see C06)"""
    r = []
    for k in ("lambda0", "phi0", "alpha0"):
        v = getattr(g, k, over[k])
        r.append(v if abs(v - over[k]) < 1e-6 else over[k])
    return r


def real_grids(R):
    def angles2(g, pt, ns, ne):
        k = pt.num_lines_per_panel
        x1, b1, d = expected_1d(ns, ne, k, pt.my_col)
        x2, b2, _ = expected_1d(ns, ne, k, pt.my_row)
        return [np.array(v) for v in (x1, b1, x2, b2)] + [d]

    def check2(rank, comm, over):
        sim = sims.simulation("sw", over, comm=comm)
        g, m, pt, op = sim.geometry, sim.metric, sim.process_topo, sim.operators
        ns = sim.config.num_solpts
        ne = np.shape(g.X)[0]
        x1, b1, x2, b2, d = angles2(g, pt, ns, ne)
        F = frame_float(rotation(g, over), pt.my_panel)
        Re, Om, h = g.earth_radius, g.rotation_speed, d / 2
        out = {}

        def put(label, a, b):
            out[label] = max(out.get(label, 0.0), rel(np.asarray(a, dtype=float), np.asarray(b, dtype=float)))

        ent = {"": [], "_itf_i": [], "_itf_j": []}
        for e, j, i in interior2(ne, ns):
            ent[""].append((e, x1[i], x2[j]))
        for s, e, b, q in faces2(ne, ns):
            ent["_itf_" + s].append((e, b1[b], x2[q]) if s == "i" else (e, x1[q], b2[b]))
        for s, L in ent.items():
            idx = tuple(np.array(v) for v in zip(*(e for e, _, _ in L)))
            a, b = np.array([v[1] for v in L]), np.array([v[2] for v in L])
            n, e1, e2 = basis_float(a, b)
            pos = Re * (F @ n)
            G = lambda nm: np.asarray(getattr(g, nm + s))[(Ellipsis,) + idx]
            M = lambda nm: np.asarray(getattr(m, nm + s))[(Ellipsis,) + idx]
            put("gnomonic X", G("X"), np.tan(a))
            put("gnomonic Y", G("Y"), np.tan(b))
            put("place on the sphere", G("cart"), pos)
            lon, lat = G("polar")
            put("longitude and latitude", np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)]), pos / Re)
            out["longitude between 0 and 2 pi, latitude between -pi/2 and pi/2"] = float(
                bool((lon < 0).any() or (lon > 2 * math.pi).any() or (np.abs(lat) > math.pi / 2).any())
            )
            g11, g12, g22 = ((u * v).sum(0) * Re**2 for u, v in ((e1, e1), (e1, e2), (e2, e2)))
            det = g11 * g22 - g12 * g12
            put("area element", M("sqrtG"), np.sqrt(det) * h * h)
            i11, i12, i22 = g22 / det, -g12 / det, g11 / det
            for k, v in (("11", i11), ("12", i12), ("21", i12), ("22", i22)):
                put("contravariant metric", M("H_contra_" + k) * (h * h) / i11.max(), v / i11.max())
            if s:
                continue
            for k, v in (("11", g11), ("12", g12), ("21", g12), ("22", g22)):
                put("covariant metric", M("H_cov_" + k) / (h * h) / g11.max(), v / g11.max())
            z = F[2]
            up = (i11 * e1 + i12 * e2) * Re, (i12 * e1 + i22 * e2) * Re
            eps = 1e-5
            de = {}
            for jj, (da, db) in enumerate(((eps, 0), (0, eps))):
                p_, m_ = basis_float(a + da, b + db), basis_float(a - da, b - db)
                de[jj] = [(p_[q] - m_[q]) / (2 * eps) * Re for q in (1, 2)]
            for k in range(2):
                for jj, ej in enumerate((e1, e2)):
                    turn = np.einsum("cn,cn->n", up[k], np.cross(z, ej.T * Re).T) * Om
                    for nm in (f"christoffel_{k+1}_0{jj+1}", f"christoffel_{k+1}_{jj+1}0"):
                        put("rotation symbols", M(nm) / Om + 1, turn / Om + 1)
                    for ii in range(2):
                        v = M(f"christoffel_{k+1}_{ii+1}{jj+1}") if np.ndim(getattr(m, f"christoffel_{k+1}_{ii+1}{jj+1}")) else 0.0
                        out["Christoffel symbols"] = max(out.get("Christoffel symbols", 0), float(np.abs(v - (up[k] * de[jj][ii]).sum(0) * h).max() / h) * 1e-4)
            put("Coriolis parameter", M("coriolis_f"), 2 * Om * (z @ n))
            # winds: a turn about an arbitrary axis
            ax = np.array([0.3, -0.5, 0.8])
            vel = np.cross(ax, (F @ n).T).T
            dirs = F @ n
            hy = np.hypot(dirs[0], dirs[1])
            east = np.stack([-dirs[1] / hy, dirs[0] / hy, 0 * hy])
            north = np.cross(dirs.T, east.T).T
            U, V = np.zeros(np.shape(g.X)), np.zeros(np.shape(g.X))
            U[idx], V[idx] = (vel * east).sum(0), (vel * north).sum(0)
            c1, c2 = g.wind2contra(U.copy(), V.copy())
            t = F.T @ vel
            put("contravariant winds", np.stack([c1[idx], c2[idx]]) * h * Re, np.stack([(t * up[0]).sum(0), (t * up[1]).sum(0)]) * Re)
            r1, r2 = g.contra2wind(c1, c2)
            put("winds there and back", np.stack([r1, r2]), np.stack([U, V]))
        w = np.asarray(op.quad_weights).reshape(-1)
        area = float((np.asarray(m.sqrtG) * w).sum())
        return out, area, 4 * math.pi * Re**2

    def check3(rank, comm, over):
        hills = over.get("hills")
        over = {k: v for k, v in over.items() if k != "hills"}
        sim = sims.simulation("euler3d", over, comm=comm)
        g, m, pt = sim.geometry, sim.metric, sim.process_topo
        ns = sim.config.num_solpts
        nv, ne = np.shape(g.X_new)[:2]
        deep = over["depth_approx"] == "deep"
        x1, b1, x2, b2, d = angles2(g, pt, ns, ne)
        F = frame_float(rotation(g, over), pt.my_panel)
        Re, Om = g.earth_radius, g.rotation_speed
        half = [d / 2, d / 2, 1 / nv / 2]
        out = {}
        n, N = ne * ns, nv * ns
        if hills:
            def z(a, b):
                v = np.einsum("ab,b...->a...", F, basis_float(*np.broadcast_arrays(a, b))[0])
                return 800.0 * (1.5 + np.sin(2 * v[0] - v[1]) * np.cos(v[2] + 0.4))

            zb, zi, zj = z(x1[None], x2[:, None]), z(b1[None], x2[:, None]), z(x1[None], b2[:, None])
            fb = np.zeros((ne, ne, ns * ns))
            fi, fj = np.zeros((ne, ne + 2, 2 * ns)), np.zeros((ne + 2, ne, 2 * ns))
            for e, j, i in interior2(ne, ns):
                fb[e] = zb[j, i]
            for s_, e, b, q in faces2(ne, ns):
                if s_ == "i":
                    fi[e] = zi[q, b]
                else:
                    fj[e] = zj[b, q]
            g.apply_topography(zb, zi, zj, fb, fi, fj)
            Om = g.rotation_speed = 7.3e-5
            m.build_metric()

        def put(label, a, b):
            out[label] = max(out.get(label, 0.0), rel(np.asarray(a, dtype=float), np.asarray(b, dtype=float)))

        def block(a):  # element layout -> block
            a = np.asarray(a)
            lead = a.shape[:-4]
            return np.moveaxis(a.reshape(lead + (nv, ne, ne, ns, ns, ns)), (-6, -3, -5, -2, -4, -1), (-6, -5, -4, -3, -2, -1)).reshape(lead + (N, n, n))

        X1, X2 = np.broadcast_arrays(x1[None, None, :], x2[None, :, None])
        X1, X2 = (np.broadcast_to(v, (N, n, n)) for v in (X1, X2))
        nn, e1, e2 = basis_float(X1, X2)
        h = block(g.gnomonic[2])
        pts = np.array(imp("geometry.quadrature").gauss_legendre(ns)[1], dtype=float)
        eta = np.array([(e + (1 + float(p)) / 2) / nv for e in range(nv) for p in pts])
        # interface arrays of the element layout, as [.., element, side, ..] of the block
        def sides(a, K):
            a = np.asarray(a)
            lead = a.shape[:-4]
            m_ = ns * ns
            lo = {"i": a[..., :, :, 1:-1, :m_], "j": a[..., :, 1:-1, :, :m_], "k": a[..., 1:-1, :, :, :m_]}[K]  # low side of each element
            hi = {"i": a[..., :, :, 1:-1, m_:], "j": a[..., :, 1:-1, :, m_:], "k": a[..., 1:-1, :, :, m_:]}[K]
            v = np.stack([lo, hi], axis=-1).reshape(lead + (nv, ne, ne, ns, ns, 2))
            if K == "i":  # [c, a, b, k, q] -> [c k, a q, b]
                return np.moveaxis(v, (-6, -3, -5, -2, -4, -1), (-6, -5, -4, -3, -2, -1)).reshape(lead + (N, n, ne, 2))
            if K == "j":  # [c, a, b, k, q] -> [c k, a, b q]
                v = np.moveaxis(v, (-6, -3, -5, -4, -2, -1), (-6, -5, -4, -3, -2, -1)).reshape(lead + (N, ne, n, 2))
                return v
            return np.moveaxis(v, (-6, -5, -3, -4, -2, -1), (-6, -5, -4, -3, -2, -1)).reshape(lead + (nv, n, n, 2))

        Dp, De = lagrange(pts)

        def diff(f, fs, K):
            ax = {"i": -1, "j": -2, "k": -3}[K]
            f = np.moveaxis(f, ax, -1)
            sh = f.shape
            el = f.reshape(sh[:-1] + (-1, ns))
            ax2 = {"i": -2, "j": -3, "k": -4}[K]
            fs = np.moveaxis(fs, ax2, -2)
            r = el @ Dp.T + fs @ De.T
            return np.moveaxis(r.reshape(sh), -1, ax)

        floor = (h[0] - eta[0] * over["ztop"]) / (1 - eta[0])
        put("heights", h, floor[None] + (over["ztop"] - floor[None]) * eta[:, None, None])
        out["terrain"] = float(floor.max())
        gk = g.gnomonic_itf_k[2]
        put("heights of the levels", sides(gk, "k")[-1, :, :, 1], np.full((n, n), over["ztop"]))
        put("heights of the levels", sides(gk, "k")[0, :, :, 0] + 1, floor + 1)
        put("place", block(g.cart), (Re + h) * np.einsum("ab,bkji->akji", F, nn))
        dz = [diff(h, sides(getattr(g, "gnomonic_itf_" + K)[2], K), K) for K in "ijk"]  # with respect to the reference element
        Rr = Re + h if deep else Re + 0 * h
        eb = [e1 * Rr * half[0] + nn * dz[0], e2 * Rr * half[1] + nn * dz[1], nn * dz[2]]
        cov = np.array([[(a * b).sum(0) for b in eb] for a in eb])
        sc = np.array([np.sqrt(cov[a, a].max()) for a in range(3)])
        S = sc[:, None] * sc[None, :]
        put("covariant metric", block(m.h_cov_new) / S[:, :, None, None, None], cov / S[:, :, None, None, None])
        con = np.moveaxis(np.linalg.inv(np.moveaxis(cov / S[:, :, None, None, None], (0, 1), (-2, -1))), (-2, -1), (0, 1))
        put("contravariant metric", block(m.h_contra_new) * S[:, :, None, None, None], con)
        root = np.sqrt(np.linalg.det(np.moveaxis(cov, (0, 1), (-2, -1))))
        put("volume element", block(m.sqrtG_new), root)
        put("inverse of the volume element", block(m.inv_sqrtG_new), 1 / root)
        con = con / S[:, :, None, None, None]
        z, rot = F[2], Om * 1e4
        for k in range(3):
            up = sum(con[k, b] * eb[b] for b in range(3))
            for j in range(3):
                turn = rot * np.einsum("cxyz,cxyz->xyz", up, np.moveaxis(np.cross(z, np.moveaxis(eb[j], 0, -1)), -1, 0))
                big = np.sqrt((up * up).sum(0) * (eb[j] * eb[j]).sum(0)).max()
                put("rotation symbols", block(m.christoffel[k, j]) * 1e4 / big + 1, turn / big + 1)
        if np.shape(m.coriolis_f) == (n, n):
            put("Coriolis parameter", np.asarray(m.coriolis_f) * 1e4 + 1, 2 * rot * np.einsum("b,bkji->kji", z, nn)[0] + 1)
        # symbols of the grid: the derivative of sqrt(g) h^ab is that of the symbols
        f = root * con
        for K in "ijk":
            cK, gK = (np.asarray(getattr(m, f"{q}_itf_{K}_new")) for q in ("h_contra", "sqrtG"))
            cc, gg = np.asarray(getattr(m, f"h_cov_itf_{K}_new")), gK
            I = np.einsum("ab...,bc...->ac...", sides(cK, K), sides(cc, K))
            put("interface metrics are inverse to each other", I, np.broadcast_to(np.eye(3).reshape((3, 3) + (1,) * (I.ndim - 2)), I.shape))
            dd = np.linalg.det(np.moveaxis(sides(cc, K) / S.reshape((3, 3) + (1,) * (I.ndim - 2)), (0, 1), (-2, -1)))
            put("volume element at the interfaces", sides(gK, K), np.sqrt(dd) * sc.prod())
        for ic, K in enumerate("ijk"):
            fs = sides(np.asarray(getattr(m, f"h_contra_itf_{K}_new")) * np.asarray(getattr(m, f"sqrtG_itf_{K}_new"))[None, None], K)
            df = diff(f, fs, K)
            pr = {(0, 0): 3, (0, 1): 4, (0, 2): 5, (1, 1): 6, (1, 2): 7, (2, 2): 8}
            Gm = lambda k, i, j: block(m.christoffel[k, pr[min(i, j), max(i, j)]])
            for a in range(3):
                for b in range(3):
                    r = f[a, b] * sum(Gm(q, ic, q) for q in range(3)) - sum(f[q, b] * Gm(a, q, ic) + f[a, q] * Gm(b, ic, q) for q in range(3))
                    scale = root.max() / (sc[a] * sc[b])
                    out["symbols of the grid solve their equations"] = max(
                        out.get("symbols of the grid solve their equations", 0.0), float(np.abs(r - df[a, b]).max() / scale / max(1.0, np.abs(df[a, b] / scale).max()))
                    )
        # slopes on the sides of the elements: mean of both sides; on the edges of the tile the other side is elsewhere
        Ex = np.array([[np.prod([(x - pts[k]) / (pts[j] - pts[k]) for k in range(ns) if k != j]) for j in range(ns)] for x in (-1.0, 1.0)])
        edge = []
        for ax, K in ((2, "i"), (1, "j")):
            cc = sides(np.asarray(getattr(m, f"h_cov_itf_{K}_new")), K)
            r2 = np.sqrt(cc[2, 2])
            have = np.stack([cc[0, 2] / r2 / half[0], cc[1, 2] / r2 / half[1], r2 / half[2]])
            own = []
            for q in range(3):
                f_ = np.moveaxis(dz[q] / half[q], ax, -1)
                e_ = f_.reshape(f_.shape[:-1] + (ne, ns)) @ Ex.T
                own.append(e_ if K == "i" else np.moveaxis(e_, -2, -3))
            own = np.stack(own)  # [3, z, y, element, side] or [3, z, element, x, side]
            el = 3 if K == "i" else 2
            take = lambda a, k, sd: np.take(np.take(a, k, axis=el), sd, axis=-1)
            for k in range(ne - 1):
                mean = (take(own, k, 1) + take(own, k + 1, 0)) / 2
                for k2, sd in ((k, 1), (k + 1, 0)):
                    for q in range(3):
                        big = np.abs(own[2]).max() if q == 2 else max(np.abs(own[:2]).max(), 1.0)
                        put("slopes at the inner faces", take(have, k2, sd)[q] / big + 1, mean[q] / big + 1)
            for k, sd in ((0, 0), (ne - 1, 1)):
                bb = (b1 if K == "i" else b2)[k + sd]
                a1, a2 = (np.full(n, bb), x2) if K == "i" else (x1, np.full(n, bb))
                n_, t1, t2 = basis_float(a1, a2)
                g_ = np.array([[(t1 * t1).sum(0), (t1 * t2).sum(0)], [(t1 * t2).sum(0), (t2 * t2).sum(0)]])
                P = np.moveaxis(np.linalg.inv(np.moveaxis(g_, -1, 0)), 0, -1)
                o_, h_ = take(own, k, sd), take(have, k, sd)
                for z_ in range(N):
                    for l in range(n):
                        tt = (t1[:, l], t2[:, l])
                        vec = lambda d_: sum(P[a, b, l] * d_[b] * tt[a] for a in range(2) for b in range(2))
                        edge.append((F @ n_[:, l], z_, F @ vec(o_[:2, z_, l]), F @ vec(h_[:2, z_, l]), o_[2, z_, l], h_[2, z_, l]))
        # winds
        rng = np.random.default_rng(rank)
        c = [rng.uniform(-1, 1, np.shape(g.X_new)) / half[q] for q in range(3)]
        c[0] /= Re
        c[1] /= Re
        c[2] /= 1e4
        u, v, w = g.contra2wind_3d(*(q.copy() for q in c), m)
        vec = sum(block(q) * e for q, e in zip(c, eb))
        t = np.einsum("ab,bkji->akji", F, vec)
        dirs = np.einsum("ab,bkji->akji", F, nn)
        hy = np.hypot(dirs[0], dirs[1])
        east = np.stack([-dirs[1] / hy, dirs[0] / hy, 0 * hy])
        north = np.stack([-dirs[2] * dirs[0] / hy, -dirs[2] * dirs[1] / hy, hy])
        put("zonal wind", block(u), (t * east).sum(0))
        put("meridional wind", block(v), (t * north).sum(0))
        put("vertical wind", block(w), (t * dirs).sum(0))
        back = g.wind2contra(u.copy(), v.copy(), w.copy(), m)
        b2_ = g.wind2contra_2d(u.copy(), v.copy())
        put("horizontal winds there and back", np.stack(b2_), np.stack(c[:2]))
        trip = max(rel(p_, q) for p_, q in zip(back, c))
        return out, trip, edge

    LIM = {"Christoffel symbols": 1e-9, "symbols of the grid solve their equations": 1e-8}

    def go2(ck):
        for over, size in (
            ({"lambda0": 0.4, "phi0": 0.3, "alpha0": -0.2, "num_solpts": 3, "num_elements_horizontal": 2}, 6),
            ({"lambda0": -2.0, "phi0": 0.0, "alpha0": 0.0, "num_solpts": 2, "num_elements_horizontal": 4}, 24),
        ):
            ck.case(kind="shallow water", options=over, processes=size)
            with sims.quiet():
                res = fakempi.values(size, lambda r, c: check2(r, c, over))
            for rank, (out, _, _) in enumerate(res):
                for l, v in out.items():
                    ck.check(l, v < LIM.get(l, 1e-10), f"process {rank}: {v}")
            a, w = sum(r[1] for r in res), res[0][2]
            ck.check("area of the sphere", abs(a / w - 1) < 1e-2, f"{a} instead of {w}")

    def go3(ck):
        for over, size in (
            ({"lambda0": 0.0, "phi0": 0.0, "alpha0": 0.0, "num_solpts": 3, "case_number": 21, "ztop": 30000.0, "depth_approx": "deep"}, 6),
            ({"lambda0": 0.3, "phi0": 0.2, "alpha0": -0.4, "num_solpts": 2, "case_number": 31, "ztop": 30000.0, "depth_approx": "shallow", "hills": 1}, 6),
            ({"lambda0": 0.3, "phi0": -0.2, "alpha0": -0.4, "num_solpts": 3, "case_number": 31, "ztop": 30000.0, "depth_approx": "deep", "hills": 1, "num_elements_horizontal": 3}, 6),
            ({"lambda0": 0.3, "phi0": 0.2, "alpha0": 0.1, "num_solpts": 2, "case_number": 31, "ztop": 10000.0, "depth_approx": "deep", "num_elements_horizontal": 4}, 24),
        ):
            ck.case(kind="euler", options=over, processes=size)
            with sims.quiet():
                res = fakempi.values(size, lambda r, c: check3(r, c, over))
            at_ = {}
            for _, _, edge in res:
                for p_, z_, *v in edge:
                    at_.setdefault((tuple(np.round(p_, 6) + 0.0), z_), []).append(v)
            big = max(1.0, max(np.abs(v[0]).max() for L in at_.values() for v in L))
            bad = 0
            for L in at_.values():
                if len(L) == 2:  # points next to a rounding boundary of the key are left out
                    mean, top = (L[0][0] + L[1][0]) / 2, (L[0][2] + L[1][2]) / 2
                    bad = max(bad, max(np.abs(v[1] - mean).max() / big for v in L), max(abs(v[3] / top - 1) for v in L))
            ck.check("points on the edges of the tiles have a partner", sum(len(L) == 2 for L in at_.values()) > 0.9 * len(at_))
            ck.check("slopes on the edges of the tiles are the mean of both sides", bad < 1e-9, f"{bad}")
            for rank, (out, trip, _) in enumerate(res):
                rough = out.pop("terrain")
                for l, v in out.items():
                    ck.check(l, v < LIM.get(l, 1e-9), f"process {rank}: {v}")
                if rough < 1e-6:
                    ck.check("winds there and back", trip < 1e-9, f"process {rank}: {trip}")

    R.concrete("real shallow-water grids", go2, bound="6 and 24 processes, two rotations")
    R.concrete("real Euler grids", go3, bound="6 and 24 processes, with and without terrain, deep and shallow")


def run(R):
    R.under_contract(
        "geometry.cartesian_2d_mesh.Cartesian2D.__init__",
        "geometry.cubed_sphere_2d.CubedSphere2D.__init__",
        "geometry.cubed_sphere_2d.CubedSphere2D.wind2contra",
        "geometry.cubed_sphere_2d.CubedSphere2D.contra2wind",
        "geometry.cubed_sphere_3d.CubedSphere3D.__init__",
        "geometry.cubed_sphere_3d.CubedSphere3D.apply_topography",
        "geometry.cubed_sphere_3d.CubedSphere3D._build_physical_coordinates",
        "geometry.cubed_sphere_3d.CubedSphere3D.wind2contra",
        "geometry.cubed_sphere_3d.CubedSphere3D.wind2contra_2d",
        "geometry.cubed_sphere_3d.CubedSphere3D.contra2wind_2d",
        "geometry.cubed_sphere_3d.CubedSphere3D.contra2wind_3d",
        "geometry.metric2d.Metric2D.__init__",
        "geometry.metric3d.Metric3DTopo.build_metric",
        "geometry.sphere.cart2sph",
        "geometry.sphere.sph2cart",
    )
    R.assume("tan of distinct grid angles are free numbers in ]-1, 1[; doubles treated as real numbers")
    R.assume("orders 1 and 2, one or two elements per direction and tile (the formulas are the same at every point)")
    R.assume("3D metric: derivatives and extrapolations of fields through the operators of geometry.operators (their contract: C17)")
    R.assume("numpy.linalg.solve returns the solution of the system it is given")
    R.assume("points of the grid away from the poles; the terrain lies below the model top")
    for n in ((1, 1, 1), (2, 3, 2), (3, 1, 3), (4, 2, 1)):
        plane(R, *n)
    plane_numbers(R)
    for p in range(6):
        grid2(R, p, 2, 2, 2, 1, 0, False)
        metric2(R, p, 2, False)
        winds2(R, p, 2, False)
        grid3(R, p, 1, 1, 2, False, p % 2 == 0)
        winds3(R, p, False, p % 2 == 1, terrain=p == 0)
        if p >= 4:
            grid2(R, p, 2, 2, 2, 0, 1, True)
            metric2(R, p, 2, True)
            winds2(R, p, 2, True)
            grid3(R, p, 1, 1, 2, True)
            winds3(R, p, True, p % 2 == 0, terrain=False)
    grid3(R, 2, 2, 2, 2, False)
    metric3(R, 0, 1, 1, 2, False, True)
    metric3(R, 3, 2, 2, 1, False, False)
    metric3(R, 4, 1, 1, 1, True, False)
    metric3(R, 5, 1, 1, 1, False, True)
    if R.thorough:
        for p in range(6):
            for deep in (True, False):
                metric3(R, p, 1, 1, 2, False, deep)
        metric3(R, 5, 1, 1, 2, True, True)
        metric3(R, 1, 2, 2, 2, False, False)
    real_grids(R)
