"""C19: every test case starts from its published state."""

import math
import types

import numpy as np

from .. import alg, fakempi, kernels, sims
from ..alg import XPF, LinOp, atom, equal, fld
from ..core import HarnessGap
from ..load import device, imp, inject, need

PI = math.pi
DAY = 86400.0


# ------------------------------------------------------------------------------------------------- the published states
# Every function takes coordinates and a namespace (numpy, or the symbolic one) and gives the state of the publication.
def arc(xp, lat, lon, clat, clon):
    """angle between two points of the sphere"""
    x = math.sin(clat) * xp.sin(lat) + math.cos(clat) * xp.cos(lat) * xp.cos(lon - clon)
    return xp.arccos(np.clip(x, -1, 1) if xp is np else x)


def sw_ground(case, lat, lon, c, xp):
    if case == 5:  # Williamson et al. (1992)
        r0 = PI / 9
        r = xp.sqrt(xp.minimum(r0**2, (lon - 1.5 * PI) ** 2 + (lat - PI / 6) ** 2))
        return 2000.0 - r * (2000.0 / r0)
    if case == 10:  # Lauter et al. (2005)
        return ((c.a * c.om * xp.sin(lat)) ** 2 * 0.5 + 10.0) / c.g
    return None


def sw_state(case, lat, lon, c, xp):
    """(h, u, v): depth of the fluid, zonal and meridional wind"""
    a, om, g = c.a, c.om, c.g
    u0 = 2 * PI * a / (12 * DAY)
    cl, sl = xp.cos(lat), xp.sin(lat)
    if case == 1:
        r = arc(xp, lat, lon, 0.0, 1.5 * PI)
        return xp.where(r < 1 / 3, 500.0 * (1 + xp.cos(3 * PI * r)), 0.0 * r), u0 * cl, 0.0
    if case == 2:
        return (29400.0 - (a * om * u0 + u0 * u0 / 2) * sl**2) / g, u0 * cl, 0.0
    if case == 5:
        u0 = 20.0
        return 5960.0 - (a * om * u0 + u0**2 / 2) * sl**2 / g - sw_ground(5, lat, lon, c, xp), u0 * cl, 0.0
    if case == 6:
        w, R = 7.848e-6, 4
        A = w / 2 * (2 * om + w) * cl**2 + w * w / 4 * ((R + 1) * cl ** (2 * R + 2) + (2 * R * R - R - 2) * cl ** (2 * R) - 2 * R * R * cl ** (2 * R - 2))
        B = 2 * (om + w) * w / ((R + 1) * (R + 2)) * cl**R * (R * R + 2 * R + 2 - (R + 1) ** 2 * cl**2)
        C = w * w / 4 * cl ** (2 * R) * ((R + 1) * cl**2 - (R + 2))
        h = 8000.0 + a * a / g * (A + B * xp.cos(R * lon) + C * xp.cos(2 * R * lon))
        u = a * w * cl + a * w * cl ** (R - 1) * (R * sl**2 - cl**2) * xp.cos(R * lon)
        v = -a * w * R * cl ** (R - 1) * sl * xp.sin(R * lon)
        return h, u, v
    if case == 10:
        return (133681.0 - 10.0 - ((u0 + a * om) * sl) ** 2 / 2) / g, u0 * cl, 0.0
    if xp is not np:
        raise HarnessGap(f"case {case}")
    if case == 0:  # Nair and Machenhauer (2002)
        lc, pc = PI - 0.8, PI / 4.8
        s = sl * math.sin(pc) + cl * math.cos(pc) * np.cos(lon - lc)
        rho = 3 * np.sqrt(np.maximum(0.0, 1 - s * s))
        vt = u0 * 1.5 * math.sqrt(3.0) * np.tanh(rho) / np.cosh(rho) ** 2
        w = np.where(rho > 1e-9, vt / (a * np.maximum(rho, 1e-9)), 0.0)
        y, x = cl * np.sin(lon - lc), cl * math.sin(pc) * np.cos(lon - lc) - math.cos(pc) * sl
        h = 1 - np.tanh(rho / 5 * np.sin(np.arctan2(y, x)))
        return h, a * w * (math.sin(pc) * cl - math.cos(pc) * np.cos(lon - lc) * sl), a * w * math.cos(pc) * np.sin(lon - lc)
    if case == 8:
        return galewsky(lat, lon, c)
    if case == 9:
        return matsuno(lat, lon, c)
    raise HarnessGap(f"case {case}")


def galewsky(lat, lon, c):
    """Galewsky et al. (2004)"""
    p0, p1 = PI / 7, PI / 2 - PI / 7

    def jet(p):
        p = np.asarray(p, dtype=float)
        inside = (p > p0) & (p < p1)
        q = np.where(inside, (p - p0) * (p - p1), -1.0)
        return np.where(inside, 80.0 * np.exp(1 / q + 4 / (p1 - p0) ** 2), 0.0)

    x, w = np.polynomial.legendre.leggauss(200)

    def integral(p):
        b = min(max(p, p0), p1)
        t = p0 + (b - p0) * (x + 1) / 2
        u = jet(t)
        return (b - p0) / 2 * np.sum(w * u * (2 * c.om * c.a * np.sin(t) + np.tan(t) * u))

    h = 10158.18617045463179 - np.vectorize(integral)(lat) / c.g
    lon = np.where(lon > PI, lon - 2 * PI, lon)
    h = h + 120.0 * np.cos(lat) * np.exp(-((3 * lon) ** 2)) * np.exp(-((15 * (PI / 4 - lat)) ** 2))
    return h, jet(lat), 0.0


def matsuno(lat, lon, c):
    """Shamir et al. (2019): the wave of wave number 5 and mode 1 of the linear equations on the equatorial beta plane with
    mean depth 30 m.  u and phi follow from v through the zonal momentum and the continuity equation."""
    om, g, a, H, k, n = 7.29212e-5, 9.80616, 6371220.0, 30.0, 5, 1
    gh = g * H
    # dispersion relation w^3 - (gh k^2/a^2 + 2 om sqrt(gh) (2n+1)/a) w - 2 om gh k/a^2 = 0
    roots = np.sort(np.roots([1.0, 0.0, -(gh * k * k / a**2 + 2 * om * math.sqrt(gh) * (2 * n + 1) / a), -2 * om * gh * k / a**2]).real)
    w = {"wig": roots[0], "rossby": roots[1], "eig": roots[2]}[c.wave]
    s = (2 * om * a) ** 0.5 / gh**0.25
    y = s * lat
    v = c.amp * (4 / PI) ** 0.25 * y * np.exp(-y * y / 2)
    dv = c.amp * (4 / PI) ** 0.25 * s * (1 - y * y) * np.exp(-y * y / 2)  # d/dlat
    # -i w u - 2 om lat v = -i k/a phi ;  -i w phi + gh/a (i k u + v') = 0
    f = 2 * om * lat
    det = w * w - gh * k * k / a**2
    u = (w * 1j * f * v - 1j * k / a * gh / a * dv) / det
    phi = (-1j * w * gh / a * dv + 1j * gh * k / a * f * v) / det
    e = np.exp(1j * k * lon)
    return (gh + (phi * e).real) / g_code(c), (u * e).real, (v * e).real


def g_code(c):
    return c.g


def euler_ground(case, lat, lon, c, xp):
    if case == 20:
        r = arc(xp, lat, lon, 0.0, 1.5 * PI)
        R = 0.75 * PI
        return xp.where(r < R, 1000.0 * (1 + xp.cos(PI * r / R)) * xp.cos(16 * r) ** 2, 0.0 * r)
    if case in (21, 22):
        r = c.a * arc(xp, lat, lon, 0.0, PI / 4)
        return 250.0 * xp.exp(-(r**2) / 5000.0**2) * xp.cos(PI * r / 4000.0) ** 2
    return None


def schar(shear, lat, z, c, xp):
    """temperature and zonal wind of DCMIP (2012) cases 2-1 and 2-2"""
    cs = 2.5e-4 if shear else 0.0
    T = 300.0 * (1 - cs * 400.0 / c.g * xp.sin(lat) ** 2)
    return T, 20.0 * xp.cos(lat) * xp.sqrt(600.0 * cs * z / T + T / 300.0)


def euler_state(case, lat, lon, z, c, xp):
    """(rho, u, v, w, theta)"""
    kap = c.R / c.cp
    if case == 20:
        T = 300.0 - 0.0065 * z
        p = c.p0 * (1 - 0.0065 / 300.0 * z) ** (c.g / (c.R * 0.0065))
        u = 0.0
    elif case in (21, 22):
        T, u = schar(case == 22, lat, z, c, xp)
        p = 1e5 * xp.exp(-400.0 / (2 * c.R * 300.0) * xp.sin(lat) ** 2 - c.g * z / (c.R * T))
    elif case == 31:
        u0, n2 = 20.0, 1e-4
        G = c.g**2 / (n2 * c.cp)
        d = u0 * (u0 + 2 * c.om * c.a) * (xp.cos(2 * lat) - 1)
        ts = G + (300.0 - G) * xp.exp(-n2 / (4 * c.g**2) * d)
        ps = 1e5 * xp.exp(d / (4 * G * c.R)) * (ts / 300.0) ** (1 / kap)
        p = ps * (G / ts * xp.exp(-n2 * z / c.g) + 1 - G / ts) ** (1 / kap)
        T = G * (1 - xp.exp(n2 * z / c.g)) + ts * xp.exp(n2 * z / c.g)
        u = u0 * xp.cos(lat)
    elif case == 77:  # Tomita and Satoh (2004)
        T = 300.0 + 0.0 * z
        r = 6371000.0 * arc(xp, lat, lon, 0.0, 0.0)
        rc = 6371000.0 / 3
        p = c.p0 * xp.exp(-z * (c.g / (c.R * 300.0))) + xp.where(r < rc, 50.0 * (1 + xp.cos(PI * r / rc)), 0.0 * r) * xp.sin(PI * z / 10000.0)
        u = 0.0
    else:
        raise HarnessGap(f"case {case}")
    rho = p / (c.R * T)
    theta = T * (c.p0 / p) ** kap
    if case == 31:
        r = c.a * arc(xp, lat, lon, 0.0, 2 * PI / 3)
        theta = theta + 5000.0**2 / (5000.0**2 + r**2) * xp.sin(2 * PI * z / 20000.0)
    return rho, u, 0.0, 0.0, theta


def planar_state(case, x, z, c, xp):
    th = c.theta + 0.0 * x

    def bell(A, a, s, xc, zc):
        r = xp.sqrt((x - xc) ** 2 + (z - zc) ** 2)
        return xp.where(r < a, A + 0.0 * r, A * xp.exp(-(((r - a) / s) ** 2)))

    if case == 1:
        th = xp.where((x - 500.0) ** 2 + (z - 260.0) ** 2 < c.rad**2, th + 0.5, th)
    elif case == 2:
        th = th + bell(0.5, 50.0, 100.0, 500.0, 260.0)
    elif case == 3:
        th = th + bell(0.5, 150.0, 50.0, 500.0, 300.0) + bell(-0.15, 0.0, 50.0, 560.0, 640.0)
    ex = 1 - c.g * z / (c.cp * th)
    rho = c.p0 / (c.R * th) * ex ** (c.cv / c.R)
    return rho, 0.0, 0.0, rho * th


def constants():
    d = imp("common.definitions")
    need(d, "gravity", "Rd", "cpd", "cvd", "p0")
    return types.SimpleNamespace(g=d.gravity, R=d.Rd, cp=d.cpd, cv=d.cvd, p0=d.p0, d=d)


# ------------------------------------------------------------------------------------------------------------- symbolic
# Half of the points lie near the feature of the case, so that the sample points reach both branches of a selection.
FEATURE = {
    ("sw", 1): (1.5 * PI, 0.0, 0.4), ("sw", 5): (1.5 * PI, PI / 6, 0.3), ("euler", 20): (1.5 * PI, 0.0, 3.0),
    ("euler", 21): (PI / 4, 0.0, 1e-3), ("euler", 22): (PI / 4, 0.0, 1e-3), ("euler", 77): (0.0, 0.0, 0.3),
    ("euler", 31): (2 * PI / 3, 0.0, 1e-3),
}


def places(name, shape, kind, case):
    lon, lat = np.empty(shape, dtype=object), np.empty(shape, dtype=object)
    for j, i in enumerate(np.ndindex(*shape)):
        t = f"{name}[{','.join(map(str, i))}]"
        if j % 2 and (kind, case) in FEATURE:
            x, y, d = FEATURE[(kind, case)]
            lon[i], lat[i] = atom("lon " + t, lo=x - d, hi=x + d), atom("lat " + t, lo=max(y - d, -1.5), hi=min(y + d, 1.5))
        else:
            lon[i], lat[i] = atom("lon " + t, lo=0.0, hi=6.28), atom("lat " + t, lo=-1.5, hi=1.5)
    return fld(lon), fld(lat)


def clone(obj, **attrs):
    """The real object with some of its attributes replaced."""
    new = object.__new__(type(obj))
    new.__dict__.update(obj.__dict__)
    new.__dict__.update(attrs)
    return new


def real_geometry(kind, over):
    with sims.quiet():
        return fakempi.values(6, lambda rank, comm: (lambda s: (s.geometry, s.config))(sims.simulation(kind, over, comm=comm)))[0]


def names():
    return dict(numpy=XPF, math=alg.MATH, int=int, float=float, min=min, max=max)


def mod(name):
    """initialisation modules, with numpy replaced where they use it"""
    return imp(name)


def sw_symbolic(R, case):
    name = f"shallow-water case {case}"

    def go():
        geom0, cfg = real_geometry("sw", {"num_elements_horizontal": 1, "num_solpts": 2, "case_number": case})
        cls = need(imp("geometry"), "CubedSphere2D")
        need(cls, "wind2contra", "middle_itf_i", "middle_itf_j")
        c = constants()
        c.a, c.om = atom("radius", pos=True, lo=6e6, hi=7e6), atom("rotation", pos=True, lo=6e-5, hi=8e-5)
        at = {}
        for k, suffix in (("", ""), ("i", "_itf_i"), ("j", "_itf_j")):
            at[k] = places("point" + suffix, np.shape(getattr(geom0, "lon" + suffix)), "sw", case)
        lon, lat = at[""]
        winds = []
        out = (fld(alg.array("u1", lon.shape)), fld(alg.array("u2", lon.shape)))
        geom = clone(
            geom0, device=device(xp=XPF), earth_radius=c.a, rotation_speed=c.om, lon=lon, lat=lat,
            coslat=XPF.cos(lat), sinlat=XPF.sin(lat), coslon=XPF.cos(lon), sinlon=XPF.sin(lon),
            polar=fld(np.stack([lon, lat])), lon_itf_i=at["i"][0], lat_itf_i=at["i"][1], lon_itf_j=at["j"][0], lat_itf_j=at["j"][1],
            wind2contra=lambda u, v: (winds.append((u, v)), out)[1],
        )
        n = lat.shape[-1]
        ns = geom0.num_solpts
        D = [LinOp("Dx", n, n), LinOp("Dy", n, n), LinOp("Cx", 2 * ns, n), LinOp("Cy", 2 * ns, n)]
        ops = types.SimpleNamespace(derivative_x=D[0], derivative_y=D[1], correction_WE=D[2], correction_SN=D[3])
        with sims.quiet(), inject("init.shallow_water_test", "init.initialize", **names()):
            Q, topo = need(imp("init.initialize"), "initialize_sw")(geom, None, ops, cfg)
        d = c.d
        h, u, v = sw_state(case, lat, lon, c, XPF)
        equal(R, name, "depth", Q[d.idx_h], h)
        if len(winds) == 1:
            equal(R, name, "zonal wind", np.broadcast_to(winds[0][0], lat.shape), u)
            equal(R, name, "meridional wind", np.broadcast_to(winds[0][1], lat.shape), v)
            for i, k in enumerate((d.idx_hu1, d.idx_hu2)):
                # pure advection stores the winds themselves
                equal(R, name, f"component {i} of the momentum", Q[k], out[i] if case <= 1 else np.asarray(h) * out[i])
        else:
            R.undecided.append(f"{name}: the winds are not converted in one call")
        hs = sw_ground(case, lat, lon, c, XPF)
        R.direct(name, "the case has topography exactly when it is published with one", (topo is not None) == (hs is not None))
        if hs is None or topo is None:
            return
        equal(R, name, "topography", topo.hsurf, hs)
        gi, gj = (np.asarray(sw_ground(case, at[k][1], at[k][0], c, XPF)).copy() for k in "ij")
        ti, tj = np.asarray(topo.hsurf_itf_i), np.asarray(topo.hsurf_itf_j)
        # the element before the first has only its far side, the one after the last only its near side
        west, east, south, north = (np.s_[:, 0, ns:], np.s_[:, -1, :ns], np.s_[0, :, ns:], np.s_[-1, :, :ns])
        for what, s in (("west", west), ("east", east), ("inner", np.s_[:, 1:-1, :])):
            equal(R, name, f"topography on interfaces ({what})", ti[s], gi[s])
        for what, s in (("south", south), ("north", north), ("inner", np.s_[1:-1, :, :])):
            equal(R, name, f"topography on interfaces ({what})", tj[s], gj[s])
        equal(R, name, "slope along x1", topo.dzdx1, np.asarray(hs) @ D[0] + gi[:, 1:-1, :] @ D[2])
        equal(R, name, "slope along x2", topo.dzdx2, np.asarray(hs) @ D[1] + gj[1:-1, :, :] @ D[3])

    alg.unit(R, name, go)


def euler_symbolic(R, case):
    name = f"Euler case {case}"

    def go():
        geom0, cfg = real_geometry("euler3d", {"num_elements_horizontal": 1, "num_elements_vertical": 2, "num_solpts": 2, "case_number": case, "ztop": 30000.0})
        c = constants()
        c.a, c.om = atom("radius", pos=True, lo=1e4, hi=7e4), atom("rotation", pos=True, lo=6e-5, hi=8e-5)
        need(geom0, "coordVec_latlon", "coordVec_latlon_itf_i", "coordVec_latlon_itf_j", "polar", "polar_itf_i", "polar_itf_j")
        dev = device(xp=XPF)
        geom = clone(geom0, device=dev, earth_radius=c.a, rotation_speed=c.om)
        # the old block arrays and the new arrays hold the same points (C15, C16)
        blocks = {}
        for suffix, conv in (("", "_to_new"), ("_itf_i", "_to_new_itf_i"), ("_itf_j", "_to_new_itf_j")):
            old = np.asarray(getattr(geom0, "coordVec_latlon" + suffix))
            lon, lat = places("column" + suffix, old.shape[2:], "euler", case)
            z = fld(alg.array("z0" + suffix, old.shape[1:], lo=0.0, hi=2e4))
            b = fld(np.stack([np.broadcast_to(lon, old.shape[1:]), np.broadcast_to(lat, old.shape[1:]), z]))
            blocks[suffix] = (lon, lat)
            new = np.stack([np.asarray(getattr(geom, conv)(x)) for x in b])
            setattr(geom, "coordVec_latlon" + suffix, b)
            setattr(geom, "polar" + suffix, fld(new))
        geom.lon_new, geom.lat_new, geom.height_new = geom.polar[0], geom.polar[1], geom.polar[2]
        geom.lon, geom.lat = blocks[""]
        floors, winds, built = [], [], []
        shape = geom.polar.shape[1:]

        def apply(*z):
            floors.append(z)
            built.clear()
            h = fld(alg.array("z", shape, lo=0.0, hi=2e4))
            geom.polar = fld(np.stack([geom.polar[0], geom.polar[1], h]))
            geom.height_new = h

        out = tuple(fld(alg.array(f"u{i}", shape)) for i in (1, 2, 3))
        flat = []

        def convert(u, v, w, metric):
            if not built:
                R.direct(name, "the winds are converted with the metric of the final grid", False)
            winds.append((u, v, w))
            return out

        def convert2(u, v):
            winds.append((u, v, 0.0))
            flat.append(1)
            return out[:2]

        geom.apply_topography, geom.wind2contra, geom.wind2contra_2d = apply, convert, convert2
        metric = types.SimpleNamespace(build_metric=lambda: built.append(1))
        with sims.quiet(), inject("init.dcmip", "init.initialize", **names()):
            Q, topo = need(imp("init.initialize"), "initialize_euler")(geom, metric, types.SimpleNamespace(), cfg)
        d = c.d
        R.direct(name, "the metric is built after the topography is known", bool(built) or not floors)
        lon, lat, z = geom.polar
        rho, u, v, w, th = euler_state(case, lat, lon, z, c, XPF)
        equal(R, name, "density", Q[d.idx_rho], rho)
        equal(R, name, "potential temperature", Q[d.idx_rho_theta], rho * th)
        if len(winds) == 1:
            for what, got, want in zip(("zonal", "meridional", "vertical"), winds[0], (u, v, w)):
                equal(R, name, f"{what} wind", np.broadcast_to(np.asarray(got, dtype=object), shape), want)
            comps = (out[0], out[1], 0.0 * out[2] if flat else out[2])
            for k, x in zip((d.idx_rho_u1, d.idx_rho_u2, d.idx_rho_w), comps):
                equal(R, name, f"momentum {k}", Q[k], rho * x)
        else:
            R.undecided.append(f"{name}: the winds are not converted in one call")
        if flat:
            R.direct(name, "the shortcut for flat terrain is only used there", euler_ground(case, lat, lon, c, XPF) is None)
        ground = euler_ground(case, *blocks[""][::-1], c, XPF)
        if ground is None:
            for f in floors[-1:]:
                for x in f:
                    if x is not None:
                        equal(R, name, "flat terrain", x, 0.0 * np.asarray(x))
            return
        R.direct(name, "the terrain is set", len(floors) == 1)
        f = floors[-1]
        for x, s in zip(f[:3], ("", "_itf_i", "_itf_j")):
            equal(R, name, f"terrain{s} (block)", x, euler_ground(case, blocks[s][1], blocks[s][0], c, XPF))
        for x, s, conv in zip(f[3:], ("", "_itf_i", "_itf_j"), ("to_new_floor", "to_new_itf_i_floor", "to_new_itf_j_floor")):
            want = getattr(geom, conv)(fld(euler_ground(case, blocks[s][1], blocks[s][0], c, XPF)))
            equal(R, name, f"terrain{s}", x, want)

    alg.unit(R, name, go)


def damping_symbolic(R, shear):
    name = f"damping layer of case {22 if shear else 21}"

    def go():
        c = constants()
        sh = (1, 1, 2, 2)
        lon, lat = places("point", sh, "euler", 0)
        zs = np.empty(sh, dtype=object)
        for j, i in enumerate(np.ndindex(*sh)):
            lo, hi = ((0.0, 19000.0), (20500.0, 29000.0), (19000.0, 19990.0), (20010.0, 20500.0))[j % 4]
            zs[i] = atom(f"z{list(i)}", lo=lo, hi=hi)
        z = fld(zs)
        d = c.d
        ref, conv = tuple(fld(alg.array(f"ref{i}", sh)) for i in (1, 2, 3)), []
        geom = types.SimpleNamespace(
            device=device(xp=XPF), polar=fld(np.stack([lon, lat, z])), ztop=atom("ztop", pos=True, lo=29500.0, hi=40000.0),
            wind2contra=lambda u, v, w, m: (conv.append((u, v, w, m)), ref)[1], lat_new=lat, lon_new=lon, height_new=z,
        )
        F = fld(alg.array("F", (5,) + sh))
        keep = F.copy()
        rho = fld(alg.array("rho", sh, pos=True))
        us = [fld(alg.array(f"u{i}", sh)) for i in (1, 2, 3)]
        old = [x.copy() for x in us]
        metric = object()
        with inject("init.dcmip", **names()):
            need(imp("init.dcmip"), "dcmip_schar_damping")(F, rho, *us, metric, geom, shear=shear, new_layout=True)
        T, u = schar(shear, lat, z, c, XPF)
        R.direct(name, "the reference winds are converted with this metric", len(conv) == 1 and conv[0][3] is metric)
        equal(R, name, "reference zonal wind", np.broadcast_to(conv[0][0], sh), u)
        for k in (1, 2):
            equal(R, name, "no other reference wind", np.broadcast_to(np.asarray(conv[0][k], dtype=object), sh), 0.0)
        weight = XPF.where(z > 20000.0, rho / 25.0 * XPF.sin(PI / 2 * (z - 20000.0) / (geom.ztop - 20000.0)) ** 2, 0.0 * rho)
        want = keep.copy()
        for k, a, b in zip((d.idx_rho_u1, d.idx_rho_u2, d.idx_rho_w), old, ref):
            want[k] = keep[k] + weight * (a - b)
        equal(R, name, "momentum above 20 km is drawn to the reference, nothing else changes", F, want)
        for a, b in zip(us, old):
            equal(R, name, "the velocities are kept", a, b)

    alg.unit(R, name, go)


def planar_symbolic(R, case):
    name = f"planar case {case}"

    def go():
        c = constants()
        ns, nv, nh = 2, 1, 1
        sh = (nv, nh, ns * ns)
        c.theta, c.rad = atom("bubble_theta", pos=True, lo=280.0, hi=320.0), atom("bubble_rad", pos=True, lo=100.0, hi=300.0)
        x, z = fld(alg.array("x", sh, lo=300.0, hi=700.0)), fld(alg.array("z", sh, lo=50.0, hi=800.0))
        geom = types.SimpleNamespace(device=device(xp=XPF), X1=x, X3=z, num_solpts=ns)
        cfg = types.SimpleNamespace(case_number=case, num_elements_vertical=nv, num_elements_horizontal=nh, bubble_theta=c.theta, bubble_rad=c.rad, num_solpts=ns)
        with inject("init.initialize", **names()):
            Q = need(imp("init.initialize"), "initialize_cartesian2d")(geom, cfg)
        d = c.d
        want = planar_state(case, x, z, c, XPF)
        for k, w, what in zip((d.idx_2d_rho, d.idx_2d_rho_u, d.idx_2d_rho_w, d.idx_2d_rho_theta), want, ("density", "horizontal momentum", "vertical momentum", "potential temperature")):
            equal(R, name, what, Q[k], w)

    alg.unit(R, name, go)


# ------------------------------------------------------------------------------------------------------------- concrete
def off(a, b):
    a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    if not np.all(np.isfinite(a)):
        return np.inf
    s = max(float(np.abs(b).max()), 1e-300)
    return float(np.abs(a - b).max()) / s if np.any(b) else float(np.abs(a).max())


def sw_real(R, unit, cases):
    def go(ck):
        runs = [(case, {}) for case in cases if case != 9]
        runs += [(9, {"matsuno_wave_type": t, "matsuno_amp": a}) for t, a in (("rossby", 1e-5), ("eig", 0.5), ("wig", 2.0)) if 9 in cases]
        grids = [((0.0, 0.0, 0.0), 2, 3), ((0.1, 0.3, 0.2), 4, 2), ((-2.5, 1.1, 3.0), 3, 1)]
        for n, (case, extra) in enumerate(runs):
            for rot, order, ne in grids if case not in (8, 9) or R.thorough else [grids[n % 3]]:
                over = dict(extra, case_number=case, lambda0=rot[0], phi0=rot[1], alpha0=rot[2], num_solpts=order, num_elements_horizontal=ne)
                ck.case(**over)

                def one(rank, comm):
                    sim = sims.simulation("sw", over, comm=comm)
                    geom, Q, topo = sim.geometry, np.asarray(sim.initial_Q), sim.topography
                    c = constants()
                    c.a, c.om = geom.earth_radius, geom.rotation_speed
                    c.wave, c.amp = extra.get("matsuno_wave_type"), extra.get("matsuno_amp")
                    lon, lat = np.asarray(geom.lon), np.asarray(geom.lat)
                    h, u, v = sw_state(case, lat, lon, c, np)
                    u1, u2 = geom.wind2contra(u + 0.0 * lat, v + 0.0 * lat)
                    d = c.d
                    m = 1.0 if case <= 1 else h
                    # the wave of case 9 is small against the mean depth
                    mean = 30.0 * 9.80616 / c.g if case == 9 else 0.0
                    res = {
                        "depth": off(Q[d.idx_h] - mean, h - mean),
                        "first momentum component": float(np.abs(Q[d.idx_hu1] - m * u1).max() / max(np.abs(m * u1).max(), np.abs(m * u2).max(), 1e-12)),
                        "second momentum component": float(np.abs(Q[d.idx_hu2] - m * u2).max() / max(np.abs(m * u1).max(), np.abs(m * u2).max(), 1e-12)),
                    }
                    hs = sw_ground(case, lat, lon, c, np)
                    res["topography present"] = 0.0 if (topo is not None) == (hs is not None) else np.inf
                    if hs is not None and topo is not None:
                        ns = order
                        gi = sw_ground(case, np.asarray(geom.lat_itf_i), np.asarray(geom.lon_itf_i), c, np)
                        gj = sw_ground(case, np.asarray(geom.lat_itf_j), np.asarray(geom.lon_itf_j), c, np)
                        ti, tj = np.asarray(topo.hsurf_itf_i), np.asarray(topo.hsurf_itf_j)
                        res["topography"] = off(topo.hsurf, hs)
                        for s in (np.s_[:, 1:-1, :], np.s_[:, 0, ns:], np.s_[:, -1, :ns]):
                            res["topography on interfaces"] = max(res.get("topography on interfaces", 0), off(ti[s], gi[s]))
                        for s in (np.s_[1:-1, :, :], np.s_[0, :, ns:], np.s_[-1, :, :ns]):
                            res["topography on interfaces"] = max(res["topography on interfaces"], off(tj[s], gj[s]))
                        op = sim.operators
                        s1 = hs @ op.derivative_x + gi[:, 1:-1, :] @ op.correction_WE
                        s2 = hs @ op.derivative_y + gj[1:-1, :, :] @ op.correction_SN
                        sc = max(np.abs(s1).max(), np.abs(s2).max(), 1e-12)
                        res["slopes"] = float(max(np.abs(topo.dzdx1 - s1).max(), np.abs(topo.dzdx2 - s2).max()) / sc) if np.any(hs) else 0.0
                    return res

                with sims.quiet():
                    res = fakempi.values(6, one, 120)
                tol = 2e-6 if case == 8 else 1e-8
                for k in sorted({k for r in res for k in r}):
                    bad = [(i, r[k]) for i, r in enumerate(res) if k in r and not r[k] <= tol]
                    ck.check(f"case {case}: {k}", not bad, bad[:2])

    R.concrete(unit, go, bound=f"cases {', '.join(map(str, cases))}; up to three rotations, order 2-4, 6 processes")


def sw_functions(R):
    """The states of cases 0, 8 and 9 on any block of points (the functions that compute them, without the grid around them)."""

    def go(ck):
        m, w = imp("init.shallow_water_test"), imp("init.matsuno")
        need(m, "circular_vortex", "height_vortex", "case_galewsky", "eval_u_prime", "height_unsteady_zonal")
        need(w, "eval_field")
        rng = np.random.default_rng(R.seed)
        comm = types.SimpleNamespace(rank=1, size=6)

        def grid(sh):
            lon, lat = rng.uniform(0, 3.1, sh), rng.uniform(-1.55, 1.55, sh)
            lon[0], lat[0] = PI - 0.8 + rng.normal(0, 0.2, sh[1]), PI / 4.8 + rng.normal(0, 0.2, sh[1])
            lon[1], lat[1] = np.abs(rng.normal(0, 0.3, sh[1])), PI / 4 + rng.normal(0, 0.1, sh[1])
            out = []
            g = types.SimpleNamespace(lon=lon, lat=lat, coslat=np.cos(lat), sinlat=np.sin(lat), coslon=np.cos(lon), sinlon=np.sin(lon),
                                      earth_radius=6371220.0, rotation_speed=7.29212e-5, device=types.SimpleNamespace(comm=comm, xp=np))
            g.wind2contra = lambda u, v: (out.append((u, v)), (u, v))[1]
            return g, out

        c = constants()
        cfg = types.SimpleNamespace(dt=1.0, case_number=0)
        for name, case in (("circular_vortex", 0), ("case_galewsky", 8)):
            g, out = grid((6, 9))
            ck.case(case=case, lon=g.lon[:2].tolist(), lat=g.lat[:2].tolist())
            c.a, c.om = g.earth_radius, g.rotation_speed
            keep = vars(m).get("wind2contra_2d")
            try:
                if keep is not None:
                    m.wind2contra_2d = lambda u, v, geom: g.wind2contra(u, v)
                with sims.quiet():
                    h = getattr(m, name)(g, None, cfg)[2]
            finally:
                if keep is not None:
                    m.wind2contra_2d = keep
            want = sw_state(case, g.lat, g.lon, c, np)
            ck.check(f"case {case}: depth", off(h, want[0]) < 2e-6, off(h, want[0]))
            if len(out) == 1:
                sc = max(np.abs(want[1]).max(), 1e-300)
                ck.check(f"case {case}: winds", np.abs(out[0][0] - want[1]).max() < 1e-8 * sc and np.abs(out[0][1] - want[2]).max() < 1e-8 * sc)
        # Nair and Machenhauer: the vortex turns with time
        g, out = grid((6, 9))
        for step in (0, 3, 50):
            cfg.dt = 3600.0
            ck.case(case=0, step=step)
            h, om = m.height_vortex(g, None, cfg, step)
            h0, u, v = sw_state(0, g.lat, g.lon, c, np)
            lc, pc = PI - 0.8, PI / 4.8
            sl = np.sin(pc) * np.sin(g.lat) + np.cos(pc) * np.cos(g.lat) * np.cos(g.lon - lc)
            rho = 3 * np.sqrt(1 - sl * sl)
            ang = np.arctan2(np.cos(g.lat) * np.sin(g.lon - lc), np.cos(g.lat) * np.sin(pc) * np.cos(g.lon - lc) - np.cos(pc) * np.sin(g.lat))
            u0 = 2 * PI * c.a / (12 * DAY)
            rate = u0 * 1.5 * math.sqrt(3.0) * np.tanh(rho) / np.cosh(rho) ** 2 / (c.a * rho)
            ck.check("the vortex turns with its angular speed", off(om, rate) < 1e-8 and np.abs(h - (1 - np.tanh(rho / 5 * np.sin(ang - rate * step * 3600.0)))).max() < 1e-8)
        # Lauter et al.: depth of the balanced flow
        ck.case(case=10)
        h = m.height_unsteady_zonal(g, None, cfg)
        ck.check("case 10: depth", off(h, sw_state(10, g.lat, g.lon, c, np)[0]) < 1e-10)
        for wave in ("Rossby", "EIG", "WIG"):
            for amp in (1e-5, 0.7):
                ck.case(case=9, wave=wave, amp=amp)
                c.wave, c.amp = wave.lower(), amp
                want = matsuno(g.lat, g.lon, c)
                mean = 30.0 * 9.80616
                for f, x, base in (("phi", want[0] * c.g - mean, mean), ("u", want[1], 0.0), ("v", want[2], 0.0)):
                    got = np.vectorize(lambda p, l: w.eval_field(p, l, 0.0, amp=amp, field=f, wave_type=wave))(g.lat, g.lon) - base
                    # the geopotential is the mean plus a small wave: compare to what is left of its digits
                    tol = 1e-8 + (1e-13 * mean / max(np.abs(x).max(), 1e-300) if base else 0.0)
                    ck.check(f"case 9, {wave} wave: {f}", off(got, x) < tol, off(got, x))

    R.concrete("shallow-water cases on a block of points", go, bound="cases 0, 8, 9, 10 on 54 points")




def euler_real(R):
    def go(ck):
        for case in (20, 21, 22, 31, 77):
            for rot, order, ne, nv in [((0.0, 0.0, 0.0), 3, 1, 2), ((0.4, -0.3, 0.7), 2, 2, 1)]:
                over = dict(case_number=case, lambda0=rot[0], phi0=rot[1], alpha0=rot[2], num_solpts=order, num_elements_horizontal=ne, num_elements_vertical=nv)
                over["ztop"] = 12000.0 if case in (20, 31, 77) else 30000.0
                ck.case(**over)

                def one(rank, comm):
                    sim = sims.simulation("euler3d", over, comm=comm)
                    geom, Q = sim.geometry, np.asarray(sim.initial_Q)
                    c = constants()
                    c.a, c.om = geom.earth_radius, geom.rotation_speed
                    d = c.d
                    lon, lat, z = (np.asarray(x) for x in geom.polar)
                    rho, u, v, w, th = euler_state(case, lat, lon, z, c, np)
                    u1, u2, u3 = geom.wind2contra(u + 0.0 * lat, v + 0.0 * lat, w + 0.0 * lat, sim.metric)
                    sc = max(np.abs(rho * x).max() for x in (u1, u2, u3)) or 1.0
                    res = {"density": off(Q[d.idx_rho], rho), "potential temperature": off(Q[d.idx_rho_theta], rho * th)}
                    for k, x in zip((d.idx_rho_u1, d.idx_rho_u2, d.idx_rho_w), (u1, u2, u3)):
                        res[f"momentum {k}"] = float(np.abs(Q[k] - rho * x).max() / sc)
                    ns = order
                    f = euler_ground(case, lat, lon, c, np)
                    f = np.zeros_like(lat) if f is None else f
                    zf = np.asarray(geom.z_floor)
                    res["terrain"] = float(np.abs(zf - np.asarray(geom.get_floor(f))).max() / 2000.0)
                    # heights follow the terrain
                    eta = np.asarray(geom.eta_new)
                    res["heights"] = float(np.abs(z - (f + (geom.ztop - f) * eta)).max() / geom.ztop)
                    for s, fl, zi in (("i", geom.get_itf_i_floor, geom.z_floor_itf_i), ("j", geom.get_itf_j_floor, geom.z_floor_itf_j)):
                        P = getattr(geom, "polar_itf_" + s)
                        g = euler_ground(case, np.asarray(fl(P[1])), np.asarray(fl(P[0])), c, np)
                        zi = np.asarray(zi)
                        g = np.zeros_like(zi) if g is None else g
                        sl = (np.s_[:, 1:-1, :], np.s_[:, 0, ns:], np.s_[:, -1, :ns]) if s == "i" else (np.s_[1:-1, :, :], np.s_[0, :, ns:], np.s_[-1, :, :ns])
                        res["terrain on interfaces " + s] = max(float(np.abs(zi[q] - g[q]).max()) / 2000.0 for q in sl)
                    return res

                with sims.quiet():
                    res = fakempi.values(6, one, 120)
                for k in sorted({k for r in res for k in r}):
                    bad = [(i, r[k]) for i, r in enumerate(res) if k in r and not r[k] <= 1e-8]
                    ck.check(f"case {case}: {k}", not bad, bad[:2])

    R.concrete("Euler cases on real grids", go, bound="cases 20, 21, 22, 31, 77; two rotations, order 2-3, 6 processes")


def damping_real(R):
    def go(ck):
        for case in (21, 22):
            over = dict(case_number=case, ztop=30000.0, num_solpts=3, num_elements_horizontal=1, num_elements_vertical=11, lambda0=0.2, phi0=0.1, alpha0=-0.3)
            ck.case(**over)

            def one(rank, comm):
                sim = sims.simulation("euler3d", over, comm=comm)
                geom = sim.geometry
                c = constants()
                c.a, c.om = geom.earth_radius, geom.rotation_speed
                rng = np.random.default_rng(R.seed + rank)
                lon, lat, z = (np.asarray(x) for x in geom.polar)
                F = rng.standard_normal((5,) + lat.shape)
                keep = F.copy()
                rho, us = rng.uniform(0.5, 1.5, lat.shape), [rng.standard_normal(lat.shape) for _ in range(3)]
                need(imp("init.dcmip"), "dcmip_schar_damping")(F, rho, *us, sim.metric, geom, shear=case == 22, new_layout=True)
                T, u = schar(case == 22, lat, z, c, np)
                ref = geom.wind2contra(u, 0.0 * u, 0.0 * u, sim.metric)
                wt = np.where(z > 20000.0, rho / 25.0 * np.sin(PI / 2 * (z - 20000.0) / (geom.ztop - 20000.0)) ** 2, 0.0)
                d = c.d
                for k, a, b in zip((d.idx_rho_u1, d.idx_rho_u2, d.idx_rho_w), us, ref):
                    keep[k] += wt * (a - b)
                return float(np.abs(F - keep).max()), float(wt.max())

            with sims.quiet():
                res = fakempi.values(6, one, 120)
            ck.check(f"case {case}: damping above 20 km", all(a < 1e-10 and b > 0 for a, b in res), res)

    R.concrete("damping layers on real grids", go, bound="two cases, one grid")


def planar_real(R):
    def go(ck):
        for case in (1, 2, 3, 5, 6):
            for over in ({"num_solpts": 4}, {"num_solpts": 2, "num_elements_vertical": 7, "num_elements_horizontal": 5, "bubble_theta": 290.0, "bubble_rad": 180.0}):
                o = dict(over, case_number=case)
                ck.case(**o)
                with sims.quiet():
                    sim = sims.simulation("bubble", o)
                c = constants()
                c.theta, c.rad = sim.config.bubble_theta, sim.config.bubble_rad
                d = c.d
                Q = np.asarray(sim.initial_Q)
                want = planar_state(case, np.asarray(sim.geometry.X1), np.asarray(sim.geometry.X3), c, np)
                for k, w, what in zip((d.idx_2d_rho, d.idx_2d_rho_u, d.idx_2d_rho_w, d.idx_2d_rho_theta), want, ("density", "horizontal momentum", "vertical momentum", "potential temperature")):
                    ck.check(f"case {case}: {what}", off(Q[k], w) < 1e-12, off(Q[k], w))

    R.concrete("planar cases on real grids", go, bound="cases 1, 2, 3, 5, 6 on two grids")


def run(R):
    R.under_contract(
        "init.initialize.initialize_sw", "init.initialize.initialize_euler", "init.initialize.initialize_cartesian2d",
        "init.shallow_water_test.solid_body_rotation/height_case1/height_case2/williamson_case1/2/5/6",
        "init.shallow_water_test.circular_vortex/height_vortex/case_galewsky/eval_u_prime/height_unsteady_zonal (bounded)",
        "init.matsuno.eval_field (bounded)",
        "init.dcmip.dcmip_steady_state_mountain/dcmip_schar_waves/dcmip_schar_damping/dcmip_gravity_wave/acoustic_wave",
    )
    R.assume(
        "the contracts of the coordinates and wind conversions (C15), of the layouts (C16) and of the operators (C17)",
        "machine arithmetic treated as real arithmetic; constants agree to 12 digits",
    )
    for case in (1, 2, 5, 6):
        sw_symbolic(R, case)
    for case in (20, 21, 22, 31, 77):
        euler_symbolic(R, case)
    for shear in (False, True):
        damping_symbolic(R, shear)
    for case in (1, 2, 3, 5):
        planar_symbolic(R, case)
    kernels.use_build()
    sw_real(R, "shallow-water cases on real grids", (1, 2, 5, 6))
    for case in (0, 8, 9, 10):
        sw_real(R, f"shallow-water case {case} on real grids", (case,))
    sw_functions(R)
    euler_real(R)
    damping_real(R)
    planar_real(R)
