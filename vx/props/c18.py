"""C18: what is written out describes the state it was made from, and writing leaves that state alone."""

import contextlib
import glob
import io
import math
import os
import re
import shutil
import tempfile
import types

import numpy as np
import z3

from .. import alg, core, fakempi, kernels, sims
from ..alg import XPA, LinOp, array, atom, equal
from ..core import HarnessGap, SBool, integer
from ..load import Gap, device, imp, inject, need
from .c13 import arr, pos3
from .c15 import basis_float, frame_float


# --------------------------------------------------------------------------------------------------- symbolic stand-ins
def shell(cls, **attrs):
    """An object of the class that has only these attributes."""

    class Shell(cls):
        def __init__(self):
            self.__dict__.update(attrs)

        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise HarnessGap(f"{cls.__name__}.{k}")

    return Shell()


class Times:
    """The time axis of the open file: n records so far."""

    def __init__(self, n):
        self.n, self.put = n, []

    def __len__(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def __setitem__(self, k, v):
        self.put.append((k, v))


class Block:
    """A field in block order: the contract of to_single_block (C16)."""

    def __init__(self, field):
        self.field = field


def element(ne, ns, topo):
    sh = (ne, ne, ns * ns)
    d = imp("common.definitions")
    ih, i1, i2 = need(d, "idx_h", "idx_hu1", "idx_hu2")
    w = types.SimpleNamespace(sh=sh, ih=ih, i1=i1, i2=i2, g=need(d, "gravity"))
    w.Q = pos3("q", (3,) + sh, {ih})
    m = {"sqrtG": array("sqrtG", sh, pos=True), "coriolis_f": array("f", sh)}
    m["inv_sqrtG"] = 1 / m["sqrtG"]
    m["H_cov_11"], m["H_cov_22"] = array("H11", sh, pos=True), array("H22", sh, pos=True)
    m["H_cov_12"] = m["H_cov_21"] = array("H12", sh)
    m["h_cov"] = np.stack([np.stack([m["H_cov_11"], m["H_cov_12"]]), np.stack([m["H_cov_21"], m["H_cov_22"]])])
    w.m = m
    w.metric = Gap("metric", **m)
    w.Dx, w.Dy = LinOp("Dx", ns * ns, ns * ns), LinOp("Dy", ns * ns, ns * ns)
    w.weights = array("wq", (ns, ns), pos=True)
    n = ns * ns
    w.Ex, w.Ey, w.Cx, w.Cy = LinOp("Ex", n, 2 * ns), LinOp("Ey", n, 2 * ns), LinOp("Cx", 2 * ns, n), LinOp("Cy", 2 * ns, n)
    w.ops = Gap(
        "operators", derivative_x=w.Dx, derivative_y=w.Dy, quad_weights=w.weights, extrap_x=w.Ex, extrap_y=w.Ey,
        correction_WE=w.Cx, correction_SN=w.Cy,
    )
    w.hs = array("hs", sh) if topo else None
    w.topo = Gap("topo", hsurf=w.hs) if topo else None
    return w


def vorticity(w, u1, u2):
    m = w.m
    c1 = m["H_cov_11"] * u1 + m["H_cov_12"] * u2
    c2 = m["H_cov_12"] * u1 + m["H_cov_22"] * u2
    # derivative of the polynomial of the element: points, and boundary values extrapolated from them (C17)
    d1c2 = c2 @ w.Dx + (c2 @ w.Ex) @ w.Cx
    d2c1 = c1 @ w.Dy + (c1 @ w.Ey) @ w.Cy
    return (d1c2 - d2c1) / m["sqrtG"]


def energy(w, h, u1, u2):
    m = w.m
    e = 0.5 * h * (m["H_cov_11"] * u1 * u1 + 2 * m["H_cov_12"] * u1 * u2 + m["H_cov_22"] * u2 * u2) + 0.5 * w.g * h * h
    return e if w.hs is None else e + w.g * h * w.hs


# --------------------------------------------------------------------------------------------------------- diagnostics
def diagnostics(R, ne, ns, topo):
    name = f"diagnostics {ne}x{ne} elements, order {ns}" + (", topography" if topo else "")

    def go():
        D = imp("output.diagnostic")
        w = element(ne, ns, topo)
        h, u1, u2 = w.Q[w.ih], array("u1", w.sh), array("u2", w.sh)
        keep = [x.copy() for x in (h, u1, u2)]
        zeta = vorticity(w, u1, u2)
        f = w.m["coriolis_f"]
        equal(R, name, "relative vorticity", need(D, "relative_vorticity")(u1, u2, w.metric, w.ops), zeta)
        equal(R, name, "potential vorticity", need(D, "potential_vorticity")(h, u1, u2, w.metric, w.ops), (zeta + f) / h)
        if hasattr(D, "absolute_vorticity"):
            equal(R, name, "absolute vorticity", D.absolute_vorticity(u1, u2, w.metric, w.ops), zeta + f)
        equal(R, name, "energy", need(D, "total_energy")(h, u1, u2, w.topo, w.metric), energy(w, h, u1, u2))
        cfg = Gap("config", num_solpts=ns)
        equal(R, name, "enstrophy", need(D, "potential_enstrophy")(h, u1, u2, Gap("geom"), w.metric, w.ops, cfg), (zeta + f) * (zeta + f) / (2 * h))
        sums, totals = [], [alg.atom("total")]
        comm = Gap("comm", allreduce=lambda x, *a, **k: (sums.append(x), totals[0])[1])
        out = need(D, "global_integral_2d")(h, w.ops, w.metric, ns, comm)
        want = alg.ZERO
        for a in range(ne):
            for b in range(ne):
                for j in range(ns):
                    for i in range(ns):
                        k = (a, b, j * ns + i)
                        want = want + w.weights[j, i] * w.m["sqrtG"][k] * h[k]
        R.direct(name, "one reduction over all processes", len(sums) == 1)
        equal(R, name, "integral over the tile", arr(sums[0]), arr(want))
        R.direct(name, "the reduced value is the result", out is totals[0])
        for a, b in zip((h, u1, u2), keep):
            equal(R, name, "inputs unchanged", a, b)

    alg.unit(R, name, go)


# -------------------------------------------------------------------------------------------------- result files, proof
def recorder(mod, cls, geom, w, case, step0):
    stored = []
    times = Times(step0)
    out = shell(
        cls,
        device=device(xp=XPA),
        geometry=geom,
        config=Gap("config", case_number=case, dt=600.0),
        metric=w.metric,
        operators=getattr(w, "ops", Gap("operators")),
        topo=getattr(w, "topo", None),
        ncfile={"time": times},
        num_dim=getattr(w, "dim", 2),
        rank=0,
        store_field=lambda field, name, idx: stored.append((name, idx, field)),
    )
    return out, times, stored


def field(x):
    if not isinstance(x, Block):
        raise HarnessGap("a field is stored without going through to_single_block")
    return x.field


def sw_results(R, ne, ns, topo, case):
    name = f"shallow-water results, case {case}" + (", topography" if topo else "")

    def go():
        mod = imp("output.output_cubesphere_netcdf")
        G = imp("geometry")
        cls, C2 = need(mod, "OutputCubesphereNetcdf"), need(G, "CubedSphere2D")
        w = element(ne, ns, topo)
        winds = (array("uu", w.sh), array("vv", w.sh))
        seen = []

        def contra2wind(u1, u2):
            seen.append((u1, u2))
            return winds

        geom = shell(C2, contra2wind=contra2wind, to_single_block=Block, device=device(xp=XPA))
        out, times, stored = recorder(mod, cls, geom, w, case, 4)
        q0 = w.Q.copy()
        out.__write_result__(w.Q, 7)
        got = {}
        for n, i, f in stored:
            R.direct(name, f"{n} is stored in the new record", i == 4)
            if n in got:
                R.direct(name, f"{n} is stored once", False)
            got[n] = field(f)
        R.direct(name, "the time of the step is recorded", times.put == [(4, 7 * 600.0)])
        h = q0[w.ih]
        u1, u2 = q0[w.i1] / h, q0[w.i2] / h
        equal(R, name, "state unchanged", w.Q, q0)
        want = {"h": h if w.hs is None else h + w.hs}
        if case >= 2:
            zeta = vorticity(w, u1, u2)
            want.update(U=winds[0], V=winds[1], RV=zeta, PV=(zeta + w.m["coriolis_f"]) / h)
            R.direct(name, "the winds are converted once", len(seen) == 1)
            equal(R, name, "first component converted", seen[0][0], u1)
            equal(R, name, "second component converted", seen[0][1], u2)
        R.direct(name, "the fields stored", set(want) <= set(got), detail=sorted(got))
        for n in want:
            if n in got:
                equal(R, name, n, got[n], want[n])

    alg.unit(R, name, go)


def euler_results(R, case, nvar):
    name = f"Euler results, case {case}"

    def go():
        mod = imp("output.output_cubesphere_netcdf")
        G, d = imp("geometry"), imp("common.definitions")
        cls, C3 = need(mod, "OutputCubesphereNetcdf"), need(G, "CubedSphere3D")
        ir, i1, i2, i3, it = need(d, "idx_rho", "idx_rho_u1", "idx_rho_u2", "idx_rho_w", "idx_rho_theta")
        cpd, cvd, p0, Rd = need(d, "cpd", "cvd", "p0", "Rd")
        sh = (2, 1, 1, 8)
        w = types.SimpleNamespace(metric=Gap("metric"), dim=3)
        Q = pos3("q", (nvar,) + sh, {ir, it})
        q0 = Q.copy()
        winds = tuple(array(n, sh) for n in ("uu", "vv", "ww"))
        seen = []

        def c3(*a, **k):
            seen.append((a[:3], (list(a[3:]) + list(k.values()))))
            return winds

        geom = shell(C3, contra2wind_3d=c3, contra2wind=c3, to_single_block=Block, device=device(xp=XPA))
        out, times, stored = recorder(mod, cls, geom, w, case, 0)
        out.__write_result__(Q, 3)
        got = {n: field(f) for n, i, f in stored}
        R.direct(name, "every field is stored once in the new record", len(got) == len(stored) and all(i == 0 for _, i, _ in stored))
        R.direct(name, "the time of the step is recorded", times.put == [(0, 3 * 600.0)])
        equal(R, name, "state unchanged", Q, q0)
        rho = q0[ir]
        R.direct(name, "the winds are converted once, with the metric", len(seen) == 1 and any(x is w.metric for x in seen[0][1]))
        for k, v in enumerate((i1, i2, i3)):
            equal(R, name, f"component {k + 1} converted", seen[0][0][k], q0[v] / rho)
        want = {"rho": rho, "U": winds[0], "V": winds[1], "W": winds[2], "theta": q0[it] / rho}
        press = np.empty(sh, dtype=object)
        for k in np.ndindex(*sh):
            press[k] = p0 * (q0[it][k] * Rd / p0) ** (cpd / cvd)
        want["P"] = press
        if case in (11, 12):
            want["q1"] = q0[5] / rho
        if case == 11:
            want.update({f"q{k - 4}": q0[k] / rho for k in (6, 7, 8)})
        R.direct(name, "the fields stored", set(want) <= set(got), detail=sorted(got))
        for n in want:
            if n in got:
                equal(R, name, n, got[n], want[n])

    alg.unit(R, name, go)


# ------------------------------------------------------------------------------------------------------ result files
def gauss(n):
    return np.polynomial.legendre.leggauss(n)[0]


def places(size):
    side = math.isqrt(size // 6)
    return side, [(r // (side * side), (r % (side * side)) // side, r % side) for r in range(size)]


def axis(ne, ns, side, k):
    """equiangular coordinates of the points of tile k of `side` along a panel"""
    pts = gauss(ns)
    n = ne * side
    dx = math.pi / 2 / n
    return np.array([-math.pi / 4 + (k * ne + e + 0.5 * (1 + p)) * dx for e in range(ne) for p in pts])


def blocks2(q, ne, ns):
    return q.reshape(q.shape[:-3] + (ne, ne, ns, ns)).swapaxes(-3, -2).reshape(q.shape[:-3] + (ne * ns, ne * ns))


def blocks3(q, nv, ne, ns):
    d = q.ndim - 4
    x = q.reshape(q.shape[:-4] + (nv, ne, ne, ns, ns, ns))
    t = list(range(d)) + [d + k for k in (0, 3, 1, 4, 2, 5)]
    return x.transpose(t).reshape(q.shape[:-4] + (nv * ns, ne * ns, ne * ns))


def angles_equal(a, b, tol=1e-9):
    return np.abs(np.sin((a - b) / 2)).max() < tol


def run_files(R, tier):
    try:
        import netCDF4
    except ImportError:
        raise HarnessGap("netCDF4 is not installed")

    def sphere(ck, kind, size, over, disturb):
        scratch = tempfile.mkdtemp(prefix="out", dir=kernels.scratch())
        side, where = places(size)
        o = dict(over, output_dir=scratch, output_freq=1)
        steps = [0, 3, 5]
        rng = [np.random.default_rng(10 + r) for r in range(size)]

        def work(rank, comm):
            s = sims.simulation(kind, o, comm)
            Qs = [s.initial_Q.copy()]
            for st in steps[1:]:
                Q = s.initial_Q.copy()
                if disturb:
                    Q *= 1 + 0.01 * rng[rank].random(Q.shape)
                Qs.append(Q)
            kept = [q.copy() for q in Qs]
            before = len([x for x in Qs])
            for st, q in list(zip(steps, Qs))[1:]:
                s.output.step(q, st)
            same = all(np.array_equal(a, b) for a, b in zip(Qs, kept))
            s.output.finalize(1.0)
            rec = {"same": same, "Q": kept, "geom": s.geometry, "metric": s.metric, "topo": s.output.topo, "cfg": s.config}
            return rec

        try:
            with sims.quiet():
                per = fakempi.values(size, work)
            files = glob.glob(os.path.join(scratch, "*.nc"))
            if len(files) != 1:
                raise HarnessGap(f"expected one netCDF file, found {files}")
            nc = netCDF4.Dataset(files[0])
            try:
                data = {k: np.array(v[...]) for k, v in nc.variables.items()}
            finally:
                nc.close()
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return side, where, steps, per, data

    def compare(ck, kind, size, over, disturb=True):
        ck.case(grid=kind, processes=size, options=over, steps=[0, 3, 5])
        side, where, steps, per, data = sphere(ck, kind, size, over, disturb)
        cfg = per[0]["cfg"]
        ns = cfg.num_solpts
        ne = per[0]["geom"].num_elem_horizontal if hasattr(per[0]["geom"], "num_elem_horizontal") else cfg.num_elements_horizontal
        n = ne * ns
        ck.check("writing leaves the state unchanged", all(p["same"] for p in per))
        nt = len(steps)
        ck.check("one record per written step, with its time", np.allclose(data["time"], [s * cfg.dt for s in steps]), data["time"])
        line = np.concatenate([axis(ne, ns, side, k) for k in range(side)])
        for ax in ("Xdim", "Ydim"):
            ck.check(f"{ax} holds the coordinates of the points along a panel", data[ax].shape == line.shape and np.abs(data[ax] - line).max() < 1e-12, lambda: data[ax].tolist())

        def put(dst, rank, x):
            p, row, col = where[rank]
            dst[(p,) + (Ellipsis, slice(row * n, (row + 1) * n), slice(col * n, (col + 1) * n))] = x

        N = n * side
        lon, lat = np.zeros((6, N, N)), np.zeros((6, N, N))
        rot = [over.get(k, sims.BASE[kind][k]) for k in ("lambda0", "phi0", "alpha0")]
        for r in range(size):
            p, row, col = where[r]
            x1, x2 = np.meshgrid(axis(ne, ns, side, col), axis(ne, ns, side, row))
            q, _, _ = basis_float(x1, x2)
            v = np.einsum("ab,bji->aji", frame_float(rot, p), q)
            put(lon, r, np.arctan2(v[1], v[0]))
            put(lat, r, np.arcsin(np.clip(v[2], -1, 1)))
        # rotation angles are kept with 24 bits (C06): half a step is 1.9e-7 radians
        ck.check("lons and lats are those of each point", angles_equal(np.radians(data["lons"]), lon, 1e-6) and angles_equal(np.radians(data["lats"]), lat, 1e-6))
        g0 = imp("common.definitions").gravity
        if kind == "sw":
            names = ["h"] + (["U", "V", "RV", "PV"] if cfg.case_number >= 2 else [])
            want = {k: np.zeros((nt, 6, N, N)) for k in names}
            for r in range(size):
                P = per[r]
                geom, m = P["geom"], P["metric"]
                for t, Q in enumerate(P["Q"]):
                    h = Q[0]
                    put(want["h"][t], r, blocks2(h + (P["topo"].hsurf if P["topo"] is not None else 0.0), ne, ns))
                    if cfg.case_number >= 2:
                        u, v = geom.contra2wind(Q[1] / h, Q[2] / h)
                        put(want["U"][t], r, blocks2(u, ne, ns))
                        put(want["V"][t], r, blocks2(v, ne, ns))
                        z = local_vorticity(Q[1] / h, Q[2] / h, geom, ne, ns, side, where[r], P)
                        f = 2 * geom.rotation_speed * np.sin(geom.lat)
                        put(want["RV"][t], r, blocks2(z, ne, ns))
                        put(want["PV"][t], r, blocks2((z + f) / h, ne, ns))
        else:
            d = imp("common.definitions")
            nv = cfg.num_elements_vertical
            K = nv * ns
            names = ["rho", "U", "V", "W", "theta", "P"]
            want = {k: np.zeros((nt, 6, K, N, N)) for k in names}
            elev, topo = np.zeros((6, K, N, N)), np.zeros((6, N, N))
            for r in range(size):
                P = per[r]
                geom = P["geom"]
                put(elev, r, blocks3(geom.polar[2], nv, ne, ns))
                zf = geom.z_floor.reshape(ne, ne, -1)[..., : ns * ns]
                put(topo, r, blocks2(zf, ne, ns))
                for t, Q in enumerate(P["Q"]):
                    rho = Q[0]
                    u, v, w = geom.contra2wind_3d(Q[1] / rho, Q[2] / rho, Q[3] / rho, P["metric"])
                    for k, x in zip(names, (rho, u, v, w, Q[4] / rho, d.p0 * (d.Rd * Q[4] / d.p0) ** (d.cpd / d.cvd))):
                        put(want[k][t], r, blocks3(x, nv, ne, ns))
            ck.check("elev holds the height of each point", np.abs(data["elev"] - elev).max() < 1e-6)
            ck.check("topo holds the height of the ground", np.abs(data["topo"] - topo).max() < 1e-6)
            z = (np.arange(nv)[:, None] + 0.5 * (1 + gauss(ns))[None, :]).ravel() / nv
            ck.check("Zdim increases from the ground to the top", data["Zdim"].shape == z.shape and (np.diff(data["Zdim"]) > 0).all())
        for k in names:
            if k not in data:
                ck.fail(f"{k} is missing")
                continue
            sc = np.abs(want[k]).max(axis=tuple(range(1, want[k].ndim)), keepdims=True)
            tol = 1e-9 if k not in ("RV", "PV") else 1e-6
            err = np.abs(data[k] - want[k]) / np.maximum(sc, 1e-300)
            ck.check(f"{k} holds the value of the state at each point", data[k].shape == want[k].shape and (err.max() < tol or (k in ("V", "W") and np.abs(data[k] - want[k]).max() < 1e-9)), lambda: float(err.max()))

    def go(ck):
        cases = [
            ("sw", 6, {"case_number": 5, "num_solpts": 3}, True),
            ("sw", 24, {"case_number": 6, "num_elements_horizontal": 4}, True),
            ("sw", 6, {"case_number": 1}, False),
            ("euler3d", 6, {"case_number": 21, "num_solpts": 3}, True),
            ("euler3d", 24, {"case_number": 31, "num_elements_horizontal": 4}, True),
        ]
        if tier == "thorough":
            cases += [
                ("sw", 54, {"case_number": 5, "num_elements_horizontal": 3, "num_solpts": 4}, True),
                ("sw", 24, {"case_number": 2, "num_elements_horizontal": 2, "num_solpts": 5}, True),
                ("euler3d", 54, {"case_number": 21, "num_elements_horizontal": 3, "num_elements_vertical": 3}, True),
                ("euler3d", 24, {"case_number": 77, "num_elements_horizontal": 2, "num_elements_vertical": 1, "num_solpts": 4}, True),
            ]
        for c in cases:
            compare(ck, *c)

    R.concrete("result files of real grids", go, bound="6 and 24 (thorough: 54) processes, 2-4 elements per panel side, order 2-3 (5)")


def local_vorticity(u1, u2, geom, ne, ns, side, place, P):
    """curl of the wind: derivatives of the covariant components along the equiangular coordinates, from the map itself"""
    p, row, col = place
    a = geom.earth_radius
    dx = math.pi / 2 / (ne * side)
    x1, x2 = np.meshgrid(axis(ne, ns, side, col), axis(ne, ns, side, row))
    q, e1, e2 = basis_float(x1, x2)
    e1, e2 = a * e1 * dx / 2, a * e2 * dx / 2
    b1, b2 = blocks2(u1, ne, ns), blocks2(u2, ne, ns)
    v = e1 * b1 + e2 * b2
    c1, c2 = (v * e1).sum(0), (v * e2).sum(0)
    area = np.linalg.norm(np.cross(e1, e2, axis=0), axis=0)
    pts = gauss(ns)
    L = np.polynomial.polynomial
    D = np.zeros((ns, ns))
    for j in range(ns):
        c = np.array([1.0])
        for k in range(ns):
            if k != j:
                c = L.polymul(c, np.array([-pts[k], 1.0]) / (pts[j] - pts[k]))
        D[:, j] = L.polyval(pts, L.polyder(c)) if ns > 1 else 0.0
    n = ne * ns
    d1 = np.einsum("ab,jeb->jea", D, c2.reshape(n, ne, ns)).reshape(n, n)
    d2 = np.einsum("ab,ebi->eai", D, c1.reshape(ne, ns, n)).reshape(n, n)
    z = (d1 - d2) / area
    return z.reshape(ne, ns, ne, ns).swapaxes(1, 2).reshape(ne, ne, ns * ns)


# ---------------------------------------------------------------------------------------------------------- statistics
NUM = r"([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf))"


def number(text, what):
    m = re.search(re.escape(what) + r"\s*=\s*(?:np\.float64\()?" + NUM, text)
    if not m:
        raise HarnessGap(f"no '{what} =' in the printed statistics")
    return float(m.group(1))


def statistics(R, tier):
    def go(ck):
        sizes = [6] if tier != "thorough" else [6, 24]
        for size in sizes:
            for case in (2, 5, 6, 1, 10):
                side, where = places(size)
                # case 10 cannot be created (C19): another start, the same statistics
                over = {"case_number": 2 if case == 10 else case, "num_solpts": 4, "stat_freq": 1, "num_elements_horizontal": 2 * side}
                ck.case(case=case, processes=size)

                def work(rank, comm):
                    s = sims.simulation("sw", over, comm)
                    s.config.case_number = s.output.config.case_number = case
                    rng = np.random.default_rng(rank + 1)
                    Q = s.initial_Q.copy()
                    Q *= 1 + 0.01 * rng.random(Q.shape)
                    Q0 = Q.copy()
                    buf[0].seek(0), buf[0].truncate(0) if rank == 0 else None
                    comm.barrier()
                    s.output.__blockstats__(Q, 3)
                    comm.barrier()
                    return s.initial_Q, Q0, np.array_equal(Q, Q0), s.geometry, s.output.topo, s.config

                buf = [io.StringIO()]
                try:
                    with contextlib.redirect_stdout(buf[0]):
                        per = fakempi.values(size, work)
                except NameError as e:
                    raise HarnessGap(f"case {case}: {e}")
                text = buf[0].getvalue()
                ck.check("statistics leave the state unchanged", all(p[2] for p in per))
                ne, ns = 2, 4
                geom = per[0][3]
                a, om, g = geom.earth_radius, geom.rotation_speed, imp("common.definitions").gravity
                wt = np.polynomial.legendre.leggauss(ns)[1]
                dx = math.pi / 2 / (ne * side)
                W = np.kron(np.ones(ne), wt) * dx / 2

                def integral(fs):
                    tot = 0.0
                    for r, f in enumerate(fs):
                        p, row, col = where[r]
                        x1, x2 = np.meshgrid(axis(ne, ns, side, col), axis(ne, ns, side, row))
                        _, e1, e2 = basis_float(x1, x2)
                        area = np.linalg.norm(np.cross(e1, e2, axis=0), axis=0) * a * a
                        tot += float((blocks2(f, ne, ns) * area * W[:, None] * W[None, :]).sum())
                    return tot

                def total(Qs):
                    out = [[], [], []]
                    for r, Q in enumerate(Qs):
                        P = per[r]
                        h = Q[0]
                        u1, u2 = Q[1] / h, Q[2] / h
                        u, v = P[3].contra2wind(u1, u2)
                        hs = P[4].hsurf if P[4] is not None else 0.0
                        z = local_vorticity(u1, u2, P[3], ne, ns, side, where[r], None)
                        f = 2 * om * np.sin(P[3].lat)
                        out[0].append(h)
                        out[1].append(0.5 * h * (u * u + v * v) + 0.5 * g * ((h + hs) ** 2 - hs * hs))
                        out[2].append((z + f) ** 2 / (2 * h))
                    return [integral(x) for x in out]

                if case >= 2:
                    i0 = total([p[0] for p in per])
                    i1 = total([p[1] for p in per])
                    for k, n in enumerate(("mass", "energy", "enstrophy")):
                        got = number(text, f"normalized error for {n}")
                        want = (i1[k] - i0[k]) / i0[k]
                        ck.check(f"the reported change of {n} is that of its integral over the sphere", abs(got - want) < 1e-6 * max(1.0, abs(want)), (got, want))
                if case in (0, 1, 2, 10):
                    t = 3 * per[0][5].dt
                    ana = [analytic(case, p[3], a, om, g, t) for p in per]
                    h = [p[1][0] for p in per]
                    d = [np.abs(x - y) for x, y in zip(h, ana)]
                    want = {
                        "l1": integral(d) / integral([np.abs(x) for x in ana]),
                        "l2": math.sqrt(integral([x * x for x in d]) / integral([x * x for x in ana])),
                        "linf": max(x.max() for x in d) / max(x.max() for x in ana),
                    }
                    for k, v in want.items():
                        got = number(text, k)
                        ck.check(f"the reported {k} is the distance to the exact solution", abs(got - v) < 1e-6 * max(abs(v), 1e-3), (got, v))

    R.concrete("printed statistics", go, bound="five test cases, disturbed states, order 4, 6 (24) processes")


def analytic(case, geom, a, om, g, t):
    lon, lat = geom.lon, geom.lat
    u0 = 2 * math.pi * a / (12 * 86400.0)
    if case == 2:
        return (29400.0 - (a * om * u0 + 0.5 * u0 * u0) * np.sin(lat) ** 2) / g
    if case == 10:
        return (133681.0 - 10.0 - 0.5 * ((u0 + a * om) * np.sin(lat)) ** 2) / g
    if case == 1:
        c = 1.5 * math.pi + u0 / a * t
        r = np.arccos(np.clip(np.cos(lat) * np.cos(lon - c), -1, 1))
        return np.where(r <= 1 / 3, 500.0 * (1 + np.cos(math.pi * r * 3)), 0.0)
    if case == 0:
        lc, pc = math.pi - 0.8, math.pi / 4.8
        s = np.sin(lat) * math.sin(pc) + np.cos(lat) * math.cos(pc) * np.cos(lon - lc)
        y, x = np.cos(lat) * np.sin(lon - lc), np.cos(lat) * math.sin(pc) * np.cos(lon - lc) - math.cos(pc) * np.sin(lat)
        rho = 3 * np.sqrt(np.maximum(0, 1 - s * s))
        vt = u0 * 1.5 * math.sqrt(3.0) / np.cosh(rho) ** 2 * np.tanh(rho)
        w = np.where(rho > 1e-9, vt / (a * np.maximum(rho, 1e-9)), 0.0)
        return 1 - np.tanh(rho / 5 * np.sin(np.arctan2(y, x) - w * t))
    raise HarnessGap(f"no exact solution for case {case}")


# ------------------------------------------------------------------------------------------------------- planar output
def planar(R):
    def go(ck):
        oc = imp("output.output_cartesian")
        for case in (1, 2, 3):
            ck.case(grid="bubble", case=case)
            shown = []
            with sims.quiet():
                s = sims.simulation("bubble", {"case_number": case, "num_solpts": 3, "output_dir": kernels.scratch()})
            d = imp("common.definitions")
            rng = np.random.default_rng(case)
            Q = s.initial_Q * (1 + 0.01 * rng.random(s.initial_Q.shape))
            Q[d.idx_2d_rho_u] = rng.standard_normal(Q[0].shape)
            Q[d.idx_2d_rho_w] = rng.standard_normal(Q[0].shape)
            Q0 = Q.copy()
            with inject(oc, image_field=lambda geom, f, name, *a, **k: shown.append(np.array(f))):
                s.output.__write_result__(Q, 4)
            th = Q0[d.idx_2d_rho_theta] / Q0[d.idx_2d_rho]
            nv, ne, ns = th.shape[0], th.shape[1], 3
            blk = th.reshape(nv, ne, ns, ns).swapaxes(1, 2).reshape(nv * ns, ne * ns)
            ck.check("the picture shows the potential temperature", len(shown) == 1 and shown[0].shape == blk.shape and np.abs(shown[0] - blk).max() < 1e-9)
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                s.output.__blockstats__(Q, 4)
            ck.check("output leaves the state unchanged", np.array_equal(Q, Q0))
            rows = {}
            for l in buf.getvalue().splitlines():
                m = re.match(r"\s*(\S+)\s+" + r"\s+".join([NUM] * 3), l)
                if m:
                    rows[m.group(1)] = [float(m.group(k)) for k in (2, 3, 4)]
            rho = Q0[d.idx_2d_rho]
            for k, f in (("ρ", rho), ("u", Q0[d.idx_2d_rho_u] / rho), ("w", Q0[d.idx_2d_rho_w] / rho), ("θ", th)):
                if k not in rows:
                    raise HarnessGap(f"no line for {k} in the printed statistics")
                want = (f.min(), f.max(), f.mean())
                ck.check(f"smallest, largest and mean {k} are printed", all(abs(x - y) <= 0.006 * abs(y) + 1e-12 for x, y in zip(rows[k], want)), (rows[k], want))

    R.concrete("planar pictures and statistics", go, bound="3 test cases, order 3, disturbed states")


# ------------------------------------------------------------------------------------------------------------- details
def codes(R):
    def body(c):
        fst = imp("output.output_cubesphere_fst")
        f = need(fst, "_make_ig4")
        n, s = integer("elements"), integer("points")
        c.assume(core.AND(n >= 0, s >= 0))
        try:
            v = f(n, s)
        except ValueError:
            c.prove("only sizes that do not fit are refused", core.OR(n > 0x1FFFF, s > 127, s < 1))
            return
        c.prove("the code is 24 bits", core.AND(v >= 0, v < 1 << 24))
        c.prove("the points are recovered", core.EQ(v % 128, s))
        c.prove("the elements are recovered", core.EQ(v // 128, n))

    R.symbolic("grid size code of FST files", body)

    def conc(ck):
        f = need(imp("output.output_cubesphere_fst"), "_make_ig4")
        for n in (1, 2, 7, 127, 128, 1000, 0x1FFFF, 0x20000, 1 << 20):
            for s in (0, 1, 3, 64, 127, 128, 300):
                ck.case(elements=n, points=s)
                try:
                    v = f(n, s)
                except ValueError:
                    ck.check("only sizes that do not fit are refused", n > 0x1FFFF or s > 127 or s < 1)
                    continue
                ck.check("sizes are recovered from the code", 0 <= v < 1 << 24 and v % 128 == s and v // 128 == n, v)

    R.concrete("grid size codes", conc, bound="63 sizes")

    def times(ck):
        f = need(imp("output.output_manager"), "_readable_time")
        unit = {"ns": 1e-9, "us": 1e-6, "ms": 1e-3, "s": 1.0, "": 1.0}
        for t in [0.0, 1e-8, 3.4e-7, 2.5e-5, 0.0123, 0.999, 1.0, 3.5, 59.9, 99.0, 999.0, 1000.0, 1000.5, 1234.0, 3599.0, 3600.0, 3661.7, 7199.9, 86400.0, 90061.2]:
            ck.case(seconds=t)
            x = f(t)
            m = re.fullmatch(r"(\d+):(\d\d):(\d\d)", x)
            if m:
                v = int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3])
                ck.check("hours, minutes and seconds add up to the time", int(m[2]) < 60 and int(m[3]) < 60 and 0 <= t - v < 1 or abs(t - v) <= 0.5, x)
                continue
            m = re.fullmatch(NUM + r"\s*(ns|us|ms|s|)", x)
            if not m:
                raise HarnessGap(f"time written as {x!r}")
            v = float(m[1]) * unit[m[2]]
            ck.check("the time written is the time given", abs(v - t) <= 0.051 * unit[m[2]] + 0.001 * t, x)

    R.concrete("times as text", times, bound="20 durations from 10 ns to a day")


def solver_rows(R):
    def go(ck):
        import sqlite3

        SS = need(imp("solvers"), "SolverInfo")
        scratch = tempfile.mkdtemp(prefix="stats", dir=kernels.scratch())
        try:
            ck.case(steps=3)
            with sims.quiet():
                s = sims.simulation("bubble", {"store_solver_stats": 1, "output_dir": scratch, "solver_stats_file": "x.db"})
                put = []
                for k in range(3):
                    its = [(10.0 ** -j / (k + 1), 0.1 * j, float(j)) for j in range(k + 2)]
                    info = SS(k % 2, 0.25 * (k + 1), 5 + k, its)
                    s.output.store_solver_stats(1.5 + k, 2.0 * k, 0.5 + k, info, None, None)
                    put.append((0.5 + k, 2.0 * k, 1.5 + k, 5 + k, 0.25 * (k + 1), k % 2, its))
            dbs = [p for p in glob.glob(os.path.join(scratch, "**"), recursive=True) if os.path.isfile(p) and open(p, "rb").read(6) == b"SQLite"]
            if len(dbs) != 1:
                raise HarnessGap(f"solver statistics database not found: {os.listdir(scratch)}")
            db = sqlite3.connect(dbs[0])
            try:
                rows = db.execute("select run_id, step_id, dt, simulation_time, total_solve_time, num_solver_it, solver_time, solver_flag from results_param order by entry_id").fetchall()
                data = db.execute("select run_id, step_id, iteration, residual, time, work from results_data").fetchall()
            finally:
                db.close()
            ck.check("one row per step", len(rows) == 3, rows)
            ck.check("all rows belong to one run", len({r[0] for r in rows}) == 1, rows)
            ck.check("steps are numbered in order", [r[1] for r in rows] == [0, 1, 2], rows)
            for r, p in zip(rows, put):
                ck.check("each row holds the figures of its step", tuple(map(float, r[2:])) == tuple(map(float, p[:6])), (r, p[:6]))
            want = sorted((rows[0][0], k, i) + tuple(float(v) for v in it) for k, p in enumerate(put) for i, it in enumerate(p[6]))
            ck.check("every iteration of every step is stored", sorted(tuple(map(float, d)) for d in data) == [tuple(map(float, x)) for x in want], data)
            ck.case(steps=1, note="a second run into the same database, whose table was written by a version without one of the columns")
            db = sqlite3.connect(dbs[0])
            try:
                with db:
                    db.execute("alter table results_param drop column num_solver_it")
            except sqlite3.OperationalError as e:
                raise HarnessGap(f"sqlite without drop column: {e}")
            finally:
                db.close()
            with sims.quiet():
                t = sims.simulation("bubble", {"store_solver_stats": 1, "output_dir": scratch, "solver_stats_file": "x.db"})
                t.output.store_solver_stats(7.5, 8.0, 0.75, SS(0, 0.125, 9, [(0.5, 0.25, 3.0)]), None, None)
            db = sqlite3.connect(dbs[0])
            try:
                new = db.execute("select run_id, step_id, dt, simulation_time, total_solve_time, num_solver_it, solver_time, solver_flag from results_param order by entry_id").fetchall()
                data2 = db.execute("select run_id, step_id, iteration, residual, time, work from results_data").fetchall()
            finally:
                db.close()
            ck.check("a second run adds its own row", len(new) == 4 and new[-1][0] not in {r[0] for r in new[:-1]} and new[-1][1] == 0, new)
            ck.check("a second run leaves the rows of the first", [r[:5] + r[6:] for r in new[:3]] == [r[:5] + r[6:] for r in rows], (new, rows))
            ck.check("the row of a second run holds its figures", tuple(map(float, new[-1][2:])) == (0.75, 8.0, 7.5, 9.0, 0.125, 0.0), new[-1])
            ck.check("the iterations of a second run are stored under it", sorted(set(data2) - set(data)) == [(new[-1][0], 0, 0, 0.5, 0.25, 3.0)] and set(data) <= set(data2), data2)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    R.concrete("solver statistics", go, bound="three steps of a planar run, then one step of a second run into the same database")


class Opaque:
    """A value nothing is known about; only its identity counts."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        raise HarnessGap(f"decision on {self.name}")


class Ledger:
    """A database that understands the few statements a log needs, and keeps rows of opaque values."""

    def __init__(self, tables=()):
        self.tables, self.rows, self.out, self.ids, self.commits = dict(tables), {}, [], 40, 0

    def cursor(self):
        return self

    def connect(self, *a, **k):
        return self

    def commit(self):
        self.commits += 1

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def fetchall(self):
        out, self.out = self.out, []
        return out

    def fetchone(self):
        out, self.out = self.out, []
        return out[0] if out else None

    def executemany(self, sql, many):
        for x in many:
            self.execute(sql, x)

    def execute(self, sql, args=()):
        t = " ".join(str(sql).split()).rstrip("; ")
        args = list(args)
        if m := re.match(r"select name from sqlite_master where (?:type ?= ?'table' and )?name ?= ?(\?|'\w+')$", t, re.I):
            n = args[0] if m[1] == "?" else m[1].strip("'")
            self.out = [(n,)] if n in self.tables else []
        elif m := re.match(r"create table (?:if not exists )?(\w+) ?\((.*)\)$", t, re.I):
            cols = re.sub(r"\([^()]*\)", "", m[2])
            self.tables.setdefault(m[1], [c.split()[0] for c in cols.split(",")])
        elif m := re.match(r"pragma table_info ?\((\w+)\)$", t, re.I):
            self.out = [(i, c, "", 0, None, 0) for i, c in enumerate(self.tables[m[1]])]
        elif m := re.match(r"alter table (\w+) add column (\w+)", t, re.I):
            self.tables[m[1]].append(m[2])
        elif m := re.match(r"insert into (\w+) ?(\([^)]*\))? ?values ?\(([?, ]*)\)(?: returning (?:\w+\.)?(\w+))?$", t, re.I):
            cols = [c.strip() for c in m[2].strip("()").split(",")] if m[2] else self.tables[m[1]]
            if m[3].count("?") != len(args) or len(cols) != len(args) or not set(cols) <= set(self.tables[m[1]]):
                raise ValueError(f"{len(args)} values for {len(cols)} columns")
            row = dict(zip(cols, args))
            self.ids += 17
            row.setdefault("entry_id", self.ids)
            self.rows.setdefault(m[1], []).append(row)
            self.out = [(row[m[4]],)] if m[4] else []
        elif m := re.match(r"update (\w+) set (\w+) ?= ?\? where (\w+) ?= ?\?$", t, re.I):
            for r in self.rows.get(m[1], []):
                if r.get(m[3]) == args[1]:
                    r[m[2]] = args[0]
        else:
            raise HarnessGap(f"statement {t[:60]!r}")
        return self

    lastrowid = property(lambda self: self.ids)


CONFIG_COLUMNS = dict(
    dg_order="num_solpts", num_elem_h="num_elements_horizontal_total", num_elem_v="num_elements_vertical", equations="equations",
    case_number="case_number", time_integrator="time_integrator", solver_tol="tolerance", gmres_restart="gmres_restart", initial_dt="dt",
)


def solver_log(R, steps, old=False, sphere=False):
    """Every figure of every step, whatever its value, lands in its own column of its own step's row."""
    name = f"solver statistics, {steps} steps" + (", older table" if old else "") + (", sphere" if sphere else "")

    def go():
        SI = need(imp("solvers"), "SolverInfo")
        cls = need(imp("output.solver_stats"), "SolverStatsOutput")
        mgr = need(imp("output.output_manager"), "OutputManager")
        names = (
            "num_solpts num_elements_horizontal_total num_elements_vertical dt equations case_number time_integrator tolerance gmres_restart "
            "dg_to_fv_interp precond_tolerance mg_smoother kiops_dt_factor num_mg_levels mg_solve_coarsest num_pre_smoothe num_post_smoothe "
            "pseudo_cfl x0 x1 z0 z1 ztop num_elements_horizontal"
        ).split()
        cfg = types.SimpleNamespace(**{n: Opaque(n) for n in names})
        cfg.preconditioner, cfg.output_dir, cfg.solver_stats_file, cfg.store_solver_stats = "none", "/nowhere", "log.db", 1
        cfg.exp_smoothe_spectral_radii, cfg.exp_smoothe_num_iters = [], []
        cfg.grid_type = "cubed_sphere" if sphere else "cartesian2d"
        tables = {}
        if old:
            tables = {"results_param": ["entry_id", "run_id", "step_id", "dt"], "results_data": ["run_id", "step_id", "iteration", "residual", "time", "work"]}
            tables["rhs_timing"] = "run_id step_id iteration extrapolation start_comm pointwise_flux flux_div_1 end_comm riemann flux_div_2 forcing total".split()
        db = Ledger(tables)
        sq = types.SimpleNamespace(connect=db.connect, OperationalError=type("OperationalError", (Exception,), {}))
        put = []

        def one(rank, comm):
            log = cls(cfg, types.SimpleNamespace(comm=comm))
            out = shell(mgr, config=cfg, solver_stats_output=log, comm=comm)
            for k in range(steps):
                v = {n: Opaque(f"{n} of step {k}") for n in ("total", "sim", "dt", "it", "time", "flag")}
                res = [tuple(Opaque(f"{n}{i} of step {k}") for n in ("residual", "time", "work")) for i in range((1, 0, 3)[k % 3])]
                rt = None if k % 2 else [[Opaque(f"timing {j} of call {i}") for j in range(9)] for i in range(2)]
                info = SI(v["flag"], v["time"], v["it"], list(res))
                out.store_solver_stats(v["total"], v["sim"], v["dt"], info, None, rt)
                if rank == 0:
                    put.append((v, res, rt))

        with inject("output.solver_stats", sqlite3=sq, sqlite_available=True, print=lambda *a, **k: None):
            fakempi.values(2, one, 60)
        rows = db.rows.get("results_param", [])
        R.direct(name, "one row per step", len(rows) == steps)
        run = rows[0]["run_id"]
        R.direct(name, "the run has the number of its first row", run == rows[0]["entry_id"] and all(r["run_id"] == run for r in rows))
        for k, (r, (v, res, rt)) in enumerate(zip(rows, put)):
            R.direct(name, f"step {k} is numbered", r["step_id"] == k)
            for c, n in (("dt", "dt"), ("simulation_time", "sim"), ("total_solve_time", "total"), ("num_solver_it", "it"), ("solver_time", "time"), ("solver_flag", "flag")):
                R.direct(name, f"step {k}: {c}", r[c] is v[n], detail={"stored": repr(r[c]), "given": repr(v[n])})
            for c, n in CONFIG_COLUMNS.items():
                R.direct(name, f"step {k}: {c}", r[c] is getattr(cfg, n), detail={"stored": repr(r[c])})
            R.direct(name, f"step {k}: number of processes", r["num_procs"] == 2)
            for c in ("x0", "x1", "z0", "z1", "ztop"):
                own = (c == "ztop") == sphere
                R.direct(name, f"step {k}: extent {c}", r[c] is getattr(cfg, c) if own else r[c] == 0)
            got = [d for d in db.rows.get("results_data", []) if d["step_id"] == k]
            R.direct(name, f"step {k}: all iterations", len(got) == len(res))
            for i, (d, it) in enumerate(zip(got, res)):
                R.direct(name, f"step {k}: iteration {i}", d["run_id"] == run and d["iteration"] == i and (d["residual"], d["time"], d["work"]) == it)
            got = [d for d in db.rows.get("rhs_timing", []) if d["step_id"] == k]
            R.direct(name, f"step {k}: all timings", len(got) == len(rt or []))
            cols = "extrapolation start_comm pointwise_flux flux_div_1 end_comm riemann flux_div_2 forcing total".split()
            for i, (d, t) in enumerate(zip(got, rt or [])):
                R.direct(name, f"step {k}: timing {i}", d["run_id"] == run and d["iteration"] == i and [d[c] for c in cols] == t)
        R.direct(name, "every step is committed", db.commits >= steps)

    alg.unit(R, name, go)


def reports(R):
    """What a step hands to the log: its own time, length, solver figures and evaluations, whatever the steps before it did."""
    it = imp("integrators.integrator")
    SI = need(imp("solvers"), "SolverInfo")
    cfg = sims.config("bubble")

    def body(pattern):
        def go(c):
            t = t0 = core.real("t")
            got, infos = [], []

            class Out:
                def store_solver_stats(self, *a, **k):
                    got.append((a, k))

            class I(need(it, "Integrator")):
                def __step__(self, Q, h):
                    k = len(infos)
                    infos.append(SI(Opaque(f"flag {k}"), Opaque(f"time {k}"), Opaque(f"count {k}"), [Opaque(f"it {k}")]) if pattern[k] else None)
                    if infos[-1] is not None:
                        self.solver_info = infos[-1]
                    return Q

            with inject(it, print=lambda *a, **k: None):
                o = I(cfg, device=device(), output_manager=Out())
                o.sim_time = t0
                for k in range(len(pattern)):
                    h = core.real(f"h{k}")
                    n = len(got)
                    o.step("Q", h)
                    c.prove(f"step {k}: one report", SBool(len(got) == n + 1))
                    if len(got) != n + 1:
                        return
                    a, kw = got[-1]
                    a = list(a) + [kw.get(x) for x in ("total_time", "simulation_time", "dt", "solver_info", "precond", "rhs_times")[len(a):]]
                    if len(a) < 6 or any(x not in ("total_time", "simulation_time", "dt", "solver_info", "precond", "rhs_times") for x in kw):
                        raise HarnessGap("the report has another form")
                    c.prove(f"step {k}: reported at its own time", core.EQ(a[1], t))
                    c.prove(f"step {k}: reported with its own length", core.EQ(a[2], h))
                    if infos[k] is not None:
                        w = infos[k]
                        c.prove(f"step {k}: the solver figures of this step", SBool(all(getattr(a[3], x) is getattr(w, x) for x in ("flag", "time", "total_num_it", "iterations"))))
                    else:
                        e = a[3]
                        c.prove(f"step {k}: no solver figures of another step", SBool(not any(isinstance(x, Opaque) for x in (e.flag, e.time, e.total_num_it)) and len(e.iterations) == 0))
                    t = t + h

        return go

    for pattern in ((1, 1, 0), (1, 0, 1), (0, 1, 0), (0, 0, 0)):
        R.symbolic(f"report of a step: solver figures in steps {pattern}", body(pattern))


def solver_runs(R):
    """Two runs share a database; the timings of a step are those of its own evaluations."""

    def go(ck):
        import sqlite3

        scratch = tempfile.mkdtemp(prefix="stats", dir=kernels.scratch())
        try:
            over = {"store_solver_stats": 1, "output_dir": scratch, "solver_stats_file": "x.db", "dt": 0.1, "t_end": 0.4}
            ck.case(runs=2, steps=[3, 2], order="one step each in turn", integrators=["tvdrk3", "euler1"])
            with sims.quiet():
                ss = [sims.simulation("bubble", dict(over, time_integrator=t)) for t in ("tvdrk3", "euler1")]
                start = float(ss[0].t)
                for j, k in ((0, 0), (1, 0), (0, 1), (1, 1), (0, 2)):
                    ss[j].step()
            db = sqlite3.connect(os.path.join(scratch, "x.db"))
            try:
                rows = db.execute("select run_id, step_id, time_integrator, dt, simulation_time from results_param order by entry_id").fetchall()
                times = db.execute("select run_id, step_id, iteration, total, extrapolation from rhs_timing").fetchall()
            finally:
                db.close()
            ids = [{r[0] for r in rows if r[2] == t} for t in ("tvdrk3", "euler1")]
            ck.check("each run has its own number", all(len(i) == 1 for i in ids) and ids[0] != ids[1], rows)
            ck.check("steps are numbered per run", [r[1] for r in rows] == [0, 0, 1, 1, 2], rows)
            ck.check("each step is stored with its own time", all(abs(r[4] - start - 0.1 * r[1]) < 1e-12 for r in rows), rows)
            for t, i, n, steps in (("tvdrk3", ids[0], 3, 3), ("euler1", ids[1], 1, 2)):
                for k in range(steps):
                    got = [x for x in times if {x[0]} == i and x[1] == k]
                    ck.check(f"{t}: the timings of a step are those of its own {n} evaluations", len(got) == n, f"step {k}: {len(got)} rows")
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    R.concrete("solver statistics of two runs", go, bound="two planar runs of three and two steps")


def run(R):
    R.under_contract(
        "output.diagnostic.relative_vorticity/potential_vorticity/absolute_vorticity/total_energy/potential_enstrophy/global_integral_2d",
        "output.output_cubesphere_netcdf.OutputCubesphereNetcdf.__write_result__",
        "output.output_cubesphere_netcdf.OutputCubesphereNetcdf._output_init/store_field (bounded)",
        "output.output_cubesphere.OutputCubesphere.__blockstats__ (bounded)",
        "output.output_cartesian.OutputCartesian.__write_result__/__blockstats__ (bounded)",
        "output.output_cubesphere_fst._make_ig4",
        "output.output_manager._readable_time (bounded)",
        "output.solver_stats.SolverStatsOutput.__init__/create_results_table/write_output",
        "output.output_manager.OutputManager.store_solver_stats",
        "integrators.Integrator.step (report of a step)",
    )
    R.assume("the contracts of contra2wind (C15), to_single_block (C16), gather_cube (C04), the operators (C17) and the metric (C15)")
    R.trust("netCDF4, sqlite3, matplotlib and the file system")
    for ne, ns, topo in ((1, 2, False), (2, 2, True), (1, 3, True)):
        diagnostics(R, ne, ns, topo)
    for topo, case in ((False, 6), (True, 5), (False, 1)):
        sw_results(R, 1, 2, topo, case)
    for case, nvar in ((31, 5), (11, 9), (12, 6)):
        euler_results(R, case, nvar)
    codes(R)
    solver_log(R, 3)
    solver_log(R, 2, sphere=True)
    solver_log(R, 1, old=True)
    reports(R)
    kernels.use_build()
    run_files(R, "thorough" if R.thorough else "quick")
    statistics(R, "thorough" if R.thorough else "quick")
    planar(R)
    solver_rows(R)
    solver_runs(R)
