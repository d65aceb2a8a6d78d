"""C13: right-hand sides are the flux-form equations of the model; neighbouring elements share one flux."""

import os
import types

import numpy as np

from .. import alg
from ..alg import XPA, LinOp, array, atom, equal
from ..core import HarnessGap, Unsupported
from ..fn import everywhere
from ..load import imp, need, Gap, device, inject


def arr(x):
    return np.asarray(x, dtype=object)


class Req:
    def __init__(self, value, shape):
        self.value, self.shape = value, shape

    def wait(self):
        return self.value


def pos3(name, shape, pos):
    """(var,)+shape atoms where the listed variables are positive"""
    n = shape[0]
    return np.stack([array(f"{name}{v}", shape[1:], pos=v in pos) for v in range(n)])


def flip_map(shape, boundary_shape, flip_dim):
    """Where each sent value goes when the neighbour counts its points the other way (the exchange's contract, C02)."""
    base = imp("process_topology").get_base_shape(tuple(shape), tuple(boundary_shape))
    n = int(np.prod(shape))
    return np.flip(np.arange(n).reshape(base), axis=flip_dim).reshape(shape)


def positions(shape, b):
    """The coordinate that the exchange uses at each sent value (contract C03)."""
    b = np.asarray(b, dtype=object)
    base = imp("process_topology").get_base_shape(tuple(shape), b.shape)
    return np.broadcast_to(b, base).reshape(shape)


# ===================================================================================================== shallow water
class SW:
    """One tile of shallow-water elements with arbitrary metric, operators and topography."""

    def __init__(self, ne, ns, topo):
        self.ne, self.ns = ne, ns
        self.consts()
        sh, si, sj = (ne, ne, ns * ns), (ne, ne + 2, 2 * ns), (ne + 2, ne, 2 * ns)
        self.sh = sh
        self.Q = pos3("q", (3,) + sh, {self.ih})
        m = {}
        m["sqrtG"] = array("sqrtG", sh, pos=True)
        m["inv_sqrtG"] = 1 / m["sqrtG"]
        for n, s in (("", sh), ("_itf_i", si), ("_itf_j", sj)):
            m["H_contra_11" + n] = array("H11" + n, s, pos=True)
            m["H_contra_22" + n] = array("H22" + n, s, pos=True)
            m["H_contra_12" + n] = m["H_contra_21" + n] = array("H12" + n, s)
        m["sqrtG_itf_i"], m["sqrtG_itf_j"] = array("sqrtGi", si, pos=True), array("sqrtGj", sj, pos=True)
        for a in "12":
            for b in ("01", "02", "11", "12", "22"):
                m[f"christoffel_{a}_{b}"] = array(f"c{a}{b}", sh)
        m["christoffel_1_22"] = m["christoffel_2_11"] = alg.XPA.zeros(sh)
        for a in "12":
            m[f"christoffel_{a}_10"], m[f"christoffel_{a}_20"] = m[f"christoffel_{a}_01"], m[f"christoffel_{a}_02"]
            m[f"christoffel_{a}_21"] = m[f"christoffel_{a}_12"]
        m["h_contra"] = np.stack([np.stack([m["H_contra_11"], m["H_contra_12"]]), np.stack([m["H_contra_21"], m["H_contra_22"]])])
        self.metric = Gap("metric", **m)
        self.m = m
        self.ops = Gap(
            "operators",
            extrap_x=LinOp("Ex", ns * ns, 2 * ns, pos=True),
            extrap_y=LinOp("Ey", ns * ns, 2 * ns, pos=True),
            derivative_x=LinOp("Dx", ns * ns, ns * ns),
            derivative_y=LinOp("Dy", ns * ns, ns * ns),
            correction_WE=LinOp("Cx", 2 * ns, ns * ns),
            correction_SN=LinOp("Cy", 2 * ns, ns * ns),
        )
        self.topo = None
        if topo:
            t = {"hsurf": array("hs", sh, pos=True, lo=0.01, hi=0.05), "dzdx1": array("dz1", sh), "dzdx2": array("dz2", sh)}
            for n, s in (("hsurf_itf_i", si), ("hsurf_itf_j", sj)):
                t[n] = array(n, s, pos=True, lo=0.01, hi=0.05)
                for k in np.ndindex(*s):
                    t[n][k].cut = f"{n}{k}"
            self.t = t
            self.topo = Gap("topo", **t)
        self.geom = Gap(
            "geom",
            device=device(xp=XPA),
            itf_i_shape=si,
            itf_j_shape=sj,
            boundary_sn=array("bsn", (ne * ns,)),
            boundary_we=array("bwe", (ne * ns,)),
            num_solpts=ns,
        )
        self.sent = {}
        self.recv = {}
        side = (ne, ns)
        for s in "snwe":
            self.recv["h" + s] = array("rh" + s, side, pos=True)
            self.recv["u" + s] = (array("ru1" + s, side), array("ru2" + s, side))
        self.ptopo = Gap("ptopo", start_exchange_scalars=self.scalars, start_exchange_vectors=self.vectors)

    def consts(self):
        d = imp("common.definitions")
        self.g = need(d, "gravity")
        self.ih, self.i1, self.i2 = need(d, "idx_h", "idx_hu1", "idx_hu2")

    def scalars(self, south, north, west, east, boundary_shape=None, flip_dim=-1):
        self.sent["h"] = [np.array(x, dtype=object) for x in (south, north, west, east)]
        self.flips = [flip_map(south.shape, boundary_shape, flip_dim)]
        return Req(tuple(self.recv["h" + s].copy() for s in "snwe"), (self.ne, self.ns))

    def vectors(self, south, north, west, east, boundary_sn, boundary_we, flip_dim=-1, covariant=False):
        if covariant:
            raise HarnessGap("covariant exchange of a momentum")
        self.sent["u"] = [[np.array(c, dtype=object) for c in x] for x in (south, north, west, east)]
        self.vflip = flip_map(south[0].shape, np.shape(boundary_sn), flip_dim)
        self.bnd = [positions(south[0].shape, b) for b in (boundary_sn, boundary_we)]
        return Req(tuple(tuple(c.copy() for c in self.recv["u" + s]) for s in "snwe"), (self.ne, self.ns))

    # ------------------------------------------------------------------------------------------------------- oracle
    def oracle(self):
        """-(1/sqrtG) d_j(sqrtG F^j) - forcing with AUSM faces, written from the shallow-water equations."""
        g, ne, ns, m = self.g, self.ne, self.ns, self.m
        h, hu = self.Q[self.ih], (self.Q[self.i1], self.Q[self.i2])
        H = ((m["H_contra_11"], m["H_contra_12"]), (m["H_contra_21"], m["H_contra_22"]))
        var = {0: self.ih, 1: self.i1, 2: self.i2}
        u = (hu[0] / h, hu[1] / h)
        # physical fluxes in direction j: mass, momentum i
        F = []
        for j in (0, 1):
            f = np.empty((3,) + self.sh, dtype=object)
            f[var[0]] = m["sqrtG"] * hu[j]
            for i in (0, 1):
                f[var[1 + i]] = m["sqrtG"] * (hu[i] * u[j] + 0.5 * g * H[i][j] * h * h)
            F.append(f)
        top = self.Q.copy()
        if self.topo is not None:
            top[self.ih] = top[self.ih] + self.t["hsurf"]
        ext = (top @ self.ops.extrap_x, top @ self.ops.extrap_y)
        self.ext = ext
        faces = []
        for j in (0, 1):
            E = ext[j]  # (3, ne, ne, 2ns): first ns values at the low face, last ns at the high face
            n_itf = ne + 1
            sfx = "_itf_i" if j == 0 else "_itf_j"
            flux = np.empty((3, ne, ne, 2 * ns), dtype=object)
            for line in range(ne):
                for f in range(n_itf):  # face between element f-1 and f
                    for k in range(ns):
                        lo, hi = f, f + 1  # positions in the padded metric arrays
                        col_l, col_r = ns + k, k
                        ml = (line, lo, col_l) if j == 0 else (lo, line, col_l)
                        mr = (line, hi, col_r) if j == 0 else (hi, line, col_r)
                        qs = []
                        for e, col, s in ((f - 1, col_l, "ws"[j]), (f, col_r, "en"[j])):
                            if 0 <= e < ne:
                                idx = (line, e, col) if j == 0 else (e, line, col)
                                q = [E[(v,) + idx] for v in range(3)]
                            else:
                                q = [None] * 3
                                q[self.ih] = self.recv["h" + s][line, k]
                                q[self.i1] = self.recv["u" + s][0][line, k]
                                q[self.i2] = self.recv["u" + s][1][line, k]
                            qs.append(q)
                        if self.topo is not None:
                            qs[0][self.ih] = qs[0][self.ih] - self.t["hsurf" + sfx][ml]
                            qs[1][self.ih] = qs[1][self.ih] - self.t["hsurf" + sfx][mr]
                        fl = self.ausm(j, qs, ml, mr, sfx)
                        for v in range(3):
                            if f > 0:
                                flux[(v, line, f - 1, col_l) if j == 0 else (v, f - 1, line, col_l)] = fl[v]
                            if f < ne:
                                flux[(v, line, f, col_r) if j == 0 else (v, f, line, col_r)] = fl[v]
            faces.append(flux)
        div = (
            F[0] @ self.ops.derivative_x
            + faces[0] @ self.ops.correction_WE
            + F[1] @ self.ops.derivative_y
            + faces[1] @ self.ops.correction_SN
        )
        rhs = -div / m["sqrtG"]
        for i in (1, 2):
            s = 2.0 * (m[f"christoffel_{i}_01"] * hu[0] + m[f"christoffel_{i}_02"] * hu[1])
            for a in (1, 2):
                for b in (1, 2):
                    c = m[f"christoffel_{i}_{min(a, b)}{max(a, b)}"]
                    s = s + c * hu[a - 1] * u[b - 1]
            if self.topo is not None:
                s = s + g * h * (H[i - 1][0] * self.t["dzdx1"] + H[i - 1][1] * self.t["dzdx2"])
            rhs[var[i]] = rhs[var[i]] - s
        self.faces, self.F = faces, F
        return rhs

    def ausm(self, j, qs, ml, mr, sfx):
        g, m = self.g, self.m
        ih, inn = self.ih, (self.i1, self.i2)
        Hjj = m["H_contra_11" + sfx] if j == 0 else m["H_contra_22" + sfx]
        Hij = [m["H_contra_11" + sfx], m["H_contra_21" + sfx]] if j == 0 else [m["H_contra_12" + sfx], m["H_contra_22" + sfx]]
        sq = m["sqrtG" + sfx]
        (l, r) = qs
        al, ar = (g * l[ih] * Hjj[ml]).sqrt(), (g * r[ih] * Hjj[mr]).sqrt()
        ul, ur = l[inn[j]] / l[ih], r[inn[j]] / r[ih]
        Ml, Mr = ul / al, ur / ar
        M = 0.25 * ((Ml + 1) * (Ml + 1) - (Mr - 1) * (Mr - 1))
        mx, mn = alg.nmax(alg.ZERO, M), alg.nmin(alg.ZERO, M)
        out = [sq[ml] * (mx * al * l[v] + mn * ar * r[v]) for v in range(3)]
        for i in (0, 1):
            pl = sq[ml] * 0.5 * g * Hij[i][ml] * l[ih] * l[ih]
            pr = sq[mr] * 0.5 * g * Hij[i][mr] * r[ih] * r[ih]
            out[inn[i]] = out[inn[i]] + 0.5 * ((1 + Ml) * pl + (1 - Mr) * pr)
        return out


def sw_unit(R, ne, ns, topo):
    name = f"shallow water {ne}x{ne} elements, order {ns}" + (", topography" if topo else "")

    def go():
        mod = imp("rhs.rhs_sw")
        w = SW(ne, ns, topo)
        rhs = need(mod, "RhsShallowWater")(w.Q.shape, w.geom, w.ops, w.metric, w.topo, w.ptopo, ns, ne)
        q0 = w.Q.copy()
        out = rhs(w.Q.reshape(-1)) if ne == 1 else rhs(w.Q)
        want = w.oracle()
        equal(R, name, "rhs", arr(out).reshape(want.shape), want)
        equal(R, name, "state unchanged", w.Q, q0)
        ex, ey = w.ext
        ih = w.ih
        for lab, got, ref in zip(
            "snwe", w.sent["h"], (ey[ih, 0, :, :ns], ey[ih, -1, :, ns:], ex[ih, :, 0, :ns], ex[ih, :, -1, ns:])
        ):
            equal(R, name, f"depth sent {lab}", got.reshape(ref.shape), ref)
        for lab, got, sl in zip(
            "snwe",
            w.sent["u"],
            (np.s_[0, :, :ns], np.s_[-1, :, ns:], np.s_[:, 0, :ns], np.s_[:, -1, ns:]),
        ):
            E = ey if lab in "sn" else ex
            for c, v in zip(got, (w.i1, w.i2)):
                equal(R, name, f"momentum sent {lab}", c.reshape(E[v][sl].shape), E[v][sl])
        n = ne * ns
        for lab, f in (("depth", w.flips[0]), ("momentum", w.vflip)):
            R.direct(name, f"{lab}: reversed edges are reversed point by point", list(f.ravel()) == list(range(n))[::-1])
        for lab, b, ref in zip(("south/north", "west/east"), w.bnd, (w.geom.boundary_sn, w.geom.boundary_we)):
            equal(R, name, f"coordinate along {lab} edges", b.reshape(n), ref)

    alg.unit(R, name, go)


def sw_consistency(R):
    """When both sides of a face hold the same state and metric, the AUSM flux is the physical flux: lemma on the oracle
    formula that the proof above ties to the code."""
    name = "AUSM flux of equal states"

    def go():
        w = SW(1, 1, False)
        q = [None] * 3
        q[w.ih], q[w.i1], q[w.i2] = atom("h", True), atom("hu", False), atom("hv", False)
        for j, sfx in ((0, "_itf_i"), (1, "_itf_j")):
            ml = (0, 0, 1)
            fl = w.ausm(j, (q, q), ml, ml, sfx)
            g, m = w.g, w.m
            u = (q[w.i1] / q[w.ih], q[w.i2] / q[w.ih])
            H = ((m["H_contra_11" + sfx], m["H_contra_12" + sfx]), (m["H_contra_21" + sfx], m["H_contra_22" + sfx]))
            want = [None] * 3
            want[w.ih] = m["sqrtG" + sfx][ml] * q[(w.i1, w.i2)[j]]
            for i, v in enumerate((w.i1, w.i2)):
                want[v] = m["sqrtG" + sfx][ml] * (q[v] * u[j] + 0.5 * g * H[i][j][ml] * q[w.ih] * q[w.ih])
            equal(R, name, f"direction {j + 1}", arr(fl), arr(want))

    alg.unit(R, name, go)


# =================================================================================================== Euler, cubed sphere
class Euler3:
    def __init__(self, ne, nv, ns, case, nvar=5):
        self.ne, self.nv, self.ns, self.case = ne, nv, ns, case
        self.consts()
        n2 = ns * ns
        self.n2, self.n3 = n2, ns**3
        self.sh = (nv, ne, ne, ns**3)
        self.si, self.sj, self.sk = (nv, ne, ne + 2, 2 * n2), (nv, ne + 2, ne, 2 * n2), (nv + 2, ne, ne, 2 * n2)
        m = {"sqrtG_new": array("sqrtG", self.sh, pos=True), "inv_dzdeta_new": array("idz", self.sh, pos=True)}
        m["inv_sqrtG_new"] = 1 / m["sqrtG_new"]
        for sfx, s in (("", self.sh), ("_itf_i", self.si), ("_itf_j", self.sj), ("_itf_k", self.sk)):
            h = np.empty((3, 3) + s, dtype=object)
            for a in range(3):
                for b in range(a, 3):
                    h[a, b] = h[b, a] = array(f"H{a}{b}{sfx}", s, pos=a == b)
            m[f"h_contra{sfx}_new"] = h
            if sfx:
                m[f"sqrtG{sfx}_new"] = array("sqrtG" + sfx, s, pos=True)
        # faces of the ground and the top: one metric per face
        for k in np.ndindex(ne, ne, n2):
            for lo in (0, nv):
                a, b = (lo,) + k[:2] + (n2 + k[2],), (lo + 1,) + k[:2] + (k[2],)
                m["sqrtG_itf_k_new"][b] = m["sqrtG_itf_k_new"][a]
                for i in range(3):
                    for j in range(3):
                        m["h_contra_itf_k_new"][(i, j) + b] = m["h_contra_itf_k_new"][(i, j) + a]
        m["christoffel"] = array("c", (3, 9) + self.sh)
        self.m = m
        self.metric = Gap("metric", **m)
        n3 = ns**3
        self.ops = Gap(
            "operators",
            **{f"extrap_{a}": LinOp(f"E{a}", n3, 2 * n2, pos=True) for a in "xyz"},
            **{f"derivative_{a}": LinOp(f"D{a}", n3, n3) for a in "xyz"},
            **{f"correction_{a}": LinOp(f"C{a}", 2 * n2, n3) for a in ("WE", "SN", "DU")},
            highfilter_k=LinOp("F", n3, n3),
        )
        dev = device(xp=XPA)
        self.geom = Gap(
            "geom", device=dev, itf_size=n2, itf_i_shape=self.si, itf_j_shape=self.sj, itf_k_shape=self.sk,
            halo_side_shape=(ne, ns, ns), num_solpts=ns,
            boundary_sn=array("bsn", (ne * ns,)), boundary_we=array("bwe", (ne * ns,)),
        )
        for b in ("boundary_sn", "boundary_we"):  # as laid out by CubedSphere3D: (element, vertical point, point along the edge)
            x = getattr(self.geom, b).reshape(ne, 1, ns)
            self.geom.__dict__[b + "_new"] = np.broadcast_to(x, (ne, ns, ns)).copy()
        self.cfg = Gap(
            "config", num_elements_horizontal=ne, num_elements_vertical=nv, num_solpts=ns, case_number=case,
        )
        self.cfg.__dict__["discretization"] = "dfr"
        self.ptopo = Gap("ptopo", start_exchange_scalars=self.scalars, start_exchange_vectors=self.vectors)
        self.fresh()

    def fresh(self, tag=""):
        self.Q = pos3("q" + tag, (5,) + self.sh, {self.ir, self.it})
        self.recv, self.sent, self.flips = {}, [], []
        side = (self.nv, self.ne, self.n2)
        for s in "snwe":
            self.recv[s] = pos3("r" + s + tag, (5,) + side, {self.ir, self.it})

    def consts(self):
        d = imp("common.definitions")
        self.g, self.p0, self.Rd, self.cpd, self.cvd = need(d, "gravity", "p0", "Rd", "cpd", "cvd")
        self.ir, self.i1, self.i2, self.iw, self.it = need(d, "idx_rho", "idx_rho_u1", "idx_rho_u2", "idx_rho_w", "idx_rho_theta")

    def _which(self, north):
        """which variable is it?  By identity of the extrapolated values."""
        for v in range(5):
            a, b = (alg.parts(x)[0].ravel()[0] for x in (north, self.qi[1][v][..., -1, :, self.n2 :]))
            if alg.decide(a, b)[0] == "proved":
                return v
        raise HarnessGap("cannot tell which field is exchanged")

    def scalars(self, south, north, west, east, boundary_shape=None, flip_dim=-1):
        v = self._which(north)
        self.sent.append(([v], [[np.array(x, dtype=object)] for x in (south, north, west, east)]))
        self.flips.append(flip_map(south.shape, boundary_shape, flip_dim))
        return Req(tuple(self.recv[s][v].copy() for s in "snwe"), self.recv["s"].shape[1:])

    def vectors(self, south, north, west, east, boundary_sn, boundary_we, flip_dim=-1, covariant=False):
        if covariant or len(south) != 3:
            raise HarnessGap("exchange of another kind")
        vs = [self._which(x) for x in north]
        self.sent.append((vs, [[np.array(c, dtype=object) for c in x] for x in (south, north, west, east)]))
        self.flips.append(flip_map(south[0].shape, np.shape(boundary_sn), flip_dim))
        self.bnd = [positions(south[0].shape, b) for b in (boundary_sn, boundary_we)]
        return Req(tuple(tuple(self.recv[s][v].copy() for v in vs) for s in "snwe"), self.recv["s"].shape[1:])

    # ------------------------------------------------------------------------------------------------------- oracle
    def pressure(self, rt):
        gam = self.cpd / self.cvd
        return self.p0 * (rt * (self.Rd / self.p0)) ** gam

    def extrapolate(self):
        self.qi = []
        for a in "xyz":
            E = getattr(self.ops, "extrap_" + a)
            q = self.Q @ E
            for v in (self.ir, self.it):
                q[v] = XPA.exp(XPA.log(self.Q[v]) @ E)
            self.qi.append(q)

    def state(self, j, e, line, col, side):
        """The five values (and normal velocity) on one side of a face of direction j."""
        n = (self.ne, self.ne, self.nv)[j]
        inn = (self.i1, self.i2, self.iw)[j]
        idx = {0: lambda e: (line[0], line[1], e), 1: lambda e: (line[0], e, line[1]), 2: lambda e: (e, line[0], line[1])}[j]
        if 0 <= e < n:
            q = [self.qi[j][(v,) + idx(e) + (col,)] for v in range(5)]
            return q, q[inn] / q[self.ir]
        if j < 2:
            s = ("we", "sn")[j][0 if e < 0 else 1]
            q = [self.recv[s][(v,) + tuple(line) + (col % self.n2,)] for v in range(5)]
            return q, q[inn] / q[self.ir]
        # ground / top: mirror of the inner state, normal velocity reversed
        inner = 0 if e < 0 else n - 1
        c = col - self.n2 if e < 0 else col + self.n2
        q = [self.qi[2][(v,) + idx(inner) + (c,)] for v in range(5)]
        return q, -(q[inn] / q[self.ir])

    def oracle(self):
        m, ns, n2, ne, nv = self.m, self.ns, self.n2, self.ne, self.nv
        rho, rt = self.Q[self.ir], self.Q[self.it]
        mom = (self.i1, self.i2, self.iw)
        u = [self.Q[i] / rho for i in mom]
        p = self.pressure(rt)
        sq, H = m["sqrtG_new"], m["h_contra_new"]
        adv_only = self.case < 13
        gam = self.cpd / self.cvd
        logp = XPA.log(p)
        total, wtot = None, None
        D = [self.ops.derivative_x, self.ops.derivative_y, self.ops.derivative_z]
        C = [self.ops.correction_WE, self.ops.correction_SN, self.ops.correction_DU]
        self.faceflux = []
        for j in range(3):
            F = np.empty((5,) + self.sh, dtype=object)
            for v in range(5):
                F[v] = sq * u[j] * self.Q[v]
            wadv = F[self.iw].copy()
            for i in range(3):
                F[mom[i]] = F[mom[i]] + sq * H[i, j] * p
            shp = (nv, ne, ne, 2 * n2)
            face = np.empty((5,) + shp, dtype=object)
            fadv, fpres, flogp = (np.empty(shp, dtype=object) for _ in range(3))
            sfx = ("_itf_i_new", "_itf_j_new", "_itf_k_new")[j]
            sg, hh = m["sqrtG" + sfx], m["h_contra" + sfx]
            n = (ne, ne, nv)[j]
            for line in np.ndindex(*((nv, ne), (nv, ne), (ne, ne))[j]):
                at = {0: lambda e: (line[0], line[1], e), 1: lambda e: (line[0], e, line[1]), 2: lambda e: (e, line[0], line[1])}[j]
                for f in range(n + 1):
                    for k in range(n2):
                        cl, cr = n2 + k, k
                        ml, mr = at(f) + (cl,), at(f + 1) + (cr,)
                        ql, ul = self.state(j, f - 1, line, cl, 0)
                        qr, ur = self.state(j, f, line, cr, 1)
                        pl, pr = self.pressure(ql[self.it]), self.pressure(qr[self.it])
                        el, er = abs(ul), abs(ur)
                        if not adv_only:
                            el = el + (hh[j, j][ml] * gam * pl / ql[self.ir]).sqrt()
                            er = er + (hh[j, j][mr] * gam * pr / qr[self.ir]).sqrt()
                        eig = alg.nmax(el, er)
                        fl = [sg[ml] * ul * ql[v] for v in range(5)]
                        fr = [sg[mr] * ur * qr[v] for v in range(5)]
                        wa = 0.5 * (fl[self.iw] + fr[self.iw] - eig * sg[ml] * (qr[self.iw] - ql[self.iw]))
                        for i in range(3):
                            fl[mom[i]] = fl[mom[i]] + sg[ml] * hh[i, j][ml] * pl
                            fr[mom[i]] = fr[mom[i]] + sg[mr] * hh[i, j][mr] * pr
                        out = [0.5 * (fl[v] + fr[v] - eig * sg[ml] * (qr[v] - ql[v])) for v in range(5)]
                        wp = 0.5 * (sg[ml] * hh[2, j][ml] * pl + sg[mr] * hh[2, j][mr] * pr)
                        for e, c, pp in ((f - 1, cl, pl), (f, cr, pr)):
                            if 0 <= e < n:
                                for v in range(5):
                                    face[(v,) + at(e) + (c,)] = out[v]
                                fadv[at(e) + (c,)] = wa
                                fpres[at(e) + (c,)] = wp / pp
                                flogp[at(e) + (c,)] = XPA.log(pp)
                        if f in (0, n) and j == 2:
                            self.faceflux.append((out, pl, pr, sg[ml], hh[2, 2][ml]))
            div = F @ D[j] + face @ C[j]
            w = (
                wadv @ D[j] + fadv @ C[j]
                + p * ((sq * H[2, j]) @ D[j] + fpres @ C[j])
                + p * (sq * H[2, j]) * (logp @ D[j] + flogp @ C[j])
            )
            total = div if total is None else total + div
            wtot = w if wtot is None else wtot + w
        rhs = -total / sq
        rhs[self.iw] = -wtot / sq
        c = m["christoffel"]
        pairs = {(1, 1): 3, (1, 2): 4, (1, 3): 5, (2, 2): 6, (2, 3): 7, (3, 3): 8}
        for i in range(3):
            s = 2.0 * rho * (c[i, 0] * u[0] + c[i, 1] * u[1] + c[i, 2] * u[2])
            for a in (1, 2, 3):
                for b in (1, 2, 3):
                    k = pairs[(min(a, b), max(a, b))]
                    s = s + c[i, k] * (rho * u[a - 1] * u[b - 1] + H[a - 1, b - 1] * p)
            if i == 2:
                s = s + m["inv_dzdeta_new"] * self.g * ((sq * rho) @ self.ops.highfilter_k) / sq
            if self.case in (21, 22):
                s = s + self.damping(rho, u)[i]
            rhs[mom[i]] = rhs[mom[i]] - s
        if adv_only:
            rhs = XPA.zeros(rhs.shape)
        return rhs

    def damping(self, rho, u, shear=None):
        """Sponge layer of the mountain waves; what it is, is under contract in C19.  Here: some function of state and place."""
        shear = self.case == 22 if shear is None else shear
        if not hasattr(self, "_sponge"):
            self._sponge = {s: [array(f"sponge{x} {s}", self.sh) for x in range(4)] for s in (False, True)}
        w, *ref = self._sponge[shear]
        return [w * rho * (u[i] - ref[i]) for i in range(3)]

    def sponge(self, forcing, rho, u1, u2, u3, metric, geom, shear, new_layout):
        if metric is not self.metric or geom is not self.geom or not new_layout:
            raise HarnessGap("sponge layer of another grid")
        for i, d in zip((self.i1, self.i2, self.iw), self.damping(rho, (u1, u2, u3), bool(shear))):
            forcing[i] = forcing[i] + d


def euler3_unit(R, ne, nv, ns, case, twice=False):
    name = f"Euler on the sphere {ne}x{ne}x{nv} elements, order {ns}, case {case}" + (", second call" if twice else "")

    def go():
        w = Euler3(ne, nv, ns, case)
        pde = need(imp("pde.pde_euler_cubesphere"), "PDEEulerCubesphere")(w.geom, w.cfg, w.metric)
        cls = need(imp("rhs.rhs_dfr"), "RHSDirecFluxReconstruction_mpi")
        rhs = cls(pde, w.geom, w.ops, w.metric, None, w.ptopo, w.cfg, w.Q.shape)
        rounds = 2 if twice else 1
        keep = []
        for r in range(rounds):
            if r:
                w.fresh("'")
            q0 = w.Q.copy()
            w.extrapolate()
            with everywhere([(need(imp("init.dcmip"), "dcmip_schar_damping"), w.sponge)]):
                out = rhs(w.Q)
            want = w.oracle()
            keep.append((out, want))
            equal(R, name, "state unchanged", w.Q, q0)
        equal(R, name, "rhs", arr(out).reshape(want.shape), want)
        if twice:
            equal(R, name, "first result untouched", keep[0][0], keep[0][1])
            return
        sent = {}
        for vs, sides in w.sent:
            for lab, x in zip("snwe", sides):
                for v, a in zip(vs, x):
                    sent[(lab, v)] = a
        n2 = w.n2
        sl = {"s": np.s_[:, 0, :, :n2], "n": np.s_[:, -1, :, n2:], "w": np.s_[:, :, 0, :n2], "e": np.s_[:, :, -1, n2:]}
        R.direct(name, "all fields exchanged", len(sent) == 20)
        for (lab, v), a in sent.items():
            ref = w.qi[1 if lab in "sn" else 0][v][sl[lab]]
            equal(R, name, f"field {v} sent {lab}", a.reshape(ref.shape), ref)
        idx = np.arange(nv * ne * n2).reshape(nv, ne, ns, ns)[:, ::-1, :, ::-1]
        for f in w.flips:
            R.direct(name, "reversed edges are reversed point by point at every height", bool(np.all(f.ravel() == idx.ravel())))
        for lab, b, ref in zip(("south/north", "west/east"), w.bnd, (w.geom.boundary_sn, w.geom.boundary_we)):
            want_b = np.broadcast_to(ref.reshape(1, ne, 1, ns), (nv, ne, ns, ns))
            equal(R, name, f"coordinate along {lab} edges", b.reshape(want_b.shape), want_b)
        for out_, pl, pr, sg, h33 in w.faceflux:
            equal(R, name, "no mass through ground or top", out_[w.ir], alg.ZERO)
            equal(R, name, "no heat through ground or top", out_[w.it], alg.ZERO)
            equal(R, name, "pressure on ground or top", out_[w.iw], sg * h33 * pl)

    alg.unit(R, name, go, budget_s=300)


# ============================================================================================== Euler, Cartesian plane
class Euler2:
    def __init__(self, nx, nz, ns):
        self.nx, self.nz, self.ns = nx, nz, ns
        self.consts()
        self.sh = (nz, nx, ns * ns)
        n2 = ns * ns
        self.ops = types.SimpleNamespace(
            extrap_x=LinOp("Ex", n2, 2 * ns, pos=True),
            extrap_z=LinOp("Ez", n2, 2 * ns, pos=True),
            derivative_x=LinOp("Dx", n2, n2),
            derivative_z=LinOp("Dz", n2, n2),
            correction_WE=LinOp("Cx", 2 * ns, n2),
            correction_DU=LinOp("Cz", 2 * ns, n2),
        )
        self.dx, self.dz = atom("dx", True), atom("dz", True)
        from .. import cxxsym

        self.geom = Gap("geom", device=device(xp=XPA, pde=cxxsym.PDE()), **{"Δx1": self.dx, "Δx3": self.dz, "Δx2": self.dx})
        self.cfg = Gap("config", num_elements_horizontal=nx, num_elements_vertical=nz, num_solpts=ns)
        self.fresh()

    def consts(self):
        d = imp("common.definitions")
        self.g, self.p0, self.Rd, self.cpd, self.cvd = need(d, "gravity", "p0", "Rd", "cpd", "cvd")
        self.ir, self.iu, self.iw, self.it = need(d, "idx_2d_rho", "idx_2d_rho_u", "idx_2d_rho_w", "idx_2d_rho_theta")

    def fresh(self, tag=""):
        self.Q = pos3("q" + tag, (4,) + self.sh, {self.ir, self.it})

    def pressure(self, rt):
        return self.p0 * (rt * (self.Rd / self.p0)) ** (self.cpd / self.cvd)

    def oracle(self):
        ns, nx, nz, Q = self.ns, self.nx, self.nz, self.Q
        gam = self.cpd / self.cvd
        u = (Q[self.iu] / Q[self.ir], Q[self.iw] / Q[self.ir])
        p = self.pressure(Q[self.it])
        mom = (self.iu, self.iw)
        rhs = None
        for j in (0, 1):
            F = np.empty((4,) + self.sh, dtype=object)
            for v in range(4):
                F[v] = Q[v] * u[j]
            F[mom[j]] = F[mom[j]] + p
            E = Q @ (self.ops.extrap_x, self.ops.extrap_z)[j]
            face = np.empty((4, nz, nx, 2 * ns), dtype=object)
            n = (nx, nz)[j]
            for line in range((nz, nx)[j]):
                at = (lambda e: (line, e)) if j == 0 else (lambda e: (e, line))
                for f in range(n + 1):
                    for k in range(ns):
                        cl, cr = ns + k, k
                        if f in (0, n):  # wall: nothing but pressure
                            q = E[(slice(None),) + (at(0) + (cr,) if f == 0 else at(n - 1) + (cl,))]
                            fl = [alg.ZERO] * 4
                            fl[mom[j]] = self.pressure(q[self.it])
                        else:
                            l, r = E[(slice(None),) + at(f - 1) + (cl,)], E[(slice(None),) + at(f) + (cr,)]
                            fl = self.ausm(l, r, mom[j], gam)
                        for v in range(4):
                            if f > 0:
                                face[(v,) + at(f - 1) + (cl,)] = fl[v]
                            if f < n:
                                face[(v,) + at(f) + (cr,)] = fl[v]
            d = F @ (self.ops.derivative_x, self.ops.derivative_z)[j] + face @ (self.ops.correction_WE, self.ops.correction_DU)[j]
            d = d * (-2 / (self.dx, self.dz)[j])
            rhs = d if rhs is None else rhs + d
        rhs[self.iw] = rhs[self.iw] - Q[self.ir] * self.g
        return rhs

    def ausm(self, l, r, inn, gam):
        pl, pr = self.pressure(l[self.it]), self.pressure(r[self.it])
        al, ar = (gam * pl / l[self.ir]).sqrt(), (gam * pr / r[self.ir]).sqrt()
        Ml, Mr = l[inn] / l[self.ir] / al, r[inn] / r[self.ir] / ar
        M = 0.25 * ((Ml + 1) * (Ml + 1) - (Mr - 1) * (Mr - 1))
        mx, mn = alg.nmax(alg.ZERO, M), alg.nmin(alg.ZERO, M)
        out = [l[v] * mx * al + r[v] * mn * ar for v in range(4)]
        out[inn] = out[inn] + 0.5 * ((1 + Ml) * pl + (1 - Mr) * pr)
        return out


def euler2_unit(R, nx, nz, ns, twice=False):
    name = f"Euler on the plane {nx}x{nz} elements, order {ns}" + (", second call" if twice else "")

    def go():
        w = Euler2(nx, nz, ns)
        pde = need(imp("pde.pde_euler_cartesian"), "PDEEulerCartesian")(w.geom, w.cfg, None)
        cls = need(imp("rhs.rhs_dfr"), "RHSDirecFluxReconstruction")
        rhs = cls(pde, w.geom, w.ops, None, None, None, w.cfg, w.Q.shape)
        keep = []
        for r in range(2 if twice else 1):
            if r:
                w.fresh("'")
            q0 = w.Q.copy()
            out = rhs(w.Q)
            keep.append((out, w.oracle()))
            equal(R, name, "state unchanged", w.Q, q0)
        equal(R, name, "rhs", arr(out).reshape(keep[-1][1].shape), keep[-1][1])
        if twice:
            equal(R, name, "first result untouched", keep[0][0], keep[0][1])

    alg.unit(R, name, go)


def forcing_kernel(R):
    """The compiled 3D forcing kernel computes the Christoffel forcing of the equations."""
    name = "compiled Coriolis and metric forcing"

    def go():
        from .. import cxxsym

        sh = (1, 2, 1, 2)
        w = Euler3.__new__(Euler3)
        w.consts()
        q = pos3("q", (5,) + sh, {w.ir, w.it})
        p, g, c = array("p", sh, pos=True), array("g", sh, pos=True), array("c", (3, 9) + sh)
        h = np.empty((3, 3) + sh, dtype=object)
        for a in range(3):
            for b in range(a, 3):
                h[a, b] = h[b, a] = array(f"h{a}{b}", sh)
        f = array("f", (5,) + sh)
        f0, q0 = f.copy(), q.copy()
        cxxsym.PDE().forcing_euler_cubesphere_3d(q, p, g, h, c, f, 1, 2, 1, 2, 0)
        u = [q0[i] / q0[w.ir] for i in (w.i1, w.i2, w.iw)]
        k = {(0, 0): 3, (0, 1): 4, (0, 2): 5, (1, 1): 6, (1, 2): 7, (2, 2): 8}
        for i, v in enumerate((w.i1, w.i2, w.iw)):
            want = 2 * q0[w.ir] * sum(c[i, a] * u[a] for a in range(3))
            for a in range(3):
                for b in range(3):
                    want = want + c[i, k[min(a, b), max(a, b)]] * (q0[w.ir] * u[a] * u[b] + h[a, b] * p)
            equal(R, name, f"component {i + 1}", f[v], want)
        for v in (w.ir, w.it):
            equal(R, name, "nothing else written", f[v], f0[v])
        equal(R, name, "state unchanged", q, q0)

    alg.unit(R, name, go)


# ====================================================================== the same oracles on numbers, against real runs
def nodes(x):
    x = np.asarray(x, dtype=float)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = alg.const(float(x[i]))
    return out


def numbers(x):
    return np.array([float(v.val[0]) for v in np.asarray(x, dtype=object).ravel()]).reshape(np.shape(x))


class NumOp:
    """A real matrix in place of the abstract one."""

    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, m):
        self.m = np.asarray(m, dtype=float)

    def __rmatmul__(self, x):
        x = np.asarray(x, dtype=object)
        v = numbers(x)
        return nodes(v @ self.m)


def worst(got, want):
    scale = np.abs(want).max(axis=tuple(range(1, want.ndim)), keepdims=True) + 1e-30
    d = np.abs(got - want) / scale
    i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape)
    return float(d[i]), i, float(got[i]), float(want[i])


def taps(topo, rec):
    """Records what the real exchanges sent and delivered."""
    real_s, real_v = topo.start_exchange_scalars, topo.start_exchange_vectors

    def wrap(real, kind):
        def call(*a, **k):
            req = real(*a, **k)
            wait = req.wait

            def waited():
                out = wait()
                rec.append((kind, out))
                return out

            req.wait = waited
            return req

        return call

    topo.start_exchange_scalars, topo.start_exchange_vectors = wrap(real_s, "s"), wrap(real_v, "v")


def plane_runs(R):
    from .. import sims

    def go(ck):
        alg.reset(1)
        for nx, nz, ns in ((3, 2, 3), (2, 4, 4)):
            over = {"num_elements_horizontal": nx, "num_elements_vertical": nz, "num_solpts": ns}
            with sims.quiet():
                sim = sims.simulation("bubble", over)
            rng = np.random.default_rng(3)
            w = Euler2.__new__(Euler2)
            w.__dict__.update(nx=nx, nz=nz, ns=ns)
            w.consts()
            q = np.array(sim.initial_Q, dtype=float)
            q[w.ir] *= rng.uniform(0.9, 1.1, q[w.ir].shape)
            q[w.it] *= rng.uniform(0.9, 1.1, q[w.it].shape)
            q[w.iu] = rng.uniform(-80, 80, q[w.iu].shape)
            q[w.iw] = rng.uniform(-80, 80, q[w.iw].shape)
            ck.case(elements=[nx, nz], order=ns, state="random, seed 3")
            got = sim.rhs.full(q)
            kept = got.copy()
            sim.rhs.full(q * 1.01)
            ck.check("a result is not overwritten by the next call", np.array_equal(kept, got))
            w.sh, w.Q = q.shape[1:], nodes(q)
            names = ("extrap_x", "extrap_z", "derivative_x", "derivative_z", "correction_WE", "correction_DU")
            w.ops = types.SimpleNamespace(**{n: NumOp(getattr(sim.operators, n)) for n in names})
            g = sim.geometry
            w.dx, w.dz = float((g.x1_range[1] - g.x1_range[0]) / nx) if hasattr(g, "x1_range") else g.Δx1, g.Δx3
            want = numbers(w.oracle())
            e, i, a, b = worst(got, want)
            ck.check("rhs of a real run", e < 1e-9, f"entry {i}: {a} instead of {b}")
            # uniform flow over a flat pressure field: nothing happens away from the walls
            q[w.ir], q[w.iu], q[w.iw], q[w.it] = 1.1, 1.1 * 30, -1.1 * 20, 1.1 * 300
            ck.case(elements=[nx, nz], order=ns, state="uniform wind 30, -20")
            r = sim.rhs.full(q)
            mid = r[:, 1:-1, 1:-1]
            if mid.size:
                mid = mid.copy()
                mid[w.iw] += q[w.ir][1:-1, 1:-1] * w.g
                ck.check("uniform flow stays uniform", np.abs(mid).max() < 1e-8, str(np.abs(mid).max()))

    R.concrete("real runs on the plane", go, bound="2 grids, one random state each")


def sphere_runs(R):
    from .. import fakempi, sims
    from . import c19

    def sw(ck):
        alg.reset(1)
        for size_, ne, ns, case in ((6, 2, 3, 6), (24, 2, 2, 5)):
            over = {"num_elements_horizontal": ne * (1 if size_ == 6 else 2), "num_solpts": ns, "case_number": case}

            def rank_run(rank, comm):
                sim = sims.simulation("sw", over, comm=comm)
                rng = np.random.default_rng(100 + rank)
                q = np.array(sim.initial_Q, dtype=float)
                q[0] *= rng.uniform(0.9, 1.1, q[0].shape)
                q[1:] += rng.uniform(-0.3, 0.3, q[1:].shape) * np.abs(q[1:]).max()
                rec = []
                taps(sim.process_topo, rec)
                r = sim.rhs.full(q)
                kept = r.copy()
                sim.rhs.full(q * 1.01)
                if not np.array_equal(kept, r):
                    rec.append(("overwritten", None))
                return sim, q, r, rec

            ck.case(elements=ne, order=ns, case=case, state="random, seed 100 + rank", processes=size_)
            with sims.quiet():
                res = fakempi.values(size_, rank_run)
            total, size = 0.0, 0.0
            for rank, (sim, q, r, rec) in enumerate(res):
                total, size = mass(sim.metric.sqrtG, sim.geometry, r[0], total, size, 2)
            ck.check("mass is conserved over the sphere", abs(total) <= 1e-11 * size, f"{total} of {size}")
            for rank in (0, 4, 13) if not R.thorough else range(size_):
                if rank >= size_:
                    continue
                sim, q, r, rec = res[rank]
                ck.check("a result is not overwritten by the next call", ("overwritten", None) not in rec)
                rec = [x for x in rec[:2]]
                if sorted(k for k, _ in rec) != ["s", "v"]:
                    raise HarnessGap("other exchanges than one of depth and one of momentum")
                w = SW.__new__(SW)
                w.ne, w.ns, w.sh = ne, ns, q.shape[1:]
                w.consts()
                w.Q = nodes(q)
                M = sim.metric
                w.m = {k: nodes(v) for k, v in vars(M).items() if isinstance(v, np.ndarray) and v.dtype.kind == "f"}
                for a in "12":
                    for b in ("01", "02", "11", "12", "22"):
                        w.m.setdefault(f"christoffel_{a}_{b}", nodes(np.zeros(w.sh)))
                w.ops = types.SimpleNamespace(
                    **{n: NumOp(getattr(sim.operators, n)) for n in ("extrap_x", "extrap_y", "derivative_x", "derivative_y", "correction_WE", "correction_SN")}
                )
                w.topo = None
                if sim.topography is not None:
                    w.topo, T = True, sim.topography
                    w.t = {n: nodes(getattr(T, n)) for n in ("hsurf", "dzdx1", "dzdx2", "hsurf_itf_i", "hsurf_itf_j")}
                w.recv = {}
                for kind, out in rec:
                    for s, x in zip("snwe", out):
                        if kind == "s":
                            w.recv["h" + s] = nodes(np.reshape(x, (ne, ns)))
                        else:
                            w.recv["u" + s] = tuple(nodes(np.reshape(c, (ne, ns))) for c in x)
                want = numbers(w.oracle())
                e, i, a, b = worst(r, want)
                ck.check("rhs of a real run", e < 1e-9, f"process {rank}, entry {i}: {a} instead of {b}")

    def steady(ck):
        errs = []
        for ns in (3, 5):
            ck.case(case=2, order=ns, elements=3, processes=6)
            with sims.quiet():
                res = fakempi.values(
                    6,
                    lambda rank, comm: (lambda s: (s.initial_Q, s.rhs.full(s.initial_Q)))(
                        sims.simulation("sw", {"case_number": 2, "num_elements_horizontal": 3, "num_solpts": ns}, comm=comm)
                    ),
                )
            e = [max(np.abs(r[v]).max() for _, r in res) / max(np.abs(q[v]).max() for q, _ in res) for v in range(3)]
            errs.append(e)
        # tendencies of a balanced flow vanish with the order (per second; an unbalanced one is ~1e-4)
        ck.check("balanced zonal flow is steady", all(b < 0.1 * a and b < 3e-7 for a, b in zip(*errs)), f"orders 3 and 5: {errs}")

    def e3(ck):
        alg.reset(1)
        for size_, ne, nv, case in ((6, 2, 2, 31), (24, 2, 2, 21), (6, 1, 3, 22)):
            e3_case(ck, size_, ne, nv, 2, case)

    def sponge(sim, shear, rho, u):
        """Rayleigh damping of DCMIP 2-1 and 2-2 above 20 km, on the grid of a run"""
        geom = sim.geometry
        lat, z = np.asarray(geom.polar[1]), np.asarray(geom.polar[2])
        c = c19.constants()
        ref = geom.wind2contra(c19.schar(shear, lat, z, c, np)[1], 0.0 * z, 0.0 * z, sim.metric)
        wt = np.where(z > 20000.0, np.sin(np.pi / 2 * (z - 20000.0) / (geom.ztop - 20000.0)) ** 2 / 25.0, 0.0)
        return [nodes(wt) * rho * (u[i] - nodes(np.asarray(ref[i]))) for i in range(3)]

    def e3_case(ck, size_, ne, nv, ns, case):
        # cases 21 and 22 have a mountain, and a sponge layer above 20 km
        over = {"num_elements_horizontal": ne * (1 if size_ == 6 else 2), "num_elements_vertical": nv, "num_solpts": ns, "case_number": case}
        if case in (21, 22):
            over["ztop"] = 30000.0

        def rank_run(rank, comm):
            sim = sims.simulation("euler3d", over, comm=comm)
            rng = np.random.default_rng(200 + rank)
            q = np.array(sim.initial_Q, dtype=float)
            q[0] *= rng.uniform(0.95, 1.05, q[0].shape)
            q[4] *= rng.uniform(0.95, 1.05, q[4].shape)
            q[1:3] += rng.uniform(-1, 1, q[1:3].shape) * 1e-5
            q[3] += rng.uniform(-1, 1, q[3].shape) * 1e-3
            rec = []
            taps(sim.process_topo, rec)
            r = sim.rhs.full(q)
            del rec[3:]
            kept = r.copy()
            sim.rhs.full(q * 1.01)
            del rec[3:]
            if not np.array_equal(kept, r):
                rec.append(("overwritten", None))
            return sim, q, r, rec

        ck.case(elements=[ne, nv], order=ns, case=case, state="random, seed 200 + rank", processes=size_)
        with sims.quiet():
            res = fakempi.values(size_, rank_run)
        for v, lab in ((0, "mass"), (4, "potential temperature")):
            total, size = 0.0, 0.0
            for sim, q, r, rec in res:
                total, size = mass(sim.metric.sqrtG_new, sim.geometry, r[v], total, size, 3)
            ck.check(f"{lab} is conserved over the sphere", abs(total) <= 1e-10 * size, f"{total} of {size}")
        for rank in ((1, 5) if size_ == 6 else (2, 17)) if not R.thorough else range(6):
            sim, q, r, rec = res[rank]
            ck.check("a result is not overwritten by the next call", ("overwritten", None) not in rec)
            w = Euler3.__new__(Euler3)
            w.__dict__.update(ne=ne, nv=nv, ns=ns, case=case, n2=ns * ns, n3=ns**3, sh=q.shape[1:])
            w.consts()
            w.Q = nodes(q)
            M = sim.metric
            w.m = {
                k: nodes(getattr(M, k))
                for k in ("sqrtG_new", "inv_dzdeta_new", "h_contra_new", "christoffel")
                + tuple(f"{b}_itf_{d}_new" for b in ("sqrtG", "h_contra") for d in "ijk")
            }
            w.ops = types.SimpleNamespace(
                **{
                    n: NumOp(getattr(sim.operators, n))
                    for n in [f"{o}_{a}" for o in ("extrap", "derivative") for a in "xyz"] + ["correction_WE", "correction_SN", "correction_DU", "highfilter_k"]
                }
            )
            w.extrapolate()
            qs = [out for k, out in rec if k == "s"]
            vs = [out for k, out in rec if k == "v"]
            if len(qs) != 2 or len(vs) != 1:
                raise HarnessGap("other exchanges")
            w.recv = {}
            side = (nv, ne, ns * ns)
            small, large = sorted(qs, key=lambda o: float(np.mean(np.abs(o[0]))))  # density and rho*theta
            for n, s in enumerate("snwe"):
                x = np.empty((5,) + side, dtype=object)
                x[w.ir], x[w.it] = nodes(np.reshape(small[n], side)), nodes(np.reshape(large[n], side))
                for v, c in zip((w.i1, w.i2, w.iw), vs[0][n]):
                    x[v] = nodes(np.reshape(c, side))
                w.recv[s] = x
            w.damping = lambda rho, u, sim=sim: sponge(sim, case == 22, rho, u)
            want = numbers(w.oracle())
            e, i, a, b = worst(r, want)
            ck.check("rhs of a real run", e < 1e-8, f"process {rank}, entry {i}: {a} instead of {b}")

    R.concrete("real shallow-water runs on 6 processes", sw, bound="2 grids, one random state each")
    R.concrete("balanced zonal flow", steady, bound="orders 3 and 5 on 3x3 elements per panel")
    R.concrete("real Euler runs on 6 processes", e3, bound="6 and 24 processes, cases 21, 22 and 31, order 2, one random state each")


def mass(sqrtG, geom, r, total, size, dim):
    w1 = np.polynomial.legendre.leggauss(geom.num_solpts)[1]
    w = w1
    for _ in range(dim - 1):
        w = np.multiply.outer(w, w1)
    x = np.asarray(sqrtG) * np.asarray(r) * w.reshape(-1)
    return total + x.sum(), size + np.abs(x).sum()


def run(R):
    R.under_contract(
        "rhs.rhs_sw.RhsShallowWater.__call__",
        "rhs.rhs_sw.RhsShallowWater.__compute_rhs__",
        "rhs.rhs.RHS.__call__",
        "rhs.rhs.RHS.allocate_arrays",
        "rhs.rhs_dfr.RHSDirecFluxReconstruction",
        "rhs.rhs_dfr.RHSDirecFluxReconstruction_mpi",
        "pde.pde_euler_cubesphere.PDEEulerCubesphere",
        "pde.pde_euler_cubesphere.compute_forcings",
        "pde.pde_euler_cartesian.PDEEulerCartesian",
        "pde.fluxes.rusanov_3d_hori_i_new",
        "pde.fluxes.rusanov_3d_hori_j_new",
        "pde.fluxes.rusanov_3d_vert_new",
        "pde/interface.cpp: pointwise_eulercartesian_2d, riemann_eulercartesian_ausm_2d, boundary kernels, forcing_euler_cubesphere_3d",
    )
    R.assume("arithmetic on fields is exact (real numbers); constants are the doubles in the code, compared to a relative 1e-8")
    R.assume("extrapolated densities, temperatures and depths are positive (the state is physical)")
    R.assume("the discretisation matrices are arbitrary linear operators; only element counts and orders are unrolled")
    R.assume("metric terms, Christoffel symbols and operators are arbitrary arrays (their own contracts are C15 and C17)")
    for ne, ns, topo in ((1, 2, False), (2, 2, True)) + (((3, 2, False), (2, 3, True)) if R.thorough else ()):
        sw_unit(R, ne, ns, topo)
    sw_consistency(R)
    euler3_unit(R, 1, 1, 1, 31)
    euler3_unit(R, 2, 2, 2, 31)
    euler3_unit(R, 1, 2, 1, 11)
    euler3_unit(R, 1, 2, 1, 20, twice=True)
    euler3_unit(R, 1, 1, 1, 21)
    euler3_unit(R, 1, 1, 1, 22)
    euler2_unit(R, 2, 3, 2)
    euler2_unit(R, 3, 2, 1, twice=True)
    forcing_kernel(R)
    plane_runs(R)
    sphere_runs(R)
