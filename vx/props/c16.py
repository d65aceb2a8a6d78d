"""C16: moving a field between the layouts of a grid keeps every value at its own point.

Proved for every number of elements, every order and every leading dimension, by running the real functions on arrays of
symbolic size (vx/layout.py); the same contracts are evaluated on the real grid objects for small sizes."""

import types

import numpy as np
import z3

from .. import layout as L
from ..core import HarnessGap, Unsupported, SBool
from ..load import device, imp, need

N, V, S = L.Sz.atom("elements"), L.Sz.atom("levels"), L.Sz.atom("points")
W, X = L.Sz.atom("vars"), L.Sz.atom("more")
LEADS = [("", []), (" (one leading axis)", [W]), (" (two leading axes)", [W, X])]


def stub(cls, **sizes):
    obj = object.__new__(cls)
    env = dict(sizes)
    dev = types.SimpleNamespace(xp=L.LXP())
    env["device"] = dev
    obj.device = dev
    L.constructor_slice(cls, obj, env)
    obj.__dict__["device"] = dev
    return obj


# Axes are lists of factors.  Every contract below: (function, input axes, output axes, spec) where spec maps the digits
# of an output index to ("src", digits of the input) or ("zero",), guarded: a list of (condition, what) tried in order.
def contracts2(N, V, S):
    blk, el = [[N, S], [N, S]], [N, N, [S, S]]
    ei = [[N], [N + 2], [2, S]]
    ej = [[N + 2], [N], [2, S]]
    bi, bj = [[N + 1], [N, S]], [[N + 1], [N, S]]
    return [
        ("_to_new", blk, el, lambda e2, e1, j, i: [(True, (e2, j, e1, i))], 1),
        ("to_single_block", el, blk, lambda e2, j, e1, i: [(True, (e2, e1, j, i))], 2),
        ("_to_new_itf_i", bi, ei, lambda e2, e1, s, p: itf(e1, s, N, lambda b: (b, e2, p)), 2),
        ("_to_new_itf_j", bj, ej, lambda e2, e1, s, p: itf(e2, s, N, lambda b: (b, e1, p)), 2),
        ("middle_itf_i", ei, [[N], [N], [2, S]], lambda e2, e1, s, p: [(True, (e2, e1 + 1, s, p))], 2),
        ("middle_itf_j", ej, [[N], [N], [2, S]], lambda e2, e1, s, p: [(True, (e2 + 1, e1, s, p))], 2),
    ]


def itf(e, s, n, src):
    """Side s (0 low, 1 high) of element e of n + 2 (halo included): boundary e - 1 + s, nothing beyond the halo."""
    if isinstance(e, int):
        out = (e == 0 and s == 0) or (e == n + 1 and s == 1)
    else:
        out = z3.Or(z3.And(e == 0, s == 0), z3.And(e == L.zz(n) + 1, s == 1))
    return [(out, None), (True, src(e - 1 + s))]


def contracts3(N, V, S):
    blk, el = [[V, S], [N, S], [N, S]], [V, N, N, [S, S, S]]
    ei, ej, ek = [V, N, N + 2, [2, S, S]], [V, N + 2, N, [2, S, S]], [V + 2, N, N, [2, S, S]]
    bi, bj, bk = [[V, S], [N, S], N + 1], [[V, S], N + 1, [N, S]], [V + 1, [N, S], [N, S]]
    fl = [N, N, [S, S]]
    fi, fj = [N, N + 2, [2, S]], [N + 2, N, [2, S]]
    return [
        ("_to_new", blk, el, lambda e3, e2, e1, k, j, i: [(True, (e3, k, e2, j, e1, i))], 2),
        ("to_single_block", el, blk, lambda e3, k, e2, j, e1, i: [(True, (e3, e2, e1, k, j, i))], 2),
        ("_to_new_itf_i", bi, ei, lambda e3, e2, e1, s, k, j: itf(e1, s, N, lambda b: (e3, k, e2, j, b)), 2),
        ("_to_new_itf_j", bj, ej, lambda e3, e2, e1, s, k, i: itf(e2, s, N, lambda b: (e3, k, b, e1, i)), 2),
        ("_to_new_itf_k", bk, ek, lambda e3, e2, e1, s, j, i: itf(e3, s, V, lambda b: (b, e2, j, e1, i)), 2),
        ("get_floor", el, fl, lambda e2, e1, j, i: [(True, (0, e2, e1, 0, j, i))], 2),
        ("floor_to_bulk", fl, el, lambda e3, e2, e1, k, j, i: [(True, (e2, e1, j, i))], 0),
        ("floor_to_bulk(k_itf)", fl, ek, lambda e3, e2, e1, s, j, i: [(True, (e2, e1, j, i))], 0),
        ("get_itf_i_floor", ei, fi, lambda e2, e1, s, j: [(True, (0, e2, e1, s, 0, j))], 2),
        ("floor_i_to_bulk", fi, ei, lambda e3, e2, e1, s, k, j: [(True, (e2, e1, s, j))], 0),
        ("get_itf_j_floor", ej, fj, lambda e2, e1, s, i: [(True, (0, e2, e1, s, 0, i))], 2),
        ("floor_j_to_bulk", fj, ej, lambda e3, e2, e1, s, k, i: [(True, (e2, e1, s, i))], 0),
        ("to_new_floor", [[N, S], [N, S]], fl, lambda e2, e1, j, i: [(True, (e2, j, e1, i))], 2),
        # the floor's own interface arrays keep nothing beyond the halo either
        ("to_new_itf_i_floor", [[N, S], N + 1], fi, lambda e2, e1, s, j: itf(e1, s, N, lambda b: (e2, j, b)), 2),
        ("to_new_itf_j_floor", [N + 1, [N, S]], fj, lambda e2, e1, s, i: itf(e2, s, N, lambda b: (b, e1, i)), 2),
    ]


def contracts_cart(N, V, S):
    return [("to_single_block", [V, N, [S, S]], [[V, S], [N, S]], lambda e3, k, e1, i: [(True, (e3, e1, k, i))], 2)]


GRIDS = [
    ("CubedSphere2D", "geometry", contracts2, dict(num_elements_horizontal=N, num_solpts=S)),
    ("CubedSphere3D", "geometry", contracts3, dict(num_elements_horizontal=N, num_elements_vertical=V, num_solpts=S)),
    ("Cartesian2D", "geometry", contracts_cart, dict(num_elements_x=N, num_elements_z=V, num_solpts=S)),
]


def caller(obj, name):
    if name == "floor_to_bulk(k_itf)":
        return lambda a: need(obj, "floor_to_bulk")(a, k_itf=True)
    return need(obj, name)


def symbolic(R, cname, mod, contracts, sizes):
    cls = need(imp(mod), cname)
    for name, ain, aout, spec, nlead in contracts(N, V, S):
        R.under_contract(f"{cname}.{name.split('(')[0]}")
        for tag, lead in LEADS[: nlead + 1]:

            def unit(c, name=name, ain=ain, aout=aout, spec=spec, lead=lead):
                obj = stub(cls, **sizes)
                for t in L.sizes_positive():
                    c.assume(SBool(t))
                a, uf = L.source("a", lead + ain)
                old = a.getter()
                out = caller(obj, name)(a)
                if not isinstance(out, L.LA):
                    raise Unsupported("result is not an array")
                want = [L.prod(x) if isinstance(x, list) else x for x in lead + aout]
                ok = len(out.shape) == len(want) and all(L.eq(p, q) for p, q in zip(out.shape, want))
                if not ok:
                    raise Unsupported(f"shape {out.shape}")
                p = L.Point("p", lead + aout)
                for t in p.conds:
                    c.assume(SBool(t))
                got = out.at(p.ixs)
                nl = len(lead)
                rules = spec(*p.vars[nl:])
                exp = None
                for cond, w in reversed(rules):
                    v = z3.RealVal(0) if w is None else uf(*p.vars[:nl], *[z3.IntVal(x) if isinstance(x, int) else x for x in w])
                    exp = v if cond is True else z3.If(cond, v, exp)
                c.prove("every value at its own point", SBool(got == exp))
                q = L.Point("q", lead + ain)
                for t in q.conds:
                    c.assume(SBool(t))
                c.prove("the argument is left as it was", SBool(a.at(q.ixs) == old(q.ixs)))

            R.symbolic(f"{cname}.{name}{tag}", unit)



# --------------------------------------------------------------------------------------------------- real grids, small
def factors(axes):
    return [s for x in axes for s in (x if isinstance(x, list) else [x])]


def lengths(axes):
    return [int(np.prod(x, dtype=int)) if isinstance(x, list) else x for x in axes]


def expected(ain, aout, spec, lead, a):
    src = a.reshape(factors(lead + ain))
    out = np.zeros(factors(lead + aout))
    nl = len(lead)
    for idx in np.ndindex(*out.shape):
        w = next(w for cond, w in spec(*idx[nl:]) if cond)
        if w is not None:
            out[idx] = src[idx[:nl] + tuple(w)]
    return out.reshape(lengths(lead + aout))


def build(cname, n, v, s):
    cls = need(imp("geometry"), cname)
    if cname == "Cartesian2D":
        return cls((0.0, 1000.0), (0.0, 500.0), n, v, s, device())
    pt = types.SimpleNamespace(my_panel=1, num_lines_per_panel=2, my_row=1, my_col=0, size=24, rank=0)
    cfg = types.SimpleNamespace(case_number=77, depth_approx="deep")
    if cname == "CubedSphere2D":
        return cls(n, s, 0.1, 0.2, 0.3, pt, cfg, device())
    return cls(n, v, s, 0.1, 0.2, 0.3, 10000.0, pt, cfg, device())


def real(R):
    def go(ck):
        big = R.thorough
        for cname, contracts, sizes in (
            ("CubedSphere2D", contracts2, [(1, 1, 1), (1, 1, 3), (2, 1, 2), (3, 1, 2), (2, 1, 3), (4, 1, 1)] + [(3, 1, 4), (5, 1, 3)] * big),
            ("CubedSphere3D", contracts3, [(1, 1, 2), (2, 1, 2), (1, 2, 3), (3, 2, 2), (2, 3, 3)] + [(3, 4, 4), (4, 2, 1)] * big),
            ("Cartesian2D", contracts_cart, [(1, 1, 1), (2, 3, 2), (3, 1, 3), (1, 4, 2)]),
        ):
            for n, v, s in sizes:
                ck.case(grid=cname, elements=n, levels=v, points=s)
                g = build(cname, n, v, s)
                for name, ain, aout, spec, nlead in contracts(n, v, s):
                    for lead in ([], [1], [3], [1, 2], [2, 1])[: (1, 3, 5)[nlead]]:
                        shape = lengths(lead + ain)
                        a = 1.0 + np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
                        keep = a.copy()
                        ck.case(grid=cname, elements=n, levels=v, points=s, function=name, shape=shape)
                        want = expected(ain, aout, spec, lead, a)
                        out = caller(g, name)(a)
                        ck.check(
                            f"{cname}.{name}: every value at its own point",
                            np.shape(out) == want.shape and bool(np.array_equal(np.asarray(out), want)),
                            lambda: {"shape": list(np.shape(out)), "expected shape": list(want.shape)},
                        )
                        ck.check(f"{cname}.{name}: the argument is left as it was", np.array_equal(a, keep))
                        a *= -2.0
                        again = caller(g, name)(a)
                        ck.check(f"{cname}.{name}: the values at the time of the call", np.array_equal(np.asarray(again), -2.0 * want))

    R.concrete("layouts of real grids", go, bound="1-4 elements across, 1-3 levels, 1-3 points, up to two leading axes")


def run(R):
    R.assume(
        "the sizes of a grid object are those its constructor computes: the statements of the constructors that set them are "
        "run with symbolic sizes, base classes first, parameters matched by name; the real constructors are run for small sizes",
        "numpy's reshape, transpose, slicing, repeat and tile follow their documentation (vx/layout.py implements it)",
    )
    for g in GRIDS:
        symbolic(R, *g)
    real(R)
