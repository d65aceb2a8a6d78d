"""C06: 24-bit angles."""

import math
import numpy as np
import z3

from ..core import *
from .. import core
from ..load import imp, need, inject

N = 1 << 24


def run(R):
    a24 = imp("common.angle24")
    R.under_contract("common.angle24.encode", "common.angle24.decode", "common.angle24.angle24.__new__")
    R.assume(
        "real arithmetic in the symbolic part; binary64 rounding is covered by the bounded part (all codes in the thorough run)",
        "inputs within 4 turns of zero: the wrap loops are unrolled by path exploration for |angle| < 9*pi",
    )
    PI = math.pi
    I = 2.0 * math.pi / N

    def dec(c):
        n = integer("code")
        c.assume(AND(n >= -(1 << 40), n <= (1 << 40)))
        with inject(a24):
            x = a24.decode(n)
        c.prove("decoded angle is at least -pi", x >= -PI)
        c.prove("decoded angle is below pi", x < PI)
        m = SInt(n.t % z3.IntVal(N))
        c.prove("decoding is the affine map of the low 24 bits", EQ(x, (m - N // 2) * I))

    def rt(c):
        n = integer("code")
        c.assume(AND(n >= 0, n < N))
        with inject(a24, print=lambda *a, **k: None):
            m = a24.encode(a24.decode(n))
        c.prove("encoding a decoded code gives it back", EQ(m, n))

    def enc(lo, hi):
        def body(c):
            x = real("angle")
            c.assume(AND(x >= lo, x < hi))
            with inject(a24, print=lambda *a, **k: None):
                n = a24.encode(x)
                y = a24.decode(n)
            c.prove("code fits in 24 bits", AND(n >= 0, n < N))
            k = c.fresh("turns", "I")
            # distance modulo a full turn is at most half a step: exhibit the turn count
            ok = OR(
                *[
                    AND(x - y - SReal(2 * PI) * j <= I / 2, x - y - SReal(2 * PI) * j >= -(I / 2))
                    for j in range(-6, 7)
                ]
            )
            c.prove("decoded angle is within half a step of the input, modulo a turn", ok)

        return body

    R.symbolic("decode", dec)
    R.symbolic("encode after decode", rt)
    R.symbolic("encode [-pi, pi)", enc(-PI, PI))
    R.symbolic("encode [pi, 9pi)", enc(PI, 9 * PI))
    R.symbolic("encode [-9pi, -pi)", enc(-9 * PI, -PI))

    def bounded(ck):
        import io, contextlib

        rng = np.random.default_rng(R.seed)
        step = 1 if R.thorough else 257
        offs = int(rng.integers(0, step))
        with contextlib.redirect_stdout(io.StringIO()):
            codes = list(range(offs, N, step)) + [0, 1, N - 1, N // 2, N // 2 - 1, N // 2 + 1]
            for n in codes:
                ck.n += 1
                x = a24.decode(n)
                if not (-PI <= x < PI):
                    ck.fail("decoded angle in [-pi, pi)", {"code": n}, x)
                if a24.encode(x) != n:
                    ck.fail("encode(decode(n)) == n", {"code": n}, a24.encode(x))
            xs = np.concatenate(
                [
                    rng.uniform(-PI, PI, 20000),
                    rng.uniform(-30, 30, 3000),
                    [PI, -PI, np.nextafter(PI, 0), np.nextafter(-PI, -4), 0.0, -0.0, 2 * PI, 3 * PI, -3 * PI, 1e-300],
                    (rng.integers(0, N, 2000) + 0.5 - N / 2) * I,
                ]
            )
            for x in xs:
                x = float(x)
                ck.case(angle=x)
                n = a24.encode(x)
                ok = isinstance(n, int) and 0 <= n < N
                ck.check("code fits in 24 bits", ok, n)
                if ok:
                    y = a24.decode(n)
                    d = math.remainder(x - y, 2 * PI)
                    ck.check("error at most half a step", abs(d) <= I / 2 * (1 + 1e-6), (n, y, d))
                    t = a24.angle24(x)
                    ck.check("angle24 holds the decoded angle", isinstance(t, float) and float(t) == y, float(t))
                    ck.check("angle24 is idempotent", float(a24.angle24(t)) == float(t))
            for n in (N, N + 5, -1, -N, 3 * N - 7):
                ck.case(code=n)
                ck.check("larger integers are truncated", a24.decode(n) == a24.decode(n % N), a24.decode(n))

    R.concrete("codes and angles", bounded, bound="every 257th code (all 2^24 in thorough), 25k angles within 30 rad")
