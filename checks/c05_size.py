"""C05: padding.  simulation_size is exact, sufficient, and is what simulate uses."""
import itertools
import math

import gaussianfft as g
import numpy as np

import mc
import refsim as R

POWERS = (0.5, 1.0, 1.5, 1.9, 2.0)


def varios():
    for ty in R.TYPES:
        for p in (POWERS if ty == "general_exponential" else (1.5,)):
            yield ty, p


def judge(m, v, rv, n, d):
    shape = [x for q in zip(n, d) for x in q]
    try:
        got = list(g.simulation_size(v, *shape))
    except Exception as e:
        m.fail(f"raised {e!r}")
        return
    m.step()
    nd = len(n)
    ranges = [rv.r[0]] if nd == 1 else [max(rv.r[0], rv.r[1]), rv.r[1] if rv.az_deg == 0 else max(rv.r[0], rv.r[1]), rv.r[2]][:nd]
    for k in range(nd):
        # either side of a rounding boundary is right
        x, y = rv.ratio() * ranges[k] / d[k] - n[k], ranges[k] / d[k]
        want = {n[k] + max(int(x + e * max(1, abs(x))), int(y + e * max(1, abs(y)))) + 1 for e in (-1e-12, 0, 1e-12)}
        if got[k] not in want:
            m.fail(f"simulation_size {got}: axis {k}, model {want}")
        # opposite edges of the grid are further than a range apart on the torus, and the torus is long
        # enough for the covariance to be embedded
        if not ((got[k] - n[k]) * d[k] > ranges[k] * (1 - 1e-12)):
            m.fail(f"axis {k}: padding {got[k] - n[k]} cells is shorter than the range")
        if not (got[k] * d[k] > rv.ratio() * ranges[k] * (1 - 1e-12) - 1e-9):
            m.fail(f"axis {k}: {got[k]} cells do not reach the minimum extent for this variogram")
    m.outcome(tuple(got))


def run(m):
    T = m.thorough
    m.part = "1D"
    nxs = list(range(1, 401) if not T else range(1, 1501)) + [2047, 2048, 5000, 16384, 32767, 32768, 65535, 65536, 100000, 1000000]
    for ty, p in varios():
        for rng in (0.01, 0.3, 1.0, 2.5, 7.0, 20.0, 99.5, 250.0, 1000.0, 40000.0):
            v, rv = g.variogram(ty, rng, power=p), R.Vario(ty, rng, power=p)
            for dx in (0.1, 0.5, 1.0, 2.5, 10.0, 33.0):
                if not m.next():
                    continue
                for nx in nxs:
                    m.begin(f"{ty} p={p} range={rng} nx={nx} dx={dx}")
                    m.state()
                    judge(m, v, rv, (nx,), (dx,))
    m.part = "2D"
    for ty, p in varios():
        for (rx, ry), az in itertools.product(((3., 3.), (6., 2.), (2., 6.), (250., 125.), (0.2, 40.), (9000., 70000.)),
                                              (0.0, 1e-9, 30., 90., 180., -90., 360., -0.0)):
            v, rv = g.variogram(ty, rx, ry, 5.0, az, power=p), R.Vario(ty, rx, ry, 5.0, az, power=p)
            for dx, dy in itertools.product((0.5, 1.0, 10.0), repeat=2):
                if not m.next():
                    continue
                for nx, ny in itertools.product((1, 2, 3, 10, 37, 100, 1024, 70000), (2, 3, 11, 64, 300, 4097)):
                    m.begin(f"{ty} p={p} ranges={rx, ry} az={az} n={nx, ny} d={dx, dy}")
                    m.state()
                    judge(m, v, rv, (nx, ny), (dx, dy))
    m.part = "3D"
    for ty, p in varios():
        for r, az, dip in itertools.product(((3., 3., 3.), (6., 2., 1.), (2., 6., 9.), (250., 125., 4.)), (0., 45., 90.), (0., 30., 90.)):
            v, rv = g.variogram(ty, *r, az, dip, power=p), R.Vario(ty, *r, az, dip, power=p)
            for d in itertools.product((0.5, 2.0), repeat=3):
                if not m.next():
                    continue
                for n in itertools.product((1, 2, 30, 800), (2, 9, 50, 1300), (2, 7, 120, 2001)):
                    m.begin(f"{ty} p={p} ranges={r} az={az} dip={dip} n={n} d={d}")
                    m.state()
                    judge(m, v, rv, n, d)
    # simulate() pads exactly as simulation_size announces; any negative padding means "automatic"
    m.part = "used-by-simulate"
    for ty, p in varios():
        for az, shape in itertools.product((0., 25.), ((7, 1.), (40, .5), (5, 1., 6, 2.), (2, 1., 30, 1.), (3, 1., 4, 1., 2, 1.), (9, 2., 2, 1., 5, .5))):
            v = g.variogram(ty, 4.0, 2.0, 3.0, az, power=p)
            nd = len(shape) // 2
            for mask in itertools.product((0, 1, 2), repeat=nd):
                if not m.next():
                    continue
                m.begin(f"{ty} p={p} az={az} {shape} automatic/explicit padding {mask}")
                m.state()
                size = list(g.simulation_size(v, *shape))
                kw = {}
                for k, x in enumerate(mask):
                    if x == 1:
                        kw[("padx", "pady", "padz")[k]] = size[k] - shape[2 * k]
                    elif x == 2:
                        kw[("padx", "pady", "padz")[k]] = -7
                g.seed(99)
                a = g.simulate(v, *shape)
                g.seed(99)
                b = g.advanced.simulate(v, *shape, **kw)
                m.step(3)
                m.check(a.tobytes() == b.tobytes(), "explicit padding equal to simulation_size gives another field")


mc.main(run)
