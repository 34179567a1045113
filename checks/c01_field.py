"""C01: every simulated field is the moving average of iid normals whose covariance is the variogram's."""
import itertools

import gaussianfft as g
import numpy as np

import mc
import refsim as R

TOL = 2e-6


def vargs(ty, *a, **k):
    return (ty,) + a, k


def compare(m, shape, adv, vtuple, power, seed, both):
    ty, rest = vtuple[0], vtuple[1:]
    m.begin(f"variogram{vtuple} power={power} simulate{shape} {adv} seed={seed}")
    v = g.variogram(ty, *rest, power=power)
    rv = R.Vario(ty, *rest, power=power)
    mod = R.Model()
    mod.seed(seed)
    g.seed(seed)
    try:
        got = g.advanced.simulate(v, *shape, **adv) if (adv or not both) else g.simulate(v, *shape)
    except Exception as e:
        m.fail(f"raised {e!r}")
        return
    m.step()
    want = mod.simulate(rv, *shape, **adv)
    m.state()
    if got.shape != want.shape:
        m.fail(f"shape {got.shape}, model {want.shape}")
        return
    err = np.abs(got - want).max()
    if not err <= TOL:
        # the smoothing scale uses pi/2 ~ 1.57; the exact value is as good
        R.Vario.extents, old = exact_extents, R.Vario.extents
        try:
            mod.seed(seed)
            err2 = np.abs(got - mod.simulate(rv, *shape, **adv)).max()
        finally:
            R.Vario.extents = old
        if not err2 <= TOL:
            i = int(np.argmax(np.abs(got - want)))
            m.fail(f"max |field - model| = {err:g} at flat index {i}: {got[i]!r} vs {want[i]!r}")
    m.outcome(got[:2].tobytes())


def exact_extents(self):
    return [max(abs(u[i] * r) for u, r in zip(self.axes(), self.r)) for i in range(3)]


def covariance_extraction(m):
    """A A^T recovered from the implementation by solving F = A Z on known noise: independent of how
    the filter is realised."""
    m.part = "covariance-extraction"
    cases = []
    ranges2 = [(3.0, 1.5, 1.0), (2.0, 4.0, 1.0)]
    for ty in R.TYPES:
        for n, d, pads in [((6,), (1.,), ((0,), (4,))), ((4, 3), (1., .7), ((0, 0), (2, 3))),
                           ((2, 3, 2), (1., .8, 1.3), ((0, 0, 0), (0, 1, 1)))]:
            for pad in pads:
                for (rx, ry, rz), az, dip in itertools.product(ranges2, (0.0, 35.0), (0.0, 25.0)):
                    if len(n) == 1 and (az or dip) and (rx, ry, rz) != ranges2[0]:
                        continue
                    for sc in ((), (0.4,) * len(n)):
                        cases.append((ty, n, d, pad, (rx, ry, rz, az, dip), sc))
    for ty, n, d, pad, va, sc in cases:
        if not m.next():
            continue
        m.begin(f"{ty}{va} n={n} d={d} pad={pad} s={sc}")
        v, rv = g.variogram(ty, *va), R.Vario(ty, *va)
        nd = len(n)
        tot = R.total_size(rv, n, d, pad, nd)
        N = int(np.prod(tot))
        shape = [x for p in zip(n, d) for x in p]
        kw = dict(zip(("padx", "pady", "padz"), pad))
        kw.update(dict(zip(("sx", "sy", "sz"), sc)))
        Z, F = np.empty((N, N)), np.empty((int(np.prod(n)), N))
        for s in range(N):
            g.seed(1000 + s)
            F[:, s] = g.advanced.simulate(v, *shape, **kw)
            r = R.Rng(1000 + s)
            Z[:, s] = r.norm(N) if nd == 3 else R.Rng(r.u32()).norm(N)
            m.step()
        A = np.linalg.solve(Z.T, F.T).T
        m.state()
        got = A @ A.T
        # target: the torus covariance with negative spectrum clipped, restricted to the n-grid
        ok = False
        for ext in (None, exact_extents):
            old = R.Vario.extents
            if ext:
                R.Vario.extents = ext
            c = R.cov_grid(rv, tot, d, list(sc) + [1.0] * (3 - len(sc)))
            R.Vario.extents = old
            lam = np.fft.fftn(c).real
            eff = np.fft.ifftn(np.maximum(lam, 0.0)).real
            idx = [np.unravel_index(k, n, order="F") for k in range(int(np.prod(n)))]
            want = np.array([[eff[tuple((np.array(a) - np.array(b)) % np.array(tot))] for b in idx] for a in idx])
            e = np.abs(got - want).max()
            if e < 1e-6 * max(1.0, np.linalg.cond(Z) * 1e-6):
                ok = True
                break
        m.check(ok, lambda: f"covariance of the field differs from the variogram by {e:g}")
        if (lam > -1e-9).all():
            m.add("spectra_nonnegative")
            near = np.abs(np.diag(got) - 1.0).max()
            m.check(near < 1e-5, lambda: f"variance deviates from 1 by {near:g}")


def run(m):
    T = m.thorough
    seeds = (321,) if not T else (321, 0xDEADBEEF)
    # --- 1D
    m.part = "1D"
    nxs = list(range(1, 41)) + [63, 64, 100, 127, 128, 257, 1000, 4097]
    for nx in nxs:
        for dx, rng, ty in itertools.product((0.5, 1.0, 2.5), (0.3, 1.0, 2.5, 7.0, 20.0, 50.0), R.TYPES):
            for pad, sx in ((-1, 1.0), (0, 1.0), (1, 0.3), (10, 1.0), (-1, 0.5), (4, 0.999995), (-1, 1.5)):
                if not m.next():
                    continue
                adv = {}
                if pad >= 0:
                    adv["padx"] = pad
                if sx != 1.0:
                    adv["sx"] = sx
                for s in seeds:
                    compare(m, (nx, dx), adv, (ty, rng), 1.5, s, True)
    # 1D: angles and transverse ranges matter through the distance along x
    m.part = "1D-rotated"
    for nx, ty, (rx, ry, rz), az, dip, sx in itertools.product(
            (3, 8, 17), R.TYPES, ((4., 2., 1.), (2., 5., 3.)), (0., 30., 45., 90., 135., 180., -60., 270., 360., 400.),
            (0., 15., 90., -30.), (1.0, 0.4)):
        if m.next():
            compare(m, (nx, 1.0), {"sx": sx} if sx != 1 else {}, (ty, rx, ry, rz, az, dip), 1.5, 5, True)
    # powers
    m.part = "power"
    for nx, p, rng in itertools.product((4, 9, 30), (0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 1.9, 1.99, 2.0), (1., 3., 8.)):
        if m.next():
            compare(m, (nx, 1.0), {}, ("general_exponential", rng), p, 9, True)
        if m.next():
            compare(m, (nx, 1.0, 5, 1.0), {}, ("general_exponential", rng, 2., 2., 20.), p, 9, True)
    # --- 2D
    m.part = "2D"
    sizes = [(2, 2), (2, 3), (3, 2), (5, 4), (7, 7), (16, 9), (1, 6), (33, 2), (4, 40)] + ([(64, 64), (20, 21), (11, 97)] if T else [])
    for (nx, ny), (dx, dy), (rx, ry), az in itertools.product(
            sizes, ((1., 1.), (.5, 2.), (3., .7)), ((3., 3.), (6., 2.), (2., 6.), (.4, .3), (15., 4.)),
            (0., 30., 45., 90., 120., 180., -60., 359.)):
        for ty in R.TYPES:
            for pads, sc in (((-1, -1), (1., 1.)), ((0, 0), (1., 1.)), ((3, 5), (.5, 1.)), ((-1, 2), (1., .3)), ((4, -1), (.2, .6))):
                if not m.next():
                    continue
                adv = {}
                if pads != (-1, -1):
                    adv = {"padx": pads[0], "pady": pads[1]}
                if sc != (1., 1.):
                    adv.update(sx=sc[0], sy=sc[1])
                for s in seeds:
                    compare(m, (nx, dx, ny, dy), adv, (ty, rx, ry, 1.7, az), 1.5, s, True)
    # dip acts in 2D through the projection of the depth direction
    m.part = "2D-dip"
    for ty, az, dip, (rx, ry, rz) in itertools.product(R.TYPES, (0., 40., 90., -135.), (0., 20., 45., 90., -30.),
                                                       ((4., 2., 1.), (2., 3., 6.))):
        for adv in ({}, {"sx": .5, "sy": .4}):
            if m.next():
                compare(m, (6, 1., 5, 1.2), adv, (ty, rx, ry, rz, az, dip), 1.5, 17, True)
    # --- 3D
    m.part = "3D"
    sizes3 = [(2, 2, 2), (3, 4, 5), (6, 2, 3), (2, 7, 4), (1, 3, 2), (8, 5, 2)] + ([(12, 13, 14), (5, 9, 16)] if T else [])
    for n, d, r, az, dip in itertools.product(
            sizes3, ((1., 1., 1.), (2., .5, .8)), ((3., 3., 3.), (4., 2., 1.), (1., 3., 2.), (.4, .3, .5), (1.5, 1., 5.)),
            (0., 30., 90., -45., 200.), (0., 25., 90., -60.)):
        for ti, ty in enumerate(R.TYPES):
            for pads, sc in (((-1, -1, -1), (1., 1., 1.)), ((0, 0, 0), (1., 1., 1.)), ((1, 2, 3), (.5, 1., 1.)),
                             ((-1, 1, -1), (1., .3, .8)), ((2, -1, 0), (1., 1., .2))):
                if not m.next():
                    continue
                adv = {}
                if pads != (-1, -1, -1):
                    adv = {"padx": pads[0], "pady": pads[1], "padz": pads[2]}
                if sc != (1., 1., 1.):
                    adv.update(sx=sc[0], sy=sc[1], sz=sc[2])
                for s in seeds:
                    compare(m, (n[0], d[0], n[1], d[1], n[2], d[2]), adv, (ty, *r, az, dip), 1.5, s, True)
    # --- larger grids, a few per type
    m.part = "large"
    for ty in R.TYPES:
        for shape, va in (((20011, 1.), (300.,)), ((150, 1., 131, 1.), (40., 12., 5., 35.)), ((300, 1., 3, 1.), (80., 4.)),
                          ((24, 1., 31, 1., 17, 1.), (9., 4., 3., 50., 10.)), ((3, 1., 60, 1., 5, 1.), (4., 20., 2.))):
            if m.next():
                compare(m, shape, {}, (ty, *va), 1.5, 4711, True)
    # --- paddings far longer than the field, and grids in very small and very large units
    m.part = "long-padding"
    for ty in R.TYPES:
        for shape, pads in (((3, 1.), (600,)), ((7, .5), (5000,)), ((1, 1.), (100,)), ((50, 1.), (49,)), ((50, 1.), (51,)), ((3, 1., 2, 1.), (200, 1)), ((2, 1., 4, 1.), (1, 300)),
                            ((3, 1., 3, 1.), (90, 110)), ((2, 1., 2, 1., 2, 1.), (40, 1, 1)), ((2, 1., 2, 1., 2, 1.), (1, 50, 1)), ((2, 1., 2, 1., 2, 1.), (1, 1, 60)), ((2, 1., 3, 1., 2, 1.), (11, 12, 13))):
            if m.next():
                compare(m, shape, dict(zip(("padx", "pady", "padz"), pads)), (ty, 3., 2., 1.5, 20.), 1.5, 77, True)
    m.part = "units"
    for ty, u, nd, az in itertools.product(R.TYPES, (1e-6, 1e-3, 0.01, 100., 1e3, 1e6), (1, 2, 3), (0., 33.)):
        if m.next():
            compare(m, (6, 1. * u, 5, .8 * u, 4, 1.2 * u)[:2 * nd], {}, (ty, 3. * u, 2. * u, 1.5 * u, az, 10. if nd == 3 else 0.), 1.5, 78, True)
    # --- smoothing: every strength on every axis by itself and in all mixtures
    m.part = "smoothing"
    strengths = (1e-6, 0.05, 0.3, 0.8, 0.95, 0.99, 0.999, 1.0, 1.3)
    for ty, az, (rx, ry, rz) in itertools.product(R.TYPES, (0., 33.), ((3., 3., 3.), (5., 2., 1.2))):
        for sx in strengths:
            if m.next():
                compare(m, (9, 1.), {"sx": sx}, (ty, rx, ry, rz, az), 1.5, 81, True)
        for sx, sy in itertools.product(strengths, repeat=2):
            if m.next():
                compare(m, (6, 1., 5, .8), {"sx": sx, "sy": sy}, (ty, rx, ry, rz, az), 1.5, 82, True)
        for sx, sy, sz in itertools.product(strengths if T else strengths[1::2], repeat=3):
            if m.next():
                compare(m, (4, 1., 5, .8, 3, .7), {"sx": sx, "sy": sy, "sz": sz}, (ty, rx, ry, rz, az, 12.), 1.5, 83, True)
    # --- tight grids without padding and with ranges far beyond the grid, odd and even lengths
    m.part = "tight"
    for ty, rng in itertools.product(R.TYPES, (5., 400., 5000.)):
        for shape in ((2187, 1.), (2048, 1.), (729, 1.), (625, .5), (6, 1., 625, 1.), (6, 1., 243, 1.), (250, 1., 5, 1.), (256, 1., 3, 1.), (4, 1., 3, 1., 135, 1.), (4, 1., 105, 1., 3, 1.), (128, 1., 3, 1., 3, 1.)):
            if m.next():
                compare(m, shape, dict(zip(("padx", "pady", "padz"), (0, 0, 0)[:len(shape) // 2])), (ty, rng, rng / 2, rng / 3, 25.), 1.5, 84, True)
    covariance_extraction(m)


mc.main(run)
