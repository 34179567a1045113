"""C06 (Python API): correlation functions."""
import itertools

import gaussianfft as g
import numpy as np

import mc
import refsim as R

TOL = 1e-11


def near(m, a, b, what, tol=TOL):
    ok = abs(a - b) <= tol
    if not ok:
        m.fail(f"{what}: {a!r}, model {b!r}")
    return ok


def run(m):
    T = m.thorough
    lags = (0.0, 1e-9, 0.1, -0.4, 0.999999, 1.0, 1.0000001, 2.0, -2.5, 7.0, 1e3)
    ang = (0., 10., 30., 45., 60., 89., 90., 91., 135., 180., 225., 270., 300., 360., 405., -30., -90., -400.)
    dips = (0., 15., 45., 90., 120., 180., -20., -90.)
    rs = ((1., 1., 1.), (2., 1., 0.5), (1., 3., 2.), (0.5, 0.7, 4.), (1000., 500., 250.), (2e4, 300., 40.))
    m.part = "corr"
    for ty in R.TYPES:
        for p in ((1.5, 0.5, 1.0, 1.9, 2.0) if ty == "general_exponential" else (1.5,)):
            for r, az, dip in itertools.product(rs, ang, dips):
                if not m.next():
                    continue
                m.begin(f"{ty} power={p} ranges={r} azimuth={az} dip={dip}")
                v, rv = g.variogram(ty, *r, az, dip, power=p), R.Vario(ty, *r, az, dip, power=p)
                m.state()
                s = max(r)
                L = [x * s if s > 10 else x for x in lags]
                grid = np.array(list(itertools.product(L, L, L))) if T else np.array(
                    list(itertools.product(L, L[:9:2], L[1:10:2])) + [(x, y, 0.0) for x in L for y in L] + [(0.0, 0.0, x) for x in L])
                want = rv.corr(grid[:, 0], grid[:, 1], grid[:, 2])
                for (x, y, z), w in zip(grid.tolist(), want.tolist()):
                    got = v.corr(x, y, z)
                    m.step()
                    if not (abs(got - w) <= 1e-9 * (1 + 0)):
                        m.fail(f"corr{(x, y, z)} = {got!r}, model {w!r}")
                        break
                    if not (0.0 <= got <= 1.0 + 1e-15):
                        m.fail(f"corr{(x, y, z)} = {got!r} is outside [0, 1]")
                        break
                    if z == 0.0:
                        if not near(m, v.corr(x, y), got, f"corr{(x, y)} against corr{(x, y, 0.0)}"):
                            break
                        if y == 0.0 and not near(m, v.corr(x), got, f"corr({x}) against corr({x}, 0, 0)"):
                            break
                    if not near(m, v.corr(-x, -y, -z), got, f"corr{(-x, -y, -z)} against its mirror image"):
                        break
                if ty != "constant":
                    near(m, v.corr(0.0), 1.0, "corr(0)")
                    # along every principal axis the correlation has dropped to the nominal level at one range
                    for u, rr in zip(rv.axes(), rv.r):
                        c = v.corr(*(q * rr for q in u))
                        m.check(c < 0.0505, lambda: f"correlation {c} at one range along {u}")
                m.outcome(v.corr(0.3 * r[0], 0.2 * r[1], 0.1 * r[2]))
    # factory: defaults, names, enum
    m.part = "factory"
    probes = [(0.3, 0.2, 0.1), (1.0, 0.0, 0.0), (0.0, 0.7, 0.0), (0.0, 0.0, 1.3), (2.0, -1.0, 0.5)]
    forms = {}
    for ty in R.TYPES:
        forms[ty] = [ty, ty.upper(), ty.title(), ty[:3] + ty[3:].upper()]
    forms["no_such_type"] = ["no_such_type"]
    for ty, fs in forms.items():
        for f in fs + ([t for t in g.VariogramType if t.value == ty]):
            for k in range(7):
                args = (2.5, 1.5, 0.75, 33.0, 12.0, 1.8)[:max(k, 1)]
                for kwform in (False, True):
                    for zero in (None, 0.0, -1.0, -0.0, -5.0):
                        if not m.next():
                            continue
                        a = list(args)
                        if zero is not None and len(a) > 1:
                            a[1] = zero
                            if len(a) > 2:
                                a[2] = zero
                        names = ("main_range", "perp_range", "depth_range", "azimuth", "dip", "power")
                        m.begin(f"variogram({f!r}, {a}, keywords={kwform})")
                        m.state()
                        try:
                            v = g.variogram(f, **dict(zip(names, a))) if kwform else g.variogram(f, *a)
                        except Exception as e:
                            m.fail(f"raised {e!r}")
                            continue
                        b = a + [None] * (6 - len(a))
                        full = [b[0], b[1] if b[1] is not None else -1., b[2] if b[2] is not None else -1.,
                                b[3] or 0.0, b[4] or 0.0]
                        rv = R.Vario(ty, *full, power=b[5] if b[5] is not None else 1.5)
                        for q in probes:
                            m.step()
                            if not near(m, v.corr(*q), float(rv.corr(*q)), f"corr{q}", 1e-9):
                                break
    # objects are independent: creating and destroying others never changes an existing one
    m.part = "independence"
    specs = [("spherical", 2.0), ("general_exponential", 2.0, 1.0, 1.0, 30.0, 0.0, 1.2), ("general_exponential", 2.0, 1.0, 1.0, 30.0, 0.0, 1.9),
             ("gaussian", 1.0, 2.0, 3.0), ("matern52", 4.0, 1.0, 1.0, 45.0, 45.0)]
    for seq in itertools.product(range(len(specs)), repeat=4):
        for kill in (0, 1, 2):
            if not m.next():
                continue
            m.begin(f"create {seq}, delete number {kill}")
            vs = [g.variogram(*specs[i]) for i in seq]
            before = [[v.corr(*q) for q in probes] for v in vs]
            vs[kill] = None
            extra = g.variogram(*specs[(seq[kill] + 1) % len(specs)])
            g.simulation_size(extra, 5, 1.0)
            m.step(6)
            m.state()
            for i, v, b in zip(seq, vs, before):
                if v is None:
                    continue
                m.check([v.corr(*q) for q in probes] == b, "an existing variogram changed")
                rv = R.Vario(*specs[i][:6], power=specs[i][6] if len(specs[i]) > 6 else 1.5)
                for q, x in zip(probes, b):
                    near(m, x, float(rv.corr(*q)), f"corr{q}", 1e-9)


mc.main(run)
