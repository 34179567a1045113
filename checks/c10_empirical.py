"""C10: gaussianfft.util - empirical variograms, padding analysis, resource extrapolation.

gaussianfft.advanced.simulate is replaced by a recorder (a user-visible seam), so each estimate can be recomputed
from exactly the fields it was made of by an independent, loop-based oracle."""
import itertools
import math
import warnings

import gaussianfft as g
import numpy as np

import mc
import refsim as R

warnings.filterwarnings("ignore")
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from gaussianfft.util import EmpiricalVariogram, PaddingAnalyzer
    from gaussianfft.util.empirical_variogram2 import EmpiricalVariogram2
    from gaussianfft.util.resource_extrapolator import ResourceExtrapolator

REAL = g.advanced.simulate
LOG = []


def recorder(v, *a, **k):
    names = ("nx", "dx", "ny", "dy", "nz", "dz", "padx", "pady", "padz", "sx", "sy", "sz")
    kw = dict(zip(names, a))
    kw.update(k)
    if recorder.fake is not None:
        z = recorder.fake(len(LOG), kw)
    else:
        z = REAL(v, *a, **k)
    LOG.append((v, kw, np.array(z)))
    return z


recorder.fake = None
g.advanced.simulate = recorder


def cells(n):
    return [(i, j, k) for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]


def dist(a, b, d):
    return math.sqrt(sum(((p - q) * s) ** 2 for p, q, s in zip(a, b, d)))


def bins_of(n, d, ref, res):
    """(nbins, width, bin of each cell): equal bins over the distances from ref, as many as whole resolutions fit."""
    ds = [dist(c, ref, d) for c in cells(n)]
    top = max(ds)
    nb = int(top / res)
    edges = np.linspace(0.0, top, nb + 1) if nb else None
    return nb, top, ds, edges


def one(n, d, res, refs, field, nb0):
    """Estimated correlation per bin from one field (indexed [i][j][k])."""
    tot, cnt = np.zeros(nb0), np.zeros(nb0)
    amb = np.zeros(nb0, bool)
    for r in refs:
        nb, top, ds, edges = bins_of(n, d, r, res)
        s, c = np.zeros(nb), np.zeros(nb)
        for x, dd in zip(cells(n), ds):
            b = min(int(np.searchsorted(edges, dd, side="right")) - 1, nb - 1)
            # a distance on an edge to within rounding may go either way
            near = [e for e in range(1, nb) if abs(edges[e] - dd) < 1e-9 * top]
            for e in near:
                if edges[e] != dd:
                    amb[e - 1] = amb[e] = True
            s[b] += (field[x] - field[r]) ** 2
            c[b] += 1
        with np.errstate(all="ignore"):
            mean = 1 - s / c / 2
        tot[:nb] += mean
        cnt[:nb] += 1
    with np.errstate(all="ignore"):
        return tot / cnt, cnt, amb


def shape_field(flat, n):
    return np.array(flat).reshape(n, order="F")


def close(a, b, amb):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    ok = (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) < 1e-9) | amb
    return bool(ok.all())


def run(m):
    shapes = [(n, 1, 1) for n in (2, 3, 5, 8, 12)] + [(2, 2, 1), (3, 4, 1), (5, 3, 1), (6, 6, 1), (2, 2, 2), (3, 2, 4), (4, 4, 3)]
    if m.thorough:
        shapes += [(20, 1, 1), (8, 9, 1), (5, 4, 5)]
    steps = [(1., 1., 1.), (.5, 2., 1.), (10., 7., 3.)]
    v = g.variogram("exponential", 4.0)
    rv = R.Vario("exponential", 4.0)

    def fakes(k, kw):
        nd = R.dims(kw["nx"], kw.get("ny", 1), kw.get("dy", -1), kw.get("nz", 1), kw.get("dz", -1))
        c = int(np.prod((kw["nx"], kw.get("ny", 1), kw.get("nz", 1))[:nd]))
        return np.array([((i * 7 + k * 3) % 11) / 4.0 - (i % 3) * 0.5 for i in range(c)])

    m.part = "estimate"
    for n, d, mode in itertools.product(shapes, steps, ("fake", "real")):
        dd = tuple(d[:1]) + tuple(d[a] if n[a] > 1 else 0.0 for a in (1, 2))
        top = dist((0, 0, 0), tuple(x - 1 for x in n), dd)
        for frac in (0.11, 0.26, 0.5, 1.0):
            res = top * frac
            for strat in ("origo", "center", "all", "corner", "two", "regular2", "regular3o1"):
                for nmax, conv in ((1, 0), (2, 1), (3, 2)):
                    if mode == "real" and (frac != 0.26 or nmax != 2):
                        continue
                    if not m.next():
                        continue
                    m.begin(f"n={n} d={dd} resolution={res:g} refs={strat} nmax={nmax} convergence every {conv} on {mode} fields")
                    m.state()
                    m.step(nmax)
                    ev = EmpiricalVariogram(v, n[0], dd[0], n[1], dd[1], n[2], dd[2], 2, 1, 3)
                    allc = cells(n)
                    if strat == "corner":
                        refs = [(n[0] - 1, n[1] - 1, n[2] - 1)]
                    elif strat == "two":
                        refs = [(0, 0, 0), (n[0] - 1, 0, 0)]
                    elif strat == "regular2":
                        refs, want = ev.pick_reference_points("regular", n=2), allc[0::int(len(allc) / 2)]
                    elif strat == "regular3o1":
                        if len(allc) < 3:
                            continue
                        refs, want = ev.pick_reference_points("regular", n=3, offset=1), allc[1::int(len(allc) / 3)]
                    else:
                        refs = ev.pick_reference_points(strat)
                        want = {"origo": [(0, 0, 0)], "center": [tuple(x // 2 for x in n)], "all": allc}[strat]
                    refs = [tuple(int(q) for q in r) for r in refs]
                    if strat not in ("corner", "two"):
                        m.check(refs == [tuple(w) for w in want], lambda: f"reference points {refs[:5]}, expected {want[:5]}")
                    nb0, top0, _, _ = bins_of(n, dd, (0, 0, 0), res)
                    if any(bins_of(n, dd, r, res)[0] == 0 for r in refs):
                        continue   # no whole bin fits: nothing to estimate
                    LOG.clear()
                    recorder.fake = fakes if mode == "fake" else None
                    g.seed(31)
                    mid, est, ns, tdata, ca = ev.estimate_variogram(nmax, res, refs, analyze_convergence=conv)
                    if not m.check(len(LOG) >= nmax, "fewer simulations than asked for"):
                        continue
                    for _, kw, z in LOG:
                        m.check((kw["nx"], kw["ny"], kw["nz"], kw["dx"], kw["dy"], kw["dz"], kw["padx"], kw["pady"], kw["padz"]) == (*n, *dd, 2, 1, 3),
                                lambda: f"simulated with {kw}")
                    width = top0 / nb0
                    m.check(len(mid) == nb0 and np.allclose(mid, [(k + .5) * width for k in range(nb0)], rtol=1e-9),
                            lambda: f"distances {mid[:4]}, bin centres are {[(k + .5) * width for k in range(min(4, nb0))]}")
                    data = [one(n, dd, res, refs, shape_field(z, n), nb0) for _, _, z in LOG[-nmax:]]
                    amb = data[0][2]
                    mean = sum(x[0] for x in data) / nmax
                    m.check(close(est, mean, amb), lambda: f"estimate {np.array(est)}, from the same fields {mean}")
                    m.check(close(ns, sum(x[1] for x in data), np.zeros(nb0, bool)), "sample counts")
                    true = [float(rv.corr(x)) for x in np.asarray(mid)]
                    tm, tv = ev.true_variogram(res)
                    m.check(np.allclose(tm, mid) and np.allclose(tv, true, atol=1e-9), "true variogram is not corr at the returned distances")
                    if conv:
                        ks = [k for k in range(nmax) if k % conv == 0]
                        m.check(len(ca.deltas) == len(ks), "number of convergence samples")
                        for row, k in zip(ca.deltas, ks):
                            part = sum(x[0] for x in data[:k + 1]) / (k + 1) - true
                            m.check(close(row, part, amb), lambda: f"convergence after {k + 1} simulations: {row}, from the same fields {part}")
                    m.outcome(np.asarray(est).tobytes())
    m.part = "exact-data"   # the self-check documented at dummy_sim
    for n, typ in itertools.product(((9, 1, 1), (16, 1, 1), (5, 6, 1), (4, 3, 5)), R.TYPES):
        if not m.next():
            continue
        m.begin(f"{typ} n={n}: estimate from dummy_sim equals the bin means of the true correlation")
        m.state()
        m.step()
        dd = tuple(1.0 if a > 1 else 0.0 for a in n)
        w = g.variogram(typ, 4.0)
        rw = R.Vario(typ, 4.0)
        ev = EmpiricalVariogram(w, n[0], dd[0], n[1], dd[1], n[2], dd[2], -1, -1, -1)
        ev.simulate = ev.dummy_sim
        top = dist((0, 0, 0), tuple(x - 1 for x in n), dd)
        res = top * 0.2600001
        mid, est, _, _, _ = ev.estimate_variogram(2, res, ev.pick_reference_points("origo"))
        nb, _, ds, edges = bins_of(n, dd, (0, 0, 0), res)
        s, c = np.zeros(nb), np.zeros(nb)
        for x in ds:
            b = min(int(np.searchsorted(edges, x, side="right")) - 1, nb - 1)
            s[b] += float(rw.corr(x))
            c[b] += 1
        m.check(close(est, s / c, np.zeros(nb, bool)), lambda: f"{est} instead of {s / c}")

    m.part = "reference-points"
    for n in ((6, 1, 1), (3, 4, 1), (2, 3, 2)):
        for k in range(1, 6):
            for seed in (0, 1, 99):
                if not m.next():
                    continue
                m.begin(f"random strategy n={n} k={k} seed={seed}; unknown strategy")
                m.state()
                m.step(3)
                ev = EmpiricalVariogram(v, n[0], 1., n[1], 1., n[2], 1., 0, 0, 0)
                a = ev.pick_reference_points("random", n=k, seed=seed)
                b = ev.pick_reference_points("random", n=k, seed=seed)
                ta = [tuple(int(q) for q in r) for r in a]
                m.check(ta == [tuple(int(q) for q in r) for r in b] and len(set(ta)) == k and set(ta) <= set(cells(n)),
                        "a seeded random choice is not a reproducible set of distinct cells")
                try:
                    ev.pick_reference_points("nonsense")
                    m.fail("an unknown strategy was accepted")
                except ValueError:
                    pass

    m.part = "estimate2"
    for n in ((6, 1, 1), (11, 1, 1), (4, 5, 1), (6, 6, 1), (3, 4, 3)):
        for close_range, step, nmax, mode in itertools.product((1.5, 2.5, 100.), (1, 2, 3), (1, 3), ("fake", "real")):
            if not m.next():
                continue
            m.begin(f"EmpiricalVariogram2 n={n} close={close_range} step={step} nmax={nmax} {mode}")
            m.state()
            m.step(nmax)
            ev = EmpiricalVariogram2(v, *n, 2, 1, 1, close_range, step)
            LOG.clear()
            recorder.fake = fakes if mode == "fake" else None
            g.seed(8)
            short, sample = ev.estimate_variogram(nmax)
            if not m.check(len(LOG) == nmax, "wrong number of simulations"):
                continue
            for _, kw, _ in LOG:
                m.check((kw["nx"], kw["ny"], kw["nz"], kw["padx"], kw["pady"], kw["padz"]) == (*n, 2, 1, 1), lambda: f"simulated with {kw}")
            fields = [shape_field(z, n) for _, _, z in LOG]
            m.check(ev.s is not None and (np.asarray(ev.s) == fields[-1]).all(), "the kept field is not the last one")
            for name, got, sel in (("short", short, lambda c: dist(c, (0, 0, 0), (1, 1, 1)) < close_range),
                                   ("sampled", sample, lambda c: all(q % step == 0 for q in c))):
                groups = {}
                for c in cells(n):
                    if sel(c):
                        groups.setdefault(c[0] ** 2 + c[1] ** 2 + c[2] ** 2, []).append(c)
                keys = sorted(groups)
                per = np.array([[np.mean([(f[c] - f[0, 0, 0]) ** 2 for c in groups[q]]) for q in keys] for f in fields])
                o = np.argsort(got[0])
                ok = (len(got[0]) == len(keys) and np.allclose(np.asarray(got[0])[o], np.sqrt(keys)) and np.allclose(np.asarray(got[1])[o], per.mean(axis=0))
                      and np.allclose(np.asarray(got[2])[o], per.std(axis=0)))
                m.check(ok, lambda: f"{name} range: {got[0]} {got[1]}, from the same fields {np.sqrt(keys)} {per.mean(axis=0)}")

    m.part = "padding-analyzer"
    for ranges, pads, nn, nd, nmax, seed in itertools.product(([.2], [.1, .4]), ([.5], [0.25, 1.0]), (8, 12), (1, 2), (1, 11, 12), (None, 0, 5)):
        if not m.next():
            continue
        if nd == 2 and nn == 12:
            continue
        m.begin(f"PaddingAnalyzer ranges={ranges} paddings={pads} n={nn} ndims={nd} nmax={nmax} seed={seed}")
        m.state()
        m.step(nmax * (len(ranges) * len(pads) + 1))
        LOG.clear()
        recorder.fake = None
        L = 100.
        pa = PaddingAnalyzer(ranges, pads, L=L, n=nn, drf=1.0, nmax=nmax, vtype="gaussian", seed=seed, ndims=nd)
        m.check(g.seed() == (12313 if seed is None else seed), lambda: f"ran with seed {g.seed()}")
        d = L / nn
        groups = []
        for e in LOG:
            if groups and groups[-1][0][0] is e[0]:
                groups[-1].append(e)
            else:
                groups.append([e])
        combos = [(ranges[0], pads[0])] + [(r, p) for r in ranges for p in pads]
        if not m.check(len(groups) == len(combos), f"{len(groups)} series of simulations for {len(combos)} combinations"):
            continue
        n = (nn, nn if nd == 2 else 1, 1)
        dd = (d, d if nd == 2 else 0.0, 0.0)
        m.check(np.allclose(pa.padding_f, [int(p * L / d) / nn for p in pads]) and list(pa.range) == list(ranges), "reported paddings and ranges")
        for q, ((r, p), grp) in enumerate(zip(combos, groups)):
            m.check(grp[-1][1]["padx"] == int(p * L / d) and (grp[-1][1]["nx"], grp[-1][1]["ny"]) == n[:2] and grp[-1][1]["dx"] == d, lambda: f"simulated with {grp[-1][1]}")
            rr = R.Vario("gaussian", r * L)
            m.check(abs(grp[-1][0].corr(r * L * .3) - float(rr.corr(r * L * .3))) < 1e-9, "another variogram range was analysed")
            if q == 0:
                continue
            nb, top, _, _ = bins_of(n, dd, (0, 0, 0), d)
            used = grp[-nmax:][:(nmax - 1) // 10 * 10 + 1]
            data = [one(n, dd, d, [(0, 0, 0)], shape_field(z, n), nb) for _, _, z in used]
            true = np.array([float(rr.corr((k + .5) * top / nb)) for k in range(nb)])
            want = sum(x[0] for x in data) / len(data) - true
            i, j = ranges.index(r), pads.index(p)
            m.check(close(pa.deltas[j, i, :], want, data[0][2]), lambda: f"deltas[{j},{i}] = {pa.deltas[j, i, :]}, from the same fields {want}")
    m.part = "padding-analyzer-rejects"
    if m.next():
        m.begin("ndims=3")
        m.state()
        m.step()
        try:
            PaddingAnalyzer([.2], [.5], n=5, nmax=1, ndims=3)
            m.fail("3 dimensions accepted")
        except NotImplementedError:
            pass

    m.part = "resources"
    for lo, hi, st, nd in itertools.product((2, 4), (4, 8), (1, 2, 3), (1, 2, 3)):
        if not m.next():
            continue
        m.begin(f"ResourceExtrapolator nmin={lo} nmax={hi} nstep={st} ndims={nd}")
        m.state()
        LOG.clear()
        recorder.fake = None
        x, y, slope = ResourceExtrapolator(lo, hi, st, nd).extrapolate(100, "exponential")
        ns = list(range(lo, hi + 1, st))
        m.step(len(ns))
        m.check([e[1]["nx"] for e in LOG] == ns and all(e[2].size == k ** nd for e, k in zip(LOG, ns)), "simulated other grids")
        m.check(all(abs(e[1]["dx"] * (e[1]["nx"] - 1) - 1000.) < 1e-6 for e in LOG), "the grid does not span the fixed length")
        m.check(list(x) == [k ** nd for k in ns] and len(y) == len(ns), "cell counts")
        m.check(abs(slope - float(np.dot(x, y) / np.dot(x, x))) <= 1e-9 * abs(slope) + 1e-15, "not the least-squares slope through the origin")


mc.main(run)
