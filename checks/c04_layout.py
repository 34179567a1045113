"""C04: shape, ordering, dimension selection, calling conventions and freshness of simulate()'s result."""
import itertools

import gaussianfft as g
import numpy as np

import mc
import refsim as R

TOL = 2e-6
NAMES = ("nx", "dx", "ny", "dy", "nz", "dz")
DEF = {"ny": 1, "dy": -1.0, "nz": 1, "dz": -1.0}


def call(m, f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        m.fail(f"raised {e!r}")
        return None


def wellformed(m, z, n):
    return m.check(isinstance(z, np.ndarray) and z.dtype == np.float64 and z.ndim == 1 and z.size == n
                   and z.flags.c_contiguous and z.flags.writeable and np.isfinite(z).all(),
                   lambda: f"not a fresh 1-D float64 array of {n} finite values: {type(z)} {getattr(z, 'shape', None)} "
                           f"{getattr(z, 'dtype', None)}")


def run(m):
    va = ("exponential", 2.5, 1.5, 1.0, 30.0, 15.0)
    v, rv = g.variogram(*va), R.Vario(*va)
    # every shape in the box, every subset of the optional arguments, both entry points
    m.part = "shapes"
    top = 7 if m.thorough else 5
    for nx in range(1, top + 1):
        for ny, nz in itertools.product(range(0, top + 1), repeat=2):
            for dy, dz in ((1.0, 1.0), (-1.0, 1.0), (1.0, -1.0), (-1.0, -1.0), (0.5, 2.0)):
                full = dict(zip(NAMES, (nx, 1.0, ny, dy, nz, dz)))
                for drop in itertools.chain.from_iterable(itertools.combinations(("ny", "dy", "nz", "dz"), k) for k in range(5)):
                    if dy != 1.0 and drop:
                        continue
                    if not m.next():
                        continue
                    kw = {k: x for k, x in full.items() if k not in drop}
                    eff = {**DEF, **kw}
                    nd = R.dims(eff["nx"], eff["ny"], eff["dy"], eff["nz"], eff["dz"])
                    m.begin(f"simulate({kw})")
                    g.seed(42)
                    z = call(m, g.simulate, v, **kw)
                    m.step()
                    m.state()
                    cells = int(np.prod((eff["nx"], eff["ny"], eff["nz"])[:nd]))
                    if z is None or not wellformed(m, z, cells):
                        continue
                    mod = R.Model()
                    mod.seed(42)
                    want = mod.simulate(rv, **eff)
                    m.check(np.abs(z - want).max() <= TOL, lambda: f"values {z[:6]} differ from the model's {want[:6]}")
                    g.seed(42)
                    z2 = call(m, g.advanced.simulate, v, **kw)
                    m.step()
                    m.check(z2 is not None and z2.tobytes() == z.tobytes(), "advanced.simulate with default settings differs from simulate")
                    m.outcome(z.tobytes())
    # calling conventions: positional/keyword split at every position, keyword order, int/float/numpy arguments
    m.part = "conventions"
    for nx, ny, nz in itertools.product((1, 2, 3, 6), (1, 2, 5), (1, 2, 4)):
        full = [nx, 2.0, ny, 1.0, nz, 3.0]
        advk = ["padx", "pady", "padz", "sx", "sy", "sz"]
        advv = [2, 1, 3, 0.5, 0.7, 0.9]
        for entry in ("simulate", "advanced"):
            base = None
            names = list(NAMES) + (advk if entry == "advanced" else [])
            vals = full + (advv if entry == "advanced" else [])
            f = g.simulate if entry == "simulate" else g.advanced.simulate
            variants = []
            for cut in range(len(vals) + 1):
                variants.append((f"positional up to {cut}", vals[:cut], dict(zip(names[cut:], vals[cut:]))))
            variants.append(("reversed keywords", [], dict(reversed(list(zip(names, vals))))))
            variants.append(("numpy scalars", [np.int64(x) if isinstance(x, int) else np.float64(x) for x in vals], {}))
            variants.append(("int steps", [int(x) if isinstance(x, float) and x == int(x) else x for x in vals], {}))
            variants.append(("variogram keyword", None, dict(zip(names, vals))))
            for name, pos, kw in variants:
                if not m.next():
                    continue
                m.begin(f"{entry}{(nx, ny, nz)} {name}")
                if base is None:
                    g.seed(7)
                    base = call(m, f, v, *vals)
                g.seed(7)
                z = call(m, f, variogram=v, **kw) if pos is None else call(m, f, v, *pos, **kw)
                m.step()
                m.state()
                m.check(z is not None and base is not None and z.tobytes() == base.tobytes(), "calling convention changes the result")
    # a step of zero or of any tiny positive size still counts as a dimension
    m.part = "zero-step"
    for nx, ny, nz in itertools.product((1, 4), (2, 3), (1, 2, 3)):
        for dy, dz in itertools.product((0.0, -0.0, 1e-300, 1e-9, -1e-9), repeat=2):
            if not m.next():
                continue
            nd = R.dims(nx, ny, dy, nz, dz)
            m.begin(f"advanced.simulate(nx={nx}, 1.0, ny={ny}, dy={dy}, nz={nz}, dz={dz}, explicit padding): {nd}D")
            g.seed(42)
            z = call(m, g.advanced.simulate, v, nx, 1.0, ny, dy, nz, dz, padx=2, pady=1, padz=3)
            m.step()
            m.state()
            if z is not None:
                wellformed(m, z, int(np.prod((nx, ny, nz)[:nd])))
    # settings of unused dimensions are ignored
    m.part = "unused-dimensions"
    for nx, ny in itertools.product((2, 5), (1, 3)):
        for pads, sc in itertools.product(((-1, 9, 9), (2, 9, 9)), ((1., .3, .3), (.5, .3, .3))):
            if not m.next():
                continue
            m.begin(f"nx={nx} ny={ny} pads={pads} scaling={sc}")
            used = 1 if ny == 1 else 2
            a = dict(zip(("padx", "pady", "padz")[:used], pads))
            a.update(dict(zip(("sx", "sy", "sz")[:used], sc)))
            b = dict(padx=pads[0], pady=pads[1], padz=pads[2], sx=sc[0], sy=sc[1], sz=sc[2])
            g.seed(3)
            za = call(m, g.advanced.simulate, v, nx, 1.0, ny, 1.0, **a)
            g.seed(3)
            zb = call(m, g.advanced.simulate, v, nx, 1.0, ny, 1.0, **b)
            m.step(2)
            m.state()
            m.check(za is not None and zb is not None and za.tobytes() == zb.tobytes(), "settings of an unused dimension change the field")
    # freshness: results are independent arrays
    m.part = "freshness"
    shapes = ((5, 1.0), (3, 1.0, 4, 1.0), (2, 1.0, 3, 1.0, 2, 1.0), (5000, 1.0), (70, 1.0, 80, 1.0), (20, 1.0, 20, 1.0, 16, 1.0))
    for seq in itertools.chain(itertools.product(range(3), repeat=4), itertools.product(range(3, 6), repeat=4)):
        if not m.next():
            continue
        m.begin(f"keep results of simulations {seq}, scribble over the first")
        g.seed(8)
        kept = []
        for s in seq:
            z = call(m, g.simulate, v, *shapes[s])
            m.step()
            if z is None:
                break
            kept.append((z, z.copy()))
        if len(kept) < 4:
            continue
        kept[0][0][:] = 1e30
        call(m, g.simulate, v, *shapes[seq[0]])
        m.state(seq)
        m.check(all((a == b).all() for a, b in kept[1:]), "a returned array changed after it was returned")
        g.seed(8)
        again = call(m, g.simulate, v, *shapes[seq[0]])
        m.check(again is not None and (again == kept[0][1]).all(), "writing to a returned array changed later simulations")
    # rejected arguments
    m.part = "rejection"
    bad = [dict(nx=-1, dx=1.0), dict(nx="3", dx=1.0), dict(nx=2.5, dx=1.0), dict(nx=3), dict(dx=1.0), dict(nx=3, dx=1.0, ny=-2, dy=1.0),
           dict(nx=3, dx=1.0, foo=1), dict(nx=3, dx=None), dict(nx=None, dx=1.0), dict(nx=3, dx=1.0, nz=-1)]
    for k, kw in enumerate(bad):
        for f in (g.simulate, g.advanced.simulate, g.simulation_size):
            if not m.next():
                continue
            m.begin(f"{f.__name__}({kw})")
            m.step()
            m.state()
            try:
                f(v, **kw)
                m.fail("malformed arguments were accepted")
            except TypeError:
                pass
            except Exception as e:
                m.fail(f"raised {e!r} instead of TypeError")
    # the package surface
    m.part = "surface"
    if m.next():
        m.begin("names in __all__, VariogramType")
        m.state()
        m.step()
        ns = {}
        try:
            exec("from gaussianfft import *", ns)
        except Exception as e:
            m.fail(f"from gaussianfft import * raised {e!r}")
        for n in ("variogram", "simulate", "seed", "advanced", "simulation_size", "quote", "Variogram", "VariogramType", "util"):
            m.check(n in ns, f"{n} is not exported")
        m.check(sorted(t.value for t in g.VariogramType) == sorted(R.TYPES), "VariogramType does not list the eight supported types")


mc.main(run)
