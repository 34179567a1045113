"""C08: memory safety, initialisation and absence of leaks of the public API, on an AddressSanitizer build of the extension.

Heap blocks are filled with 0xbe by the sanitizer's allocator, so a value computed from uninitialised memory
differs from the reference model's; PYTHONMALLOC=malloc puts Python objects under the sanitizer too."""
import ctypes
import gc
import itertools

import gaussianfft as g
import numpy as np

import mc
import refsim as R

TOL = 2e-6
lib = ctypes.CDLL(None)
allocated = lib.__sanitizer_get_current_allocated_bytes
allocated.restype = ctypes.c_size_t
TYPES = sorted(R.TYPES)


def run(m):
    va = ("gaussian", 2.5, 1.5, 1.0, 30.0, 15.0)
    # every shape, padding, smoothing; also the degenerate ones
    m.part = "shapes"
    top = 6 if m.thorough else 5
    box = [(nx, ny, nz) for nx in range(1, top + 1) for ny in range(0, top + 1) for nz in (0, 1, 2, 3, 4)]
    box += [(n, 1, 1) for n in (7, 11, 13, 17, 29, 31, 37, 64, 100, 127, 257)] + [(11, 13, 1), (1, 31, 1), (13, 1, 7), (7, 11, 5), (1, 1, 9), (1, 9, 9)]
    pads = [(-1, -1, -1), (0, 0, 0), (1, 0, 2), (3, 2, 0), (0, 5, 1)]
    for (nx, ny, nz), pad, sm in itertools.product(box, pads, ((1., 1., 1.), (.5, .25, .75))):
        if not m.next():
            continue
        t = TYPES[m.idx % len(TYPES)]
        a = (t,) + va[1:]
        m.begin(f"{a} n={(nx, ny, nz)} pad={pad} smoothing={sm}")
        v = g.variogram(*a)
        g.seed(11)
        m.step(3)
        m.state()
        z = g.advanced.simulate(v, nx, 1.0, ny, 1.0, nz, 1.0, *pad, *sm)
        s = g.simulation_size(v, nx, 1.0, ny, 1.0, nz, 1.0)
        del v
        mod = R.Model()
        mod.seed(11)
        want = mod.simulate(R.Vario(*a), nx, 1.0, ny, 1.0, nz, 1.0, *pad, *sm)
        m.check(z.size == want.size and np.abs(z - want).max() <= TOL, "values depend on uninitialised or foreign memory")
        m.outcome(z.tobytes())
    # object lifetimes: every sequence of create/use/alias/drop
    m.part = "lifetimes"
    OPS = ("makeA", "makeB", "dropA", "dropB", "alias", "corrA", "corrB", "sim1A", "sim2B", "sim3A", "dropResult", "bad", "unknown")
    for n in range(1, (6 if m.thorough else 5)):
        for seq in itertools.product(range(len(OPS)), repeat=n):
            if not m.next():
                continue
            if n > 3 and seq[0] not in (0, 1):
                continue
            m.begin(" ".join(OPS[k] for k in seq))
            m.step(n)
            m.state()
            o = {}
            g.seed(5)
            for k in seq:
                op = OPS[k]
                w = op[-1]
                if op.startswith("make"):
                    o[w] = g.variogram("spherical" if w == "A" else "matern52", 3.0, 2.0, 1.0, 20.0, 10.0)
                elif op in ("dropA", "dropB"):
                    o.pop(w, None)
                elif op == "alias" and "A" in o:
                    o["B"] = o["A"]
                elif op.startswith("corr") and w in o:
                    m.check(abs(o[w].corr(0.0, 0.0, 0.0) - 1) < 1e-12 and 0 <= o[w].corr(0.5, 0.3) <= 1, "corr of a live variogram is wrong")
                elif op.startswith("sim") and w in o:
                    o["z"] = g.simulate(o[w], *((3, 1.0) if op[3] == "1" else (2, 1.0, 3, 1.0) if op[3] == "2" else (2, 1.0, 2, 1.0, 2, 1.0)))
                elif op == "dropResult":
                    o.pop("z", None)
                elif op == "bad":
                    try:
                        g.simulate(o.get("A"), 2.5, 1.0)
                    except TypeError:
                        pass
                elif op == "unknown":
                    try:
                        g.simulate(None, 3)
                    except TypeError:
                        pass
            if "z" in o:
                m.check(np.isfinite(o["z"]).all() and np.abs(o["z"]).max() < 20, "a kept result no longer holds a field")
    # leaks: the number of allocated bytes after each operation (and pair of operations) does not grow
    m.part = "leaks"
    v = g.variogram(*va)

    def rejected():
        for a in (("x", 1.0), (3, "a"), (-1, 1.0)):
            try:
                g.simulate(v, *a)
            except TypeError:
                pass

    def mk(t):
        return lambda: g.variogram(t, 3.0, 2.0, 1.0, 10.0, 5.0)
    ops = {"new " + t: mk(t) for t in TYPES}
    ops.update({
        "simulate 1D": lambda: g.simulate(v, 9, 1.0), "simulate 2D": lambda: g.simulate(v, 5, 1.0, 4, 1.0),
        "simulate 3D": lambda: g.simulate(v, 3, 1.0, 4, 1.0, 5, 1.0),
        "simulate long 1D": lambda: g.simulate(v, 997, 1.0),
        "advanced 1D": lambda: g.advanced.simulate(v, 9, 1.0, padx=3, sx=0.5),
        "advanced 2D": lambda: g.advanced.simulate(v, 5, 1.0, 4, 1.0, padx=3, pady=0, sx=0.5, sy=0.2),
        "advanced 3D": lambda: g.advanced.simulate(v, 5, 1.0, 4, 1.0, 3, 1.0, padx=0, pady=2, padz=1, sz=0.2),
        "advanced no padding 2D": lambda: g.advanced.simulate(v, 5, 1.0, 4, 1.0, padx=0, pady=0),
        "sizes": lambda: (g.simulation_size(v, 9, 1.0), g.simulation_size(v, 9, 1.0, 8, 1.0), g.simulation_size(v, 9, 1.0, 8, 1.0, 7, 1.0)),
        "corr": lambda: (v.corr(1.0), v.corr(1.0, 2.0), v.corr(1.0, 2.0, 3.0)), "seed": lambda: g.seed(4), "seed?": lambda: g.seed(),
        "quote": lambda: g.quote(), "rejected": rejected})
    g.seed(4)
    names = list(ops)
    for pair in [(n,) for n in names] + list(itertools.product(names, repeat=2)):
        if not m.next():
            continue
        m.begin("repeat " + " + ".join(pair))
        fs = [ops[n] for n in pair]
        for _ in range(3):
            for f in fs:
                f()
        reps = 24
        low = None
        for attempt in range(3):   # caches may grow once; a leak grows every time
            gc.collect()
            before = allocated()
            for _ in range(reps):
                for f in fs:
                    f()
            gc.collect()
            grown = allocated() - before
            low = grown if low is None else min(low, grown)
            if low < reps * 8:
                break
        m.step(reps * len(pair))
        m.state()
        m.check(low < reps * 8, f"leaks at least {low // reps} bytes per repetition")


mc.main(run)
