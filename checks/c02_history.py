"""C02: every history of public calls behaves like the seed/stream state machine."""
import ctypes
import gc
import itertools
import os
import pickle

import gaussianfft as g
import numpy as np

import mc
import refsim as R

TOL = 2e-6
VA = ("exponential", 3.0, 2.0, 1.5, 20.0, 10.0)
VB = ("spherical", 2.0, 4.0, 1.0)


class Ops:
    """The alphabet: each op has an implementation side and a model side returning comparable observations."""

    def __init__(self):
        self.va, self.vb = g.variogram(*VA), g.variogram(*VB)
        self.ra, self.rb = R.Vario(*VA), R.Vario(*VB)
        s1, s2, s3 = (5, 1.0), (4, 1.0, 3, 0.7), (2, 1.0, 3, 0.7, 2, 1.1)
        adv = dict(padx=1, pady=2, sx=0.5)
        big = (220, 1.0)
        self.table = [
            ("seed(1)", lambda: g.seed(1), lambda m: m.seed(1)),
            ("simulate(va,1D)", lambda: g.simulate(self.va, *s1), lambda m: m.simulate(self.ra, *s1)),
            ("simulate(va,2D)", lambda: g.simulate(self.va, *s2), lambda m: m.simulate(self.ra, *s2)),
            ("simulate(va,3D)", lambda: g.simulate(self.va, *s3), lambda m: m.simulate(self.ra, *s3)),
            ("seed()", lambda: g.seed(), lambda m: m.start),
            ("simulate(vb,2D)", lambda: g.simulate(self.vb, *s2), lambda m: m.simulate(self.rb, *s2)),
            ("simulate(vb,3D)", lambda: g.simulate(self.vb, *s3), lambda m: m.simulate(self.rb, *s3)),
            ("seed(2)", lambda: g.seed(2), lambda m: m.seed(2)),
            ("advanced.simulate(va,2D)", lambda: g.advanced.simulate(self.va, *s2, **adv),
             lambda m: m.simulate(self.ra, *s2, **adv)),
            ("query", self.query, lambda m: None),
            ("bad call", self.bad, lambda m: None),
            ("simulate(vb,1D,large)", lambda: g.simulate(self.vb, *big), lambda m: m.simulate(self.rb, *big)),
            ("seed(2**32+1)", lambda: g.seed(2 ** 32 + 1), lambda m: m.seed(2 ** 32 + 1)),
            ("seed(0)", lambda: g.seed(0), lambda m: m.seed(0)),
        ]

    def query(self):
        """Everything that must not consume randomness."""
        v = g.variogram("gaussian", 2.0)
        v.corr(1.0, 2.0)
        g.simulation_size(self.va, 5, 1.0, 4, 1.0)
        g.quote()
        del v

    def bad(self):
        for f in (lambda: g.seed("x"), lambda: g.simulate(self.va, "a", 1.0), lambda: g.simulate(None),
                  lambda: g.seed(-1), lambda: g.simulate(self.va, -3, 1.0)):
            try:
                f()
            except TypeError:
                continue
            except Exception as e:
                raise AssertionError(f"a malformed call raised {e!r}")
            raise AssertionError("a malformed call was accepted")


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == b.shape and np.abs(a - b).max() <= TOL
    return a == b


def seeded(m, ops, k, depth):
    """All op sequences of length `depth` over the first k ops, from the state after seed(5)."""
    m.part = f"seeded-depth{depth}"
    table = ops.table[:k]
    root = R.Model()
    root.seed(5)
    # model side: DFS with memoised prefix outputs
    first = range(k)

    def dfs(prefix, model, outs):
        if len(prefix) == depth:
            if not m.next():
                return
            m.begin("seed(5); " + "; ".join(table[i][0] for i in prefix))
            g.seed(5)
            for j, i in enumerate(prefix):
                try:
                    got = table[i][1]()
                except Exception as e:
                    m.fail(f"op {j} ({table[i][0]}) raised {e!r}")
                    return
                m.step()
                if not same(got, outs[j]):
                    m.fail(f"op {j} ({table[i][0]}): got {got!r}, model {outs[j]!r}")
                    return
            return
        for i in first:
            c = model.clone()
            o = table[i][2](c)
            m.state((c.start, c.rng.fp()))
            dfs(prefix + [i], c, outs + [o])

    dfs([], root, [])


def bitwise(m, ops):
    """Re-seeding reproduces bit for bit whatever happened before (no tolerance, no model)."""
    m.part = "bitwise-replay"
    sims = [1, 2, 3, 5, 6, 8, 11]
    first = {}
    for hist in itertools.product(range(len(ops.table)), repeat=2):
        for i in sims:
            if not m.next():
                continue
            m.begin(f"{[ops.table[h][0] for h in hist]} then seed(9); {ops.table[i][0]} twice")
            try:
                for h in hist:
                    ops.table[h][1]()
                g.seed(9)
                a = ops.table[i][1]()
                b = ops.table[i][1]()
            except Exception as e:
                m.fail(f"raised {e!r}")
                continue
            m.step(5)
            m.state()
            k = (a.tobytes(), b.tobytes())
            m.check(first.setdefault(i, k) == k, "the fields after seed(9) depend on what came before it")
            m.check(k[0] != k[1], "two consecutive simulations returned the same field")
            m.outcome(k)


def unseeded(m, ops):
    """Histories of a process that never called seed(); time() is under harness control."""
    m.part = "unseeded"
    lib = ctypes.CDLL(None)
    now = ctypes.c_long.in_dll(lib, "vt_now")
    idx = [1, 2, 3, 4, 5, 8, 9, 10, 7]
    seeds_of_time = {}
    times = (1_600_000_000, 1_600_000_001, 1, 2_000_000_000)
    depth = 3
    for t in times:
        for n in range(1, depth + 1):
            for seq in itertools.product(idx, repeat=n):
                if t != times[0] and n == depth:
                    continue
                if not m.next():
                    continue
                m.begin(f"time={t}: " + "; ".join(ops.table[i][0] for i in seq))
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    now.value = t
                    out = []
                    for i in seq:
                        try:
                            out.append(("ok", ops.table[i][1]()))
                        except Exception as e:
                            out.append((type(e).__name__, str(e)))
                    try:
                        out.append(("seed", g.seed()))
                    except Exception as e:
                        out.append(("noseed", type(e).__name__))
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(out, f)
                    os._exit(0)
                os.close(w)
                with os.fdopen(r, "rb") as f:
                    data = f.read()
                _, st = os.waitpid(pid, 0)
                m.step(n + 1)
                if st or not data:
                    m.fail(f"the process died with status {st}")
                    continue
                out = pickle.loads(data)
                judge(m, ops, seq, out, seeds_of_time, t)
    m.check(len(set(seeds_of_time.values())) == len(seeds_of_time), "different times give the same automatic seed")


def judge(m, ops, seq, out, sot, t):
    model = R.Model()
    final = out[-1]
    for j, i in enumerate(seq):
        name = ops.table[i][0]
        kind, val = out[j]
        if name == "seed()":
            if model.start is None:
                m.check(kind != "ok", "seed() answered although no seed has been set")
            else:
                m.check(kind == "ok" and val == model.start, f"seed() gave {val!r}, model {model.start!r}")
            continue
        if kind != "ok":
            m.fail(f"{name} raised {kind}: {val}")
            return
        if "simulate" in name and model.start is None:
            # auto-seeded: the seed becomes readable and reproduces the run
            s = next((v for (k, v), q in zip(out[j + 1:], list(seq[j + 1:]) + [None])
                      if k in ("ok", "seed") and (q is None or ops.table[q][0] == "seed()")), None)
            later_seed = [q for q in seq[j + 1:] if ops.table[q][0].startswith("seed(") and ops.table[q][0] != "seed()"]
            if later_seed:
                probe = R.Model()
                probe.auto_seed(t)
                s = probe.start
                if not same(val, ops.table[i][2](probe)):
                    m.add("autoseed_unknown")
                    return
                model.auto_seed(t)
                ops.table[i][2](model)
                continue
            if not isinstance(s, int):
                m.fail("simulate() without a seed leaves seed() unanswered")
                return
            m.check(sot.setdefault(t, s) == s, "the automatic seed is not a function of the time")
            model.seed(s)
        want = ops.table[i][2](model)
        if not same(val, want):
            m.fail(f"op {j} ({name}): got {val!r}, model {want!r}")
            return
    if model.start is None:
        m.check(final[0] == "noseed", "seed() answered although nothing was seeded or simulated")
    else:
        m.check(final == ("seed", model.start), f"final seed() {final}, model {model.start}")
    m.state((model.start, model.rng.fp() if model.rng else 0))


def long_runs(m, ops):
    """Histories of hundreds of calls: a pattern of one or two calls over and over, each call judged."""
    m.part = "long"
    n, reps = len(ops.table), 1 + (3 if m.thorough else 1)
    pats = [(i,) for i in range(n)] + [p for p in itertools.product(range(n), repeat=2) if p[0] != p[1]]
    for pat in pats:
        if not m.next():
            continue
        m.begin("seed(3); " + "; ".join(ops.table[i][0] for i in pat) + " over and over")
        mod = R.Model()
        mod.seed(3)
        g.seed(3)
        for r in range((700 if len(pat) == 1 else 60) * reps):
            i = pat[r % len(pat)]
            a, b = ops.table[i][1](), ops.table[i][2](mod)
            m.step()
            if not same(a, b):
                m.fail(f"call {r} ({ops.table[i][0]}): got {a!r}, model {b!r}")
                break
        m.state((mod.start, mod.rng.fp()))


def seeds(m, ops):
    """Very many seeds: each gives its own field, the model's."""
    m.part = "seeds"
    ss = list(range(20000 if m.thorough else 4000)) + [2 ** k + d for k in range(12, 32) for d in (-1, 0, 1)]
    seen = {}
    for s in ss:
        if not m.next():
            continue
        m.begin(f"seed({s})")
        mod = R.Model()
        mod.seed(s)
        r, back = g.seed(s), g.seed()
        a, b = g.simulate(ops.va, 5, 1.0), mod.simulate(ops.ra, 5, 1.0)
        m.step(3)
        m.state((mod.start, mod.rng.fp()))
        m.check(back == mod.start and (r is None or r == mod.start), f"seed() is {back!r}, model {mod.start!r}")
        m.check(same(a, b), f"got {a!r}, model {b!r}")
        m.check(seen.setdefault(a.tobytes(), mod.start) == mod.start, "two seeds give the same field")


def run(m):
    ops = Ops()
    unseeded(m, ops)     # first: this process must not have been seeded yet
    bitwise(m, ops)
    long_runs(m, ops)
    seeds(m, ops)
    n = len(ops.table)
    for d in (1, 2, 3):
        seeded(m, ops, n, d)
    seeded(m, ops, n, 4)
    if m.thorough:
        seeded(m, ops, n, 5)
        seeded(m, ops, 7, 6)
    else:
        seeded(m, ops, 9, 5)


mc.main(run)
