"""C03: concurrent calls from several threads are atomic: every schedule is equivalent to a serial order."""
import ctypes
import glob
import itertools
import os
import threading

import gaussianfft as g
import numpy as np

import _gaussianfft
import mc

vs = ctypes.CDLL(_gaussianfft.__file__)
for f in ("vs_points", "vs_free", "vs_switches", "vs_stuck"):
    getattr(vs, f).restype = ctypes.c_long

VA = g.variogram("exponential", 2.0, 1.5, 1.0, 20.0)
VB = g.variogram("spherical", 1.5)
OPS = {
    "sim1": lambda: g.simulate(VA, 3, 1.0).tobytes(),
    "sim2": lambda: g.simulate(VA, 2, 1.0, 2, 1.0).tobytes(),
    "sim3": lambda: g.simulate(VB, 2, 1.0, 2, 1.0, 2, 1.0).tobytes(),
    "adv": lambda: g.advanced.simulate(VA, 3, 1.0, 2, 1.0, padx=1, pady=0, sx=.5).tobytes(),
    "seed": lambda: g.seed(77),
    "get": lambda: g.seed(),
    "size": lambda: tuple(g.simulation_size(VA, 4, 1.0, 3, 1.0)),
    "corr": lambda: VA.corr(0.5, 0.2),
}
SEED = 11


def serial(threads):
    """All outcomes of serial interleavings of the per-thread call lists."""
    out = set()
    n = len(threads)

    def rec(pos, order):
        if all(p == len(t) for p, t in zip(pos, threads)):
            g.seed(SEED)
            res = [[] for _ in threads]
            at = [0] * n
            for t in order:
                res[t].append(OPS[threads[t][at[t]]]())
                at[t] += 1
            end = g.simulate(VB, 2, 1.0, 2, 1.0, 2, 1.0).tobytes()
            out.add((tuple(map(tuple, res)), g.seed(), end))
            return
        for t in range(n):
            if pos[t] < len(threads[t]):
                rec(pos[:t] + [pos[t] + 1] + pos[t + 1:], order + [t])
    rec([0] * n, [])
    return out


def execute(threads, start, plan):
    n = len(threads)
    g.seed(SEED)
    arr = (ctypes.c_long * 4)(*plan)
    vs.vs_reset(n, arr, len(plan))
    res = [[] for _ in threads]

    def body(i):
        vs.vs_start(i)
        for op in threads[i]:
            try:
                res[i].append(OPS[op]())
            except Exception as e:
                res[i].append(repr(e))
        vs.vs_done(i)

    ts = [threading.Thread(target=body, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    vs.vs_kick(start)
    for t in ts:
        t.join(60)
        if t.is_alive():
            return None, 0, 0
    vs.vs_stop()
    end = g.simulate(VB, 2, 1.0, 2, 1.0, 2, 1.0).tobytes()
    return (tuple(map(tuple, res)), g.seed(), end), vs.vs_points(), vs.vs_free()


def explore(m, threads, bound):
    allowed = serial(threads)
    m.outcome(tuple(sorted(map(hash, allowed))))
    for start in range(len(threads)):
        frontier, blocked = [()], 0
        while frontier:
            plan = frontier.pop()
            m.begin(f"threads={threads} first={start} preempt at free points {plan}")
            got, pts, free = execute(threads, start, plan)
            m.step(max(pts, 1))
            m.add("scheduling_points", pts)
            m.add("points_without_gil", free)
            m.state((threads, start, plan))
            if vs.vs_stuck():        # the preempted thread held a lock the other one needs: not a real choice
                m.add("handovers_to_a_blocked_thread")
                blocked += 1
                if blocked > 3:
                    m.add("schedules_capped")
                    break
            if got is None:
                m.fail("the threads do not terminate")
                return
            m.outcome(got)
            if not m.check(got in allowed, "the results and final state match no serial order of the calls"):
                return
            if len(plan) < bound:
                lo = plan[-1] + 1 if plan else 0
                cap = 400
                if free - lo > cap:
                    m.add("schedules_capped")
                for k in range(lo, min(free, lo + cap)):
                    frontier.append(plan + (k,))


def run(m):
    vs.vs_stop()
    names = list(OPS)
    m.part = "2threads-1call"
    for a, b in itertools.product(names, repeat=2):
        if m.next():
            explore(m, ((a,), (b,)), 2 if m.thorough else 1)
    m.part = "2threads-2calls"
    sub = names if m.thorough else ["sim1", "sim2", "sim3", "adv", "seed", "get"]
    for a in itertools.product(sub, repeat=2):
        for b in itertools.product(sub, repeat=2):
            if m.next():
                explore(m, (a, b), 1)
    m.part = "3threads-1call"
    for t in itertools.combinations_with_replacement(names, 3):
        if m.next():
            explore(m, tuple((x,) for x in t), 1)


mc.main(run)
