"""Python counterpart of mc.hpp (same protocol)."""
import argparse
import json
import mmap
import os
import signal
import sys


class MC:
    def __init__(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default="quick")
        ap.add_argument("--shard", default="0/1")
        ap.add_argument("--out", default="/dev/stdout")
        ap.add_argument("--scratch", default=".")
        a, self.rest = ap.parse_known_args()
        self.tier, self.out, self.scratch = a.tier, a.out, a.scratch
        self.shard, self.nshard = map(int, a.shard.split("/"))
        self.idx = self.states = self.transitions = self.traces = 0
        self.seen, self.outcomes, self.extra, self.samples, self.viol = set(), set(), {}, [], []
        self.cur, self.part, self.tick, self.hang_ticks = "", "", 0, 12
        self._last, self._same = -1, 0
        self.mm = None
        if self.out != "/dev/stdout":
            fd = os.open(self.out + ".cur", os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            os.ftruncate(fd, 8192)
            self.mm = mmap.mmap(fd, 8192)
            os.close(fd)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def next(self):
        i = self.idx
        self.idx += 1
        return i % self.nshard == self.shard

    def begin(self, text):
        self.cur = f"{self.part}: {text}"
        self.traces += 1
        self.tick += 1
        if self.mm is not None:
            b = self.cur.encode()[:8000]
            self.mm[:len(b) + 1] = b + b"\0"
        t = self.traces
        if len(self.samples) < 12 and t & (t - 1) == 0:
            self.samples.append(self.cur[:600])

    def step(self, n=1):
        self.transitions += n

    def state(self, key=None):
        if key is None:
            self.states += 1
            return True
        h = hash(key)
        if h in self.seen:
            return False
        self.seen.add(h)
        return True

    def outcome(self, key):
        self.outcomes.add(hash(key))

    def add(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n

    def fail(self, msg):
        if any(v["case"] == self.cur for v in self.viol):
            return False
        self.viol.append({"case": self.cur[:6000], "msg": str(msg)[:3000]})
        if len(self.viol) >= 5:
            self.finish()
        return False

    def check(self, ok, msg):
        if not ok:
            self.fail(msg() if callable(msg) else msg)
        return bool(ok)

    def finish(self):
        if self.out != "/dev/stdout":
            import array
            with open(self.out + ".st", "wb") as f:
                array.array("q", sorted(self.seen)).tofile(f)
        with open(self.out, "w") as f:
            json.dump({"states": self.states, "transitions": self.transitions, "traces": self.traces,
                       "outcomes": len(self.outcomes), "cases_total": self.idx, "extra": self.extra,
                       "samples": self.samples, "violations": self.viol}, f)
        sys.stdout.flush()
        os._exit(1 if self.viol else 0)


def main(fn):
    """Runs fn(mc); an exception no case expects (a valid call that raises) is a violation at the current case."""
    mc = MC()
    try:
        fn(mc)
    except Exception as e:
        import traceback
        traceback.print_exc()
        if not mc.cur:
            os._exit(3)
        mc.viol.append({"case": mc.cur[:6000], "msg": f"unexpected {type(e).__name__}: {e} | "
                        + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.line}" for f in reversed(traceback.extract_tb(e.__traceback__)))[:1500]})
    mc.finish()
