"""All nondeterminism of a simulated run comes from here.

A decision is an integer in [0, n).  0 always means "the simplest thing" (no
fault, no preemption, full-length I/O, first candidate).  Decisions are recorded
per named stream; a replay file stores the recorded streams, and a decision past
the end of a recorded stream is 0.  Minimisation therefore only has to truncate
and zero streams.
"""

import random


class Choices:
    __slots__ = ("seed", "rec", "replay", "_rng")

    def __init__(self, seed=0, replay=None):
        self.seed = seed
        self.rec = {}
        self.replay = replay
        self._rng = {}

    def _next(self, stream, n, p):
        rec = self.rec.get(stream)
        if rec is None:
            rec = self.rec[stream] = []
        if self.replay is not None:
            vals = self.replay.get(stream)
            i = len(rec)
            v = vals[i] if vals is not None and i < len(vals) else 0
            if v >= n:
                v = n - 1
        else:
            rng = self._rng.get(stream)
            if rng is None:
                rng = self._rng[stream] = random.Random(f"{self.seed}/{stream}")
            if p is None:
                v = int(rng.random() * n)
            else:
                v = 1 if rng.random() < p else 0
        rec.append(v)
        return v

    def pick(self, stream, n):
        if n <= 1:
            return 0
        return self._next(stream, n, None)

    def chance(self, stream, p):
        if p <= 0.0:
            return False
        return self._next(stream, 2, p) == 1

    def trimmed(self):
        out = {}
        for name, vals in self.rec.items():
            end = len(vals)
            while end and vals[end - 1] == 0:
                end -= 1
            if end:
                out[name] = vals[:end]
        return out
