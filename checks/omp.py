"""Driving an extension linked with the simulated OpenMP run time (sim/simomp.c)."""
import ctypes

import numpy as np


class Omp:
    def __init__(self, so):
        self.lib = ctypes.CDLL(so)
        self.lib.simomp_plan.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.c_int)]
        self.lib.simomp_stats.argtypes = [ctypes.POINTER(ctypes.c_long)]

    def plan(self, threads, gaps=(), to=()):
        n = len(gaps)
        A = ctypes.c_int * max(1, n)
        self.lib.simomp_plan(threads, n, A(*gaps), A(*to))

    def draw(self, tape, dense=6):
        """A seeded plan: team size, then when to preempt and whom to run."""
        threads = 1 + tape.choose(4, "omp-threads")
        k = 0 if threads == 1 else tape.choose(60, "preemptions")
        e = 1 + tape.choose(dense, "gap-scale")
        gaps = [1 + tape.choose(1 << e, "omp-gap") for _ in range(k)]
        to = [tape.choose(threads, "omp-to") for _ in range(k)]
        self.plan(threads, gaps, to)
        return threads, k

    def stats(self):
        o = (ctypes.c_long * 6)()
        self.lib.simomp_stats(o)
        return dict(zip(("accesses", "switches", "regions", "maxteam", "chunks", "hash"), list(o)))


def size(tape, small, label, big=(9, 16, 17, 33, 64, 130, 300)):
    """A dimension: mostly small, now and then large enough for code that treats long rows differently."""
    if tape.chance(1, 12, label + "-big"):
        return tape.pick(list(big), label)
    return 1 + tape.choose(small, label)


class Guarded:
    """An array inside a larger buffer whose margins must survive."""

    def __init__(self, values):
        values = np.asarray(values)
        self.pad = 9
        self.buf = np.full(values.size + 2 * self.pad, -77.125, values.dtype)
        self.a = self.buf[self.pad:self.pad + values.size]
        self.a[...] = values

    def ok(self):
        return bool(np.all(self.buf[:self.pad] == -77.125) and np.all(self.buf[self.pad + self.a.size:] == -77.125))
