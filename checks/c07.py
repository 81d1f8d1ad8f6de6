"""C07: continued fractions under every OpenMP schedule."""
import numpy as np

from checks.common import *
from checks.omp import Omp, size as extent
from sim.harness import Check
from sim.runtime import Garbage


def reference(z, a, b):
    z = np.asarray(z, complex)
    r = np.zeros(z.shape, complex)
    for i in range(len(a) - 1, -1, -1):
        r = b[i] / (z - a[i] - r)
    return r


class C07(Check):
    id = "C07"
    real_ext = ("_psparse",)
    sim_ext = ("_continued_fraction",)
    quick_runs, quick_cap = 6000, 60
    thorough_runs, thorough_cap = 400000, 900
    rule = ("a run is non-trivial when a team of two or more threads was preempted at least once; "
            "distinct = different hashes of (thread, access count) at every switch")
    real_parts = ("edpyt/continued_fraction.pyx (recompiled with memory-access hooks)", "edpyt/gf_lanczos.py (building the function)")
    stub_parts = ("OpenMP run time and thread scheduler", "contents of uninitialised arrays", "numba")
    assumptions = ("accesses are sequentially consistent; compiled at -O0 without -ffast-math",)
    sim_measure = "hash of (thread switched to, access count) at every switch"

    def load(self):
        from edpyt import _continued_fraction, gf_lanczos
        self.cf, self.gl = _continued_fraction, gf_lanczos
        self.omp = Omp(self.sos["_continued_fraction"])

    def run(self, tape):
        rng = tape.np_rng("data")
        Garbage.kind = tape.choose(3, "garbage")
        info = self.info
        info.update(hash="", faults={}, probes={}, counts={}, steps=0, yields=0, trace=[], nontrivial=False, sample=[])
        kept = []
        for _ in range(1 + tape.choose(3, "calls")):
            n, m = extent(tape, 8, "depth", (17, 40, 80)), extent(tape, 12, "points", (33, 65, 130, 300))
            a, b = rng.uniform(-2, 2, n), rng.uniform(.1, 2, n)
            z = rng.uniform(-3, 3, m) + 1j * rng.uniform(.3, 2, m)
            if tape.chance(1, 4, "chain"):               # nearly uniform coefficients close to the axis: every level counts
                n = 2 + tape.choose(240, "levels")
                a, b = rng.uniform(-.1, .1, n), rng.uniform(.9, 1.1, n)
                m = 1 + m % 12
                z = rng.uniform(-2, 2, m) + 1j * rng.uniform(.01, .05, m)
            elif tape.chance(1, 6, "resonant"):          # next to a pole: the innermost or the outermost level
                n, m = 1 + n % 3, 1 + m % 12
                a, b = rng.uniform(-2, 2, n), rng.uniform(.1, 2, n)
                eta = 10. ** -rng.uniform(1, 7, m)
                z = a[-1 if tape.choose(2, "which") else 0] + rng.uniform(-1, 1, m) * eta + 1j * eta
            scalar = tape.chance(1, 5, "scalar")
            threads, npre = self.omp.draw(tape, 6 if n * m <= 96 else 12)
            zz = complex(z[0]) if scalar else z
            keep = (z.copy(), a.copy(), b.copy())
            out = native(self.cf.continued_fraction, zz, a, b)
            want = np.squeeze(reference(np.atleast_1d(zz), a, b))
            st = self.omp.stats()
            info["hash"] += "%x." % st["hash"]
            info["steps"] += st["switches"]
            info["yields"] += st["accesses"]
            info["trace"].append([0, "team", f"depth={n}", f"points={1 if scalar else m}", f"threads={threads}", f"preemptions={npre}"])
            info["sample"].append([n, 1 if scalar else m, threads, npre])
            if st["switches"] and st["maxteam"] > 1:
                info["nontrivial"] = True
            info["faults"]["preemption"] = info["faults"].get("preemption", 0) + st["switches"]
            info["counts"]["calls"] = info["counts"].get("calls", 0) + 1
            close(out, want, "continued-fraction", 1e-10, 1e-11)
            for x, y in zip(keep, (z, a, b)):
                same(y, x, "argument")
            kept.append((out, want))
        for out, want in kept:
            close(out, want, "earlier-result", 1e-10, 1e-11)


CHECK = C07()
