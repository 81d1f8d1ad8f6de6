"""C13: matrix Green's functions from one solved spectrum shared by several clients."""
import numpy as np

from checks.c11 import Shared
from checks.common import *


class C13(Shared):
    id = "C13"
    sizes = (1, 2, 2, 2, 2, 3)
    quick_runs, quick_cap = 420, 100
    min_runs = 100
    thorough_runs, thorough_cap = 100000, 900

    def draw(self, tape, n, full):
        if full and tape.choose(3, "what") == 2:
            return dict(what="exact")
        return dict(what="lanczos", repr=tape.pick(["cf", "sp"], "repr"), separate=bool(tape.choose(2, "separate")))

    def query(self, n, H, V, esp, egs, q):
        if q["what"] == "exact":
            return self.g2e.build_gf2_exact(H, V, esp, q["beta"], egs, q["spin"])
        return self.g2l.build_gf2_lanczos(H, V, esp, q["beta"], egs, q["spin"], q["repr"], q["separate"])

    def compare(self, r, q, n, gf, occ):
        z = q["z"]
        if "ref" not in q:
            q["ref"] = []
            for w in (z, z + .5):
                e, h = np.empty((2, n, n, z.size), complex)
                for i, j in np.ndindex(n, n):
                    e[i, j], h[i, j] = gf(w, q["beta"], i, j, q["spin"])
                q["ref"].append((e, h))
        parts = q["what"] == "lanczos" and q["separate"]
        x, eta = z.real + .5, z.imag.copy()       # one frequency array, used twice
        first = r(x, eta)
        x -= .5
        out = r(x, eta)
        for got, (e, h), what in ((out, q["ref"][0], "matrix-green-function"), (first, q["ref"][1], "earlier-answer")):
            if parts:
                close(got[0], e, what, 1e-5, 1e-5)
                close(got[1], h, what, 1e-5, 1e-5)
            else:
                close(got, e + h, what, 1e-5, 1e-5)
        e, h = q["ref"][0]
        if q["what"] == "lanczos":
            for i, j in sorted({(0, 0), (0, n - 1), (n - 1, 0)}):
                g = np.asarray(r[i, j](x, eta)) + np.zeros(z.size)
                close(g, (e + h)[i, j], "element", 1e-5, 1e-5)
        for o in (out if isinstance(out, tuple) else (out,)):
            o[...] = np.nan      # the caller owns what it got


CHECK = C13()
