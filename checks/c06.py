"""C06: sparse kernels under every OpenMP schedule."""
import numpy as np
import scipy.sparse as sp

from checks.common import *
from checks.omp import Guarded, Omp, size as extent
from sim.harness import Check


class C06(Check):
    id = "C06"
    real_ext = ()
    sim_ext = ("_psparse",)
    quick_runs, quick_cap = 6000, 60
    thorough_runs, thorough_cap = 400000, 900
    rule = ("a run is non-trivial when a team of two or more threads was preempted at least once inside a kernel; "
            "distinct = different hashes of (thread, access count) at every switch")
    real_parts = ("edpyt/psparse.pyx", "edpyt/cs_gaxpy.c (both recompiled with memory-access hooks)", "edpyt/ham_hopping.py and "
                  "edpyt/ham_non_local.py operator wrappers")
    stub_parts = ("OpenMP run time (teams, loop chunks, barriers, locks) and thread scheduler", "numba")
    assumptions = ("accesses are sequentially consistent; compiled at -O0 without -ffast-math",)
    sim_measure = "hash of (thread switched to, access count) at every switch"

    def load(self):
        from edpyt import _psparse, ham_hopping, ham_non_local
        self.ps, self.hh, self.hn = _psparse, ham_hopping, ham_non_local
        self.omp = Omp(self.sos["_psparse"])

    def run(self, tape):
        rng = tape.np_rng("data")
        calls = 1 + tape.choose(3, "calls")
        info = self.info
        info.update(hash="", faults={}, probes={}, counts={}, steps=0, yields=0, trace=[], nontrivial=False, sample=[])
        for _ in range(calls):
            op = tape.pick(["UP", "DW", "FULL"], "op")
            m, k = extent(tape, 6, "m", (9, 17, 33, 65)), extent(tape, 6, "k", (9, 16, 17, 33, 64, 130, 300))
            dens = tape.pick([0.5, 0., 1., .2], "density")
            if m > 6:
                dens = min(dens, .2)
            A = sp.random(m, m, density=dens, format="csr", random_state=rng)
            A.data[:] = rng.uniform(-1, 1, A.data.size)
            size = m if op == "FULL" else m * k
            W, R = Guarded(rng.uniform(-1, 1, size)), Guarded(rng.uniform(-1, 1, size) if tape.choose(2, "accumulate") else np.zeros(size))
            w0, r0 = W.a.copy(), R.a.copy()
            a0 = (A.data.copy(), A.indices.copy(), A.indptr.copy())
            wrapper = tape.choose(2, "wrapper")
            D = A.toarray()
            threads, npre = self.omp.draw(tape, 6 if m * k <= 36 else 12)
            info["trace"].append([0, "team", op, f"{m}x{k}", f"threads={threads}", f"preemptions={npre}"])
            info["sample"].append([op, m, k, dens, threads, npre])
            if op == "UP":
                if wrapper:
                    self.hh.UpHopping((A.data, A.indices, A.indptr), k, shape=A.shape).matvec(W.a, out=R.a)
                else:
                    native(self.ps.UPmultiply, A, W.a, R.a)
                want = r0 + (w0.reshape(k, m) @ D.T).ravel()
            elif op == "DW":
                if wrapper:
                    self.hh.DwHopping((A.data, A.indices, A.indptr), k, shape=A.shape).matvec(W.a, out=R.a)
                else:
                    native(self.ps.DWmultiply, A, W.a, R.a)
                want = r0 + (D @ w0.reshape(m, k)).ravel()
            else:
                if wrapper:
                    self.hn.NonLocal((A.data, A.indices, A.indptr), shape=A.shape).matvec(W.a, R.a)
                else:
                    native(self.ps.Multiply, A, W.a, R.a)
                want = r0 + D @ w0
            st = self.omp.stats()
            info["hash"] += "%x." % st["hash"]
            info["steps"] += st["switches"]
            info["yields"] += st["accesses"]
            if st["switches"] and st["maxteam"] > 1:
                info["nontrivial"] = True
                info["probes"]["team-of-%d" % st["maxteam"]] = info["probes"].get("team-of-%d" % st["maxteam"], 0) + 1
            info["faults"]["preemption"] = info["faults"].get("preemption", 0) + st["switches"]
            info["counts"][op] = info["counts"].get(op, 0) + 1
            close(R.a, want, "kernel-result", 1e-11, 1e-12)
            same(W.a, w0, "input-vector")
            if not (R.ok() and W.ok()):
                raise Violation("out-of-bounds-write", f"{op} {m}x{k} with {threads} threads wrote outside its result")
            for x, y in zip(a0, (A.data, A.indices, A.indptr)):
                same(y, x, "operator")
        # a layout the kernels do not handle is refused and nothing is written
        if tape.chance(1, 6, "csc"):
            A = sp.random(3, 3, density=.5, format="csc", random_state=rng)
            w, r = np.ones(3), np.zeros(3)
            for f in (self.ps.UPmultiply, self.ps.DWmultiply, self.ps.Multiply):
                try:
                    f(A, w, r)
                except (NotImplementedError, ValueError, TypeError):
                    continue
                close(r, A.toarray() @ w, "kernel-result")
                r[:] = 0
            info["probes"]["csc"] = 1


CHECK = C06()
