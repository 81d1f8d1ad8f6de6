"""C01: distributed transposition of a Hilbert vector."""
import numpy as np

from checks.common import *
from sim.harness import Check

DT = [np.float64, np.int64, np.complex128, np.float32]


class C01(Check):
    id = "C01"
    real_ext = ()
    quick_runs, quick_cap = 6000, 45
    thorough_runs, thorough_cap = 400000, 600
    rule = ("a run is non-trivial when at least two ranks took part and every rank left at least one transposition; "
            "distinct = different hashes of the rank schedule and message order")
    real_parts = ("edpyt/vector_transpose.py",)
    stub_parts = ("MPI library (simulated ranks, network and failures)",)
    assumptions = ("MPI keeps its own contract: no loss or corruption inside a successful collective",
                   "a failed process is reported to the survivors as an MPI error")

    def load(self):
        from edpyt import vector_transpose
        self.vt = vector_transpose

    def run(self, tape):
        vt = self.vt
        size = 1 + tape.choose(6, "size")
        m = 1 + tape.choose(5, "rows")
        if tape.chance(1, 15, "large"):
            m = 6 + tape.choose(60, "rows")
        dt = tape.pick(DT, "dtype")
        rounds = 1 + tape.choose(3, "rounds")
        mode = tape.choose(4, "mode")      # 0 world default, 1 explicit, 2 split, 3 bad shape
        sim = Sim(tape)
        w = mpi_world(sim, tape, size)
        if tape.choose(2, "preempt"):
            sim.enable_preemption(8)
        ngroup = 1
        if mode == 2 and size > 1:
            ngroup = 2 if size % 2 == 0 and tape.choose(2, "groups") else 1
        gsize = size // ngroup
        n = m * gsize
        base = np.arange(ngroup * n * n).reshape(ngroup, n, n)
        G = (base * (1 + 0.5j) if dt is np.complex128 else base).astype(dt)
        vecs = 1 + tape.choose(2, "vectors")
        done = [0] * size

        def program(comm):
            r = comm.Get_rank()
            g, lr = divmod(r, gsize)
            if mode == 2:
                sub = comm.Split(g, lr)
            else:
                sub = comm
            arg = None if mode == 0 else sub
            if mode == 3:
                bad = np.zeros((m, n + 1), dt)
                for f in (vt.collect_dw, vt.collect_up):
                    try:
                        f(bad, arg)
                    except (AssertionError, ValueError, TypeError, NotImplementedError):
                        pass
                    else:
                        raise Violation("bad-shape-accepted", f"{f.__name__} took {bad.shape} on {size} ranks")
            for k in range(rounds):
                for v in range(vecs):
                    mine = (G[g, lr * m:(lr + 1) * m] + dt(v)).astype(dt)
                    a = mine.copy()
                    b = vt.collect_dw(a, arg)
                    same(b, np.ascontiguousarray((G[g] + dt(v)).astype(dt)[:, lr * m:(lr + 1) * m]), "transpose")
                    keep = b.copy()
                    c = vt.collect_up(b, arg)
                    same(c, mine, "inverse")
                    # and the other way round
                    d = keep.copy()
                    e = vt.collect_up(d, arg)
                    same(e, mine, "inverse")
                    f = vt.collect_dw(e, arg)
                    same(f, keep, "transpose")
                done[r] += 1
            return True
        w.spawn(program)
        try:
            sim.run()
        finally:
            fill(self, sim, w, {"ranks": size, "rows": m, "dtype": dt.__name__, "mode": mode, "rounds": rounds},
                 nontrivial=size > 1 and all(done))
        survivors(w)
        if w.failed is None:
            for t in w.tasks:
                expect_ok(t, "rank")
        else:
            # recovery: fresh ranks and fresh data work
            s2 = Sim(tape)
            w2 = World(s2, size, 0)
            ns = m * size
            F = np.arange(ns * ns).reshape(ns, ns).astype(dt)

            def again(comm):
                r = comm.Get_rank()
                a = F[r * m:(r + 1) * m].copy()
                b = vt.collect_dw(a, comm)
                same(b, np.ascontiguousarray(F[:, r * m:(r + 1) * m]), "transpose-after-failure")
                same(vt.collect_up(b, comm), F[r * m:(r + 1) * m], "inverse-after-failure")
            w2.spawn(again)
            s2.run()
            for t in w2.tasks:
                expect_ok(t, "rank after failure")
            self.info["probes"]["recovered"] = 1


CHECK = C01()
