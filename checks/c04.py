"""C04: spin occupations of eigenvectors, serial and distributed."""
import numpy as np

from checks.common import *
from sim.harness import Check


class C04(Check):
    id = "C04"
    quick_runs, quick_cap = 3000, 50
    thorough_runs, thorough_cap = 200000, 600
    rule = ("a run is non-trivial when two or more ranks (or client threads on one shared eigenvector array) finished "
            "their counts; distinct = different schedule hashes")
    real_parts = ("edpyt/observs.py", "edpyt/operators.py", "edpyt/sector.py")
    stub_parts = ("MPI library", "numba")

    def load(self):
        from edpyt import observs, espace
        self.ob, self.es = observs, espace

    def run(self, tape):
        ob = self.ob
        n = 2 + tape.choose(3, "n")
        if tape.chance(1, 20, "large"):
            n = 5 + tape.choose(2, "n")
        nup, ndw = tape.choose(n + 1, "nup"), tape.choose(n + 1, "ndw")
        ref = Fock(n, nup, ndw)
        nev = 1 + tape.choose(min(3, ref.d), "nev")
        if tape.chance(1, 15, "many"):
            nev = 1 + tape.choose(min(40, ref.d), "nev")
        rng = tape.np_rng("vectors")
        X = rng.uniform(-1, 1, (ref.d, nev))
        X /= np.linalg.norm(X, axis=0)
        kind = tape.choose(5, "coeffs")
        coeffs = None if kind == 0 else rng.uniform(0, 1, nev)
        if kind == 2:                                    # weights that have underflowed: some of them, or all
            coeffs[tape.choose(nev, "zero weight"):] = 0.
        if kind == 3:
            coeffs *= 10. ** -rng.randint(0, 200)
        if kind == 4:
            coeffs[:] = 1.
        order = tape.pick("CF", "order")
        want = [np.array(z).T for z in zip(*[ref.occupations(X[:, k]) for k in range(nev)])]
        if coeffs is not None:
            want = [z * coeffs for z in want]
        from edpyt.sector import generate_states
        su, sd = generate_states(n, nup), generate_states(n, ndw)
        sim = Sim(tape)
        distributed = tape.choose(3, "kind")
        out = []
        if distributed:
            cand = [s for s in range(1, 7) if ref.ddw % s == 0]
            size = cand[-1 - tape.choose(len(cand), "size")]
            w = mpi_world(sim, tape, size)
            if tape.choose(2, "preempt"):
                sim.enable_preemption(8)
            loc = ref.d // size

            def program(comm):
                r = comm.Get_rank()
                e = np.array(X[r * loc:(r + 1) * loc], order=order)
                keep = e.copy()
                for k in range(2):
                    u, d = ob.get_evecs_occupation(e, su, sd, n, coeffs, comm)
                    same(e, keep, "caller-eigenvectors")
                    close(u, want[0], "occupation")
                    close(d, want[1], "occupation")
                out.append(r)
            w.spawn(program)
        else:
            w = None
            size = 1 + tape.choose(3, "threads")
            sim.enable_preemption(7)
            shared = np.array(X, order=order)
            keep = shared.copy()
            beta, e0 = 1. + tape.choose(20, "beta"), float(rng.uniform(-2, 2))
            sct = self.es.Sector(self.es.SzStates(su, sd), ref.d, e0 + np.sort(rng.uniform(0, 1, nev)), shared)
            wts = np.exp(-beta * (sct.eigvals - e0))

            def client(k):
                def go():
                    if k % 2 == 0:
                        u, d = ob.get_evecs_occupation(shared, su, sd, n, coeffs)
                        close(u, want[0], "occupation")
                        close(d, want[1], "occupation")
                    else:
                        u, d = ob.get_occupation({(nup, ndw): sct}, e0, beta, n)
                        un = [np.array(z).T for z in zip(*[ref.occupations(X[:, q]) for q in range(nev)])]
                        close(u, un[0] @ wts / wts.sum(), "thermal-occupation")
                        close(d, un[1] @ wts / wts.sum(), "thermal-occupation")
                    same(shared, keep, "caller-eigenvectors")
                    out.append(k)
                return go
            for k in range(size):
                sim.spawn(f"c{k}", client(k))
        try:
            sim.run()
        finally:
            fill(self, sim, w, {"ranks" if w else "threads": size, "n": n, "sector": [nup, ndw], "nev": nev, "order": order,
                                "weighted": coeffs is not None}, nontrivial=size > 1 and len(out) == size)
        if w is None:
            for t in sim.tasks:
                expect_ok(t)
        else:
            survivors(w)
            if w.failed is None:
                for t in w.tasks:
                    expect_ok(t, "rank")


CHECK = C04()
