"""C02: Hamiltonian-vector product, serial (shared by client threads) and distributed over ranks."""
import numpy as np

from checks.common import *
from sim.harness import Check


def sector(n, nup, ndw):
    from edpyt.espace import build_empty_sector
    return build_empty_sector(n, nup, ndw)


class C02(Check):
    id = "C02"
    real_ext = ("_psparse", "_continued_fraction")
    quick_runs, quick_cap = 3000, 60
    thorough_runs, thorough_cap = 300000, 900
    rule = ("a run is non-trivial when at least one product was compared with the dense reference while two or more "
            "ranks or client threads were active; distinct = different schedule hashes")
    real_parts = ("edpyt/matvec_product.py", "edpyt/vector_transpose.py", "edpyt/build_mb_ham.py", "edpyt/ham_*.py",
                  "edpyt/_psparse (rebuilt from psparse.pyx, one OpenMP thread)")
    stub_parts = ("MPI library", "numba (functions run uncompiled)")
    assumptions = ("the OpenMP schedule inside _psparse is not varied here (C06 does that)",)

    def load(self):
        from edpyt import matvec_product, build_mb_ham
        self.mp, self.bm = matvec_product, build_mb_ham

    def run(self, tape):
        (self.distributed if tape.choose(3, "kind") else self.threads)(tape)

    # ------------------------------------------------------------------ client threads, serial operator
    def threads(self, tape):
        n = 2 + tape.choose(3, "n")
        nup, ndw = tape.choose(n + 1, "nup"), tape.choose(n + 1, "ndw")
        H, V = random_model(tape, n)
        ref = Fock(n, nup, ndw)
        D = ref.dense(spin_h(H), V)
        ops = self.bm.build_mb_ham(H, V, sector(n, nup, ndw))
        mv = self.mp.matvec_operator(*ops)
        rng = tape.np_rng("vectors")
        nt = 1 + tape.choose(3, "threads")
        per = 1 + tape.choose(3, "calls")
        vecs = rng.uniform(-1, 1, (nt, per, ref.d))
        sim = Sim(tape)
        sim.enable_preemption(6)

        def client(k):
            def go():
                mine = []
                for c in range(per):
                    v = vecs[k, c].copy()
                    r = mv(v)
                    close(r, D @ vecs[k, c], "product")
                    same(v, vecs[k, c], "input-vector")
                    mine.append(r)
                for c in range(per):     # a result handed out earlier must not change afterwards
                    close(mine[c], D @ vecs[k, c], "earlier-product")
            return go
        for k in range(nt):
            sim.spawn(f"c{k}", client(k))
        try:
            sim.run()
        finally:
            fill(self, sim, None, {"threads": nt, "n": n, "sector": [nup, ndw], "calls": per}, nontrivial=nt > 1)
        for t in sim.tasks:
            expect_ok(t)
        close(self.mp.todense(*ops), D, "dense-matrix")

    # ------------------------------------------------------------------ ranks
    def distributed(self, tape):
        n = 2 + tape.choose(4, "n") if not tape.chance(1, 30, "large") else 6
        bad = tape.chance(1, 8, "unsupported")
        if bad and tape.choose(2, "bad-kind"):
            nup = 1 + tape.choose(n - 1, "nup")
            ndw = (nup + 1 + tape.choose(n, "ndw")) % (n + 1)
            badkind = "unequal"
        else:
            nup = ndw = 1 + tape.choose(n - 1, "nup")
            badkind = "indivisible" if bad else None
        ref = Fock(n, nup, ndw)
        if badkind == "unequal" and ref.dup == ref.ddw:
            badkind = None
        if badkind == "unequal":
            size = 1 + tape.choose(4, "size")
        elif badkind == "indivisible":
            cand = [s for s in range(2, 7) if ref.ddw % s]
            size = tape.pick(cand, "size")
        else:
            cand = [s for s in range(1, 7) if ref.ddw % s == 0]
            size = cand[-1 - tape.choose(len(cand), "size")]
        H, V = random_model(tape, n)
        D = ref.dense(spin_h(H), V)
        ops = self.bm.build_mb_ham(H, V, sector(n, nup, ndw))
        if len(ops) < 3:
            return
        rng = tape.np_rng("vectors")
        ncall = 1 + tape.choose(3, "calls")
        vecs = rng.uniform(-1, 1, (ncall, ref.d))
        sim = Sim(tape)
        w = mpi_world(sim, tape, size, allow_faults=not badkind)
        if tape.choose(2, "preempt"):
            sim.enable_preemption(8)
        loc = ref.d // size
        seen = [0] * size
        feed = tape.choose(2, "feed-back")     # the product is the next input, as Lanczos does

        def program(comm):
            r = comm.Get_rank()
            sl = slice(r * loc, (r + 1) * loc)
            diag = np.asarray(ops[0])[sl].copy()
            if badkind:
                try:
                    mv = self.mp.matvec_operator(diag, ops[1], ops[2], comm=comm)
                    mv(np.ones(loc))
                except (NotImplementedError, ValueError, AssertionError):
                    return True
                raise Violation("unsupported-accepted", f"{badkind}: dup={ref.dup} dwn={ref.ddw} ranks={size}")
            mv = self.mp.matvec_operator(diag, ops[1], ops[2], comm=comm)
            kept = []
            x = vecs[0]
            for c in range(ncall):
                if not feed:
                    x = vecs[c]
                v = x[sl].copy()
                res = mv(v)
                want = D @ x
                close(res, want[sl], "product")
                same(v, x[sl], "input-vector")
                kept.append((res, want[sl]))
                x = want
                seen[r] += 1
            for a, b in kept:
                close(a, b, "earlier-product")
            return True
        w.spawn(program)
        try:
            sim.run()
        finally:
            fill(self, sim, w, {"ranks": size, "n": n, "sector": [nup, ndw], "calls": ncall, "unsupported": badkind},
                 nontrivial=size > 1 and all(seen))
        survivors(w)
        if w.failed is None:
            for t in w.tasks:
                expect_ok(t, "rank")
        if badkind:
            sim.probe("refused-" + badkind)
            self.info["probes"]["refused-" + badkind] = 1


CHECK = C02()
