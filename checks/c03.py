"""C03: distributed Lanczos (tridiagonalisation and ground state)."""
import numpy as np

from checks.common import *
from sim.harness import Check


def krylov(D, v, tol=1e-9):
    """Orthonormal basis of span{v, Dv, ...} with full reorthogonalisation, and its T."""
    q = [v / np.linalg.norm(v)]
    a, b = [], [np.linalg.norm(v)]
    while True:
        w = D @ q[-1]
        a.append(q[-1] @ w)
        for _ in range(2):
            for x in q:
                w = w - (x @ w) * x
        nb = np.linalg.norm(w)
        if nb < tol or len(q) == D.shape[0]:
            return np.array(q), np.array(a), np.array(b)
        b.append(nb)
        q.append(w / nb)


class C03(Check):
    id = "C03"
    quick_runs, quick_cap = 1600, 70
    thorough_runs, thorough_cap = 100000, 900
    rule = ("a run is non-trivial when two or more ranks finished a tridiagonalisation (or reported the zero start "
            "vector); distinct = different schedule hashes")
    real_parts = ("edpyt/lanczos.py", "edpyt/matvec_product.py", "edpyt/vector_transpose.py", "edpyt/tridiag.py",
                  "edpyt/_psparse", "scipy LAPACK (stebz, stein, stemr)")
    stub_parts = ("MPI library", "numba")
    assumptions = ("an allreduce gives every rank the same value (MPI recommends, and libraries do, for one communicator)",)

    def load(self):
        from edpyt import matvec_product, build_mb_ham, lanczos, tridiag
        self.mp, self.bm, self.lz, self.td = matvec_product, build_mb_ham, lanczos, tridiag

    def run(self, tape):
        from checks.c02 import sector
        lz = self.lz
        n = 2 + tape.choose(3, "n") if not tape.chance(1, 40, "large") else 5 + tape.choose(2, "n")
        nup = 1 + tape.choose(n - 1, "nup")
        ref = Fock(n, nup, nup)
        cand = [s for s in range(1, 7) if ref.ddw % s == 0]
        size = cand[-1 - tape.choose(len(cand), "size")]
        H, V = random_model(tape, n)
        D = ref.dense(spin_h(H), V)
        ops = self.bm.build_mb_ham(H, V, sector(n, nup, nup))
        rng = tape.np_rng("start")
        kind = tape.choose(6, "start-kind")    # 0-2 random, 3 zero, 4 zero on all ranks but one, 5 basis vector
        phi = rng.uniform(.1, 1, ref.d) * np.where(rng.rand(ref.d) < .5, -1, 1)
        loc = ref.d // size
        if kind == 3:
            phi[:] = 0.
        elif kind == 4:
            k = tape.choose(size, "only-rank")
            phi[:k * loc] = 0
            phi[(k + 1) * loc:] = 0
        elif kind == 5:
            phi[:] = 0.
            phi[tape.choose(ref.d, "basis")] = 1.
        elif tape.choose(2, "scaled"):
            phi *= 10. ** (tape.choose(9, "scale") - 4)
        ND = 2 + tape.choose(10, "ND")      # ND=1 always stops after one step
        vectors = tape.choose(2, "vectors")
        # what the second pass is asked for: ground pair, energies only, the lowest two, all
        ask = tape.pick(["ground", "ground", "ground", "energies", "two", "all"], "ask")
        maxn = tape.pick([None, None, None, 2 + tape.choose(6, "maxn")], "limited")
        sim = Sim(tape)
        w = mpi_world(sim, tape, size)
        if w.fail_plan:
            w.fail_plan = (tape.choose(60, "late-collective"),) + w.fail_plan[1:]
        if tape.choose(2, "preempt"):
            sim.enable_preemption(10)
        out = [None] * size

        def program(comm):
            r = comm.Get_rank()
            sl = slice(r * loc, (r + 1) * loc)
            mv = self.mp.matvec_operator(np.asarray(ops[0])[sl].copy(), ops[1], ops[2], comm=comm)
            try:
                a, b = lz.build_sl_tridiag(mv, phi[sl].copy(), ND=ND, comm=comm, **({"maxn": maxn} if maxn else {}))
            except lz.ZeroNormInitialVector:
                out[r] = "zero"
                return
            if vectors:
                if ask == "energies":
                    e = lz.sl_solve(mv, a, b, select=2, eigvals_only=True, comm=comm)
                    x = None
                elif ask == "two" and a.size > 1:
                    e, x = lz.sl_solve(mv, a, b, v0=phi[sl].copy(), select=2, select_range=(0, 1), comm=comm)
                else:
                    e, x = lz.sl_solve(mv, a, b, v0=phi[sl].copy(), select=0 if ask == "all" else 2, comm=comm)
                out[r] = (a.copy(), b.copy(), np.array(e), x if x is None else np.array(x))
            else:
                out[r] = (a.copy(), b.copy())
        w.spawn(program)
        try:
            sim.run()
        finally:
            fill(self, sim, w, {"ranks": size, "n": n, "sector": [nup, nup], "start": kind, "ND": ND},
                 nontrivial=size > 1 and all(o is not None for o in out))
        survivors(w)
        if w.failed is None:
            for t in w.tasks:
                expect_ok(t, "rank")
        got = [o for o in out if o is not None]
        if not got:
            return
        if kind == 3:
            for o in got:
                if not isinstance(o, str):
                    raise Violation("zero-start-not-reported", f"a rank returned {o[0].size} coefficients")
            self.info["probes"]["zero-start"] = 1
            return
        if any(isinstance(o, str) for o in got):
            raise Violation("false-zero-start", f"start kind {kind}: norm {np.linalg.norm(phi)}")
        # every rank holds the same coefficients
        for o in got[1:]:
            if o[0].size != got[0][0].size:
                raise Violation("ranks-disagree", f"{o[0].size} and {got[0][0].size} coefficients")
            close(o[0], got[0][0], "agreement", 1e-12, 1e-12)
            close(o[1], got[0][1], "agreement", 1e-12, 1e-12)
        a, b = got[0][:2]
        q, ra, rb = krylov(D, phi)
        k = min(a.size, ra.size, 5)
        close(a[:k], ra[:k], "coefficient-a", 1e-6, 1e-6)
        close(b[:k], rb[:k], "coefficient-b", 1e-6, 1e-6)
        if maxn and a.size > maxn:
            raise Violation("too-many-steps", f"{a.size} coefficients, {maxn} allowed")
        if b.size != a.size:
            raise Violation("coefficients-do-not-match", f"{a.size} and {b.size}")
        exact = np.linalg.eigvalsh(q @ D @ q.T)[0]
        ritz = np.linalg.eigvalsh(np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1))
        egs = ritz[0]
        short = maxn is not None and a.size >= maxn - 1
        if short and a.size <= min(ra.size, 6):      # the space itself was cut
            m = a.size
            close(egs, np.linalg.eigvalsh(q[:m] @ D @ q[:m].T)[0], "ground-energy", 1e-5, 1e-5)
        elif ND >= 4 and not short and a.size <= ra.size:
            close(egs, exact, "ground-energy", 1e-5, 1e-5)
        elif ND >= 4 and not short:
            # rounding has carried the run past the Krylov space, towards states with no weight in the start vector
            close(min(egs, exact), egs, "ground-energy", 1e-5, 1e-5)
            low = np.linalg.eigvalsh(D)[0]
            close(max(egs, low), egs, "ground-energy", 1e-5, 1e-5)
        if vectors and w.failed is None and len(got) == size:
            want = ritz[:{"two": 2, "all": a.size}.get(ask, 1)]
            for o in got:
                if o[2].shape != want.shape or (o[3] is not None and o[3].shape != (loc, want.size)):
                    raise Violation("wrong-number-of-pairs", f"{o[2].shape} energies, vectors {np.shape(o[3])} for {ask}")
                close(o[2], want, "ground-energy", 1e-7, 1e-7)
            if got[0][3] is not None and a.size <= min(ra.size, 12 if ask in ("ground", "energies") else 7):
                # beyond that the unorthogonalised vectors are ghosts
                m = a.size
                P = q[:m]
                for k in range(want.size):
                    x = np.concatenate([o[3][:, k] for o in got])
                    y = P @ x
                    res = np.linalg.norm(P @ (D @ x) - want[k] * y)      # Ritz pair of the space
                    if abs(np.linalg.norm(x) - 1) > 1e-4 or abs(np.linalg.norm(y) - 1) > 1e-4 or res > 1e-3:
                        raise Violation("wrong-ground-state", f"pair {k}: norm {np.linalg.norm(x)}, in the space {np.linalg.norm(y)}, residual {res}")
                    if k == 0 and not short and ND >= 4 and np.linalg.norm(D @ x - exact * x) > 1e-3:
                        raise Violation("wrong-ground-state", f"residual {np.linalg.norm(D @ x - exact * x)}")
                self.info["probes"]["ground-state"] = 1


CHECK = C03()
