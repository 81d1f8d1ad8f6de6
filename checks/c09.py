"""C09: the ARPACK driver under concurrent callers, failing callbacks, error codes and iteration limits."""
import numpy as np

from checks.arpack import seam
from checks.common import *
from sim.harness import Check
from sim.runtime import Garbage


class CallbackError(Exception):
    pass


class C09(Check):
    id = "C09"
    quick_runs, quick_cap = 2400, 60
    thorough_runs, thorough_cap = 200000, 900
    rule = ("a run is non-trivial when two or more clients had solves in progress at once, or a fault hit a solve; "
            "distinct = different schedule hashes")
    real_parts = ("edpyt/eigh_arpack.py", "ARPACK (compiled, through scipy's f2py module)")
    stub_parts = ("scipy's ARPACK lock (owned by simulated tasks)", "start vector (seeded)", "threads")
    assumptions = ("an interleaving of two solves' reverse-communication calls is itself the violation: the real library keeps "
                   "state between the calls of one solve, and corrupts memory when they mix",)

    def load(self):
        self.seam = seam()
        from edpyt import eigh_arpack
        self.ea = eigh_arpack

    def run(self, tape):
        ea, seam = self.ea, self.seam
        rng = tape.np_rng("matrices")
        nt = 1 + tape.choose(3, "threads")
        mode = tape.choose(6, "mode")      # 0-1 none, 2 callback error, 3 fault in driver, 4 error code, 5 iteration limit
        jobs, problems = [], []
        for k in range(1 + tape.choose(3, "matrices")):
            n = 8 + tape.choose(33, "n")
            if tape.chance(1, 20, "large"):
                n = 41 + tape.choose(160, "n")
            A = rng.uniform(-1, 1, (n, n))
            A = (A + A.T) / 2
            problems.append((n, A, np.linalg.eigvalsh(A)))
        for k in range(nt):
            js = []
            for c in range(1 + tape.choose(3, "calls")):
                p = problems[tape.choose(len(problems), "problem")]
                nev = 1 + tape.choose(min(5, p[0] // 2), "nev")
                if tape.chance(1, 5, "many"):
                    nev = 1 + tape.choose(min(25, p[0] - 1), "nev")
                v0 = None
                if tape.choose(2, "v0"):
                    v0 = rng.uniform(-1, 1, p[0])
                js.append((p, nev, v0, tape.choose(8, "buffers") == 7, tape.choose(12, "nested") == 11))
            jobs.append(js)
        plan, limit = None, 0
        total = sum(len(j) for j in jobs)
        if mode == 4:
            plan = (1 + tape.choose(total, "at-solve"),) + tape.pick(
                [("dsaupd", -9), ("dsaupd", -8), ("dsaupd", -9999), ("dsaupd", -1), ("dseupd", -14), ("dseupd", -1),
                 ("dseupd", -15), ("dseupd", -16)], "code")
            if tape.choose(3, "and-limit") == 2:
                limit = 1 + tape.choose(8, "limit")
        if mode == 5:
            limit = 1 + tape.choose(8, "limit")
        fail_at = 1 + tape.choose(1 << tape.choose(8, "cb-exp"), "cb-at") if mode == 2 else 0
        sim = Sim(tape)
        sim.enable_preemption(7)
        seam.reset(rng, plan, limit)
        Garbage.kind = tape.choose(3, "garbage")
        st = dict(done=0, failed=0, cb=0, inside=0, overlap=0, nested=0, partial=0)

        def client(k):
            def go():
                mine = []
                for (n, A, e), nev, v0, buffers, nested in jobs[k]:
                    count = [0]

                    def matvec(x):
                        core.yield_point("callback")
                        st["cb"] += 1
                        count[0] += 1
                        if fail_at and st["cb"] == fail_at:
                            sim.fired("callback-error")
                            raise CallbackError("operator failed")
                        if nested and count[0] == 3:
                            st["nested"] += 1
                            try:
                                ea.eigsh(n, nev, lambda y: A @ y, v0)
                            except RuntimeError:      # refused
                                pass
                        return A @ x
                    v = None if v0 is None else v0.copy()
                    st["inside"] += 1
                    st["overlap"] += st["inside"] > 1
                    try:
                        prm = ea.ArpackParams(n, min(max(2 * nev + 1, 20), n), n, v) if buffers else None
                        d, z = ea.eigsh(n, nev, matvec, v, arpack_param=prm) if buffers else ea.eigsh(n, nev, matvec, v)
                    except INJECTED + (CallbackError,):
                        st["failed"] += 1
                        continue
                    except Exception as err:
                        if plan and (seam.fired.get("arpack-error")) and not st.get("coded") and not isinstance(
                                err, (Violation, LookupError, TypeError, AttributeError)):
                            st["coded"] = 1
                            if "normal exit" in str(err).lower():
                                raise Violation("wrong-error-code", f"{plan} reported as {err}")
                            st["failed"] += 1
                            continue
                        raise
                    finally:
                        st["inside"] -= 1
                    if v0 is not None:
                        same(v, v0, "start-vector")
                    self.verify(np.asarray(d), np.asarray(z), A, e, nev, limit)
                    st["partial"] += d.size < nev
                    mine.append((d, z, A, e, nev))
                    st["done"] += 1
                for m in mine:      # results handed out earlier stay valid
                    self.verify(*m, limit)
            return go
        for k in range(nt):
            sim.spawn(f"c{k}", client(k))
        if mode == 3:
            kind = tape.pick(["memory", "interrupt"], "fault-kind")
            sim.plan_fault(1 + tape.choose(1 << tape.choose(8, "fault-exp"), "fault-at"),
                           InjectedMemoryError if kind == "memory" else InjectedInterrupt, kind)
        try:
            sim.run()
        finally:
            Garbage.kind = 0
            fill(self, sim, None, {"threads": nt, "jobs": total, "mode": mode, "sizes": [p[0] for p in problems]},
                 nontrivial=st["overlap"] or st["failed"],
                 extra={"solves": st["done"], "overlapping": st["overlap"], "reverse-communication steps": seam.steps,
                        "nested": st["nested"], "partial": st["partial"]})
            seam.reset()
        for t in sim.tasks:
            expect_ok(t, "client")
        if plan and seam.fired.get("arpack-error") and not st.get("coded"):
            raise Violation("error-code-ignored", f"{plan}")
        if st["failed"] > 1 or st["done"] + st["failed"] != total:
            raise Violation("fault-not-contained", f"{st}")

    @staticmethod
    def verify(d, z, A, e, nev, limit):
        if z.shape != (A.shape[0], d.size):
            raise Violation("wrong-shape", f"values {d.shape}, vectors {z.shape}")
        if d.size != nev and not (limit and d.size < nev):
            raise Violation("missing-eigenvalues", f"{d.size} of {nev}")
        if not d.size:
            return
        r = np.abs(A @ z - z * d).max()
        if not r < 1e-7:
            raise Violation("wrong-eigenpair", f"residual {r}")
        if not np.abs(z.T @ z - np.eye(d.size)).max() < 1e-7:
            raise Violation("wrong-eigenpair", "vectors are not orthonormal")
        if not limit:
            close(np.sort(d), e[:nev], "eigenvalues", 1e-8, 1e-8)


CHECK = C09()
