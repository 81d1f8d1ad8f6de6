"""C15: solving, screening and re-sizing the spectrum of sectors (the loop of the DED and DMFT drivers)."""
import warnings

import numpy as np

from checks.arpack import seam
from checks.c08 import dense_n
from checks.common import *
from sim.harness import Check
from sim.runtime import Garbage


class C15(Check):
    id = "C15"
    quick_runs, quick_cap = 800, 60
    thorough_runs, thorough_cap = 100000, 900
    rule = ("a run is non-trivial when two or more clients solved sectors at once, or a fault hit a solve; distinct = different "
            "schedule hashes")
    real_parts = ("edpyt/espace.py", "edpyt/build_mb_ham.py and edpyt/ham_*.py", "edpyt/matvec_product.py", "edpyt/eigh_arpack.py",
                  "ARPACK", "LAPACK (numpy)", "edpyt/_psparse")
    stub_parts = ("scipy's ARPACK lock", "start vectors (seeded)", "numba (functions run uncompiled)")
    assumptions = ("random models have no exact degeneracy in the sectors ARPACK solves",)

    def load(self):
        self.seam = seam()
        from edpyt import espace, sector
        self.es, self.sec = espace, sector

    # what the sectors of one model hold
    def reference(self, n, H, V, sym, qns):
        if sym == "N":
            m = dense_n(n, qns[0], spin_h(H), V, False, 0., None, None, None)
        else:
            m = Fock(n, *qns).dense(spin_h(H), V)
        return m, np.linalg.eigvalsh(m)

    def run(self, tape):
        big = tape.choose(12, "arpack") == 11
        sym = "sz" if big or tape.choose(4, "symmetry") < 3 else "N"
        rng = tape.np_rng("neig")
        if big:
            n = 7
            H, V = random_model(tape, n, sparse=False)
        else:
            n = 1 + tape.choose(3 if sym == "sz" else 2, "n")
            H, V = random_model(tape, n)
        keep = H.copy(), V.copy()
        dims = {}
        if sym == "sz":
            for a, b in np.ndindex(n + 1, n + 1):
                dims[(a, b)] = int(round(len_comb(n, a) * len_comb(n, b)))
        else:
            for a in range(2 * n + 1):
                dims[(a,)] = int(round(len_comb(2 * n, a)))
        keys = list(dims)
        refs = {}

        def ref(q):
            if q not in refs:
                refs[q] = self.reference(n, H, V, sym, q)
            return refs[q]
        # number of states to ask for
        neig = np.zeros(len(keys), int)
        if big:
            neig[keys.index(tape.pick([(2, 3), (3, 2), (4, 2)], "big-sector"))] = 1 + (tape.choose(30, "k") if tape.chance(1, 3, "many") else tape.choose(5, "k"))
            neig[keys.index(tape.pick([(0, 0), (1, 1), (1, 2), (6, 7)], "small-sector"))] = 1
            rounds, nt = 1, 1 + tape.choose(2, "threads")
        else:
            k = tape.choose(3, "neig-kind")
            for i, q in enumerate(keys):
                neig[i] = dims[q] if k == 0 else min(dims[q], 1 + tape.choose(4, "k")) if k == 1 else tape.choose(dims[q] + 1, "k0")
            if not neig.any():
                neig[tape.choose(len(keys), "one")] = 1
            rounds, nt = 1 + tape.choose(4, "rounds"), 1 + tape.choose(3, "threads")
        beta, cutoff = 10. ** (tape.choose(5, "beta") - 1), 10. ** -(1 + tape.choose(9, "cutoff"))
        mode = tape.choose(5, "mode")     # 0-2 no fault, 3 fault at a yield point, 4 ARPACK code or limit
        plan, limit = None, 0
        if big and mode == 4:
            if tape.choose(2, "which"):
                limit = 1 + tape.choose(6, "limit")
            else:
                plan = (1 + tape.choose(nt, "at"),) + tape.pick([("dsaupd", -9), ("dsaupd", -8), ("dseupd", -14)], "code")
        self.seam.reset(rng, plan, limit)
        sim = Sim(tape, max_yields=20000000)
        sim.enable_preemption(12 if big else 9)
        Garbage.kind = tape.choose(3, "garbage")
        st = dict(failed=0, solved=0, rounds=0, screened=0, partial=0)
        default = not big and k == 0 and tape.choose(2, "default")

        def verify(esp, egs, ask):
            got = list(esp)
            if [q for q in keys if q in esp] != got:
                raise Violation("sector-order", f"{got}")
            low = np.inf
            for i, q in enumerate(keys):
                if not ask[i]:
                    if q in esp:
                        raise Violation("unasked-sector", f"{q}")
                    continue
                if q not in esp:
                    if limit and big:
                        st["partial"] += 1
                        continue
                    raise Violation("missing-sector", f"{q}")
                m, e = ref(q)
                s = esp[q]
                if s.d != dims[q]:
                    raise Violation("wrong-dimension", f"{q}: {s.d}")
                nv = s.eigvals.size
                if nv != ask[i] and not (limit and big and nv < ask[i]):
                    raise Violation("wrong-number-of-states", f"{q}: {nv} of {ask[i]}")
                if s.eigvecs.shape != (s.d, nv):
                    raise Violation("wrong-shape", f"{q}: {s.eigvecs.shape}")
                r = np.abs(m @ s.eigvecs - s.eigvecs * s.eigvals).max()
                o = np.abs(s.eigvecs.T @ s.eigvecs - np.eye(nv)).max()
                if not (r < 1e-7 and o < 1e-7):
                    raise Violation("wrong-eigenpair", f"{q}: residual {r}, orthonormality {o}")
                if (np.diff(s.eigvals) < -1e-9).any():
                    raise Violation("wrong-order", f"{q}: {s.eigvals}")
                if nv == ask[i] and not (limit and big):
                    close(np.sort(s.eigvals), e[:nv], "eigenvalues", 1e-8, 1e-8)
                low = min(low, s.eigvals.min())
                st["solved"] += 1
            if low < np.inf:
                close(egs, low, "ground-energy", 1e-12, 1e-12)

        def screen(esp, egs):
            before = {q: (s.eigvals.copy(), s.eigvecs.copy()) for q, s in esp.items()}
            try:
                self.es.screen_espace(esp, egs, beta, cutoff)
            except INJECTED:
                st["failed"] += 1
                # a second call finishes the job
                self.es.screen_espace(esp, egs, beta, cutoff)
            for q, (e, x) in before.items():
                w = np.exp(-beta * (e - egs))
                clear = np.abs(w - cutoff) > 1e-6 * cutoff
                stay = w > cutoff
                if not clear.all():
                    continue
                if (q in esp) != bool(stay.any()):
                    raise Violation("wrong-screening", f"{q}: weights {w}, cutoff {cutoff}")
                if q in esp:
                    same(esp[q].eigvals, e[stay], "screened-values")
                    same(np.ascontiguousarray(esp[q].eigvecs), np.ascontiguousarray(x[:, stay]), "screened-vectors")
            if not set(esp) <= set(before):
                raise Violation("wrong-screening", "new sectors")
            st["screened"] += 1

        def client(c):
            def go():
                ask = neig.copy()
                r = 0
                while r < rounds:
                    given = ask.copy()
                    try:
                        if default and r == 0:
                            esp, egs = self.es.build_espace(H, V, symmetry=sym)
                        else:
                            esp, egs = self.es.build_espace(H, V, given, symmetry=sym)
                    except INJECTED:
                        st["failed"] += 1
                        continue
                    except RuntimeError as err:
                        if plan and self.seam.fired.get("arpack-error") and not st.get("coded"):
                            st["coded"] = 1
                            st["failed"] += 1
                            continue
                        raise
                    finally:
                        same(H, keep[0], "caller-matrix")
                        same(V, keep[1], "caller-matrix")
                        same(given, ask, "caller-numbers")
                    verify(esp, egs, ask)
                    screen(esp, egs)
                    r += 1
                    st["rounds"] += 1
                    if sym == "N" or big:
                        break
                    # re-size for the next round
                    want = ask.copy()
                    for i, q in enumerate(keys):
                        if q not in esp or esp[q].eigvals.size < ask[i]:
                            want[i] = max(1, ask[i] - 1)
                        elif esp[q].eigvals.size == ask[i]:
                            want[i] = min(dims[q], ask[i] + 1)
                    try:
                        self.es.adjust_neigsector(esp, ask, n)
                    except INJECTED:      # the numbers stay usable
                        st["failed"] += 1
                        if (ask < 0).any() or (ask > [max(1, d) for d in dims.values()]).any():
                            raise Violation("numbers-out-of-range", f"{ask}")
                        ask = want.copy()
                    same(ask, want, "next-numbers")
            return go
        for c in range(nt):
            sim.spawn(f"c{c}", client(c))
        if mode == 3:
            kind = tape.pick(["memory", "interrupt"], "fault-kind")
            sim.plan_fault(1 + tape.choose(1 << tape.choose(14 if big else 12, "fault-exp"), "fault-at"),
                           InjectedMemoryError if kind == "memory" else InjectedInterrupt, kind)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                sim.run()
        finally:
            Garbage.kind = 0
            steps = self.seam.steps
            self.seam.reset()
            fill(self, sim, None, {"n": n, "symmetry": sym, "arpack": big, "threads": nt, "rounds": rounds, "beta": beta,
                                   "cutoff": cutoff}, nontrivial=nt > 1 or st["failed"],
                 extra={"sectors": st["solved"], "rounds": st["rounds"], "arpack steps": steps, "partial": st["partial"],
                        "screenings": st["screened"]})
        for t in sim.tasks:
            expect_ok(t, "client")
        if st["failed"] > 1:
            raise Violation("fault-not-contained", f"{st}")


def len_comb(n, k):
    import math
    return math.comb(n, k)


CHECK = C15()
