"""C11: Green's functions and occupations answered from one solved spectrum shared by several clients."""
import warnings

import numpy as np

from checks.common import *
from checks.dense import FullX, exchange, numbers
from sim.harness import Check
from sim.runtime import Garbage


class Shared(Check):
    real_parts = ("edpyt/gf_lanczos.py", "edpyt/gf_exact.py", "edpyt/gf2_lanczos.py", "edpyt/gf2_exact.py", "edpyt/observs.py",
                  "edpyt/espace.py, build_mb_ham.py, lanczos.py, tridiag.py", "edpyt/_psparse, edpyt/_continued_fraction", "LAPACK (numpy, scipy)")
    stub_parts = ("threads", "numba (functions run uncompiled)", "contents of uninitialised arrays")
    assumptions = ("frequencies at least 0.3 off the real axis, where the Lanczos expansion of up to 36 states is converged to the tolerance",)
    rule = ("a run is non-trivial when two or more clients queried the same spectrum at once, or a fault hit a query; distinct = different "
            "schedule hashes")

    def load(self):
        from edpyt import espace, gf_lanczos, gf_exact, gf2_lanczos, gf2_exact, observs
        self.es, self.gl, self.ge, self.g2l, self.g2e, self.ob = espace, gf_lanczos, gf_exact, gf2_lanczos, gf2_exact, observs

    # ------------------------------------------------------------ reference
    def reference(self, n, H, V, esp, egs):
        """Weights and amplitudes of every kept state: list of (E, vector in the full space)."""
        x = exchange(n, n, V.get("Jx"), V.get("Jp")) if isinstance(V, dict) else None
        f = FullX(n, spin_h(H), V["U"] if isinstance(V, dict) else V, x)
        kept = []
        for (a, b), s in esp.items():
            up = np.array([sum(1 << i for i in range(n) if (w >> i) & 1) for w in _words(n, a)])
            dw = np.array(_words(n, b))
            idx = (up[None, :] | (dw[:, None] << n)).ravel()
            for k in range(s.eigvals.size):
                v = np.zeros(1 << 2 * n)
                v[idx] = s.eigvecs[:, k]
                kept.append((s.eigvals[k], v))
        amp = {}
        from checks.dense import annihilators
        c = annihilators(2 * n)

        def amps(level):
            if level not in amp:
                amp[level] = [(f.U.T @ (c[level].T @ v), f.U.T @ (c[level] @ v)) for _, v in kept]
            return amp[level]

        def gf(z, beta, i, j, spin):
            w = np.array([np.exp(-beta * (E - egs)) for E, _ in kept])
            e, h = np.zeros(z.size, complex), np.zeros(z.size, complex)
            for k, (E, _) in enumerate(kept):
                pi, pj = amps(spin * n + i)[k], amps(spin * n + j)[k]
                e += w[k] * ((pi[0] * pj[0])[None, :] / (z[:, None] - (f.E - E)[None, :])).sum(1)
                h += w[k] * ((pi[1] * pj[1])[None, :] / (z[:, None] + (f.E - E)[None, :])).sum(1)
            return e / w.sum(), h / w.sum()

        def occ(beta):
            w = np.array([np.exp(-beta * (E - egs)) for E, _ in kept])
            p = sum(x * v ** 2 for x, (_, v) in zip(w, kept)) / w.sum()
            return (numbers(2 * n) @ p).reshape(2, n)
        return gf, occ

    # ------------------------------------------------------------ queries
    @staticmethod
    def points(tape):
        if tape.chance(1, 25, "many"):
            return 20 + tape.choose(250, "points")
        return 1 + tape.choose(4, "points")

    def draw(self, tape, n, full):
        raise NotImplementedError

    def run(self, tape):
        rng = tape.np_rng("points")
        n = tape.pick(self.sizes, "n")
        H, V = random_model(tape, n)
        k = tape.choose(4, "degenerate")
        if k == 3:       # particle-hole symmetric: many degenerate sectors
            H = np.zeros((n, n))
            t = round(float(rng.uniform(.2, 1)), 3)
            for i in range(n - 1):
                H[i, i + 1] = H[i + 1, i] = t * tape.choose(2, "bond")
            U = round(float(rng.uniform(0, 3)), 3)
            V = np.eye(n) * U
            H[np.arange(n), np.arange(n)] = -U / 2
        kind = tape.choose(4, "spectrum")      # 0 full, 1 screened at low T, 2 screened, 3 few states per sector
        if n > 1 and tape.choose(4, "exchange") == 3:
            def sym():
                J = np.triu(np.round(rng.uniform(-.5, .5, (n, n)), 3), 1)
                return J + J.T
            V = {"U": V}
            k = tape.choose(3, "terms")
            if k < 2:
                V["Jx"] = sym()
            if k > 0:
                V["Jp"] = sym()
        keepH, keepV = H.copy(), {k: v.copy() for k, v in V.items()} if isinstance(V, dict) else V.copy()
        Garbage.kind = tape.choose(3, "garbage")
        Sim.current = None
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            neig = None
            if kind == 3:
                neig = np.array([1 + tape.choose(3, "states") for _ in range((n + 1) ** 2)])
                neig = np.minimum(neig, self.es.get_espace_dim(n))
            esp, egs = self.es.build_espace(H, V, neig) if kind == 3 else self.es.build_espace(H, V)
            if kind == 1:
                self.es.screen_espace(esp, egs)
            if kind == 2:
                self.es.screen_espace(esp, egs, 10. ** tape.choose(3, "screen-beta"), .2)
            gf, occ = self.reference(n, H, V, esp, egs)
            snap = {q: (s.eigvals.copy(), s.eigvecs.copy(), [np.array(x) for x in s.states], s.d) for q, s in esp.items()}
            nt = 1 + tape.choose(4, "clients")
            plans = []
            for c in range(nt):
                qs = []
                for _ in range(1 + tape.choose(3, "queries")):
                    q = self.draw(tape, n, kind == 0)
                    q.update(beta=10. ** (tape.choose(4, "beta") - 1), spin=tape.choose(2, "spin"),
                             z=np.round(rng.uniform(-3, 3, self.points(tape)), 2) + 1j * round(float(rng.uniform(.3, 1)), 2))
                    qs.append(q)
                plans.append(qs)
            sim = Sim(tape, max_yields=20000000)
            sim.enable_preemption(11)
            st = dict(done=0, failed=0)

            def intact(where):
                if list(esp) != list(snap):
                    raise Violation("spectrum-changed", f"sectors {list(esp)}, were {list(snap)} after {where}")
                for q, (e, x, s, d) in snap.items():
                    sc = esp[q]
                    if sc.eigvals.shape != e.shape or not np.array_equal(sc.eigvals, e) or sc.eigvecs.shape != x.shape or \
                            not np.array_equal(sc.eigvecs, x) or sc.d != d:
                        raise Violation("spectrum-changed", f"sector {q} holds {sc.eigvals.size} states of {x.shape}, had {e.size} after {where}")
                    for u, v in zip(sc.states, s):
                        same(np.array(u), v, "basis-states")
                same(H, keepH, "caller-matrix")
                if isinstance(V, dict):
                    if set(V) != set(keepV):
                        raise Violation("caller-matrix", f"{set(V)}")
                    for k in V:
                        same(V[k], keepV[k], "caller-matrix")
                else:
                    same(V, keepV, "caller-matrix")

            def client(k):
                def go():
                    earlier = []
                    for q in plans[k]:
                        try:
                            results = self.query(n, H, V, esp, egs, q)
                        except INJECTED:
                            st["failed"] += 1
                            intact("a failed query")
                            results = self.query(n, H, V, esp, egs, q)
                        intact(q["what"])
                        earlier.append((results, q))
                        try:
                            self.compare(results, q, n, gf, occ)
                        except INJECTED:
                            st["failed"] += 1
                            self.compare(results, q, n, gf, occ)
                        st["done"] += 1
                    for results, q in earlier:
                        try:
                            self.compare(results, q, n, gf, occ)
                        except INJECTED:
                            st["failed"] += 1
                            self.compare(results, q, n, gf, occ)
                    intact("evaluation")
                return go
            for c in range(nt):
                sim.spawn(f"c{c}", client(c))
            if tape.chance(1, 3, "fault?"):
                kd = tape.pick(["memory", "interrupt"], "fault-kind")
                sim.plan_fault(1 + tape.choose(1 << tape.choose(13, "fault-exp"), "fault-at"),
                               InjectedMemoryError if kd == "memory" else InjectedInterrupt, kd)
            try:
                sim.run()
            finally:
                Garbage.kind = 0
                fill(self, sim, None, {"n": n, "spectrum": kind, "states": sum(len(x[0]) for x in snap.values()),
                                       "clients": [[q["what"] for q in p] for p in plans]},
                     nontrivial=nt > 1 or st["failed"], extra=dict({"queries": st["done"]}, **{"n=%d" % n: 1, "spectrum-%d" % kind: 1}))
        for t in sim.tasks:
            expect_ok(t, "client")
        if st["failed"] > 1:
            raise Violation("fault-not-contained", f"{st}")


def _words(n, k):
    return [s for s in range(1 << n) if bin(s).count("1") == k]


class C11(Shared):
    id = "C11"
    sizes = (1, 2, 2, 3, 3, 3, 4)
    quick_runs, quick_cap = 640, 100
    min_runs = 200
    thorough_runs, thorough_cap = 100000, 900

    def draw(self, tape, n, full):
        w = tape.choose(4, "what")
        if w == 0:
            return dict(what="occupation")
        if w == 3 and full:
            return dict(what="exact", pos=tape.choose(n, "pos"))
        return dict(what="lanczos", pos=tape.choose(n, "pos"), repr=tape.pick(["cf", "sp"], "repr"), separate=bool(tape.choose(2, "separate")))

    def query(self, n, H, V, esp, egs, q):
        if q["what"] == "occupation":
            return self.ob.get_occupation(esp, egs, q["beta"], n)
        if q["what"] == "exact":
            return self.ge.build_gf_exact(H, V, esp, q["beta"], egs, q["pos"], q["spin"])
        return self.gl.build_gf_lanczos(H, V, esp, q["beta"], egs, q["pos"], repr=q["repr"], ispin=q["spin"], separate=q["separate"])

    def compare(self, r, q, n, gf, occ):
        if q["what"] == "occupation":
            close(np.array(r), occ(q["beta"]), "occupation", 1e-9, 1e-9)
            return
        z = q["z"]
        if "ref" not in q:
            q["ref"] = [gf(w, q["beta"], q["pos"], q["pos"], q["spin"]) for w in (z, z + .5)]
        (e, h), (e2, h2) = q["ref"]
        if q["what"] == "lanczos" and q["separate"]:
            got = [(r[0], e, e2), (r[1], h, h2)]
        else:
            got = [(r, e + h, e2 + h2)]
        for g, want, want2 in got:
            x, eta = z.real + .5, z.imag.copy()       # one frequency array, used twice
            first = g(x, eta)
            x -= .5
            out = g(x, eta)
            close(np.asarray(out) + np.zeros(z.size), want, "green-function", 1e-5, 1e-5)
            close(np.asarray(first) + np.zeros(z.size), want2, "earlier-answer", 1e-5, 1e-5)
            if isinstance(out, np.ndarray):
                out[...] = np.nan      # the caller owns what it got
            close(np.asarray(g(z[0].real, z[0].imag)).ravel()[:1] + 0j, want[:1], "green-function", 1e-5, 1e-5)


CHECK = C11()
