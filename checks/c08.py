"""C08: assembly of the many-body Hamiltonian is exact, repeatable, and leaves its inputs alone."""
import itertools

import numpy as np

from checks.common import *
from sim.harness import Check
from sim.runtime import Garbage


def dense_n(n, N, H, U, hf, mu, z, Jx, Jp):
    """Dense reference on the sector of N electrons in 2n levels (up: 0..n-1, down: n..2n-1).  Hopping is
    documented as not implemented in this symmetry."""
    states = [s for s in range(1 << 2 * n) if bin(s).count("1") == N]
    ix = {s: i for i, s in enumerate(states)}
    m = np.zeros((len(states),) * 2)
    if z is None:
        z = np.ones(n) if hf else np.zeros(n)

    def act(s, ops):
        sg = 1
        for p, dag in reversed(ops):
            if bool((s >> p) & 1) == dag:
                return None
            sg *= (-1) ** bin(s & ((1 << p) - 1)).count("1")
            s ^= 1 << p
        return sg, s
    for col, s in enumerate(states):
        nu = np.array([(s >> i) & 1 for i in range(n)], float)
        nd = np.array([(s >> (i + n)) & 1 for i in range(n)], float)
        t = nu + nd - z
        e = ((np.diagonal(H[0]) + mu) * nu).sum() + ((np.diagonal(H[1]) + mu) * nd).sum()
        e += (((nu - .5) * (nd - .5) if hf else nu * nd) * np.diagonal(U)).sum()
        e += 0.5 * (t @ (U - np.diag(np.diagonal(U))) @ t)
        m[col, col] += e
        for i, j in itertools.permutations(range(n), 2):
            for a, b in itertools.product(range(2), repeat=2):
                if Jx is not None and abs(Jx[i, j]) > 1e-7:
                    r = act(s, [(i + a * n, True), (j + b * n, True), (i + b * n, False), (j + a * n, False)])
                    if r:
                        m[ix[r[1]], col] += .5 * Jx[i, j] * r[0]
                if Jp is not None and a != b and abs(Jp[i, j]) > 1e-7:
                    r = act(s, [(i + a * n, True), (i + b * n, True), (j + b * n, False), (j + a * n, False)])
                    if r:
                        m[ix[r[1]], col] += .5 * Jp[i, j] * r[0]
    return m


class C08(Check):
    id = "C08"
    quick_runs, quick_cap = 2400, 60
    thorough_runs, thorough_cap = 200000, 900
    rule = ("a run is non-trivial when two or more client threads or parallel-loop threads built the Hamiltonian, or a fault "
            "was injected into a build; distinct = different schedule hashes")
    real_parts = ("edpyt/build_mb_ham.py", "edpyt/ham_local.py", "edpyt/ham_hopping.py", "edpyt/ham_non_local.py",
                  "edpyt/matvec_product.py (dense form, serial product)", "edpyt/_psparse", "edpyt/sector.py",
                  "edpyt/operators.py", "edpyt/lookup.py")
    stub_parts = ("numba (functions run uncompiled; prange loops run on simulated threads)",)
    assumptions = ("matrices are symmetric, as the Hamiltonian must be",)

    def load(self):
        from edpyt import build_mb_ham, matvec_product, espace, shared
        self.bm, self.mp, self.es, self.sh = build_mb_ham, matvec_product, espace, shared

    def run(self, tape):
        n = 1 + tape.choose(4, "n")
        sz = tape.choose(3, "symmetry") < 2
        if not sz and n == 4:
            n = 3
        if tape.chance(1, 50, "large"):
            n = 5 if sz else 4
        H, U = random_model(tape, n)
        rng = tape.np_rng("exchange")
        if n > 1 and H.ndim == 2 and tape.choose(2, "related-spins"):
            H = related_spins(tape, H, rng)

        def exch(label):
            k = tape.choose(3, label)
            if k == 0 or n == 1:
                return None
            a = np.round(rng.uniform(-1, 1, (n, n)), 3)
            if tape.choose(2, label + "-sparse"):
                a[rng.rand(n, n) < .4] = 0.
            a = (a + a.T) / 2
            if k == 1:
                np.fill_diagonal(a, 0.)
            return a
        Jx, Jp = exch("Jx"), exch("Jp")
        if Jx is None and Jp is None and tape.choose(2, "plain"):
            V = U
        else:
            V = {"U": U}
            if Jx is not None:
                V["Jx"] = Jx
            if Jp is not None:
                V["Jp"] = Jp
        ro = tape.choose(3, "read-only")
        frozen = [H, U] + [x for x in (Jx, Jp) if x is not None]
        if ro:
            H.flags.writeable = False
        hf = bool(tape.choose(2, "hf"))
        mu = 0. if tape.choose(2, "mu") == 0 else round(float(rng.uniform(-2, 2)), 3)
        z = None if tape.choose(2, "z") == 0 else np.round(rng.uniform(0, 2, n), 3)
        if sz:
            nup, ndw = tape.choose(n + 1, "nup"), tape.choose(n + 1, "ndw")
            qn = (nup, ndw)
            ref = Fock(n, nup, ndw)
            Hs = spin_h(H)
            want = ref.dense(Hs, U, hf, mu, z, Jx, Jp)
        else:
            N = tape.choose(2 * n + 1, "N")
            qn = (N,)
            want = dense_n(n, N, spin_h(H), U, hf, mu, z, Jx, Jp)
        keep = [(x, x.copy(), x.flags.writeable) for x in frozen]
        sets = dict(hfmode=hf, mu=mu, z=z)
        Garbage.kind = tape.choose(3, "garbage")
        nt = 1 + tape.choose(3, "threads")
        sim = Sim(tape)
        if tape.choose(3, "preempt"):
            sim.enable_preemption(9)
        plan = []
        if tape.chance(1, 3, "fault?"):
            plan = [1 + tape.choose(1 << tape.choose(11, "fault-exp"), "fault-at")]
        vec = rng.uniform(-1, 1, want.shape[0])
        state = dict(faulted=0, built=0)

        def build():
            sct = self.es.build_empty_sector(n, *qn)
            ops = self.bm.build_mb_ham(H, V, sct)
            return self.mp.todense(*ops), self.mp.matvec_operator(*ops)

        def unchanged():
            for x, c, w in keep:
                same(x, c, "caller-matrix")
                if x.flags.writeable != w:
                    raise Violation("caller-flags-changed", f"writeable {x.flags.writeable}, was {w}")
            for k, v in sets.items():
                if self.sh.params[k] is not v and self.sh.params[k] != v:
                    raise Violation("settings-changed", f"{k}: {self.sh.params[k]!r}, was {v!r}")

        def client(k):
            def go():
                for attempt in range(2):
                    try:
                        D, mv = build()
                        got = mv(vec.copy())
                    except INJECTED:
                        state["faulted"] += 1
                        unchanged()
                        continue
                    close(D, want, "hamiltonian")
                    close(got, want @ vec, "product")
                    unchanged()
                    state["built"] += 1
            return go
        for k in range(nt):
            sim.spawn(f"c{k}", client(k))
        if plan:
            kind = tape.pick(["memory", "interrupt"], "fault-kind")
            sim.plan_fault(plan[0], InjectedMemoryError if kind == "memory" else InjectedInterrupt, kind,
                           sim.tasks[tape.choose(nt, "fault-task")])
        old = dict(self.sh.params)
        self.sh.params.update(sets)
        try:
            sim.run()
        finally:
            self.sh.params.clear()
            self.sh.params.update(old)
            Garbage.kind = 0
            fill(self, sim, None, {"n": n, "sector": list(qn), "Jx": Jx is not None, "Jp": Jp is not None, "hf": hf,
                                   "threads": nt}, nontrivial=nt > 1 or sim.probes.get("parallel-team") or state["faulted"],
                 extra={"builds": state["built"], "symmetry-" + ("Sz" if sz else "N"): 1})
        for t in sim.tasks:
            expect_ok(t, "client")
        if state["faulted"] > 1 or state["built"] != 2 * nt - state["faulted"]:
            raise Violation("fault-not-contained", f"{state}")


CHECK = C08()
