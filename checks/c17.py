"""C17: the Python bath fit and the impurity models that own a bath: several clients, failures half-way, any history."""
import warnings

import numpy as np

from checks.common import *
from checks.fitlib import chi2
from sim.harness import Check
from sim.runtime import Garbage


STEPS = 12         # of the conjugate gradient search


def start_bath(nbath, bandwidth=2.):
    """The documented energies: equally spaced, even numbers with a pair next to zero."""
    x = np.full(2 * nbath, max(.1, 1 / np.sqrt(nbath)))
    h = nbath // 2
    if nbath % 2:
        e = [-bandwidth + bandwidth / h * j for j in range(h)] + [0.] + [bandwidth - bandwidth / h * j for j in reversed(range(h))] if h else [bandwidth]
    elif nbath == 2:
        e = [-bandwidth, bandwidth]
    else:
        d = bandwidth / max(h - 1, 1)
        e = [-bandwidth + d * j for j in range(h - 1)] + [-.1, .1] + [bandwidth - d * j for j in reversed(range(h - 1))]
    x[:nbath] = e
    return x


def hyb(x, z):
    n = len(x) // 2
    return (x[None, n:] ** 2 / (np.atleast_1d(z)[:, None] - x[None, :n])).sum(1)


class C17(Check):
    id = "C17"
    quick_runs, quick_cap = 280, 60
    min_runs = 60
    thorough_runs, thorough_cap = 100000, 900
    rule = ("a run is non-trivial when two or more clients fitted at once, one client fitted several times, or a fault hit a fit; "
            "distinct = different schedule hashes")
    real_parts = ("edpyt/fit_cg.py", "edpyt/dmft.py Delta, Gfimp, SpinGfimp (without solving)", "scipy.optimize.fmin_cg (pure Python)")
    stub_parts = ("threads", "numba (functions run uncompiled)", "contents of uninitialised arrays", "length of the conjugate gradient search (at most %d steps)" % STEPS)
    assumptions = ("a bath object belongs to one client; targets may be shared",)

    def load(self):
        import scipy.optimize as so
        real = so.fmin_cg

        def fmin_cg(*a, maxiter=None, **k):
            return real(*a, maxiter=min(STEPS, maxiter or STEPS), **k)
        if not getattr(so.fmin_cg, "short", False):
            fmin_cg.short = True
            so.fmin_cg = fmin_cg
        from edpyt import dmft, fit_cg
        self.dm, self.cg = dmft, fit_cg

    # what one client does to its object; also run beforehand, alone, on a twin
    def new(self, j):
        if j["owner"] == "raw":
            return self.cg.get_initial_bath(nbath=j["nb"], bandwidth=j["bandwidth"])
        if j["owner"] == "view":        # part of a larger array of the caller
            big = np.full((2 * j["nb"], 3), 7.)
            self.cg.get_initial_bath(p=big[:, 1], bandwidth=j["bandwidth"])
            return big[:, 1]
        if j["owner"] == "delta":
            return self.dm.Delta(j["nb"], j["nm"], j["beta"])
        cls = self.dm.Gfimp if j["owner"] == "imp" else self.dm.SpinGfimp
        return cls(j["nb"] + 1, j["nm"], 1., j["beta"])

    def baths(self, o, j):
        if j["owner"] in ("raw", "view"):
            return [o]
        if j["owner"] == "delta":
            return [o.x]
        if j["owner"] == "imp":
            return [o.Delta.x]
        return [g.Delta.x for g in o]

    def do(self, o, j, op):
        kind = op["op"]
        if kind == "reset":
            return self.cg.get_initial_bath(p=o, bandwidth=j["bandwidth"]) if j["owner"] in ("raw", "view") else o.reset_bath()
        t = op["target"]
        if kind == "fit":
            if j["owner"] in ("raw", "view"):
                return self.cg.fit_hybrid(o, j["nm"], t, j["beta"])
            if j["owner"] == "spin":
                return o.fit(np.stack([t, op["target2"]]))
            return o.fit(t)
        if kind == "fit_update":
            if j["owner"] == "imp":
                return o.fit_update(t, op["mu"])
            if j["owner"] == "spin":
                return o.fit_update(np.stack([t, op["target2"]]), op["mu"])
            return self.do(o, j, dict(op, op="fit"))

    def check_object(self, o, j, op):
        """Bath, Hamiltonian and the functions of the object belong together."""
        z = op["z"]
        if j["owner"] in ("raw", "view"):
            if j["owner"] == "view" and not ((o.base[:, 0] == 7).all() and (o.base[:, 2] == 7).all()):
                raise Violation("neighbours-changed", "the rest of the caller's array")
            if not hasattr(self.cg, "_delta"):
                return
            got = self.cg._delta(o, z)
            close(np.asarray(got), hyb(o, z), "hybridisation", 1e-9, 1e-12)
            return
        parts = [o] if j["owner"] != "spin" else list(o)
        for p in parts:
            x = p.x
            ask = p if j["owner"] == "delta" else p.Delta
            close(np.asarray(ask(z)), hyb(x, z), "hybridisation", 1e-9, 1e-12)
            w = ask(complex(z[0]))
            close(np.asarray(w).ravel(), hyb(x, z[:1]), "hybridisation", 1e-9, 1e-12)
            if j["owner"] == "delta" or op["op"] == "reset":
                continue
            nb = j["nb"]
            H = np.asarray(p.H)
            want = np.zeros((nb + 1, nb + 1))
            want[0, 1:] = want[1:, 0] = x[nb:]
            want[range(1, nb + 1), range(1, nb + 1)] = x[:nb]
            want[0, 0] = -op["mu"] if op["op"] == "fit_update" else H[0, 0]
            close(H, want, "impurity-hamiltonian", 1e-12, 1e-12)
            close(np.asarray(p.free(z)), 1 / (z - H[0, 0] - hyb(x, z)), "free-function", 1e-8, 1e-10)
            close(np.asarray(p.free(z, inverse=True)), z - H[0, 0] - hyb(x, z), "free-function", 1e-8, 1e-10)

    def run(self, tape):
        rng = tape.np_rng("values")
        Garbage.kind = tape.choose(3, "garbage")
        Sim.current = None
        nt = 1 + tape.choose(3, "clients")
        targets = {}

        def target(nm, beta):
            """Shared between clients with the same mesh."""
            k = (nm, beta, tape.choose(3, "target"))
            if k not in targets:
                z = 1j * (2 * np.arange(nm) + 1) * np.pi / beta
                t = tape.choose(4, "kind-of-target")
                if t == 0:
                    v = hyb(np.concatenate([rng.uniform(-2, 2, 3), rng.uniform(.1, .8, 3)]), z)
                elif t == 1:
                    v = (z - 1j * np.sqrt(1 - z ** 2)) / 2 * round(float(rng.uniform(.3, 2)), 2)
                elif t == 2:
                    v = -1j * np.full(nm, round(float(rng.uniform(.05, .6)), 3)) + round(float(rng.uniform(-.5, .5)), 3)
                else:
                    v = rng.normal(size=nm) * .2 - 1j * abs(rng.normal(size=nm)) * .4
                targets[k] = v
            return targets[k]
        jobs = []
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            nb, bw = 1 + tape.choose(12, "start-size"), round(float(rng.uniform(.5, 4)), 2)
            close(self.cg.get_initial_bath(nbath=nb, bandwidth=bw), start_bath(nb, bw), "initial-bath", 1e-12, 1e-12)
            for c in range(nt):
                j = dict(owner=tape.pick(["raw", "view", "delta", "imp", "imp", "spin"], "owner"), nb=1 + tape.choose(5, "nbath"),
                         nm=[3, 5, 8, 12][tape.choose(4, "nmats")], beta=[2., 10., 50.][tape.choose(3, "beta")],
                         bandwidth=[2., 2., 1., 3.5][tape.choose(4, "bandwidth")])
                if tape.chance(1, 20, "many"):
                    j["nm"] = 40 + tape.choose(260, "nmats")
                if jobs and tape.choose(3, "alike"):
                    j.update(nm=jobs[0]["nm"], beta=jobs[0]["beta"])
                if j["owner"] not in ("raw", "view"):
                    j["bandwidth"] = 2.
                j["ops"] = []
                for _ in range(1 + tape.choose(3, "ops")):
                    op = dict(op=tape.pick(["fit", "fit", "fit_update", "reset"], "op"), mu=round(float(rng.uniform(-1, 2)), 3),
                              z=rng.normal(size=4) + 1j * rng.uniform(.1, 1, 4))
                    op["target"], op["target2"] = target(j["nm"], j["beta"]), target(j["nm"], j["beta"])
                    j["ops"].append(op)
                twin = self.new(j)
                for b in self.baths(twin, j):
                    close(b, start_bath(j["nb"], j["bandwidth"]), "initial-bath", 1e-12, 1e-12)
                for op in j["ops"]:
                    before = [b.copy() for b in self.baths(twin, j)]
                    self.do(twin, j, op)
                    op["want"] = [b.copy() for b in self.baths(twin, j)]
                    if op["op"] == "reset":
                        for b in op["want"]:
                            close(b, start_bath(j["nb"], j["bandwidth"]), "initial-bath", 1e-12, 1e-12)
                    else:
                        for b0, b1, t in zip(before, op["want"], [op["target"], op["target2"]]):
                            self.judge(b0, b1, t, j)
                    self.check_object(twin, j, op)
                jobs.append(j)
        kept = {k: v.copy() for k, v in targets.items()}
        sim = Sim(tape, max_yields=20000000)
        sim.enable_preemption([3, 6, 9][tape.choose(3, "grain")])
        cnt = dict(failed=0, done=0)

        def client(c):
            def go():
                j = jobs[c]
                while True:
                    try:
                        o = self.new(j)
                        break
                    except INJECTED:
                        cnt["failed"] += 1
                for op in j["ops"]:
                    while True:
                        before = [b.copy() for b in self.baths(o, j)]
                        try:
                            self.do(o, j, op)
                            break
                        except INJECTED:
                            cnt["failed"] += 1
                        if op["op"] == "reset":
                            continue
                        for b, old, new in zip(self.baths(o, j), before, op["want"]):
                            if not (b.tobytes() == old.tobytes() or np.allclose(b, new, 1e-9, 1e-9)):
                                raise Violation("half-fitted", f"{b}, was {old}, a complete fit gives {new}")
                            b[:] = old
                    for b, want in zip(self.baths(o, j), op["want"]):
                        close(b, want, "fit", 1e-9, 1e-9)
                    s = Sim.current.cur
                    s.atomic += 1           # judged between two steps of the others
                    try:
                        self.check_object(o, j, op)
                    finally:
                        s.atomic -= 1
                    for k, v in kept.items():
                        same(targets[k], v, "caller-target")
                    cnt["done"] += 1
                j["o"] = o
            return go
        for c in range(nt):
            sim.spawn(f"c{c}", client(c))
        if tape.chance(2, 5, "fault?"):
            kd = tape.pick(["memory", "interrupt"], "fault-kind")
            sim.plan_fault(1 + tape.choose(1 << tape.choose(15, "fault-exp"), "fault-at"),
                           InjectedMemoryError if kd == "memory" else InjectedInterrupt, kd)
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                sim.run()
        finally:
            Garbage.kind = 0
            fill(self, sim, None, {"clients": [(j["owner"], j["nb"], j["nm"], [o["op"] for o in j["ops"]]) for j in jobs]},
                 nontrivial=nt > 1 or cnt["failed"] or len(jobs[0]["ops"]) > 1, extra={"operations": cnt["done"]})
        for t in sim.tasks:
            expect_ok(t, "client")
        if cnt["failed"] > 1:
            raise Violation("fault-not-contained", f"{cnt}")
        for j in jobs:
            for b, want in zip(self.baths(j["o"], j), j["ops"][-1]["want"]):
                close(b, want, "fit", 1e-9, 1e-9)

    def judge(self, b0, b1, t, j):
        """Never worse than the start, and no direct improvement left where the search says it is done."""
        c0, c1 = chi2(b0, j["nm"], t, j["beta"]), chi2(b1, j["nm"], t, j["beta"])
        if not np.isfinite(c0):
            return
        if not c1 <= c0 * (1 + 1e-12) + 1e-30:
            raise Violation("fit-worse-than-start", f"misfit {c1}, start {c0}")
        g0, g1 = self.slope(b0, t, j), self.slope(b1, t, j)
        if g0 > 1e-3 and c1 > c0 * (1 - 1e-9):
            raise Violation("fit-does-nothing", f"misfit stays at {c0} although its slope is {g0}")

    @staticmethod
    def slope(x, t, j):
        n = len(x) // 2
        z = 1j * (2 * np.arange(j["nm"]) + 1) * np.pi / j["beta"]
        r = hyb(x, z) - t
        d = np.concatenate([x[None, n:] ** 2 / (z[:, None] - x[None, :n]) ** 2, 2 * x[None, n:] / (z[:, None] - x[None, :n])], 1)
        return float(np.abs(2 * (r.conj()[:, None] * d).real.sum(0) / len(z)).max())


CHECK = C17()
