"""C12: the DMFT self-consistency loop: convergence, steps, failures, restarts, loops side by side."""
import warnings

import numpy as np

from checks.common import *
from checks.dense import Full
from sim.harness import Check
from sim.runtime import Garbage


class StepError(np.linalg.LinAlgError):
    """The impurity solver gives up."""


def hilbert(z):
    return 2 * (z - 1j * np.sign(z.imag) * np.sqrt(1 - z ** 2))


class C12(Check):
    id = "C12"
    quick_runs, quick_cap = 280, 120
    min_runs = 100
    stall = 200
    thorough_runs, thorough_cap = 100000, 900
    rule = ("a run is non-trivial when two or more loops ran side by side, a fault hit a step, or a loop was restarted; distinct = "
            "different schedule hashes")
    real_parts = ("edpyt/dmft.py", "edpyt/nano_dmft.py", "edpyt/fit_cg.py", "edpyt/espace.py, build_mb_ham.py, gf_lanczos.py, lanczos.py",
                  "edpyt/integrate_gf.py", "scipy.optimize fmin_cg, broyden1, linearmixing (pure Python)")
    stub_parts = ("numba (functions run uncompiled)", "threads", "scipy's compiled brentq (same algorithm in Python, so that a loop can "
                  "be preempted inside it)", "frequency count of the occupation sum (fewer, so that runs are short)")
    assumptions = ("ground states closer than 2e-5 are kept by the loop's screening; runs where a level lies near that border are not "
                   "compared with the reference",)

    def load(self):
        from edpyt import dmft, nano_dmft, integrate_gf
        self.dm, self.nd = dmft, nano_dmft
        full = integrate_gf.matsum_gf

        def short(gf, mu=0., nmats=40, beta=8.):
            return full(gf, mu, nmats, beta)
        if hasattr(nano_dmft, "integrate_gf"):
            nano_dmft.integrate_gf = short
        self.short = short

    # ------------------------------------------------------------------ one loop
    def case(self, tape, rng):
        c = dict(kind=tape.choose(6, "lattice"))     # 0 Bethe, 1 hybrid, 2 Bethe magnetic, 3 nano, 4 nano magnetic, 5 nano + goal
        c["n"] = 2 + (tape.choose(8, "n") + 1) // 4 if c["kind"] < 2 else 2 + tape.choose(2, "n")
        if c["kind"] in (3, 4, 5):
            c["n"] = 2
        c["nmats"] = 4 + tape.choose(8, "nmats")
        if tape.chance(1, 16, "many"):
            c["nmats"] = 60 + tape.choose(100, "nmats")
        c["beta"] = float(tape.pick([8., 20., 40.], "beta"))
        c["max_iter"] = 1 + tape.choose(5, "max-iter")
        c["tol"] = tape.pick([1e-3, .05, .3, 2.], "tol")
        c["U"] = round(float(rng.uniform(0, 4)), 3)
        c["mu"] = None if tape.choose(2, "mu") == 0 else round(float(rng.uniform(-.5, 2.5)), 3)
        c["drive"] = tape.pick(["hand", "linear", "broyden"], "drive")
        c["field"] = round(float(rng.uniform(0, .6)), 3)
        c["sign"] = tape.pick([1, -1], "sign")
        c["alpha"] = tape.pick([0., 1.], "alpha")
        c["neig"] = tape.choose(5, "neig") if c["kind"] < 3 else 0
        if c["kind"] == 1:
            c["hyb"] = round(float(rng.uniform(.2, 1)), 3), round(float(rng.uniform(-1, 1)), 3)
        if c["kind"] >= 3:
            L = 2 + tape.choose(3, "sites")
            ne = 1 + tape.choose(min(2, L), "inequivalent")
            inv = np.array([i % ne for i in range(L)])
            rng.shuffle(inv)
            neq = np.array([int(np.flatnonzero(inv == i)[0]) for i in range(ne)])
            ed = np.round(rng.uniform(-.5, .5, ne), 3)
            if tape.choose(2, "same-site-energy"):
                ed[:] = ed[0]
            h = np.round(rng.uniform(-1, 1, (L, L)), 3)
            h = (h + h.T) / 2
            np.fill_diagonal(h, ed[inv])
            c.update(L=L, ne=ne, inv=inv, neq=neq, h=h, g=round(float(rng.uniform(.05, .5)), 3))
            if c["kind"] == 5:
                c["goal"] = np.round(rng.uniform(.2, 1.8, L), 3)
                if tape.choose(6, "bad-goal") == 5:
                    c["goal"] = c["goal"] + 9.
        return c

    def build(self, c, log, fail):
        """Fresh objects for one loop; `log` receives what happened, `fail(where, loop)` may raise or return NaN."""
        dm, nd = self.dm, self.nd
        n, nm, U, beta = c["n"], c["nmats"], c["U"], c["beta"]
        kw = {}
        if c["neig"] == 4:
            from math import comb
            kw = dict(neig=np.array([comb(n, a) * comb(n, b) for a in range(n + 1) for b in range(n + 1)]), adjust_neig=True)
        elif c["neig"] == 3:
            from math import comb
            kw = dict(neig=np.array([min(2, comb(n, a) * comb(n, b)) for a in range(n + 1) for b in range(n + 1)]))

        def watch(g):
            """Record what the bath of `g` is fitted to, at whichever of the two levels is used."""
            for o in (g, g.Delta):
                def fit(delta, f=o.fit):
                    before = g.Delta.x.copy()
                    d = np.array(delta)
                    f(delta)
                    log.append(("fit", g, d, before))
                o.fit = fit
            return g

        class Imp(dm.Gfimp):

            def solve(self):
                fail("solve")
                super().solve()

        class Spin(dm.SpinGfimp):
            def solve(self):
                fail("solve")
                super().solve()
        mag = c["kind"] in (2, 4)

        def one():
            if not mag:
                return watch(Imp(n, nm, U, beta, **kw))
            s = Spin(n, nm, U, beta, **kw)
            for g in s.gfimp:
                watch(g)
            return s
        if c["kind"] < 3:
            imp = one()
            if c["kind"] == 1:
                v, e = c["hyb"]
                loc = dm.Gfhybrid(lambda z: v ** 2 / (z - e))
            else:
                loc = dm.Gfhilbert(hilbert)
            imps = [imp]
        else:
            imps = [one() for _ in range(c["ne"])]
            imp = nd.Gfimp(imps)
            h, g = c["h"], c["g"]
            loc = nd.Gfloc(h, np.eye(c["L"]), lambda z: -1j * g * np.sign(z.imag) * np.eye(c["L"]), c["neq"].copy(), c["inv"].copy())
        check = self

        class Loop(dm.DMFT):
            def __call__(self, delta):
                log.append(("call", np.array(delta)))
                fail("call")
                r = super().__call__(delta)
                log.append(("returned", np.array(r)))
                return r

            def distance(self, delta):
                given = np.array(delta)
                r = super().distance(delta)
                last = [e for e in log if e[0] == "step"][-1]
                w = ((2 * np.arange(nm) + 1) * np.pi / beta) ** -c["alpha"]
                ok = ~(given.imag > 0)
                if np.all(np.isfinite(last[2])) and np.all(np.isfinite(given)):
                    close(np.where(ok, r, 0), np.where(ok, w * (last[2] - last[1]), 0), "residual", 1e-9, 1e-9)
                return r

            def step(self, delta):
                mu = self.gfloc.mu
                r = super().step(delta)
                if fail("step"):
                    r = (r[0], np.full_like(r[1], np.nan))
                log.append(("step", np.array(delta), np.array(r[1]), mu, r[0]))
                check.check_step(c, self, imps, delta, r, mu, log)
                return r
        lp = Loop(imp, loc, occupancy_goal=c.get("goal"), max_iter=c["max_iter"], tol=c["tol"], adjust_mu=c["kind"] == 5,
                  alpha=c["alpha"])
        close(lp.z, 1j * (2 * np.arange(nm) + 1) * np.pi / beta, "frequencies", 1e-12, 1e-12)
        return lp, imps

    # ------------------------------------------------------------------ reference of one step
    def check_step(self, c, loop, imps, delta, r, mu, log):
        if not (np.all(np.isfinite(r[1])) and np.all(np.isfinite(delta))):
            return
        z, n = loop.z, c["n"]
        mag = c["kind"] in (2, 4)
        ed = np.zeros(1) if c["kind"] < 3 else np.diagonal(c["h"])[c["neq"]]
        d = np.asarray(delta)
        d = d[None] if c["kind"] < 3 else d
        sig = []
        for k, g in enumerate(imps):
            Hs = np.stack([g[0].H, g[1].H]) if mag else np.stack([g.H, g.H])
            parts = [g[0], g[1]] if mag else [g]
            for s, p in enumerate(parts):
                x = p.Delta.x
                want = np.zeros((n, n))
                want[0, 0] = -(mu - ed[k])
                want[0, 1:] = want[1:, 0] = x[n - 1:]
                want[np.arange(1, n), np.arange(1, n)] = x[:n - 1]
                close(p.H, want, "impurity-model", 1e-9, 1e-9)
                close(p.mu if not mag else -p.H[0, 0], mu - ed[k], "impurity-potential", 1e-9, 1e-9)
                # the bath fits what it was given at least as well as the one it started from
                fits = [e for e in log if e[0] == "fit" and e[1] is p]
                if not fits:
                    raise Violation("bath-not-fitted", f"impurity {k}")
                given = d[k][s] if mag else d[k]
                close(fits[-1][2], given, "fitted-hybridisation", 1e-9, 1e-9)
                m = [np.mean(np.abs((y[n - 1:] ** 2 / (z[:, None] - y[:n - 1])).sum(1) - given) ** 2) for y in (fits[-1][3], x)]
                if not m[1] <= m[0] * (1 + 1e-9) + 1e-12:
                    raise Violation("bath-worse-than-before", f"misfit {m[1]}, before {m[0]}")
            V = np.zeros((n, n))
            V[0, 0] = c["U"]
            f = Full(n, Hs, V)
            de = f.E - f.egs
            if ((de > 1e-7) & (de < 1e-3)).any():
                self.info["counts"]["ambiguous"] = self.info["counts"].get("ambiguous", 0) + 1
                return
            keep = de < 2e-5
            if c["neig"] == 3:
                for sl in f.index.values():
                    if keep[sl].sum() > 2:
                        return
            ss = []
            for s in range(2 if mag else 1):
                G = f.gf(z, c["beta"], 0, 0, s, keep)
                x = (parts[s]).Delta.x
                D = (x[n - 1:] ** 2 / (z[:, None] - x[:n - 1])).sum(1)
                ss.append(z + mu - ed[k] - D - 1 / G)
            sig.append(np.stack(ss) if mag else ss[0])
        sig = sig[0] if c["kind"] < 3 else np.stack(sig)
        big = 1 + np.abs(sig).max()
        close(loop.gfloc.Sigma(z), sig, "self-energy", 1e-7, 1e-7 * big)
        mu2 = loop.gfloc.mu
        if c["kind"] == 5:
            occ = np.asarray(loop.gfloc.integrate(mu2))
            close(occ.sum(), c["goal"].sum(), "occupation", 1e-7, 1e-7)
            close(r[0], c["goal"].sum(), "reported-occupation", 1e-7, 1e-7)
            if not -20 <= mu2 <= 20:
                raise Violation("potential-out-of-bracket", f"{mu2}")
        else:
            close(mu2, mu, "lattice-potential", 1e-12, 1e-12)
        close(r[1], self.lattice(c, z, mu2, sig), "new-hybridisation", 1e-6, 1e-6 * big)
        self.info["counts"]["steps-compared"] = self.info["counts"].get("steps-compared", 0) + 1

    @staticmethod
    def lattice(c, z, mu, sig):
        """Delta(z) = z + mu - ed - Sigma - 1/Gloc"""
        if c["kind"] in (0, 2):
            return z + mu - sig - 1 / hilbert(z + mu - sig)
        if c["kind"] == 1:
            v, e = c["hyb"]
            return np.broadcast_to(v ** 2 / (z - e), sig.shape)
        L, neq, inv = c["L"], c["neq"], c["inv"]
        out = np.empty(sig.shape, complex)
        ed = np.diagonal(c["h"])
        for i in np.ndindex(*sig.shape[1:]):
            w = i[-1]
            s = sig[(slice(None),) + i]
            G = np.linalg.inv((z[w] + mu) * np.eye(L) - c["h"] + 1j * c["g"] * np.sign(z[w].imag) * np.eye(L) - np.diag(s[inv]))
            out[(slice(None),) + i] = z[w] + mu - ed[neq] - s - 1 / np.diagonal(G)[neq]
        return out

    # ------------------------------------------------------------------ driving a loop
    def start(self, c, loop):
        """Initial hybridisation from a vanishing (or magnetic) self-energy."""
        z = loop.z
        nz = z.size
        shape = {0: (nz,), 1: (nz,), 2: (nz,), 3: (c.get("ne"), nz), 4: (c.get("ne"), nz), 5: (c.get("ne"), nz)}[c["kind"]]
        zero = (lambda x: np.zeros(shape[:-1] + (np.size(x),), complex))
        mu = c["mu"] if c["mu"] is not None else c["U"] / 2
        if c["kind"] in (2, 4):
            d = loop.initialize_magnetic(c["U"], zero, c["sign"], c["field"], c["mu"])
            for k, g in enumerate(loop.gfimp.gfimp if c["kind"] == 4 else [loop.gfimp]):
                ed = 0. if c["kind"] == 2 else c["h"][c["neq"][k], c["neq"][k]]
                close([-g[0].H[0, 0], -g[1].H[0, 0]], [mu + c["sign"] * c["field"] - ed, mu - c["sign"] * c["field"] - ed],
                      "magnetic-start", 1e-9, 1e-9)
                same(g[0].Delta.x, g[1].Delta.x, "magnetic-start-bath")
                close(g[0].H[1:, :], g[1].H[1:, :], "magnetic-start-bath", 1e-12, 1e-12)
        else:
            d = loop.initialize(c["U"], zero, c["mu"])
            close(d, self.lattice(c, z, mu, np.zeros(shape, complex)), "initial-hybridisation", 1e-9, 1e-9)
            imps = loop.gfimp.gfimp if c["kind"] >= 3 else [loop.gfimp]
            for k, g in enumerate(imps):
                ed = 0. if c["kind"] < 3 else c["h"][c["neq"][k], c["neq"][k]]
                close(-g.H[0, 0], mu - ed, "initial-impurity-potential", 1e-9, 1e-9)
        close(loop.gfloc.mu, mu, "initial-potential", 1e-12, 1e-12)
        return d

    def drive(self, c, loop, delta, kick=None):
        """Runs the loop to its end; returns how it ended."""
        dm = self.dm
        if kick is not None:
            delta = np.array(delta)
            delta.imag[kick] *= -1
        try:
            if c["drive"] == "hand":
                for _ in range(c["max_iter"] + 5):
                    delta = loop(delta)
                return "ran-on"
            loop.solve(delta, c["drive"], **({"verbose": False} if c["drive"] == "broyden" else {}))
            return "returned"
        except dm.Converged:
            return "converged"
        except dm.FailedToConverge:
            return "gave-up"

    def verify_end(self, c, end, log, tag=""):
        """The announcement against the recorded history."""
        steps = [e for e in log if e[0] == "step"]
        calls = [e for e in log if e[0] == "call"]
        if len(steps) > c["max_iter"] + 1:
            raise Violation("too-many-iterations", f"{len(steps)} steps, {c['max_iter']} allowed {tag}")
        if end == "ran-on":
            raise Violation("never-gives-up", f"{len(steps)} steps, {c['max_iter']} allowed")
        if not steps:
            raise Violation("no-step", end)
        norms = [np.linalg.norm(s[2] - s[1]) for s in steps]
        for k, x in enumerate(norms):
            last = k == len(norms) - 1
            if abs(x - c["tol"]) < 1e-9:
                return
            if x < c["tol"] and not (last and end == "converged"):
                raise Violation("convergence-missed", f"step {k} of {len(norms)} changed by {x}, tolerance {c['tol']}, ended {end}")
        if end == "converged" and not norms[-1] < c["tol"]:
            raise Violation("false-convergence", f"last change {norms[-1]}, tolerance {c['tol']}")
        if end == "gave-up" and len(steps) < c["max_iter"]:
            raise Violation("gave-up-early", f"{len(steps)} of {c['max_iter']} iterations")
        # what was passed on is what came in, made causal
        for cl, s in zip(calls, steps):
            a, b = cl[1], s[1]
            if a.shape != b.shape:
                raise Violation("hybridisation-changed", f"{a.shape} {b.shape}")
            bad = a.imag > 0
            if not np.array_equal(a[~bad], b[~bad], equal_nan=True) or not np.array_equal(a.real, b.real, equal_nan=True):
                raise Violation("hybridisation-changed", "a causal entry or a real part was changed before the fit")
            if (b.imag[bad] > 0).any() or (b.imag[bad] < -1e-3).any():
                raise Violation("non-causal-fit", f"{b.imag[bad]}")

    def run(self, tape):
        rng = tape.np_rng("models")
        info = self.info
        info["counts"] = {}
        nt = 1 + tape.choose(3, "loops")
        mode = tape.choose(8, "mode")     # 0-2 none, 3 memory/interrupt, 4 solver error, 5 NaN, 6 crash and restart, 7 kick
        cases = [self.case(tape, rng) for _ in range(nt)]
        victim = tape.choose(nt, "victim")
        Garbage.kind = tape.choose(3, "garbage")
        at = 1 + tape.choose(4, "at-step")
        kick = None
        if mode == 7:
            kick = slice(tape.choose(4, "kick-from"), None)
        st = dict(failed=0, restarts=0, ended={}, nan=0)
        if mode == 5:
            cases[victim]["drive"] = "hand" if tape.choose(2, "nan-drive") else cases[victim]["drive"]

        def never(where):
            return False

        def play(c, fail, log, checkpoint=None):
            loop, imps = self.build(c, log, fail)
            d = self.start(c, loop)
            del log[:]
            return loop, imps, d

        def bad_goal(c):
            return c["kind"] == 5 and c["goal"].sum() > 2 * c["L"] - 1e-9

        # every loop alone
        alone = []
        Sim.current = None
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            for c in cases:
                log = []
                loop, imps, d = play(c, never, log)
                d_first, x_first = np.array(d), [self.baths(g) for g in imps]
                try:
                    end = self.drive(c, loop, d, kick if kick is None or c["kind"] < 3 else (Ellipsis, kick))
                    self.verify_end(c, end, log)
                except ValueError:
                    if c["kind"] != 5:
                        raise
                    end = "no-potential"
                    # only when the documented bracket really does not hold the goal
                    lo, hi = (np.sum(loop.gfloc.integrate(m)) - c["goal"].sum() for m in (-20., 20.))
                    if lo < -1e-6 and hi > 1e-6:
                        raise Violation("potential-missed", f"occupation minus goal is {lo} and {hi} at the ends of the bracket")
                if end != "no-potential" and bad_goal(c):
                    raise Violation("impossible-goal-accepted", f"{c['goal'].sum()} electrons on {c['L']} sites, ended {end}")
                st["ended"][end] = st["ended"].get(end, 0) + 1
                mine = [e for e in log if e[0] == "step"]
                if end != "no-potential" and tape.choose(3, "nudge") == 2:
                    # two more steps from almost the same place: each is computed afresh (see check_step)
                    eps = 10. ** -(1 + tape.choose(6, "nudge-by"))
                    d = np.array(d_first)
                    for _ in range(2):
                        try:
                            loop.step(d.copy())
                        except ValueError:
                            if c["kind"] != 5:
                                raise
                            break
                        d = d * (1 + eps)
                    info["counts"]["nudges"] = info["counts"].get("nudges", 0) + 1
                if tape.choose(3, "again") == 2:
                    # starting once more begins where the first start began
                    close(self.start(c, loop), d_first, "second-start", 1e-9, 1e-9)
                    for g, x in zip(imps, x_first):
                        for a, b in zip(self.baths(g), x):
                            close(a, b, "bath-of-second-start", 1e-9, 1e-9)
                alone.append((end, mine))
            sim = Sim(tape, max_yields=30000000)
            sim.enable_preemption(14)

            def client(k):
                c = cases[k]

                def go():
                    log, count = [], [0]
                    hit = [None]

                    def fail(where):
                        if k != victim:
                            return False
                        if where == "solve" and mode == 4:
                            count[0] += 1
                            if count[0] == at:
                                sim.fired("solver-error")
                                hit[0] = "solver"
                                raise StepError("solver failed")
                        if where == "step" and mode == 5:
                            count[0] += 1
                            if count[0] == at:
                                sim.fired("not-a-number")
                                hit[0] = "nan"
                                return True
                        if where == "call" and mode == 6:
                            count[0] += 1
                            if count[0] == at:
                                saved.update(delta=log[-1][1].copy(), mu=np.array(live["loop"].gfloc.mu),
                                             x=[self.baths(g) for g in live["imps"]], index=at - 1)
                        return False
                    saved, live = {}, {}
                    try:
                        loop, imps, d = play(c, fail, log)
                        live.update(loop=loop, imps=imps)
                        count[0] = 0
                        end = self.drive(c, loop, d, kick if kick is None or c["kind"] < 3 else (Ellipsis, kick))
                    except INJECTED + (StepError,) as err:
                        st["failed"] += 1
                        loop = live.get("loop")
                        if loop is None or loop.delta is None:
                            return
                        # go on from what the loop stored
                        n0 = len([e for e in log if e[0] == "step"])
                        loop.it = 0
                        del log[:]
                        try:
                            end = self.drive(dict(c, drive="hand"), loop, loop.delta)
                        except ValueError:
                            if alone[k][0] != "no-potential":
                                raise
                            return
                        self.verify_end(c, end, log, "after a failure")
                        st["restarts"] += 1
                        return
                    except (ValueError, np.linalg.LinAlgError) as err:
                        if hit[0] == "nan" or (c["kind"] == 5 and alone[k][0] == "no-potential"):
                            st["nan"] += hit[0] == "nan"
                            return
                        raise
                    if hit[0] == "nan":
                        st["nan"] += 1
                        self.verify_end(c, end, log, "with a NaN step")
                        return
                    self.verify_end(c, end, log)
                    steps = [e for e in log if e[0] == "step"]
                    if end != alone[k][0] or len(steps) != len(alone[k][1]):
                        raise Violation("differs-from-alone", f"{end} after {len(steps)} steps, alone {alone[k][0]} after {len(alone[k][1])}")
                    for a, b in zip(steps, alone[k][1]):
                        close(a[2], b[2], "step-in-company", 1e-6, 1e-6)
                    if saved:
                        # the process died during that step: a new one goes on from what was saved
                        sim.fired("crash-restart")
                        lg = []
                        l2, im2, _ = play(c, never, lg)
                        for g, x in zip(im2, saved["x"]):
                            self.baths(g, x)
                        l2.gfloc.update(float(saved["mu"]))
                        want = steps[saved["index"]]
                        try:
                            l2(saved["delta"])
                        except (self.dm.Converged, self.dm.FailedToConverge):
                            pass
                        got = [e for e in lg if e[0] == "step"][-1]
                        close(got[2], want[2], "step-after-restart", 1e-6, 1e-6)
                        st["restarts"] += 1
                return go
            for k in range(nt):
                sim.spawn(f"loop{k}", client(k))
            if mode == 3:
                kind = tape.pick(["memory", "interrupt"], "fault-kind")
                sim.plan_fault(1 + tape.choose(1 << tape.choose(17, "fault-exp"), "fault-at"),
                               InjectedMemoryError if kind == "memory" else InjectedInterrupt, kind)
            try:
                sim.run()
            finally:
                Garbage.kind = 0
                keep = dict(info["counts"])
                fill(self, sim, None, {"loops": [{k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in c.items()} for c in cases],
                                       "mode": mode},
                     nontrivial=nt > 1 or st["failed"] or st["restarts"] or st["nan"],
                     extra={"ended-" + k: v for k, v in st["ended"].items()})
                info["counts"]["restarts"] = st["restarts"]
        for t in sim.tasks:
            expect_ok(t, "loop")
        if mode == 0 and tape.choose(4, "occupation") == 3:
            self.occupation(tape, rng)

    @staticmethod
    def baths(g, x=None):
        parts = g.gfimp if hasattr(type(g), "spin_symmetrize") else [g]
        if x is None:
            return [p.Delta.x.copy() for p in parts]
        for p, y in zip(parts, x):
            p.Delta.x[:] = y

    def occupation(self, tape, rng):
        """Occupation of the impurity's Green's function, at the temperature the integration is made for."""
        n = 2
        x = np.round(rng.uniform(.2, 1, 2), 3)
        g = self.dm.Gfimp(n, nmats=4, U=1., beta=20.)
        g.Delta.x[:] = x
        g.H[1, 1] = x[0]
        g.H[0, 1] = g.H[1, 0] = x[1]
        g.update(.3)
        g.solve()
        f = Full(n, g.H, np.diag([1., 0.]))
        de = f.E - f.egs
        if ((de > 1e-7) & (de < 1e-3)).any():
            return
        beta = 1 / (8.617333262e-5 * 300)
        # spectral weight below zero with the Fermi function of that temperature
        w = f.weights(20., de < 2e-5)
        tot = 0.
        c = f.op(0)
        for i in np.flatnonzero(w > 0):
            for l, q in ((f.E - f.E[i], c[i, :] ** 2), (f.E[i] - f.E, c[:, i] ** 2)):
                with np.errstate(over="ignore"):
                    tot += (w[i] * q / (1 + np.exp(np.clip(beta * l, -700, 700)))).sum()
        close(np.sum(g.integrate(0.)), 2 * tot / w.sum(), "impurity-occupation", 1e-3, 1e-3)
        self.info["counts"]["occupations"] = 1


CHECK = C12()
