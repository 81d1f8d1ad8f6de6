"""C18: the DMFT loop over distributed impurities: all ranks go through it in lock-step, as one loop would."""
import warnings

import numpy as np

from checks.common import *
from sim.harness import Check
from sim.runtime import Garbage


class Aborted(MPIException):
    """What a rank sees after MPI_Abort by another one."""


class C18(Check):
    id = "C18"
    quick_runs, quick_cap = 400, 120
    min_runs = 60
    stall = 200
    thorough_runs, thorough_cap = 100000, 900
    rule = ("a run is non-trivial when two or more ranks completed the loop, or a fault hit it; distinct = different schedule hashes")
    real_parts = ("edpyt/dmft.py", "edpyt/nano_dmft.py", "edpyt/fit_cg.py", "edpyt/espace.py, build_mb_ham.py, gf_lanczos.py, lanczos.py",
                  "edpyt/integrate_gf.py", "scipy.optimize fmin_cg, broyden1, linearmixing (pure Python)")
    stub_parts = ("MPI library", "numba (functions run uncompiled)", "scipy's compiled brentq (same algorithm in Python)",
                  "frequency count of the occupation sum (fewer, so that runs are short)")
    assumptions = ("the number of inequivalent sites is a multiple of the number of ranks, as the code's slicing needs",
                   "the launcher aborts all ranks when one ends with an error, as mpiexec and mpi4py.run do",
                   "the serial loop is judged by C12")

    def load(self):
        from edpyt import dmft, nano_dmft, integrate_gf
        self.dm, self.nd = dmft, nano_dmft
        full = integrate_gf.matsum_gf

        def short(gf, mu=0., nmats=12, beta=8.):
            return full(gf, mu, nmats, beta)
        if hasattr(nano_dmft, "integrate_gf"):
            nano_dmft.integrate_gf = short

    # ------------------------------------------------------------------ one case
    def case(self, tape, rng):
        size = tape.pick([2, 3, 1, 2, 3, 2], "ranks")
        per = 1 + tape.choose(2, "sites-per-rank")
        k = size * per
        L = max(2, k + tape.choose(2, "equivalent"))
        inv = np.concatenate([np.arange(k), rng.randint(0, k, L - k)]).astype(int)
        rng.shuffle(inv)
        neq = np.array([int(np.flatnonzero(inv == i)[0]) for i in range(k)])
        ed = np.round(rng.uniform(-.5, .5, k), 3)
        h = np.round(rng.uniform(-1, 1, (L, L)), 3)
        h = (h + h.T) / 2
        np.fill_diagonal(h, ed[inv])
        # weakly coupled sites have a self-consistency of their own: they settle at different speeds
        for i in range(L):
            f = tape.pick([1., .1, .01], "coupling")
            d = h[i, i]
            h[i] *= f
            h[:, i] *= f
            h[i, i] = d
        c = dict(size=size, per=per, k=k, L=L, inv=inv, neq=neq, h=h, g=round(float(rng.uniform(.05, .5)), 3))
        c["n"] = 2 + (tape.choose(6, "n") == 5)
        c["nmats"] = 3 + tape.choose(4, "nmats")
        if tape.chance(1, 25, "many"):
            c["nmats"] = 30 + tape.choose(60, "nmats")
        c["beta"] = float(tape.pick([8., 20.], "beta"))
        c["U"] = np.round(rng.uniform(0, 4, k), 3)
        c["magnetic"] = tape.choose(3, "magnetic") == 2 and k > 1
        c["mu"] = round(float(rng.uniform(-.5, 2.5)), 3)
        c["max_iter"] = 1 + tape.choose(5, "max-iter")
        c["tol"] = tape.pick([1e-3, .02, .1, .5], "tol")
        c["field"] = round(float(rng.uniform(0, .6)), 3)
        c["drive"] = tape.pick(["hand", "hand", "linear", "broyden"], "drive")
        c["goal"] = None
        if tape.choose(3, "goal") == 2:
            c["goal"] = np.round(rng.uniform(.2, 1.8, L), 3)
            if tape.choose(6, "bad-goal") == 5:
                c["goal"] = c["goal"] + 9.
        c["alpha"] = tape.pick([0., 1.], "alpha")
        return c

    def build(self, c, comm, log, fail):
        dm, nd = self.dm, self.nd
        n = c["n"]
        mine = range(c["k"]) if comm is None else range(comm.rank * c["per"], (comm.rank + 1) * c["per"])
        cls = dm.SpinGfimp if c["magnetic"] else dm.Gfimp
        imps = [cls(n, c["nmats"], float(c["U"][i]), c["beta"]) for i in mine]
        if c["magnetic"]:
            for i, s in zip(mine, imps):
                for g in s.gfimp:
                    g.V[0, 0] = c["U"][i]
                s.V[0, 0] = c["U"][i]
        loc = nd.Gfloc(c["h"].copy(), np.eye(c["L"]), lambda z: -1j * c["g"] * np.sign(z.imag) * np.eye(c["L"]), c["neq"].copy(),
                       c["inv"].copy(), comm)

        class Loop(dm.DMFT):
            def step(self, delta):
                fail("step")
                mu = self.gfloc.mu
                x = [b.copy() for b in C18.baths(imps)]
                r = super().step(delta)
                log.append((np.array(delta), np.array(r[1]), mu, self.gfloc.mu, np.array(r[0]), x))
                return r
        return Loop(nd.Gfimp(imps), loc, occupancy_goal=c["goal"], max_iter=c["max_iter"], tol=c["tol"], adjust_mu=c["goal"] is not None,
                    alpha=c["alpha"]), imps

    @staticmethod
    def baths(imps, x=None):
        parts = [p for g in imps for p in (g.gfimp if hasattr(type(g), "spin_symmetrize") else [g])]
        if x is None:
            return [p.Delta.x.copy() for p in parts]
        for p, y in zip(parts, x):
            p.Delta.x[:] = y

    def start(self, c, loop):
        nk = len(loop.gfimp)
        zero = (lambda z: np.zeros((nk, np.size(z)), complex))
        if c["magnetic"]:
            return loop.initialize_magnetic(2 * c["mu"], zero, 1, c["field"], c["mu"])
        return loop.initialize(2 * c["mu"], zero, c["mu"])

    def drive(self, c, loop, delta):
        try:
            if c["drive"] == "hand":
                for _ in range(c["max_iter"] + 5):
                    # the caller's own mixing
                    delta = .5 * (delta + loop(delta.copy()))
                return "ran-on"
            loop.solve(delta, c["drive"], **({"verbose": False} if c["drive"] == "broyden" else {}))
            return "returned"
        except self.dm.Converged:
            return "converged"
        except self.dm.FailedToConverge:
            return "gave-up"

    # ------------------------------------------------------------------ run
    def run(self, tape):
        rng = tape.np_rng("model")
        c = self.case(tape, rng)
        size, per = c["size"], c["per"]
        info = self.info
        quiet = lambda where: None

        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            # one process for all impurities
            Sim.current = None
            serial = []
            loop, imps = self.build(c, None, serial, quiet)
            d0 = self.start(c, loop)
            try:
                s_end = self.drive(c, loop, d0)
            except ValueError:
                if c["goal"] is None:
                    raise
                s_end = "no-potential"
            border = any(abs(np.linalg.norm(s[1] - s[0]) - c["tol"]) < 1e-6 for s in serial)

            sim = Sim(tape, max_yields=20000000)
            w = mpi_world(sim, tape, size)
            if w.fail_plan is not None:
                w.fail_plan = (tape.choose(1 << (2 + tape.choose(6, "collective-exp")), "at-collective"),) + w.fail_plan[1:]
            if tape.choose(2, "preempt"):
                sim.enable_preemption(14)
            if w.fail_plan is None and tape.choose(4, "local-fault") == 3:
                kind = tape.pick(["memory", "interrupt"], "fault-kind")
                sim.plan_fault(1 + tape.choose(1 << tape.choose(17, "fault-exp"), "fault-at"),
                               InjectedMemoryError if kind == "memory" else InjectedInterrupt, kind)
            logs = [[] for _ in range(size)]
            ends = [None] * size
            hit = []

            def program(comm):
                r = comm.Get_rank()
                try:
                    loop, imps = self.build(c, comm, logs[r], quiet)
                    d = self.start(c, loop)
                    close(d, d0[r * per:(r + 1) * per], "initial-hybridisation", 1e-9, 1e-9)
                    ends[r] = self.drive(c, loop, d)
                except (InjectedMemoryError, InjectedInterrupt):
                    hit.append(r)
                    w.fail("aborted by rank %d" % r)
                    raise
                except ValueError:
                    if c["goal"] is None:
                        raise
                    ends[r] = "no-potential"
            w.spawn(program)
            try:
                sim.run()
            finally:
                Garbage.kind = 0
                fill(self, sim, w, {"case": {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in c.items()}},
                     nontrivial=size > 1, extra={"ended-" + str(e): 1 for e in ends})
            for r, t in enumerate(w.tasks):
                if r not in hit and t.error is not None and not (isinstance(t.error, MPIException) and w.failed is not None):
                    raise Violation("unexpected-" + type(t.error).__name__, f"rank {t.name}: {core.describe(t.error)}")
            self.compare(c, serial, s_end, logs, ends, border, w.failed is None)
            info["counts"]["serial-" + s_end] = 1
            if w.failed is not None and not border:
                self.restart(c, tape, serial, logs)

    def compare(self, c, serial, s_end, logs, ends, border, complete):
        size, per = c["size"], c["per"]
        steps = [len(x) for x in logs]
        ended = [e for e in ends if e is not None]
        if complete:
            if None in ends:
                raise Violation("rank-without-end", f"{ends}")
        if len(set(ended)) > 1:
            raise Violation("ranks-end-differently", f"{ends} after {steps} steps")
        if complete and len(set(steps)) > 1:
            raise Violation("ranks-out-of-step", f"{steps} steps, ended {ends}")
        # ranks that are still at work are at most one step behind those that ended
        if ended and max(steps) - min(steps) > 1:
            raise Violation("ranks-out-of-step", f"{steps} steps, ended {ends}")
        common = min(steps)
        for i in range(common):
            mus = {float(x[i][3]) for x in logs}
            if len(mus) > 1 and max(mus) - min(mus) > 1e-12:
                raise Violation("ranks-disagree-on-potential", f"step {i}: {sorted(mus)}")
            total = np.sqrt(sum(np.linalg.norm(x[i][1] - x[i][0]) ** 2 for x in logs))
            if abs(total - c["tol"]) < 1e-6:
                break
            if total < c["tol"] and (i < max(steps) - 1 or (complete and ended[0] != "converged")):
                raise Violation("convergence-missed", f"step {i} of {steps} changed by {total}, tolerance {c['tol']}, ended {ends}")
            if i == max(steps) - 1 and "converged" in ended and not total < c["tol"]:
                raise Violation("false-convergence", f"the last step changed by {total} over all sites, tolerance {c['tol']}")
        if c["drive"] != "hand":
            if complete and max(steps) > c["max_iter"] + 1:
                raise Violation("too-many-iterations", f"{steps} steps, {c['max_iter']} allowed")
            return
        if s_end == "no-potential" and complete and set(ends) != {"no-potential"}:
            raise Violation("differs-from-serial", f"{ends}, serial {s_end}")
        if complete and not border and (set(ends) != {s_end} or steps[0] != len(serial)):
            raise Violation("differs-from-serial", f"{ends} after {steps} steps, serial {s_end} after {len(serial)}")
        for r, x in enumerate(logs):
            mine = slice(r * per, (r + 1) * per)
            for i, (a, b) in enumerate(zip(x, serial)):
                close(a[0], b[0][mine], "step-input", 1e-6, 1e-6)
                close(a[1], b[1][mine], "step-result", 1e-6, 1e-6)
                close(a[3], b[3], "potential", 1e-7, 1e-7)
                if not np.any(np.isnan(b[4])):
                    close(a[4], b[4], "occupation", 1e-6, 1e-6)
                self.info["counts"]["steps-compared"] = self.info["counts"].get("steps-compared", 0) + 1

    def restart(self, c, tape, serial, logs):
        """All ranks come up again from what each had saved before the last step all of them had begun."""
        i = min(len(x) for x in logs) - 1
        if i < 0 or c["drive"] != "hand":
            return
        size, per = c["size"], c["per"]
        sim = Sim(tape, max_yields=20000000)
        w = World(sim, size, tape.choose(3, "net-again"))
        if tape.choose(2, "preempt-again"):
            sim.enable_preemption(14)
        got = [[] for _ in range(size)]

        def program(comm):
            r = comm.Get_rank()
            loop, imps = self.build(c, comm, got[r], lambda where: None)
            self.start(c, loop)
            del got[r][:]
            self.baths(imps, logs[r][i][5])
            loop.gfloc.update(float(logs[r][i][2]))
            try:
                loop(logs[r][i][0].copy())
            except (self.dm.Converged, self.dm.FailedToConverge):
                pass
        w.spawn(program)
        try:
            sim.run()
        finally:
            Garbage.kind = 0
        for t in w.tasks:
            expect_ok(t, "restarted rank")
        sim.fired("crash-restart")
        f = self.info["faults"]
        f["crash-restart"] = f.get("crash-restart", 0) + 1
        for r in range(size):
            mine = slice(r * per, (r + 1) * per)
            close(got[r][-1][1], serial[i][1][mine], "step-after-restart", 1e-6, 1e-6)
            close(got[r][-1][3], serial[i][3], "potential-after-restart", 1e-7, 1e-7)


CHECK = C18()
