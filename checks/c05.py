"""C05: nano-DMFT local Green's function with the impurities distributed over ranks."""
import inspect

import numpy as np

from checks.common import *
from sim.harness import Check


class Model:
    """Dense serial reference of the lattice Green's function."""

    def __init__(self, H, S, hyb, neq, inv, sigma, mu):
        self.H, self.S, self.hyb, self.neq, self.inv, self.sigma, self.mu = H, S, hyb, neq, inv, sigma, mu

    def G(self, z, mu=None):
        mu = self.mu if mu is None else mu
        z = np.atleast_1d(z)
        sig = self.sigma(z)                           # (k, [2,] nz)
        out = np.empty(sig.shape, complex)
        for ix in np.ndindex(sig.shape[1:]):
            zz = z[ix[-1]]
            s = sig[(slice(None),) + ix][self.inv]
            x = (zz + mu) * self.S - self.H - self.hyb(zz) - np.diag(s)
            out[(slice(None),) + ix] = np.diagonal(np.linalg.inv(x))[self.neq]
        return out

    def weiss(self, z):
        return 1 / self.G(z) + self.sigma(np.atleast_1d(z))

    def delta(self, z):
        ed = np.diagonal(self.H)[self.neq]
        w = self.weiss(z)
        return np.atleast_1d(z) + self.mu - ed.reshape((-1,) + (1,) * (w.ndim - 1)) - w

    def occupation(self, mu, nmats, beta):
        z = 1j * (2 * np.arange(nmats) + 1) * np.pi / beta
        g = self.G(z, mu)
        w2 = z.imag ** 2
        m = -g[..., -1].real * w2[-1]
        tail = -(m[..., None] + z) / (m[..., None] ** 2 + w2)
        with np.errstate(over="ignore"):
            n = (g - tail).real.sum(-1) * 2 / beta + 1 - 1 / (1 + np.exp(-beta * m))
        n = n[self.inv]
        return 2 * n if n.ndim < 2 else n.sum(1)


class C05(Check):
    id = "C05"
    quick_runs, quick_cap = 1500, 60
    thorough_runs, thorough_cap = 100000, 900
    rule = ("a run is non-trivial when two or more ranks evaluated the local Green's function to the end; "
            "distinct = different schedule hashes")
    real_parts = ("edpyt/nano_dmft.py", "edpyt/integrate_gf.py")
    stub_parts = ("MPI library", "impurity self-energies (seeded rational functions)", "hybridisation function")
    assumptions = ("the number of inequivalent sites is a multiple of the number of ranks, as the code's slicing needs",)

    def load(self):
        from edpyt import nano_dmft, integrate_gf
        self.nd = nano_dmft
        f = integrate_gf.matsum_gf
        self.nmats, self.beta = 3000, 70.
        try:
            ps = inspect.signature(f).parameters
            if ps["beta"].default is not inspect.Parameter.empty:
                self.beta = ps["beta"].default
            if ps["nmats"].default == 3000 and [p for p in ps][-2:] == ["nmats", "beta"] and len(f.__defaults__) == 3:
                f.__defaults__ = (f.__defaults__[0], 24, self.beta)     # a smaller default frequency mesh
                self.nmats = 24
        except (KeyError, TypeError):
            pass

    def run(self, tape):
        nd = self.nd
        rng = tape.np_rng("model")
        size = 1 + tape.choose(4, "size")
        per = 1 + tape.choose(3, "sites-per-rank")
        k = size * per
        n = k + tape.choose(3, "equivalent")
        labels = np.concatenate([np.arange(k), rng.randint(0, k, n - k)]).astype(int)
        rng.shuffle(labels)
        _, neq, inv = np.unique(labels, return_index=True, return_inverse=True)
        H = rng.uniform(-1, 1, (n, n))
        H = (H + H.T) / 2
        S = np.eye(n)
        if tape.choose(2, "overlap"):
            S = S + 0.1 * (lambda x: x + x.T)(rng.uniform(-.3, .3, (n, n)))
        gam = rng.uniform(.1, .5, n)
        serial = size == 1 and tape.choose(2, "serial")
        magnetic = tape.choose(2, "magnetic")
        poles, wts = rng.uniform(-2, 2, (k, 2)), rng.uniform(.1, 1, (k, 2))
        hasS = tape.choose(4, "zero-sigma")

        def sigma_all(z):
            z = np.atleast_1d(z)
            s = wts[:, :, None] / (z - poles[:, :, None]) * (1 if hasS else 0)
            return s if magnetic else s[:, 0]

        def hyb(z):
            return np.diag(-1j * np.sign(z.imag) * gam)
        mu = round(float(rng.uniform(-1, 1)), 3)
        ref = Model(H, S, hyb, neq, inv, sigma_all, mu)
        nz = 1 + tape.choose(4, "nz") if not tape.chance(1, 12, "many") else 20 + tape.choose(300, "nz")
        z = rng.uniform(-2, 2, nz) + 1j * rng.uniform(.2, 2, nz)
        ops = [tape.pick(["G", "Delta", "Weiss", "integrate", "scalar", "update"], "op") for _ in range(1 + tape.choose(4, "nops"))]
        mus = [round(float(rng.uniform(-1, 1)), 3) for _ in ops]
        sim = Sim(tape)
        w = mpi_world(sim, tape, size)
        if tape.choose(2, "preempt"):
            sim.enable_preemption(8)
        done = [0] * size
        objs = [None] * size
        stride = k // size

        def program(comm):
            r = comm.Get_rank()
            mine = slice(r * stride, (r + 1) * stride)
            g = nd.Gfloc(H.copy(), S.copy(), hyb, neq.copy(), inv.copy(), None if serial else comm)
            g.set_local(lambda zz: np.ascontiguousarray(sigma_all(zz)[mine]))
            g.update(mu)
            objs[r] = g
            m = Model(H, S, hyb, neq, inv, sigma_all, mu)
            for op, mu_ in zip(ops, mus):
                if op == "G":
                    close(g(z), m.G(z)[mine], "green-function")
                elif op == "scalar":
                    close(g(z[0]), m.G(z[0])[mine], "green-function")
                elif op == "Delta":
                    close(g.Delta(z), m.delta(z)[mine], "hybridisation")
                elif op == "Weiss":
                    close(g.Weiss(z), m.weiss(z)[mine], "weiss-field")
                elif op == "update":
                    g.update(mu_)
                    m.mu = mu_
                else:
                    close(np.atleast_1d(g.integrate(mu_)), m.occupation(mu_, self.nmats, self.beta), "occupation", 1e-7, 1e-7)
                    if g.mu != m.mu:
                        raise Violation("chemical-potential-changed", f"{m.mu} became {g.mu} after integrate({mu_})")
                done[r] += 1
        w.spawn(program)
        try:
            sim.run()
        finally:
            fill(self, sim, w, {"ranks": size, "sites": n, "inequivalent": k, "magnetic": magnetic, "ops": ops,
                                "idx_neq": [int(x) for x in neq]}, nontrivial=size > 1 and all(done))
        survivors(w)
        if w.failed is None:
            for t in w.tasks:
                expect_ok(t, "rank")
        elif "update" not in ops:
            for t, g in zip(w.tasks, objs):
                if t.error is not None and g is not None and g.mu != mu:
                    raise Violation("chemical-potential-changed", f"after an MPI error the local Green's function keeps mu={g.mu}, not {mu}")


CHECK = C05()
