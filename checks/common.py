"""Shared pieces of the checks: random models, an independent second-quantised reference, run helpers."""
import itertools

import numpy as np

from sim import core
from sim.core import InjectedInterrupt, InjectedMemoryError, Sim, Violation
from sim.stubs import mpi_stub
from sim.stubs.mpi_stub import MPIException, World

INJECTED = (MPIException, InjectedMemoryError, InjectedInterrupt)


# ------------------------------------------------------------------ independent reference model
def _basis(n, k):
    """All n-bit words with k bits set, ascending."""
    return [s for s in range(1 << n) if bin(s).count("1") == k]


class Fock:
    """Dense second-quantised reference on the (nup, ndw) sector.

    A state is (up word, dw word).  Operator order: within one spin, c+_i with larger i to the right
    matter only through the number of occupied levels between the two sites, so a hop i<-j has the sign
    (-1)^(occupied strictly between i and j); up and down operators come in pairs (number conserving)
    in every term used here, so no sign crosses spins."""

    def __init__(self, n, nup, ndw):
        self.n = n
        self.up, self.dw = _basis(n, nup), _basis(n, ndw)
        self.iu = {s: i for i, s in enumerate(self.up)}
        self.id = {s: i for i, s in enumerate(self.dw)}
        self.dup, self.ddw = len(self.up), len(self.dw)
        self.d = self.dup * self.ddw

    @staticmethod
    def hop(s, i, j):
        """c+_i c_j |s> for i != j: (sign, word) or None."""
        if not (s >> j) & 1 or (s >> i) & 1:
            return None
        lo, hi = min(i, j), max(i, j)
        between = bin((s >> (lo + 1)) & ((1 << (hi - lo - 1)) - 1)).count("1")
        return (-1) ** between, s ^ (1 << i) ^ (1 << j)

    def one_body(self, basis, index, h):
        m = np.zeros((len(basis), len(basis)))
        for col, s in enumerate(basis):
            for i in range(self.n):
                for j in range(self.n):
                    if i != j and abs(h[i, j]) > 1e-7:
                        r = self.hop(s, i, j)
                        if r:
                            m[index[r[1]], col] += r[0] * h[i, j]
        return m

    def hopping(self, H):
        """up matrix (dup x dup) and down matrix."""
        return self.one_body(self.up, self.iu, H[0]), self.one_body(self.dw, self.id, H[1])

    def diagonal(self, H, V, hf=False, mu=0.0, z=None):
        n = self.n
        if z is None:
            z = np.ones(n) if hf else np.zeros(n)
        out = np.zeros(self.d)
        for a, sd in enumerate(self.dw):
            nd = np.array([(sd >> i) & 1 for i in range(n)], float)
            for b, su in enumerate(self.up):
                nu = np.array([(su >> i) & 1 for i in range(n)], float)
                e = 0.0
                for i in range(n):
                    e += (H[0, i, i] + mu) * nu[i] + (H[1, i, i] + mu) * nd[i]
                    e += V[i, i] * ((nu[i] - .5) * (nd[i] - .5) if hf else nu[i] * nd[i])
                    for j in range(n):
                        if i != j:
                            e += 0.5 * (nu[i] + nd[i] - z[i]) * V[i, j] * (nu[j] + nd[j] - z[j])
                out[b + a * self.dup] = e
        return out

    def nonlocal_(self, Jx, Jp):
        """sum_{i!=j} Jx_ij/2 sum_ss' c+_is c+_js' c_is' c_js + Jp_ij/2 sum_s c+_is c+_i-s c_j-s c_js."""
        m = np.zeros((self.d, self.d))
        n = self.n
        for a, sd in enumerate(self.dw):
            for b, su in enumerate(self.up):
                col = b + a * self.dup
                for i in range(n):
                    for j in range(n):
                        if i == j:
                            continue
                        if Jx is not None and abs(Jx[i, j]) > 1e-7:
                            nui, nuj, ndi, ndj = ((su >> i) & 1, (su >> j) & 1, (sd >> i) & 1, (sd >> j) & 1)
                            m[col, col] -= 0.5 * Jx[i, j] * (nui * nuj + ndi * ndj)
                            # s != s': c+_is c+_js' c_is' c_js = (c+_is c_js)(c+_js' c_is')
                            for (x, y) in ((i, j), (j, i)):
                                u, d_ = self.hop(su, x, y), self.hop(sd, y, x)
                                if u and d_:
                                    m[self.iu[u[1]] + self.id[d_[1]] * self.dup, col] += 0.5 * Jx[i, j] * u[0] * d_[0]
                        if Jp is not None and abs(Jp[i, j]) > 1e-7:
                            u, d_ = self.hop(su, i, j), self.hop(sd, i, j)
                            if u and d_:
                                m[self.iu[u[1]] + self.id[d_[1]] * self.dup, col] += Jp[i, j] * u[0] * d_[0]
        return m

    def dense(self, H, V, hf=False, mu=0.0, z=None, Jx=None, Jp=None):
        u, d = self.hopping(H)
        m = np.kron(np.eye(self.ddw), u) + np.kron(d, np.eye(self.dup)) + np.diag(self.diagonal(H, V, hf, mu, z))
        if Jx is not None or Jp is not None:
            m = m + self.nonlocal_(Jx, Jp)
        return m

    def occupations(self, vec):
        """<n_up>, <n_dw> per site of one vector."""
        w = np.abs(vec.reshape(self.ddw, self.dup)) ** 2
        pu, pd = w.sum(0), w.sum(1)
        up = [sum(p for s, p in zip(self.up, pu) if (s >> i) & 1) for i in range(self.n)]
        dw = [sum(p for s, p in zip(self.dw, pd) if (s >> i) & 1) for i in range(self.n)]
        return np.array(up), np.array(dw)


def random_model(tape, n, spin_dep=True, sparse=True, offdiag_v=True):
    """Random symmetric H (n,n) or (2,n,n) and interaction V (n,n)."""
    r = tape.np_rng("model")

    def sym():
        h = np.round(r.uniform(-1, 1, (n, n)), 3)
        if sparse and tape.choose(2, "sparse-h"):
            h[r.rand(n, n) < 0.4] = 0.
        h = (h + h.T) / 2
        return h
    if spin_dep and tape.choose(2, "spin-dep"):
        H = np.stack([sym(), sym()])
    else:
        H = sym()
    V = np.zeros((n, n))
    k = tape.choose(3, "v-kind")
    np.fill_diagonal(V, np.round(r.uniform(0, 4, n), 3))
    if k == 1 and offdiag_v:
        v = np.round(r.uniform(-.5, .5, (n, n)), 3)
        v = (v + v.T) / 2
        np.fill_diagonal(v, V.diagonal())
        V = v
    elif k == 2:
        V[...] = 0.
        V[0, 0] = np.round(r.uniform(0, 4), 3)
    return H, V


def related_spins(tape, h, r):
    """A spin-dependent model whose two blocks are close relatives."""
    n = h.shape[0]
    off = h - np.diag(h.diagonal())
    k = tape.choose(5, "relation")
    if k == 0:                                           # opposite hopping
        g = np.diag(h.diagonal()) - off
    elif k == 1:                                         # same hopping, other levels
        g = off + np.diag(np.round(r.uniform(-1, 1, n), 3))
    elif k == 2:                                         # one bond differs
        g = h.copy()
        g[0, -1] = g[-1, 0] = h[0, -1] + np.round(r.uniform(-1, 1), 3)
    elif k == 3:                                         # a sign pattern
        s = np.where(r.rand(n) < .5, -1., 1.)
        g = h * np.outer(s, s)
    else:                                                # almost the same
        d = r.uniform(-1, 1, (n, n)) * 10. ** -r.randint(4, 8)
        g = h + d + d.T
    return np.stack([h, g] if tape.choose(2, "which") else [g, h])


def spin_h(H):
    return np.broadcast_to(H, (2,) + H.shape[-2:]) if H.ndim == 2 else H


# ------------------------------------------------------------------ run helpers
def native(fn, *args):
    """A call of compiled code, whose exceptions carry no frame of it."""
    try:
        return fn(*args)
    except Exception as e:
        raise Violation("error-in-kernel", f"{type(e).__name__}: {e}")


def close(got, want, what, rtol=1e-9, atol=1e-9):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation("wrong-" + what, f"shape {got.shape}, expected {want.shape}")
    scale = max(1.0, float(np.max(np.abs(want))) if want.size and np.all(np.isfinite(want)) else 1.0)
    ok = np.abs(got - want) <= atol * scale + rtol * np.abs(want)
    if not np.all(ok):
        i = np.argwhere(~ok)[0]
        raise Violation("wrong-" + what, f"{int((~ok).sum())} of {got.size} entries; at {tuple(int(x) for x in i)}: got "
                        f"{got[tuple(i)]!r}, expected {want[tuple(i)]!r}")


def same(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or got.dtype != want.dtype:
        raise Violation("wrong-" + what, f"{got.dtype}{got.shape}, expected {want.dtype}{want.shape}")
    if not np.array_equal(got, want, equal_nan=True) if got.dtype.kind in "fc" else not np.array_equal(got, want):
        bad = ~((got == want) | ((got != got) & (want != want)))
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation("wrong-" + what, f"{int(bad.sum())} of {got.size} entries; at {i}: got {got[i]!r}, expected {want[i]!r}")


def mpi_world(sim, tape, size, allow_faults=True, net=None):
    """A world with a seeded network; in a third of the runs one rank crashes or one collective fails."""
    net = tape.choose(3, "net") if net is None else net
    w = World(sim, size, net)
    if allow_faults and tape.chance(1, 3, "mpi-fault?"):
        kind = tape.pick(["error", "crash"], "mpi-fault")
        w.fail_plan = (tape.choose(8, "at-collective"), kind, tape.choose(size, "on-rank"))
    return w


def fill(check, sim, w=None, sample=None, nontrivial=True, extra=None):
    """Put what the run did into the evidence record."""
    info = check.info
    info["hash"] = sim.ihash.hexdigest() + (":" + ",".join(f"{k}={v}" for k, v in sorted((w.kinds if w else {}).items())))
    info["nontrivial"] = bool(nontrivial)
    f, p = info.setdefault("faults", {}), info.setdefault("probes", {})
    for k, v in sim.faults_fired.items():
        f[k] = f.get(k, 0) + v
    for k, v in sim.probes.items():
        p[k] = p.get(k, 0) + v
    c = info.setdefault("counts", {})
    for k, v in (w.kinds if w else {}).items():
        c[k] = c.get(k, 0) + v
    for k, v in (extra or {}).items():
        c[k] = c.get(k, 0) + v
    info["sim_ns"] = info.get("sim_ns", 0) + sim.now
    info["steps"] = info.get("steps", 0) + sim.steps
    info["yields"] = info.get("yields", 0) + sim.yields
    info["trace"] = (info.get("trace") or []) + sim.trace
    if sample is not None:
        info["sample"] = sample


def expect_ok(task, what="task"):
    """The task must have returned: any exception out of it breaks the property."""
    if task.error is not None:
        raise Violation("unexpected-" + type(task.error).__name__, f"{what} {task.name}: {core.describe(task.error)}")
    if task.crashed:
        raise Violation("unexpected-stop", f"{what} {task.name} was stopped")


def survivors(w):
    """After an MPI failure: ranks that returned; the others must have the MPI error (or have crashed)."""
    done = []
    for t in w.tasks:
        if t.crashed:
            continue
        if t.error is not None:
            if not isinstance(t.error, MPIException) or w.failed is None:
                raise Violation("unexpected-" + type(t.error).__name__, f"rank {t.name}: {core.describe(t.error)}")
            continue
        done.append(t)
    return done
