"""Full-space dense reference (Jordan-Wigner), independent of the sector machinery."""
import functools

import numpy as np


@functools.lru_cache(None)
def annihilators(m):
    """c_0 .. c_{m-1} on 2^m states; bit p of the state number is level p."""
    out = []
    d = 1 << m
    for p in range(m):
        c = np.zeros((d, d))
        for s in range(d):
            if (s >> p) & 1:
                c[s ^ (1 << p), s] = (-1) ** bin(s & ((1 << p) - 1)).count("1")
        out.append(c)
    return out


@functools.lru_cache(None)
def numbers(m):
    s = np.arange(1 << m)
    return np.array([(s >> p) & 1 for p in range(m)], float)


class Full:
    """All states of n sites with two spins: level i is (site i, up), level n+i is (site i, down)."""

    def __init__(self, n, H, V):
        H = np.broadcast_to(H, (2, n, n))
        self.n, m = n, 2 * n
        c, nb = annihilators(m), numbers(m)
        N = nb.reshape(2, n, -1)
        self.nup, self.ndw = N[0].sum(0).astype(int), N[1].sum(0).astype(int)
        h = np.zeros((1 << m, 1 << m))
        for s in range(2):
            for i in range(n):
                for j in range(n):
                    if i != j and H[s, i, j]:
                        h += H[s, i, j] * (c[s * n + i].T @ c[s * n + j])
        diag = sum(H[s, i, i] * N[s, i] for s in range(2) for i in range(n))
        for i in range(n):
            diag = diag + V[i, i] * N[0, i] * N[1, i]
            for j in range(n):
                if i != j:
                    diag = diag + .5 * V[i, j] * (N[0, i] + N[1, i]) * (N[0, j] + N[1, j])
        h += np.diag(diag)
        self.h = h
        # sector by sector, so that every eigenvector has good quantum numbers
        self.E, self.U, self.qn = np.empty(1 << m), np.zeros((1 << m, 1 << m)), np.empty((1 << m, 2), int)
        k = 0
        self.index = {}
        for a in range(n + 1):
            for b in range(n + 1):
                ix = np.flatnonzero((self.nup == a) & (self.ndw == b))
                e, u = np.linalg.eigh(h[np.ix_(ix, ix)])
                r = slice(k, k + ix.size)
                self.index[a, b] = r
                self.E[r], self.qn[r] = e, (a, b)
                self.U[np.ix_(ix, np.arange(k, k + ix.size))] = u
                k += ix.size
        self.egs = self.E.min()

    def op(self, level):
        """<J|c_level|I>"""
        return self.U.T @ annihilators(2 * self.n)[level] @ self.U

    def weights(self, beta, keep=None):
        w = np.exp(-beta * (self.E - self.egs))
        if keep is not None:
            w = np.where(keep, w, 0.)
        return w

    def gf(self, z, beta, i, j, spin, keep=None, parts=False):
        """G_ij(z): average over the kept states; electron and hole parts."""
        z = np.atleast_1d(z)
        w = self.weights(beta, keep)
        I = np.flatnonzero(w > 0)
        ci, cj = self.op(spin * self.n + i), self.op(spin * self.n + j)
        # electron: <I|c_i|J><J|c+_j|I>
        qe = (ci[I, :] * cj[I, :]) * w[I, None]
        le = self.E[None, :] - self.E[I, None]
        # hole: <I|c+_j|J><J|c_i|I>
        qh = (cj[:, I].T * ci[:, I].T) * w[I, None]
        e = np.array([(qe / (x - le)).sum() for x in z])
        h = np.array([(qh / (x + le)).sum() for x in z])
        Z = w.sum()
        return (e / Z, h / Z) if parts else (e + h) / Z

    def occupations(self, beta, keep=None):
        w = self.weights(beta, keep)
        p = (self.U ** 2) @ w / w.sum()
        return (numbers(2 * self.n) @ p).reshape(2, self.n)


def exchange(n, m, Jx, Jp):
    """Dense spin exchange and pair hopping on the full space."""
    c = annihilators(2 * n)
    h = np.zeros((1 << 2 * n,) * 2)
    for i in range(m):
        for j in range(m):
            if i == j:
                continue
            for s in range(2):
                if Jx is not None:
                    for t in range(2):
                        h += .5 * Jx[i, j] * c[s * n + i].T @ c[t * n + j].T @ c[t * n + i] @ c[s * n + j]
                if Jp is not None:
                    h += .5 * Jp[i, j] * c[s * n + i].T @ c[(1 - s) * n + i].T @ c[(1 - s) * n + j] @ c[s * n + j]
    return h


class FullX(Full):
    """The same with exchange terms."""

    def __init__(self, n, H, V, extra=None):
        super().__init__(n, H, V)
        if extra is not None:
            h = self.h + extra
            for r in self.index.values():
                ix = np.flatnonzero(np.abs(self.U[:, r]).sum(1))
                e, u = np.linalg.eigh(h[np.ix_(ix, ix)])
                self.E[r] = e
                self.U[np.ix_(ix, np.arange(r.start, r.stop))] = u
            self.egs, self.h = self.E.min(), h
