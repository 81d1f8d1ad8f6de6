"""C14: distributional exact diagonalisation - sampled impurity models, the acceptance rule and the averages."""
import inspect
import warnings

import numpy as np

from checks.common import *
from checks.dense import Full, FullX, exchange, numbers
from sim.harness import Check
from sim.runtime import Garbage

KB = 8.617333262e-5
PER_UNIT = 1500      # grid points per unit of energy (the code's default, a million, only changes the resolution)


class Exhausted(Exception):
    """The client's generator fails."""


class Ambiguous(Exception):
    """The reference cannot tell which ground state the code picks: not compared."""


class Source:
    """A client's own generator: seeded draws, some of them extreme or repeated; may fail at the k-th draw."""

    def __init__(self, seed, kind, fail=None):
        self.r, self.kind, self.fail, self.n, self.last = np.random.RandomState(seed), kind, fail, 0, .41421356237

    def random(self):
        self.n += 1
        if self.fail is not None and self.n >= self.fail:
            raise Exhausted(f"draw {self.n}")
        u, v = self.r.uniform(1e-9, 1), self.r.randint(8)
        if self.kind == 1 and v == 0:
            u = 1 - 2. ** -53
        elif self.kind == 1 and v == 1:
            u = 1e-12
        elif self.kind == 2 and v < 2:
            u = self.last
        self.last = u
        return u


class Dos:
    """Density of states handed in by a client."""

    def __init__(self, kind, a, b, fail=False):
        self.kind, self.a, self.b, self.fail, self.table = kind, a, b, fail, {}

    def value(self, e):
        if self.kind == 0:
            return np.ones(e.size)
        if self.kind == 1:
            return np.sqrt(np.maximum(0, (e[-1] - e) * (e - e[0])))
        if self.kind == 2:
            return 1. + self.a * (e - e[0]) / (e[-1] - e[0])
        if self.kind == 3:
            return np.where(np.abs(e - self.b) > .2 * (e[-1] - e[0]), 1., 0.)
        return np.where(e > self.b, 2, 1)      # whole numbers

    def __call__(self, e):
        if self.fail:
            raise Exhausted("density")
        k = (e.size, float(e[0]), float(e[-1]))
        if k not in self.table:
            self.table[k] = self.value(np.asarray(e))
        return self.table[k]      # the client's own array

    def unchanged(self):
        for (n, a, b), t in self.table.items():
            w = self.value(np.linspace(a, b, n))
            same(t, w, "caller-density")


def sampler(dos, lims, rng, per_unit):
    e = np.linspace(lims[0], lims[1], int((lims[1] - lims[0]) * per_unit + 1))
    c = np.cumsum(np.asarray(dos.value(e), float))
    c /= c[-1]

    def draw(k):
        return np.sort([e[min(np.searchsorted(c, rng.random()), e.size - 1)] for _ in range(k)])
    return draw


def fitted(poles):
    """Impurity level, bath energies and squared couplings whose Green's function has these poles, equal weights."""
    n = poles.size
    q = np.linalg.qr(np.column_stack([np.ones(n) / np.sqrt(n), np.eye(n)[:, :n - 1]]))[0][:, 1:]
    ek, w = np.linalg.eigh(q.T @ np.diag(poles) @ q)
    return poles.mean(), ek, (w.T @ q.T @ poles) ** 2 / n


def ground(f):
    """First sector holding the ground state and its vector."""
    lows = {q: f.E[r].min() - f.egs for q, r in f.index.items()}
    if any(1e-9 < x < 1e-5 for x in lows.values()):
        raise Ambiguous
    q = next(k for k, x in lows.items() if x < 1e-7)
    r = f.index[q]
    if r.stop - r.start > 1 and f.E[r][1] - f.E[r][0] < 1e-6:
        raise Ambiguous
    return q, f.U[:, r.start]


def site_numbers(f, v):
    o = numbers(2 * f.n) @ v ** 2
    return o[:f.n] + o[f.n:]


def entropy(E, egs, beta):
    w = np.exp(-beta * (E - egs))
    return KB * np.log(w.sum()) + KB * beta * ((E - egs) * w).sum() / w.sum()


def siam_reference(dos, z, sigma0, n, N, U, beta, rng, per_unit, limit):
    draw = sampler(dos, (z.real[0], z.real[-1]), rng, per_unit)
    out = np.zeros(z.size, complex), 0., 0., 0.
    got = tried = 0
    while got < N:
        tried += 1
        if tried > limit:
            raise Ambiguous
        p = draw(n)
        e0, ek, vk2 = fitted(p)
        H = np.zeros((n, n))
        H[0, 0], H[range(1, n), range(1, n)] = e0, ek
        H[0, 1:] = H[1:, 0] = -np.sqrt(vk2)
        V = np.zeros((n, n))
        f0 = Full(n, H, V)
        q0, v0 = ground(f0)
        V[0, 0] = U
        H[0, 0] -= sigma0
        f1 = Full(n, H, V)
        q1, v1 = ground(f1)
        if q0 != q1:
            if sum(q0) == sum(q1):
                raise Ambiguous
            continue
        got += 1
        g0 = (1 / (z[:, None] - p)).mean(1)
        bath = np.zeros(1)
        for e in ek:
            for _ in range(2):
                bath = np.concatenate([bath, bath + e])
        s = entropy(f1.E, f1.egs, beta) - entropy(bath, bath.min(), beta)
        out = tuple(a + b for a, b in zip(out, (1 / g0 - 1 / f1.gf(z, beta, 0, 0, 0), site_numbers(f0, v0)[0], site_numbers(f1, v1)[0], s)))
    return (out[0] / N, out[1] / N, out[2] / N, out[3] / N / KB), tried, rng.n


def moam_reference(dos, z, sigma0, n, N, U, beta, rng, per_unit, limit):
    m = len(dos)
    nb = (n - m) // m
    draws = [sampler(d, (z.real[0], z.real[-1]), rng, per_unit) for d in dos]
    sig, o0, o1, Q = np.zeros((m, z.size), complex), np.zeros(m), np.zeros(m), np.zeros(m)
    V1, extra = np.zeros((n, n)), None
    if isinstance(U, dict):
        V1[:m, :m] = U.get("U", 0.)
        if len(U) > 1:
            extra = exchange(n, m, U.get("Jx"), U.get("Jp"))
    elif isinstance(U, np.ndarray):
        V1[:m, :m] = U
    else:
        V1[range(m), range(m)] = U
    got = tried = 0
    while got < N:
        tried += 1
        if tried > limit:
            raise Ambiguous
        H = np.zeros((n, n))
        ps = []
        for i in range(m):
            ps.append(draws[i](nb + 1))
            e0, ek, vk2 = fitted(ps[-1])
            b = slice(m + i * nb, m + (i + 1) * nb)
            H[i, i] = e0
            H[i, b] = H[b, i] = -np.sqrt(vk2)
            H[range(b.start, b.stop), range(b.start, b.stop)] = ek
        f0 = Full(n, H, np.zeros((n, n)))
        _, v0 = ground(f0)
        H[range(m), range(m)] -= sigma0
        f1 = FullX(n, H, V1, extra)
        _, v1 = ground(f1)
        n0, n1 = site_numbers(f0, v0), site_numbers(f1, v1)
        ok = False
        for i in range(m):
            pos = [i] + list(range(m + i * nb, m + (i + 1) * nb))
            d = abs(n0[pos].sum() - n1[pos].sum())
            if 1e-8 < d < 1e-3:
                raise Ambiguous
            if d <= 1e-8:
                ok = True
                sig[i] += 1 / (1 / (z[:, None] - ps[i])).mean(1) - 1 / f1.gf(z, beta, i, i, 0)
                o0[i] += n0[i]
                o1[i] += n1[i]
                Q[i] += 1
        got += ok
    Q = np.where(Q > 0, Q, 1)
    return (sig / Q[:, None], o0 / Q, o1 / Q), tried, rng.n


class C14(Check):
    id = "C14"
    quick_runs, quick_cap = 320, 75
    min_runs = 100
    thorough_runs, thorough_cap = 100000, 900
    rule = ("a run is non-trivial when two or more clients sampled at once, a draw was rejected, or a fault hit a client; distinct = "
            "different schedule hashes")
    real_parts = ("edpyt/dedlib.py", "edpyt/espace.py, build_mb_ham.py, gf_exact.py, gf_lanczos.py and below", "MINPACK (scipy fsolve)",
                  "LAPACK (numpy)", "edpyt/_psparse, edpyt/_continued_fraction")
    stub_parts = ("random number generators of the clients (seeded)", "threads", "numba (functions run uncompiled)",
                  "resolution of the sampling grid (%d points per unit instead of a million)" % PER_UNIT, "a call of fsolve runs to its end")
    assumptions = ("cases in which the ground state is degenerate within the thresholds of the code are drawn but not compared",)

    def load(self):
        import scipy.optimize as so
        real = so.fsolve

        def fsolve(*a, **k):      # compiled code that calls back: cannot be left half-way
            s = Sim.current
            t = s.cur if s else None
            if t is None:
                return real(*a, **k)
            t.atomic += 1
            try:
                with np.errstate(all="ignore"):
                    return real(*a, **k)
            finally:
                t.atomic -= 1
        so.fsolve = fsolve
        from edpyt import dedlib
        self.ded = dedlib
        init = dedlib.RandomSampler.__init__
        names = list(inspect.signature(init).parameters.values())
        self.per_unit, self.span = 10. ** 6, 2e-3
        opts = [p.name for p in names if p.default is not p.empty]
        if "nsamples" in opts and init.__defaults__ and len(init.__defaults__) == len(opts):
            d = list(init.__defaults__)
            d[opts.index("nsamples")] = PER_UNIT
            init.__defaults__ = tuple(d)
            self.per_unit, self.span = float(PER_UNIT), None
        from sim.stubs import simrandom
        self.simrandom = simrandom

    # ------------------------------------------------------------ what a client does
    def draw_job(self, tape, rng, budget):
        what = tape.pick(["fit", "siam", "siam", "moam"], "what")
        if budget[0] <= 0:
            what = "fit"
        w = float(np.round(rng.uniform(1, 3), 2)) if self.span is None else self.span / 2
        c = float(np.round(rng.uniform(-.3, .3), 2)) * w
        nz = 2 + tape.choose(4, "points")
        if tape.chance(1, 25, "many"):
            nz = 20 + tape.choose(200, "points")
        z = np.linspace(c - w, c + w, nz) + 1j * np.round(rng.uniform(.3, 1, nz), 2) * (1 if self.span is None else w)
        if tape.choose(4, "odd-grid") == 3:
            z[1:-1] += .1 * w

        def density():
            return Dos(tape.choose(5, "dos"), float(np.round(rng.uniform(0, 5), 2)), c + float(np.round(rng.uniform(-.5, .5), 2)) * w)
        j = dict(what=what, z=z, seed=tape.choose(1 << 30, "rng"), kind=tape.choose(3, "draws"), lims=[z.real[0], z.real[-1]])
        if what == "fit":
            j.update(n=2 + tape.choose(7, "poles"), N=1 + tape.choose(6, "N"), dos=density(), reuse=tape.choose(2, "reuse"),
                     lims=[c - w, c + w])
            return j
        U = float(np.round(rng.uniform(0, 4), 2)) * (1 if self.span is None else w)
        s0 = [None, U / 2, float(np.round(rng.uniform(0, U + 1e-9), 3 if self.span is None else 9)), 0.][tape.choose(4, "sigma0")]
        j.update(beta=10. ** (tape.choose(5, "beta") - 1 + (0 if self.span is None else 3)), U=U, sigma0=s0,
                 given=tape.choose(3, "sigma"), rounds=1 + tape.choose(2, "rounds"))
        if what == "siam":
            n = tape.pick([2, 2, 3, 3, 4] if budget[0] > 3 else [2, 2, 3], "n")
            j.update(n=n, N=1 + tape.choose(4 if n < 4 else 2, "N"), dos=density(), rounds=j["rounds"] if n < 4 else 1)
            budget[0] -= j["N"] * j["rounds"] * {2: .5, 3: 1, 4: 3}[n]
            return j
        m = tape.pick([1, 2, 2], "impurities")
        n = tape.pick([2, 4, 4], "bath") if m == 2 and budget[0] > 4 else tape.pick([2, 3], "bath")
        if m == 2 and n == 3:
            m = 1
        if n == 4:
            j.update(beta=max(j["beta"], 10. if self.span is None else 1e4), rounds=1)
        j.update(n=n, N=1 + tape.choose(3 if n < 4 else 2, "N"), dos=[density() for _ in range(m)])
        budget[0] -= j["N"] * j["rounds"] * {2: .5, 3: 1.5, 4: 4}[n]
        k = tape.choose(4, "interaction")
        u = np.eye(m) * U
        if m == 2:
            u[0, 1] = u[1, 0] = round(U * .25, 6) * tape.choose(2, "inter")
        s0 = j["sigma0"] = U / 2 if s0 is None else s0
        if k == 0:
            j.update(U=U, sigma0=None if tape.choose(2, "default-sigma0") else s0)
        elif k == 1:
            j.update(U=u)
        else:
            j.update(U={"U": u})
            if m == 2 and k == 3:
                J = np.round(np.array([[0, .2], [.2, 0]]) * U, 6)
                j["U"]["Jx"] = J
                if tape.choose(2, "Jp"):
                    j["U"]["Jp"] = J.copy()
        if m == 2 and tape.choose(2, "per-impurity") and j["sigma0"] is not None:
            j["sigma0"] = np.array([s0, s0 * .8])
        return j

    def expected(self, j):
        if "ref" not in j:
            if j["what"] == "fit":
                rng = Source(j["seed"], j["kind"])
                d = sampler(j["dos"], j["lims"], rng, self.per_unit)
                j["ref"] = [d(j["n"]) for _ in range(j["N"])]
                return j["ref"]
            f = siam_reference if j["what"] == "siam" else moam_reference
            s0 = j["U"] / 2 if j["sigma0"] is None else j["sigma0"]
            try:
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    j["ref"] = f(j["dos"], j["z"], s0, j["n"], j["N"], j["U"], j["beta"], Source(j["seed"], j["kind"]), self.per_unit, 25)
            except Ambiguous:
                j["ref"] = None
        return j["ref"]

    def solve(self, j, rng):
        d = self.ded
        if j["what"] == "fit":
            if self.span is None:
                rs = d.RandomSampler(j["dos"], j["lims"], j["n"], rng, nsamples=PER_UNIT)
            else:
                rs = d.RandomSampler(j["dos"], j["lims"], j["n"], rng)
            g0 = d.Gf0(rs)
            imp = d.Gfimp(j["n"])
            out = []
            for _ in range(j["N"]):
                if not j["reuse"]:
                    imp = d.Gfimp(j["n"])
                g0.sample()
                imp.fit(g0)
                out.append((np.array(g0.poles), np.array(g0(j["z"])), np.array(imp(j["z"])), np.array(imp.ek), np.array(imp.vk2), imp.e0))
            return out
        f = d.siam_solve if j["what"] == "siam" else d.moam_solve
        args = dict(sigma0=j["sigma0"], n=j["n"], N=j["N"], U=j["U"], beta=j["beta"], rng=rng)
        if j["given"]:
            r = f(j["dos"], j["z"], j["sigma"], **args)
            return (j["sigma"].copy(),) + tuple(r)
        return f(j["dos"], j["z"], **args)

    def compare(self, j, r):
        if j["what"] == "fit":
            scale = j["lims"][1] - j["lims"][0]
            for (p, g0, g, ek, vk2, e0), want in zip(r, self.expected(j)):
                close(p / scale, want / scale, "poles", 1e-9, 1e-9)
                z = j["z"]
                close(g0 * scale, (1 / (z[:, None] - want)).mean(1) * scale, "sampled-function", 1e-9, 1e-9)
                close(g * scale, (1 / (z[:, None] - want)).mean(1) * scale, "fitted-function", 1e-5, 1e-5)
                a, b, c = fitted(want)
                close(e0 / scale, a / scale, "impurity-level", 1e-7, 1e-7)
                o = np.argsort(ek)
                close(ek[o] / scale, b / scale, "bath-energies", 1e-5, 1e-5)
                close(vk2.sum() / scale ** 2, c.sum() / scale ** 2, "couplings", 1e-5, 1e-5)
            return True
        ref = self.expected(j)
        if ref is None:
            return False
        close(r[0], ref[0][0], "self-energy", 2e-4, 2e-4)
        close(r[1], ref[0][1], "noninteracting-occupation", 1e-4, 1e-4)
        close(r[2], ref[0][2], "occupation", 1e-4, 1e-4)
        if j["what"] == "siam":
            close(r[3], ref[0][3], "entropy", 1e-4, 1e-4 * max(1., j["beta"] * 1e-2))
        return True

    # ------------------------------------------------------------ one run
    def run(self, tape):
        rng = tape.np_rng("values")
        Garbage.kind = tape.choose(3, "garbage")
        nt = 1 + tape.choose(3, "clients")
        budget = [6.]
        plans = [[self.draw_job(tape, rng, budget) for _ in range(1 + tape.choose(2, "jobs"))] for _ in range(nt)]
        fault = tape.choose(6, "fault")      # 0-2 none, 3 yield point, 4 generator, 5 density
        st = dict(failed=0, done=0, skipped=0, rejected=0, accepted=0)
        victim = None
        if fault >= 4:
            p = plans[tape.choose(nt, "victim")]
            victim = p[tape.choose(len(p), "which")]
            victim["fail"] = 1 + tape.choose(12, "at")
        before = self.simrandom.draws[0]
        Sim.current = None
        for p in plans:
            for j in p:
                self.expected(j)
        sim = Sim(tape, max_yields=30000000)
        sim.enable_preemption(11)

        def client(c):
            def go():
                for j in plans[c]:
                    z0 = j["z"].copy()
                    u0 = {k: v.copy() for k, v in j["U"].items()} if isinstance(j.get("U"), dict) else \
                        j["U"].copy() if isinstance(j.get("U"), np.ndarray) else None
                    s0 = j["sigma0"].copy() if isinstance(j.get("sigma0"), np.ndarray) else None
                    if j["what"] != "fit":
                        if j["ref"] is None:      # sampling may not even end
                            st["skipped"] += 1
                            continue
                        shape = (j["z"].size,) if j["what"] == "siam" else (len(j["dos"]), j["z"].size)
                        j["sigma"] = np.zeros(shape, complex) if j["given"] == 1 else np.full(shape, 3 - 2j)
                    old = []
                    r = 0
                    while r < j.get("rounds", 1):
                        bad = j if j is victim and not j.get("struck") else None
                        src = Source(j["seed"], j["kind"], j["fail"] if bad is not None and fault == 4 else None)
                        dd = j["dos"] if isinstance(j["dos"], list) else [j["dos"]]
                        if bad is not None and fault == 5:
                            dd[j["fail"] % len(dd)].fail = True
                        try:
                            got = self.solve(j, src)
                        except INJECTED:
                            st["failed"] += 1
                            continue
                        except Exhausted:
                            if bad is None:
                                raise
                            j["struck"] = True
                            st["struck"] = 1
                            sim.fired("generator" if fault == 4 else "density")
                            continue
                        finally:
                            for x in dd:
                                x.fail = False
                                x.unchanged()
                            same(j["z"], z0, "caller-frequencies")
                            if isinstance(u0, dict):
                                for k in u0:
                                    same(j["U"][k], u0[k], "caller-interaction")
                                if set(j["U"]) != set(u0):
                                    raise Violation("caller-interaction", "keys")
                            elif u0 is not None:
                                same(j["U"], u0, "caller-interaction")
                            if s0 is not None:
                                same(j["sigma0"], s0, "caller-sigma0")
                        if bad is not None and fault == 5:
                            raise Violation("failure-hidden", "the density of states failed but the solver returned")
                        if bad is not None and fault == 4 and src.n >= j["fail"]:
                            raise Violation("failure-hidden", "the generator failed but the solver returned")
                        st["done" if self.compare(j, got) else "skipped"] += 1
                        if j["what"] != "fit" and j["ref"]:
                            st["rejected"] += j["ref"][1] - j["N"]
                            st["accepted"] += j["N"]
                        old.append((got, [np.array(x) for x in got] if j["what"] != "fit" else None))
                        r += 1
                    for got, kept in old:
                        if kept is not None:
                            for x, y in zip(got, kept):
                                same(np.array(x), y, "earlier-answer")
            return go
        for c in range(nt):
            sim.spawn(f"c{c}", client(c))
        if fault == 3:
            kd = tape.pick(["memory", "interrupt"], "fault-kind")
            sim.plan_fault(1 + tape.choose(1 << tape.choose(15, "fault-exp"), "fault-at"),
                           InjectedMemoryError if kd == "memory" else InjectedInterrupt, kd)
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                sim.run()
        finally:
            Garbage.kind = 0
            fill(self, sim, None, {"clients": [[(j["what"], j["n"], j["N"]) for j in p] for p in plans]},
                 nontrivial=nt > 1 or st["failed"] or st["rejected"] or st.get("struck"),
                 extra={"solves": st["done"], "not compared": st["skipped"], "rejected draws": st["rejected"], "accepted draws": st["accepted"]})
        for t in sim.tasks:
            expect_ok(t, "client")
        if st["failed"] > 1:
            raise Violation("fault-not-contained", f"{st}")
        if self.simrandom.draws[0] != before:
            raise Violation("foreign-generator", "draws were taken from a generator the caller did not give")


CHECK = C14()
