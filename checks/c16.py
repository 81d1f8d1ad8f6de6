"""C16: tunnelling rates (sequential and cotunnelling, either symmetry) assembled from one solved spectrum by several clients."""
import itertools
import warnings

import numpy as np

from checks.common import *
from checks.dense import annihilators
from sim.harness import Check
from sim.runtime import Garbage


def fermi(x):
    return 0. if x > 700 else 1. / (np.exp(x) + 1.)


def bose(beta, z):
    """Integral of the product of a filled and an empty Fermi function that are z apart."""
    x = beta * z
    if abs(x) < 1e-18:
        return 1. / beta
    return 0. if x > 700 else z / np.expm1(x)


class Unclear(Exception):
    pass


class States:
    """Kept states of a spectrum, embedded in the full space."""

    def __init__(self, n, esp, sym):
        self.n, self.sym = n, sym
        self.ids, self.E, vec = [], [], []
        for q in sorted(esp):
            s = esp[q]
            if sym == "N":
                idx = np.array([w for w in range(1 << 2 * n) if bin(w).count("1") == q[0]])
            else:
                a = np.array([w for w in range(1 << n) if bin(w).count("1") == q[0]])
                b = np.array([w for w in range(1 << n) if bin(w).count("1") == q[1]])
                idx = (a[None, :] | (b[:, None] << n)).ravel()
            for k in range(s.eigvals.size):
                v = np.zeros(1 << 2 * n)
                v[idx] = s.eigvecs[:, k]
                vec.append(v)
                self.ids.append(tuple(int(x) for x in q) + (k,))
                self.E.append(float(s.eigvals[k]))
        self.E = np.array(self.E)
        self.egs = self.E.min()
        self.pos = {i: k for k, i in enumerate(self.ids)}
        U = np.array(vec).T
        # add[s][f, i, site] = <f| c+_(site, s) |i>
        c = annihilators(2 * n)
        self.add = [np.stack([U.T @ c[s * n + j].T @ U for j in range(n)], -1) for s in range(2)]
        self.sub = [np.stack([U.T @ c[s * n + j] @ U for j in range(n)], -1) for s in range(2)]

    def sector(self, k):
        return self.ids[k][:-1]

    def of(self, q):
        return [k for k in range(len(self.ids)) if self.sector(k) == tuple(q)]

    def ground_sectors(self):
        out = []
        for q in sorted(set(self.sector(k) for k in range(len(self.ids)))):
            g = min(self.E[k] for k in self.of(q)) - self.egs
            if 1e-12 < g < 1e-7:
                raise Unclear
            if g <= 1e-12:
                out.append(q)
        return out


def dud(q, n):
    return all(0 <= x <= n for x in q)


ONE = [(1, 0), (0, 1), (-1, 0), (0, -1)]
TWO = [(0, 0), (-1, 1), (1, -1)]


class C16(Check):
    id = "C16"
    quick_runs, quick_cap = 900, 70
    min_runs = 150
    thorough_runs, thorough_cap = 100000, 900
    rule = ("a run is non-trivial when two or more clients assembled rates from the same spectrum or elements at once, or a fault "
            "hit a client; distinct = different schedule hashes")
    real_parts = ("edpyt/sqtunneling.py", "edpyt/cotunneling.py", "edpyt/sqtnl.py", "edpyt/cotnl.py", "edpyt/gf_exact.py (projections)",
                  "edpyt/rates.py", "edpyt/espace.py and below", "LAPACK (numpy)")
    stub_parts = ("threads", "numba (functions run uncompiled)", "contents of uninitialised arrays")
    assumptions = ("rates are those of the expressions documented in the modules; the closed polygamma forms are not judged",
                   "energies closer than 1e-3 to a pole of the second-order expression are not compared")

    def load(self):
        from edpyt import espace, sqtunneling, cotunneling, sqtnl, cotnl, rates
        self.rates = rates
        self.es, self.sq, self.co, self.sqn, self.con = espace, sqtunneling, cotunneling, sqtnl, cotnl

    # ------------------------------------------------------------ references
    def pairs(self, st, q):
        """(final, initial) pairs the elements hold."""
        n, kind = st.n, q["kind"]
        if kind == "sqn":
            N = q["N"]
            out = []
            for M in (N - 1, N + 1):
                if 0 <= M <= 2 * n:
                    for a, b in itertools.product(st.of((N,)), st.of((M,))):
                        out += [(a, b), (b, a)]
            return out
        if kind == "con":
            s = st.of((q["N"],))
            return [(f, i) for f, i in self.within(st, q["cutoff"], [(f, i) for f in s for i in s])
                    if q["cutoff"] is None or self.open_path(st, f, i)]
        move = ONE if kind == "sq" else TWO
        if q["sectors"] is None:
            g = st.ground_sectors()
            act = {(a + x, b + y) for a, b in g for x, y in move if dud((a + x, b + y), n)}
            if kind == "sq":
                act |= set(g)
            src, dst = act, act
        else:
            src = set(q["sectors"])
            dst = {(a + x, b + y) for a, b in src for x, y in move if dud((a + x, b + y), n)}
        out = []
        for i in range(len(st.ids)):
            if st.sector(i) not in src:
                continue
            a, b = st.sector(i)
            for x, y in move:
                if (a + x, b + y) in dst:
                    out += [(f, i) for f in st.of((a + x, b + y))]
        return self.within(st, q["cutoff"], out)

    @staticmethod
    def open_path(st, f, i):
        """Some way from one state to the other exists, whatever the couplings."""
        N = sum(st.sector(i))
        size = 0.
        for m in range(len(st.ids)):
            if abs(sum(st.sector(m)) - N) == 1:
                into, out = (st.add, st.sub) if sum(st.sector(m)) > N else (st.sub, st.add)
                size = max(size, max(np.abs(x[m, i]).max() for x in into) * max(np.abs(x[f, m]).max() for x in out))
        if 1e-13 < size < 1e-7:
            raise Unclear
        return size > 1e-10

    @staticmethod
    def within(st, c, out):
        if c is not None:
            for k in (st.E - st.egs):
                if abs(k - c) < 1e-6:
                    raise Unclear
            keep = []
            for f, i in out:
                d = abs(st.E[f] - st.E[i])
                if abs(d - c) < 1e-6:
                    raise Unclear
                if d < c and st.E[f] - st.egs < c and st.E[i] - st.egs < c:
                    keep.append((f, i))
            out = keep
        return out

    def first_order(self, st, f, i, a, beta, mu):
        """Rate of one lead, whether the transition adds an electron, and the size of what was added up."""
        r = big = 0.
        d = st.E[f] - st.E[i]
        more = sum(st.sector(f)) > sum(st.sector(i))
        for s in range(2):
            v = (st.add if more else st.sub)[s][f, i]
            w = fermi(beta * (d - mu)) if more else fermi(-beta * (-d - mu))
            r += v.dot(a) ** 2 * w
            big += (np.abs(v) + 1e-6).dot(np.abs(a)) ** 2 * w
        return r, more, big

    def second_order(self, st, q, f, i, A, ex, inj, beta, mu):
        """Rate from lead ex to lead inj."""
        dE = st.E[f] - st.E[i]
        total = big = 0.
        N = sum(st.sector(i))
        up = [k for k in range(len(st.ids)) if sum(st.sector(k)) == N + 1]
        dn = [k for k in range(len(st.ids)) if sum(st.sector(k)) == N - 1]
        new = q["kind"] == "con"
        for out, into in itertools.product(range(2), repeat=2):     # spin put back into lead inj, spin taken from lead ex
            ae = np.array([st.sub[out][f, m].dot(A[inj]) * st.add[into][m, i].dot(A[ex]) for m in up])
            ah = np.array([st.add[into][f, m].dot(A[ex]) * st.sub[out][m, i].dot(A[inj]) for m in dn])
            if not new and st.sector(f) not in {(st.sector(i)[0] + (into == 0) - (out == 0), st.sector(i)[1] + (into == 1) - (out == 1))}:
                continue
            ee = np.array([st.E[m] - st.E[f if new else i] for m in up])
            eh = np.array([st.E[i] - st.E[m] for m in dn])

            def amp(z):
                z = np.atleast_1d(z)
                d = np.concatenate([z[:, None] - ee[None, :], z[:, None] - eh[None, :]], 1)
                w = np.concatenate([ae, ah])
                if np.abs(d).min(initial=1) < 1e-8 or np.abs(d[:, np.abs(w) > 1e-13 * q["scale"] ** 2]).min(initial=1) < 1e-3:
                    raise Unclear
                # the sum itself, up to a common sign, and without cancellation
                d = np.where(np.abs(d) < 1e-8, 1., d)
                return (w[None, :] / d).sum(1), ((np.abs(w) + 1e-6 * q["scale"] ** 2)[None, :] / np.abs(d)).sum(1)
            if new and q["method"] == "integrate":
                lo, hi = sorted((mu[ex] - dE, mu[inj]))
                e = np.linspace(lo - 4 / beta, hi + 4 / beta, 200)
                w = np.array([fermi(beta * (k - mu[ex] + dE)) * fermi(-beta * (k - mu[inj])) for k in e])
                x, y = (k ** 2 * w for k in amp(e))
                total += ((x[1:] + x[:-1]) * np.diff(e) / 2).sum()
                big += ((y[1:] + y[:-1]) * np.diff(e) / 2).sum()
            else:
                w = bose(beta, dE - mu[ex] + mu[inj])
                x, y = (k[0] ** 2 * w for k in amp(.5 * (dE + sum(mu))))
                total += x
                big += y
        return total, big

    def expected(self, st, q):
        """Rate matrix and transition matrix."""
        pairs = self.pairs(st, q)
        kind, beta, mu, A = q["kind"], q["beta"], q["mu"], q["A"]
        ids = sorted({st.ids[f] for f, i in pairs} | ({st.ids[i] for f, i in pairs} if kind in ("sqn", "con") else set()))
        k = {x: j for j, x in enumerate(ids)}
        W, T, dW, dT = (np.zeros((len(ids),) * 2) for _ in range(4))
        for f, i in pairs:
            if st.ids[i] not in k:
                continue
            a, b = k[st.ids[f]], k[st.ids[i]]
            if kind in ("sq", "sqn"):
                r = [self.first_order(st, f, i, A[x], beta, mu[x]) for x in range(2)]
                g = sum(x[0] for x in r)
                sign = (1 if kind == "sq" else -1) * (1 if r[0][1] else -1)
                T[a, b] += sign * r[q["inject"]][0]
                dT[a, b] += r[q["inject"]][2]
                dg = sum(x[2] for x in r)
            else:
                both = [[self.second_order(st, q, f, i, A, x, y, beta, mu) for y in range(2)] for x in range(2)]
                m, dm = ([[y[k_] for y in x] for x in both] for k_ in range(2))
                g, dg = sum(map(sum, m)), sum(map(sum, dm))
                T[a, b] += m[q["extract"]][q["inject"]] - m[q["inject"]][q["extract"]]
                dT[a, b] += dm[q["extract"]][q["inject"]] + dm[q["inject"]][q["extract"]]
            if f != i:
                W[a, b] += g
                W[b, b] -= g
                dW[a, b] += dg
                dW[b, b] += dg
        return W, T, dW, dT

    # ------------------------------------------------------------ the code under test
    def elements(self, n, esp, egs, q):
        k = q["kind"]
        if k == "sqn":
            return self.sqn.build_transition_elements(n, esp, None if q["auto"] else q["N"], egs)
        if k == "con":
            return self.con.build_transition_elements(n, esp, None if q["auto"] else q["N"], egs, q["cutoff"])
        m = self.sq if k == "sq" else self.co
        if q["sectors"] is None:
            return m.build_transition_elements(n, egs, esp, q["cutoff"])
        import collections
        d = {} if k == "sq" else collections.defaultdict(list)
        for a, b in q["sectors"]:
            m.project_sector(n, a, b, esp, d)
        return d

    def matrices(self, el, q):
        k, beta, mu, A = q["kind"], q["beta"], q["mu"], q["A"]
        if k == "sq":
            return (self.sq.build_rate_matrix(el, beta, mu, A),
                    self.sq.build_transition_matrix(el, beta, mu[q["inject"]], A[q["inject"]]))
        if k == "co":
            return (self.co.build_rate_matrix(el, beta, mu, A, True),
                    self.co.build_transition_matrix(el, beta, mu, A, q["extract"], q["inject"], True))
        if k == "sqn":
            return tuple(self.sqn.build_rate_and_transition_matrices(el, beta, mu, A, q["extract"], q["inject"]))
        return tuple(self.con.build_rate_and_transition_matrices(el, beta, mu, A, q["extract"], q["inject"], q["method"]))

    @staticmethod
    def print_of(el):
        """What the elements hold, for comparing before and after."""
        def flat(x, depth=0):
            if isinstance(x, np.ndarray):
                return ("a", x.shape, x.tobytes())
            if isinstance(x, (list, tuple)):
                return tuple(flat(y, depth + 1) for y in x)
            if isinstance(x, (int, float, str, type(None), np.integer, np.floating)):
                return x
            if hasattr(x, "__dict__") and depth < 6:
                # private entries (caches) are the elements' own business
                return {k: flat(v, depth + 1) for k, v in vars(x).items() if not k.startswith("_")}
            return str(type(x))
        return [(k, flat(v)) for k, v in el.items()]

    @classmethod
    def still(cls, old, new):
        """Nothing of the old print was changed; what was unset or not there may be filled in."""
        if old is None:
            return True
        if isinstance(old, dict):
            return isinstance(new, dict) and all(k in new and cls.still(v, new[k]) for k, v in old.items())
        if isinstance(old, (list, tuple)):
            return type(old) is type(new) and len(old) == len(new) and all(map(cls.still, old, new))
        return old == new

    # ------------------------------------------------------------ one run
    def run(self, tape):
        rng = tape.np_rng("values")
        sym = tape.pick(["sz", "sz", "N"], "symmetry")
        n = tape.pick([1, 2, 2, 3] if sym == "sz" else [1, 2, 2], "n")
        H, V = random_model(tape, n)
        if tape.chance(1, 10, "idle"):                   # sites without energy or interaction: many degenerate sectors
            k = slice(tape.choose(n, "first-idle"), None)
            H, V = np.array(H, float), np.array(V, float)
            H[..., k, :] = H[..., :, k] = 0.
            V[k] = V[:, k] = 0.
        if sym == "N":
            H = H * np.eye(n)        # hopping is not implemented in this symmetry
        if tape.choose(3, "level"):
            H = H + np.eye(n) * np.round(rng.uniform(-4, 1), 3)
        if n > 1 and tape.choose(3, "exchange") == 2:
            J = np.triu(np.round(rng.uniform(-.5, .5, (n, n)), 3), 1)
            V = {"U": V, "Jx": J + J.T, "Jp": J + J.T}
        Garbage.kind = tape.choose(3, "garbage")
        Sim.current = None
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            neig = None
            if tape.choose(3, "truncated") == 2:
                neig = np.minimum(self.es.get_espace_dim(n, symmetry=sym), 1 + tape.choose(3, "kept"))
            esp, egs = self.es.build_espace(H, V, neig, symmetry=sym)
            st = States(n, esp, sym)
            snap = {q: (s.eigvals.copy(), s.eigvecs.copy()) for q, s in esp.items()}
            nt = 1 + tape.choose(3, "clients")
            kinds = ["sq", "co"] if sym == "sz" else ["sqn", "con"]

            def model(q):
                q.update(beta=10. ** (tape.choose(4, "beta") - 1), mu=[float(x) for x in np.round(rng.uniform(-1, 1, 2), 3)],
                         A=np.round(rng.uniform(-1, 1, (2, n)), 2), extract=tape.choose(2, "extract"), inject=tape.choose(2, "inject"),
                         method=tape.pick(["approximate", "integrate"], "method"))
                if tape.choose(4, "no-bias") == 3:
                    q["mu"][1] = q["mu"][0] + tape.pick([0., 0., 1e-15, 1e-12, 1e-9, 1e-6, 1e-5, 1e-4], "tiny-bias")
                q["scale"] = tape.pick([1., 1., 1e-3, 1e-5], "coupling")
                q["A"] *= q["scale"]
                if tape.choose(4, "one-lead") == 3:
                    q["A"][tape.choose(2, "dead")] = 0.
                return q

            def what():
                q = dict(kind=tape.pick(kinds if n < 3 else ["sq", "sq", "sq", "co"], "kind"), sectors=None, cutoff=None)
                if sym == "N":
                    q["N"] = tape.choose(2 * n + 1, "N")
                    low = sorted((s.eigvals.min(), k[0]) for k, s in esp.items())
                    q["auto"] = bool(tape.choose(4, "lowest") == 3 and low[1][0] - low[0][0] > 1e-9)
                    if q["auto"]:                        # the sector of the ground state
                        q["N"] = low[0][1]
                    if tape.choose(3, "cutoff") == 2:
                        q["cutoff"] = float(np.round(rng.uniform(.2, 4), 2)) + .00317
                elif tape.choose(3, "how") == 2:
                    allq = [(a, b) for a in range(n + 1) for b in range(n + 1)]
                    q["sectors"] = [s for s in allq if tape.choose(2, "sector")] or [(0, 0)]
                    if n == 3:
                        q["sectors"] = q["sectors"][:2]
                elif tape.choose(3, "cutoff") == 2:
                    q["cutoff"] = float(np.round(rng.uniform(.2, 4), 2)) + .00317
                return q
            shared = what()
            pool = self.elements(n, esp, egs, shared)
            mark = self.print_of(pool)
            plans = []
            for c in range(nt):
                jobs = []
                for _ in range(1 + tape.choose(2, "jobs")):
                    if tape.choose(2, "use-shared"):
                        q = model(dict(shared, shared=True))
                    else:
                        q = model(what())
                        q["again"] = model(dict(q)) if tape.choose(2, "again") else None
                    jobs.append(q)
                plans.append(jobs)

            def fill_in(q):
                try:
                    q["want"] = self.expected(st, q)
                except Unclear:
                    q["want"] = None
            for p in plans:
                for q in p:
                    fill_in(q)
                    if q.get("again"):
                        fill_in(q["again"])
        sim = Sim(tape, max_yields=20000000)
        sim.enable_preemption(10)
        cnt = dict(failed=0, done=0, skipped=0, stationary=0)

        def intact(where):
            if list(esp) != list(snap):
                raise Violation("spectrum-changed", f"sectors {list(esp)}, were {list(snap)} after {where}")
            for q, (e, x) in snap.items():
                same(esp[q].eigvals, e, "spectrum")
                same(np.ascontiguousarray(esp[q].eigvecs), np.ascontiguousarray(x), "spectrum")
            if not self.still(mark, self.print_of(pool)):
                raise Violation("elements-changed", where)

        def compare(got, P, q):
            if q["want"] is None:
                cnt["skipped"] += 1
                return
            size = q["scale"] ** (2 if q["kind"].startswith("sq") else 4)
            for x, want, big, name in zip(got, q["want"], q["want"][2:], ("rates", "transitions")):
                x = np.asarray(x, float)
                if x.size == 0 and not np.any(want):
                    continue
                m = max(size, np.abs(want).max(initial=0.))
                close(x / m, want / m, name, 1e-7, 1e-7)
                # rare thermally activated processes count too: each entry on its own scale
                unit = big + 1e-36 * size
                if (np.abs(x - want) > 1e-6 * unit).any():
                    close(x / unit, want / unit, name, 0., 1e-6)
            W = np.asarray(got[0], float)
            if W.size and np.abs(W.sum(0)).max() > 1e-9 * max(size, np.abs(W).max()):
                raise Violation("not-conserving", f"columns of the rate matrix sum to {W.sum(0)}")
            stationary(P, q["want"][0], size)
            cnt["done"] += 1

        def stationary(P, want, size):
            """The populations that the rates leave as they are."""
            u, v, w = np.linalg.svd(want)
            if P is None or len(P) == 1 or v[0] < 1e-8 * size or v[-2] < 1e-5 * v[0]:       # no or several answers, or rounding errors only
                return
            close(np.asarray(P), w[-1] / w[-1].sum(), "stationary", 1e-6, 1e-6)
            cnt["stationary"] += 1

        def populations(W):
            if not W.size or not np.isfinite(W).all():
                return None
            before = W.copy()
            P = self.rates.stationary_solution(W)
            same(W, before, "caller-rates")
            return P

        def client(c):
            def go():
                for q in plans[c]:
                    el, before = pool if q.get("shared") else None, None
                    todo = [q] + ([q["again"]] if q.get("again") else [])
                    answers = []
                    while todo:
                        j = todo[0]
                        a0, m0 = j["A"].copy(), list(j["mu"])
                        try:
                            if el is None:
                                el = self.elements(n, esp, egs, q)
                                before = self.print_of(el)
                            got = self.matrices(el, j)
                            P = populations(got[0])
                        except INJECTED:
                            cnt["failed"] += 1
                            intact("a failed query")
                            continue
                        finally:
                            same(j["A"], a0, "caller-couplings")
                            if list(j["mu"]) != m0:
                                raise Violation("caller-potentials", f"{j['mu']}")
                        if before is not None and not self.still(before, self.print_of(el)):
                            raise Violation("elements-changed", "building matrices changed the transition elements")
                        compare(got, P, j)
                        answers.append((j, got, [np.array(x) for x in got]))
                        todo.pop(0)
                    for j, got, kept in answers:
                        for x, y in zip(got, kept):
                            same(np.asarray(x), y, "earlier-answer")
                    intact("a query")
            return go
        for c in range(nt):
            sim.spawn(f"c{c}", client(c))
        if tape.chance(2, 5, "fault?"):
            kd = tape.pick(["memory", "interrupt"], "fault-kind")
            sim.plan_fault(1 + tape.choose(1 << tape.choose(13, "fault-exp"), "fault-at"),
                           InjectedMemoryError if kd == "memory" else InjectedInterrupt, kd)
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                sim.run()
        finally:
            Garbage.kind = 0
            fill(self, sim, None, {"n": n, "symmetry": sym, "clients": [[q["kind"] for q in p] for p in plans]},
                 nontrivial=nt > 1 or cnt["failed"],
                 extra=dict({"matrices": cnt["done"], "not compared": cnt["skipped"], "stationary solutions": cnt["stationary"]},
                            **{"kind-" + q["kind"]: 1 for p in plans for q in p}))
        for t in sim.tasks:
            expect_ok(t, "client")
        if cnt["failed"] > 1:
            raise Violation("fault-not-contained", f"{cnt}")


CHECK = C16()
