"""C10: the C bath fit under concurrent callers, refused allocations and any history of earlier fits."""
import ctypes as ct
import sys
import types

import numpy as np

from checks.common import *
from checks.fitlib import Fit, LibraryExit, chi2, initial_bath
from sim.harness import Check
from sim.runtime import Garbage


class FFI:
    """What edpyt.fit_cffi uses of cffi."""
    NULL = None
    T = {"int": ct.c_int, "double": ct.c_double}

    def new(self, t, init=None):
        t = t.replace("*", "").replace("[]", "").strip()
        if t.endswith("]"):
            t, n = t[:-1].split("[")
            return (self.T[t.strip()] * int(n))()
        a = (self.T[t] * 1)()
        if init is not None:
            a[0] = init
        return a

    def cast(self, t, v):
        return ct.c_void_p(int(v) if not isinstance(v, (ct.Array, ct.c_void_p)) else ct.cast(v, ct.c_void_p).value)

    def from_buffer(self, *a, **k):
        return ct.c_void_p(a[-1].ctypes.data)


class C10(Check):
    id = "C10"
    fit = True
    quick_runs, quick_cap = 1600, 60
    thorough_runs, thorough_cap = 200000, 900
    rule = ("a run is non-trivial when callers were switched inside the library, an allocation was refused, or one process made "
            "several fits; distinct = different hashes of (caller, access count) at every switch plus the case")
    real_parts = ("edpyt_backend/*.c (recompiled with memory-access hooks)", "edpyt_backend/fit_wrap.py", "edpyt/fit_cffi.py",
                  "edpyt/fit_cg.py get_initial_bath")
    stub_parts = ("heap", "mutexes", "thread scheduler", "process exit", "cffi module", "numba")
    assumptions = ("accesses are sequentially consistent; compiled at -O0",)
    sim_measure = "hash of (caller switched to, access count) at every switch"

    def load(self):
        self.f = Fit(self.fit_so)

        f = self.f

        def addr(p):
            return ct.cast(p, ct.c_void_p).value

        class Lib:
            @staticmethod
            def fit(x, it, fret, nbath, nmats, vals, beta):
                f.call(0, addr(x), addr(it), addr(fret), nbath, nmats, addr(vals), beta, Garbage.kind)
        mod = types.ModuleType("edpyt_backend._fit")
        mod.lib, mod.ffi = Lib, FFI()

        class CDLL:
            """The ctypes view of the library: numpy arrays and byref() results come in as the wrapper's argtypes allow."""
            class Fn:
                def __init__(self, kind):
                    self.kind, self.restype, self.argtypes = kind, None, None

                def __call__(self, *a):
                    if self.argtypes is not None:
                        if len(a) != len(self.argtypes):
                            raise Violation("wrapper-arguments", f"{len(a)} arguments")
                        a = [t.from_param(v) for t, v in zip(self.argtypes, a)]
                    if self.kind:
                        x, n = a
                        return f.call(1, place(x), 0, 0, number(n), 0, 0, 1., Garbage.kind)
                    x, it, fret, nbath, nmats, vals, beta = a
                    f.call(0, place(x), place(it), place(fret), number(nbath), number(nmats), place(vals), number(beta), Garbage.kind)

            def __init__(self, *a, **k):
                self.fit, self.fit_init = CDLL.Fn(0), CDLL.Fn(1)

        def number(v):
            return getattr(v, "value", v)

        def place(v):
            if hasattr(v, "ctypes"):
                v = v.ctypes
            if hasattr(v, "_as_parameter_"):
                v = v._as_parameter_
            if isinstance(v, ct.c_void_p):
                return v.value
            return ct.cast(v, ct.c_void_p).value
        mod = types.ModuleType("edpyt_backend._fit")
        mod.lib, mod.ffi = Lib, FFI()
        import edpyt_backend
        sys.modules["edpyt_backend._fit"] = mod
        edpyt_backend._fit = mod
        real = ct.CDLL
        ct.CDLL = CDLL
        try:
            from edpyt_backend import fit_wrap
        finally:
            ct.CDLL = real
        from edpyt import fit_cffi, fit_cg
        self.wrap, self.cffi, self.cg = fit_wrap, fit_cffi, fit_cg

    @staticmethod
    def problem(tape, rng):
        nbath = 1 + tape.choose(5, "nbath")
        nmats = 3 + tape.choose(18, "nmats")
        if tape.chance(1, 12, "large"):                  # many bath sites, few frequencies
            nbath, nmats = 6 + tape.choose(35, "nbath"), 3 + nmats % 6
        elif tape.chance(1, 40, "many"):                 # a usual number of frequencies
            nbath, nmats = min(nbath, 2), [60, 130, 260, 520][tape.choose(4, "nmats")] + nmats
        beta = float(4 + tape.choose(60, "beta"))
        z = 1j * (2 * np.arange(nmats) + 1) * np.pi / beta
        k = tape.choose(4, "target")
        if k == 0:
            m = 1 + tape.choose(4, "levels")
            e, v = np.round(rng.uniform(-2, 2, m), 3), np.round(rng.uniform(.1, 1, m), 3)
            vals = (v ** 2 / (z[:, None] - e)).sum(1)
        elif k == 1:
            vals = 2 * (z - np.sqrt(z ** 2 - 1))
        elif k == 2:
            vals = (rng.uniform(-1, 1, nmats) - 1j * rng.uniform(0, 1, nmats)) / (1 + np.arange(nmats))
        else:
            vals = np.zeros(nmats, complex)
        x0 = initial_bath(nbath)
        if tape.choose(2, "start"):
            x0 = x0 + np.round(rng.uniform(-.3, .3, 2 * nbath), 3)
        return x0, nmats, vals, beta

    def run(self, tape):
        if tape.choose(6, "kind") == 5:
            return self.wrappers(tape)
        rng = tape.np_rng("targets")
        nt = 1 + tape.choose(4, "callers")
        jobs = []
        for k in range(nt):
            js = []
            for c in range(1 + tape.choose(3, "calls")):
                if self.f.has_init and tape.choose(6, "init?") == 5:
                    js.append((1, np.full(2 * (1 + tape.choose(tape.pick([9, 40], "sites"), "nbath")), np.nan), 1, [0.], 1.))
                else:
                    js.append((0,) + self.problem(tape, rng))
            jobs.append(js)
        garbage = tape.choose(3, "garbage")
        npre = 0 if nt == 1 else tape.choose(60, "preemptions")
        e = 1 + tape.choose(16, "gap-scale")
        gaps = [1 + tape.choose(1 << e, "gap") for _ in range(npre)]
        to = [tape.choose(nt, "to") for _ in range(npre)]
        fail_at = 0
        if tape.chance(1, 4, "refuse?"):
            fail_at = 1 + tape.choose(1 << tape.choose(9, "refuse-exp"), "refuse-at")
        fail_n = tape.choose(3, "refused-in-a-row") if fail_at else 0      # 0: all from there on
        first = tape.choose(nt, "first")
        # every job alone, in a fresh process with nothing failing
        alone = []
        ok = True
        for js in jobs:
            a = []
            for j in js:
                o, r = self.f.run([[j]], garbage)
                a.append((o[0][0], r))
                if r["dead"]:
                    ok = False      # it gives up on this target by itself
                    self.verify_exit(r, "alone")
                else:
                    self.verify(j, o[0][0])
                    if r["live"] or r["held"]:
                        raise Violation("leak", f"{r['live']} blocks, {r['held']} locks left after one call")
            alone.append(a)
        out, rec = self.f.run(jobs, garbage, gaps, to, fail_at, first, fail_n)
        info = self.info
        info.update(hash="%x" % rec["hash"] + f":{garbage}:{fail_at}:{len(jobs)}:{rec['accesses']}", steps=rec["switches"], yields=rec["accesses"],
                    faults={k: v for k, v in (("preemption", rec["switches"]), ("refused-allocation", rec["failed"])) if v},
                    counts={"fits": sum(len(j) for j in jobs), "allocations": rec["allocations"], "lock-waits": rec["contended"],
                            "gave-up-alone": 0 if ok else 1},
                    probes={k: 1 for k in (["exit"] if rec["dead"] else [])},
                    nontrivial=bool(rec["switches"] or rec["failed"] or len(jobs[0]) > 1),
                    sample={"callers": nt, "calls": [len(j) for j in jobs], "preemptions": npre, "refuse": fail_at},
                    trace=[[0, "run", f"gaps={gaps[:40]}", f"to={to[:40]}", f"first={first}", f"refuse={fail_at}"]])
        for js, os_, as_ in zip(jobs, out, alone):
            for j, o, (a, ar) in zip(js, os_, as_):
                same(o["vals"], np.asarray(j[3], complex), "caller-target")
                if o["done"]:
                    self.verify(j, o)
                    if not ar["dead"] and j[0] == 1:
                        same(o["x"], a["x"], "result-in-company")
                    elif not ar["dead"]:
                        close(o["x"], a["x"], "result-in-company", 1e-12, 1e-12)
                        close(o["fret"], a["fret"], "misfit-in-company", 1e-12, 1e-12)
                        if o["iter"] != a["iter"]:
                            raise Violation("wrong-result-in-company", f"{o['iter']} iterations, alone {a['iter']}")
        if rec["dead"]:
            self.verify_exit(rec, "run")
            if not rec["failed"] and ok:
                raise Violation("unexpected-exit", f"{rec['msg']}: {rec['err']}")
        else:
            if rec["failed"]:
                raise Violation("refused-allocation-ignored", f"allocation {fail_at} was refused, all calls returned")
            if not all(o["done"] for os_ in out for o in os_):
                raise Violation("stuck", "a caller never finished")
            if rec["live"] or rec["held"]:
                raise Violation("leak", f"{rec['live']} blocks, {rec['held']} locks left")

    @staticmethod
    def verify_exit(r, where):
        if r["code"] == 0 or not r["err"].strip():
            raise Violation("silent-exit", f"{where}: exit({r['code']}), message {r['err']!r}")

    @staticmethod
    def verify(j, o):
        kind, x0, nmats, vals, beta = j
        if kind == 1:
            close(o["x"], initial_bath(len(x0) // 2), "initial-bath", 1e-12, 1e-12)
            return
        if not np.all(np.isfinite(o["x"])):
            raise Violation("not-finite", f"{o['x']}")
        c0, c1 = chi2(np.asarray(x0), nmats, vals, beta), chi2(o["x"], nmats, vals, beta)
        if not c1 <= c0 * (1 + 1e-9) + 1e-13:
            raise Violation("worse-than-start", f"misfit {c1}, start {c0}")
        close(o["fret"], c1, "reported-misfit", 1e-9, 1e-16)
        if o["iter"] < 1:
            raise Violation("wrong-iteration-count", str(o["iter"]))

    # -------------------------------------------------- the Python wrappers
    def wrappers(self, tape):
        rng = tape.np_rng("targets")
        Garbage.kind = tape.choose(3, "garbage")
        nt = 1 + tape.choose(3, "clients")
        jobs = [[(self.problem(tape, rng), tape.choose(3, "wrapper"), tape.choose(3, "layout")) for _ in range(1 + tape.choose(2, "calls"))]
                for _ in range(nt)]
        sim = Sim(tape)
        sim.enable_preemption(5)
        st = dict(fits=0)

        def client(k):
            def go():
                for (x0, nmats, vals, beta), which, layout in jobs[k]:
                    n = len(x0) // 2
                    v = np.array(vals, complex)
                    if layout == 1:
                        v = np.repeat(v, 2)[::2]
                    elif layout == 2:
                        v = np.asfortranarray(np.stack([v, v + 1]))[0]
                    vkeep = v.copy()
                    if which == 0:
                        ref, _ = self.f.run([[(0, initial_bath(n), nmats, vals, beta)]])
                        if not ref[0][0]["done"]:
                            continue
                        x = self.wrap.fit_hybrid(n, nmats, v, beta)
                        close(x, ref[0][0]["x"], "wrapper-result", 1e-12, 1e-12)
                        self.verify((0, initial_bath(n), nmats, vals, beta), dict(x=x, fret=chi2(x, nmats, vals, beta), iter=1))
                    else:
                        x = np.array(x0)
                        if which == 2:
                            x = np.repeat(x, 2)[::2]
                        ref, _ = self.f.run([[(0, np.array(x0), nmats, vals, beta)]])
                        if not ref[0][0]["done"]:
                            continue
                        r = self.cffi.fit_hybrid(x, nmats, v, beta)
                        close(x, ref[0][0]["x"], "wrapper-result", 1e-12, 1e-12)
                        if r is not None:
                            close(r[1], ref[0][0]["fret"], "wrapper-misfit", 1e-12, 1e-12)
                    same(v, vkeep, "caller-target")
                    st["fits"] += 1
            return go
        for k in range(nt):
            sim.spawn(f"c{k}", client(k))
        try:
            sim.run()
        finally:
            Garbage.kind = 0
            fill(self, sim, None, {"wrappers": True, "clients": nt}, nontrivial=nt > 1, extra={"wrapper-fits": st["fits"]})
        for t in sim.tasks:
            expect_ok(t, "client")
        # the Python initial bath is the C one
        nb = 1 + tape.choose(40, "nbath")
        close(self.cg.get_initial_bath(nbath=nb), initial_bath(nb), "initial-bath", 1e-12, 1e-12)


CHECK = C10()
