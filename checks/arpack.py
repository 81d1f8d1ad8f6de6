"""Stand-in around the real ARPACK (through scipy's f2py module): sees every reverse-communication step, refuses
to let two solves interleave (the real library corrupts memory then), makes the start vector seeded, and can
inject the error codes and the iteration limit a real run meets."""
import sys

import numpy as np

from sim import core
from sim.core import Sim, SimLock, Violation


class Seam:
    def __init__(self):
        import importlib
        importlib.import_module("scipy.sparse.linalg")
        self.mod = sys.modules["scipy.sparse.linalg.eigen.arpack.arpack"]
        self.lib = sys.modules["scipy.sparse.linalg.eigen.arpack._arpack"]
        self.real_u, self.real_e = self.lib.dsaupd, self.lib.dseupd
        self.lib.dsaupd, self.lib.dseupd = self.dsaupd, self.dseupd
        self.reset()

    def reset(self, rng=None, plan=None, maxiter=0):
        """plan: (solve number, 'dsaupd'|'dseupd', code) or None; maxiter: limit forced on every solve (0: none)"""
        self.active = None
        self.rng, self.plan, self.maxiter = rng, plan, maxiter
        self.solves = self.steps = 0
        self.fired = {}
        self.number = {}
        self.mod._ARPACK_LOCK.__dict__.update(SimLock(name="ARPACK", raise_on_reentry=True).__dict__) if isinstance(
            self.mod._ARPACK_LOCK, SimLock) else setattr(self.mod, "_ARPACK_LOCK", SimLock(name="ARPACK", raise_on_reentry=True))

    def _fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        s = Sim.current
        if s is not None:
            s.fired(kind)

    def dsaupd(self, ido, bmat, which, k, tol, resid, v, iparam, ipntr, workd, workl, info, **kw):
        core.yield_point("dsaupd")
        key = workd.__array_interface__["data"][0]
        me = Sim.current.cur if Sim.current is not None else None
        if ido == 0:
            self.solves += 1
            self.number[key] = self.solves
            self.active = (key, me)
            if info == 0 and self.rng is not None:
                resid[:] = self.rng.uniform(-1, 1, resid.size)
                info = 1
            if self.maxiter:
                iparam[2] = self.maxiter
                self._fire("arpack-iteration-limit")
            if self.plan and self.plan[0] == self.solves and self.plan[1] == "dsaupd":
                self._fire("arpack-error")
                return 99, tol, resid, v, iparam, ipntr, self.plan[2]
        elif self.active is None or self.active[0] != key:
            raise Violation("arpack-interleaved", f"solve {self.number.get(key)} continues after solve {self.solves} started")
        self.steps += 1
        out = self.real_u(ido, bmat, which, k, tol, resid, v, iparam, ipntr, workd, workl, info, **kw)
        return out

    def dseupd(self, *a, **kw):
        core.yield_point("dseupd")
        workd2 = a[12]
        key = workd2.__array_interface__["data"][0]
        n = self.number.get(key)
        d, z, ierr = self.real_e(*a, **kw)
        if self.plan and self.plan[0] == n and self.plan[1] == "dseupd":
            self._fire("arpack-error")
            return d, z, self.plan[2]
        return d, z, ierr


SEAM = None


def seam():
    global SEAM
    if SEAM is None:
        SEAM = Seam()
    return SEAM
