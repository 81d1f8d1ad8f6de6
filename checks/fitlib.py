"""Driving the C bath fit inside the simulated process of sim/simfit.c."""
import ctypes as ct

import numpy as np

from sim.core import HarnessGap, Violation


class LibraryExit(Exception):
    pass


class Call(ct.Structure):
    _fields_ = [("kind", ct.c_int), ("nbath", ct.c_int), ("nmats", ct.c_int), ("status", ct.c_int), ("x", ct.c_void_p),
                ("vals", ct.c_void_p), ("fret", ct.c_void_p), ("iter", ct.c_void_p), ("beta", ct.c_double), ("accesses", ct.c_long)]


class Fit:
    def __init__(self, so):
        self.lib = ct.CDLL(so)
        self.lib.simfit_alloc.restype = ct.c_void_p
        self.lib.simfit_alloc.argtypes = [ct.c_size_t]
        self.lib.simfit_run.argtypes = [ct.c_int, ct.c_void_p, ct.c_void_p, ct.c_int, ct.c_void_p, ct.c_void_p, ct.c_long, ct.c_long, ct.c_int]
        self.lib.simfit_stats.argtypes = [ct.c_void_p, ct.c_char_p, ct.c_char_p]
        self.has_init = hasattr(self.lib, "fit_init")

    def array(self, values):
        """A caller's array inside the simulated heap, with guard zones around it."""
        values = np.asarray(values)
        p = self.lib.simfit_alloc(values.nbytes)
        a = np.frombuffer((ct.c_char * values.nbytes).from_address(p), values.dtype)
        a[...] = values
        return p, a

    def run(self, jobs, garbage=0, gaps=(), to=(), fail_at=0, first=0, fail_n=0):
        """jobs: per caller a list of (kind, x0, nmats, vals, beta).  Returns results per caller and the run's record."""
        self.lib.simfit_reset(garbage)
        keep, arrs, counts = [], [], []
        for js in jobs:
            cs = (Call * max(1, len(js)))()
            for c, (kind, x0, nmats, vals, beta) in zip(cs, js):
                px, x = self.array(x0)
                pv, v = self.array(np.asarray(vals, complex))
                pi, it = self.array(np.zeros(2, np.int32))
                pf, fr = self.array(np.full(1, np.nan))
                c.kind, c.nbath, c.nmats, c.x, c.vals, c.iter, c.fret, c.beta = kind, len(x0) // 2, nmats, px, pv, pi, pf, beta
                keep.append((c, x, v, it, fr))
            arrs.append(cs)
            counts.append(len(js))
        n = len(jobs)
        ptrs = (ct.c_void_p * n)(*[ct.addressof(a) for a in arrs])
        N = (ct.c_int * n)(*counts)
        g, t = (ct.c_int * max(1, len(gaps)))(*gaps), (ct.c_int * max(1, len(gaps)))(*to)
        dead = self.lib.simfit_run(n, N, ptrs, len(gaps), g, t, fail_at, fail_n, first)
        rec = self.outcome(dead)
        out, k = [], 0
        for js in jobs:
            o = []
            for j in js:
                c, x, v, it, fr = keep[k]
                k += 1
                o.append(dict(done=bool(c.status), x=x.copy(), vals=v.copy(), iter=int(it[0]), fret=float(fr[0]), accesses=c.accesses))
            out.append(o)
        return out, rec

    def call(self, kind, x, it, fret, nbath, nmats, vals, beta, garbage):
        """One call from the host's thread, with the addresses a wrapper passed."""
        self.lib.simfit_reset(garbage)
        c = Call(kind=kind, nbath=nbath, nmats=nmats, x=x, vals=vals, fret=fret, iter=it, beta=beta)
        rec = self.outcome(self.lib.simfit_call(ct.byref(c)))
        if rec["dead"]:
            raise LibraryExit(rec["msg"])

    def outcome(self, dead):
        st = (ct.c_long * 9)()
        msg, err = ct.create_string_buffer(512), ct.create_string_buffer(512)
        self.lib.simfit_stats(st, msg, err)
        rec = dict(zip(("switches", "accesses", "allocations", "live", "contended", "failed", "code", "hash", "held"), list(st)))
        rec.update(dead=dead, msg=msg.value.decode(errors="replace"), err=err.value.decode(errors="replace"))
        if dead == 3:
            raise HarnessGap(rec["msg"])
        if dead == 2:
            kind, _, detail = rec["msg"].partition("|")
            raise Violation(kind, detail)
        return rec


def chi2(x, nmats, vals, beta):
    n = len(x) // 2
    z = 1j * (2 * np.arange(nmats) + 1) * np.pi / beta
    d = (x[None, n:] ** 2 / (z[:, None] - x[None, :n])).sum(1)
    return float((np.abs(np.asarray(vals)[:nmats] - d) ** 2).sum() / nmats)


def initial_bath(nbath):
    x = np.empty(2 * nbath)
    x[nbath:] = max(.1, 1 / np.sqrt(nbath))
    e = x[:nbath]
    e[0], e[-1] = -2., 2.
    h = nbath // 2
    if nbath >= 3:
        if nbath % 2:
            e[:] = [-2. + 2. / h * j if j < h else 0. if j == h else 2. - 2. / h * (nbath - 1 - j) for j in range(nbath)]
        else:
            de = 2. / max(h - 1, 1)
            e[:] = [-.1 if j == h - 1 else .1 if j == h else -2. + j * de if j < h else 2. - (nbath - 1 - j) * de for j in range(nbath)]
    return x
