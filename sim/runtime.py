"""What the rewritten modules call, and installation of the stand-in modules."""
import sys
import types

import numpy as np

from sim import core
from sim.core import Sim, HarnessGap, Violation


def _pt(value):
    core.yield_point("rmw")
    return value


_OPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a + b, "Mult": lambda a, b: a * b, "BitOr": lambda a, b: a | b,
        "BitAnd": lambda a, b: a & b, "BitXor": lambda a, b: a ^ b, "Div": lambda a, b: a * b}
_UNIT = {"Add": 0, "Sub": 0, "Mult": 1, "Div": 1, "BitOr": 0, "BitAnd": -1, "BitXor": 0}


def parallel(body, rng, inits, ops):
    """Run a numba prange loop on a simulated team of threads.

    Iterations are split over 1..4 threads in a seeded way; reductions start from the operator's
    unit in each thread and are combined in a seeded order, as numba does."""
    its = list(range(*[int(x) for x in rng]))
    s = Sim.current
    if s is None or s.cur is None or not getattr(s, "parallel_teams", True) or s.cur.atomic:
        vals = tuple(inits)
        for i in its:
            vals = body(i, *vals)
        return vals
    parent = s.cur
    nt = 1 + s.tape.choose(4, "team")
    nt = min(nt, max(1, len(its)))
    style = s.tape.choose(3, "chunking")
    chunks = [[] for _ in range(nt)]
    for k, i in enumerate(its):
        if style == 0:
            chunks[min(nt - 1, k * nt // len(its))].append(i)
        elif style == 1:
            chunks[k % nt].append(i)
        else:
            chunks[s.tape.choose(nt, "chunk")].append(i)
    if nt > 1:
        s.probe("parallel-team")
    results, left = [None] * nt, [nt]

    def member(k):
        def run():
            try:
                vals = tuple(_UNIT[o] for o in ops)
                for i in chunks[k]:
                    s.yield_point("prange")
                    vals = body(i, *vals)
                results[k] = vals
            finally:
                left[0] -= 1
                if not left[0]:
                    s.wake_task(parent)
        return run
    members = [s.spawn(f"{parent.name}.t{k}", member(k)) for k in range(nt)]
    while left[0]:
        s.block("team")
    for m in members:
        if m.error is not None:
            raise m.error
    order = list(range(nt))
    out = list(inits)
    while order:
        k = order.pop(s.tape.choose(len(order), "reduce")) if ops else order.pop()
        for j, o in enumerate(ops):
            out[j] = _OPS[o](out[j], results[k][j])
    s.tasks = [t for t in s.tasks if t not in members]
    return tuple(out)


INJECT = {"__sim_yield__": core.yield_point, "__sim_pt__": _pt, "__sim_parallel__": parallel}

# ------------------------------------------------------------ uninitialised memory
_real_empty, _real_empty_like, _real_ndarray = np.empty, np.empty_like, np.ndarray


class Garbage:
    """What an uninitialised array holds: one kind per run."""
    kind = 0      # 0: NaN, 1: huge, 2: plausible stale numbers

    @classmethod
    def fill(cls, a):
        if a.size == 0:
            return a
        k = a.dtype.kind
        if k == "f":
            if cls.kind == 0:
                a.fill(np.nan)
            elif cls.kind == 1:
                a.fill(1e300 if a.dtype.itemsize == 8 else 1e30)
            else:
                flat = np.resize(np.array([0.37, -1.25, 2.5, 0.75, -0.125]), a.size)
                a[...] = flat.reshape(a.shape)
        elif k == "c":
            if cls.kind == 0:
                a.fill(complex(np.nan, np.nan))
            elif cls.kind == 1:
                a.fill(1e300)
            else:
                flat = np.resize(np.array([0.37 - 2j, -1.25 + 1j, 2.5, 0.75j, -0.125]), a.size)
                a[...] = flat.reshape(a.shape)
        elif k in "iu":
            a.fill([0, 77, 3][cls.kind])
        return a


def _empty(*args, **kw):
    return Garbage.fill(_real_empty(*args, **kw))


def _empty_like(*args, **kw):
    return Garbage.fill(_real_empty_like(*args, **kw))


def patch_empty():
    np.empty, np.empty_like = _empty, _empty_like


# ------------------------------------------------------------ stand-in modules
def install_stubs():
    from sim.stubs import numba_stub, mpi_stub
    numba_stub.install()
    mpi_stub.install()
    _scipy()
    patch_empty()


def brentq(f, xa, xb, xtol, rtol, maxiter, args, full_output, disp):
    """scipy/optimize/Zeros/brentq.c, line by line."""
    xpre, xcur, xblk, fblk, spre, scur = float(xa), float(xb), 0., 0., 0., 0.
    calls = 2
    fpre, fcur = float(f(xpre, *args)), float(f(xcur, *args))

    def done(x, it, flag):
        return (x, calls, it, flag) if full_output else x
    if fpre * fcur > 0:
        raise ValueError("f(a) and f(b) must have different signs")
    if fpre == 0:
        return done(xpre, 0, 0)
    if fcur == 0:
        return done(xcur, 0, 0)
    for it in range(1, maxiter + 1):
        if fpre * fcur < 0:
            xblk, fblk = xpre, fpre
            spre = scur = xcur - xpre
        if abs(fblk) < abs(fcur):
            xpre, xcur, xblk = xcur, xblk, xcur
            fpre, fcur, fblk = fcur, fblk, fcur
        delta = (xtol + rtol * abs(xcur)) / 2
        sbis = (xblk - xcur) / 2
        if fcur == 0 or abs(sbis) < delta:
            return done(xcur, it, 0)
        if abs(spre) > delta and abs(fcur) < abs(fpre):
            if xpre == xblk:
                stry = -fcur * (xcur - xpre) / (fcur - fpre)
            else:
                dpre = (fpre - fcur) / (xpre - xcur)
                dblk = (fblk - fcur) / (xblk - xcur)
                stry = -fcur * (fblk * dblk - fpre * dpre) / (dblk * dpre * (fblk - fpre))
            if 2 * abs(stry) < min(abs(spre), 3 * abs(sbis) - delta):
                spre, scur = scur, stry
            else:
                spre = scur = sbis
        else:
            spre = scur = sbis
        xpre, fpre = xcur, fcur
        xcur += scur if abs(scur) > delta else (delta if sbis > 0 else -delta)
        fcur = float(f(xcur, *args))
        calls += 1
    if disp:
        raise RuntimeError("Failed to converge after %d iterations." % maxiter)
    return done(xcur, maxiter, -2)


def _scipy():
    """scipy.optimize/fftpack/interpolate abort the interpreter here (their pybind11 parts do not load
    on this PyPy).  The pure-Python solvers edpyt uses are loaded for real; the rest is absent."""
    import importlib
    import os
    import scipy
    base = os.path.dirname(scipy.__file__)
    opt = types.ModuleType("scipy.optimize")
    opt.__path__ = [os.path.join(base, "optimize")]
    sys.modules["scipy.optimize"] = opt
    scipy.optimize = opt
    opt_mod = importlib.import_module("scipy.optimize.optimize")
    for n in ("OptimizeResult", "OptimizeWarning", "fmin_cg", "fmin", "fmin_bfgs", "brent", "rosen", "approx_fprime",
              "_check_unknown_options", "MemoizeJac"):
        if hasattr(opt_mod, n):
            setattr(opt, n, getattr(opt_mod, n))
    z = importlib.import_module("scipy.optimize.zeros")
    # the compiled bracketing loop cannot be left in the middle by a simulated thread: same algorithm in Python
    real = z._zeros
    proxy = types.SimpleNamespace(**{n: getattr(real, n) for n in dir(real) if not n.startswith("__")})
    proxy._brentq = brentq
    z._zeros = proxy
    for n in ("bisect", "ridder", "brenth", "brentq", "newton", "toms748", "RootResults"):
        setattr(opt, n, getattr(z, n))
    rs = importlib.import_module("scipy.optimize._root_scalar")
    opt.root_scalar = rs.root_scalar
    try:
        mp = importlib.import_module("scipy.optimize.minpack")
        for n in ("fsolve", "leastsq"):
            if hasattr(mp, n):
                setattr(opt, n, getattr(mp, n))
    except Exception:
        pass
    nl = importlib.import_module("scipy.optimize.nonlin")
    for n in ("broyden1", "broyden2", "anderson", "linearmixing", "diagbroyden", "excitingmixing", "newton_krylov",
              "NoConvergence"):
        if hasattr(nl, n):
            setattr(opt, n, getattr(nl, n))
    # `smooth` is plain interpolation and FFT filtering: not simulated
    fft = types.ModuleType("scipy.fftpack")
    fft.fft, fft.ifft, fft.fftfreq = np.fft.fft, np.fft.ifft, np.fft.fftfreq
    sys.modules["scipy.fftpack"] = fft
    scipy.fftpack = fft
    interp = types.ModuleType("scipy.interpolate")

    def interp1d(x, y, bounds_error=True, fill_value=np.nan, **k):
        def f(xx):
            return np.interp(xx, x, np.real(y)) + (1j * np.interp(xx, x, np.imag(y)) if np.iscomplexobj(y) else 0)
        return f
    interp.interp1d = interp1d
    sys.modules["scipy.interpolate"] = interp
    scipy.interpolate = interp


OPT_MISSING = []
