"""numba stand-in: the decorated Python runs uncompiled.  Signatures cast scalar arguments and results
(so uint32 arithmetic keeps its width); parallel loops are rewritten by sim.loader."""
import functools
import itertools
import sys
import types as _types

import numpy as np


class T:
    def __init__(self, name, np_type):
        self.name, self.np_type = name, np_type

    def __call__(self, *a):
        if len(a) == 1 and not isinstance(a[0], (T, ArrT, Sig, TupT, tuple)):
            return self.np_type(a[0]) if self.np_type else None
        return Sig(self, a)

    def __getitem__(self, ix):
        return ArrT(self)


class ArrT:
    def __init__(self, dtype, *a, **k):
        self.dtype = dtype

    def __call__(self, *a):
        return Sig(self, a)

    def __getitem__(self, ix):
        return ArrT(self)


class TupT:
    def __init__(self, items):
        self.items = tuple(items)

    def __call__(self, *a):
        return Sig(self, a)


class Sig:
    def __init__(self, ret, args):
        self.ret, self.args = ret, args


_T = {n: T(n, getattr(np, n)) for n in
      ("float64", "float32", "complex128", "complex64", "int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8")}
_T["boolean"] = T("boolean", bool)
_T["bool_"] = _T["b1"] = _T["boolean"]
_T["void"] = T("void", None)
_T["none"] = _T["void"]
_T["intp"] = T("intp", np.int64)
_T["uintp"] = T("uintp", np.uint64)
_T["f8"], _T["c16"], _T["i8"], _T["i4"], _T["u4"], _T["u8"] = (
    _T["float64"], _T["complex128"], _T["int64"], _T["int32"], _T["uint32"], _T["uint64"])
_T["double"] = _T["float64"]
_T["Array"] = ArrT
_T["Tuple"] = lambda items: TupT(items)
_T["UniTuple"] = lambda t, n: TupT((t,) * n)


def _parse(sig):
    if isinstance(sig, str):
        sig = eval(sig, dict(_T))
    if isinstance(sig, Sig):
        return sig
    if isinstance(sig, tuple):
        return Sig(None, sig)
    if isinstance(sig, (ArrT, T)):
        return Sig(None, (sig,))
    return None


def _caster(t):
    if isinstance(t, T) and t.np_type is not None:
        return t.np_type
    return None


def _wrap(fn, sig):
    sig = _parse(sig) if sig is not None else None
    if sig is None:
        fn.py_func = fn
        return fn
    ins = [_caster(t) for t in sig.args]
    ret = sig.ret
    if isinstance(ret, TupT):
        rc = [_caster(t) for t in ret.items]
        out = lambda r: tuple(c(x) if c else x for c, x in zip(rc, r))
    else:
        c = _caster(ret) if ret is not None else None
        out = (lambda r: c(r)) if c else None

    @functools.wraps(fn)
    def call(*args, **kw):
        a = [c(x) if c is not None else x for c, x in zip(ins, args)]
        a.extend(args[len(ins):])
        r = fn(*a, **kw)
        return out(r) if out is not None and r is not None else r
    call.py_func = fn
    return call


def _pause(name):
    """Threads may be switched where Python enters or leaves a compiled function."""
    from sim.core import Sim
    s = Sim.current
    if s is not None and s.cur is not None:
        s.yield_point(name, False)


def njit(*a, **kw):
    if len(a) == 1 and callable(a[0]) and not isinstance(a[0], (T, ArrT, Sig, TupT)):
        return _wrap(a[0], None)
    sig = a[0] if a else kw.get("signature")
    if isinstance(sig, list):
        sig = sig[0]
    return lambda fn: _wrap(fn, sig)


jit = njit


def vectorize(*a, **kw):
    def deco(fn):
        v = np.vectorize(fn)
        return v
    if len(a) == 1 and callable(a[0]):
        return deco(a[0])
    return deco


def guvectorize(sigs, layout=None, **kw):
    ins, outs = layout.replace(" ", "").split("->")
    ins = [tuple(x for x in g.split(",") if x) for g in ins.strip("()").split("),(")]
    outs = [tuple(x for x in g.split(",") if x) for g in outs.strip("()").split("),(")]
    s = _parse(sigs[0] if isinstance(sigs, list) else sigs)

    def deco(fn):
        @functools.wraps(fn)
        def call(*args, out=None):
            nin = len(ins)
            arr = []
            for x, dims, t in zip(args[:nin], ins, s.args):
                dt = t
                while isinstance(dt, ArrT):
                    dt = dt.dtype
                x = np.asarray(x, dtype=dt.np_type)
                if x.ndim < len(dims):
                    raise ValueError(f"{fn.__name__}: Input operand does not have enough dimensions")
                arr.append(x)
            size = {}
            for x, dims in zip(arr, ins):
                for d, n in zip(dims, x.shape[x.ndim - len(dims):]):
                    if size.setdefault(d, n) != n:
                        raise ValueError("core dimension mismatch")
            loop = np.broadcast(*[np.empty(x.shape[:x.ndim - len(d)] + (1,)) for x, d in zip(arr, ins)]).shape[:-1] \
                if len(arr) > 1 else arr[0].shape[:arr[0].ndim - len(ins[0])]
            if len(args) > nin:
                out = args[nin]
            dt = s.args[nin]
            while isinstance(dt, ArrT):
                dt = dt.dtype
            core_out = []
            if out is not None:
                for d, n in zip(outs[0], out.shape[out.ndim - len(outs[0]):]):
                    if size.setdefault(d, n) != n:
                        raise ValueError("core dimension mismatch")
            shape = loop + tuple(size[d] for d in outs[0])
            if out is None:
                out = np.empty(shape, dt.np_type)
            elif out.shape != shape:
                raise ValueError("output shape mismatch")
            _pause(fn.__name__)
            bs = [np.broadcast_to(x, loop + x.shape[x.ndim - len(d):]) for x, d in zip(arr, ins)]
            for ix in itertools.product(*[range(n) for n in loop]):
                fn(*[b[ix] for b in bs], out[ix])
            _pause(fn.__name__)
            return out
        call.py_func = fn
        return call
    return deco


def install():
    m = _types.ModuleType("numba")
    t = _types.ModuleType("numba.types")
    for k, v in _T.items():
        setattr(m, k, v)
        setattr(t, k, v)
    m.types = t
    m.njit, m.jit, m.vectorize, m.guvectorize = njit, jit, vectorize, guvectorize
    m.prange = range
    m.set_num_threads = lambda n: None
    m.get_num_threads = lambda: 1
    m.__version__ = "0.55.0"
    sys.modules["numba"] = m
    sys.modules["numba.types"] = t
    core = _types.ModuleType("numba.core")
    core.types = t
    m.core = core
    sys.modules["numba.core"] = core
