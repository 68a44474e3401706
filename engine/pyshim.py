"""Runs phono3py's Python code on symbolic values.

* ``install()`` makes ``phono3py`` import from the tree under test with its
  extension modules replaced by proxies that forward every call to the active
  context (symbolic IR execution, or natively compiled code on replay).
* ``NP`` stands in for ``numpy`` inside phono3py modules: arrays of floating
  dtype become object arrays of exact terms while a symbolic context is active.
"""
import sys
import types
import math
import numpy as np

from . import expr as X
from . import build
from .expr import E, Cx, F, Unsupported
from .paths import SymArr, symarr, exact, is_float_dtype, _map

EXT = ("_phono3py", "_recgrid", "_phononcalc")


_concrete = [0]


class concrete:
    """Inside: phono3py's Python runs on plain numpy (nothing symbolic in it);
    extension calls still go through the active context."""

    def __enter__(self):
        _concrete[0] += 1

    def __exit__(self, *a):
        _concrete[0] -= 1


def sym():
    c = X.CTX[0]
    return c is not None and c.symbolic and not _concrete[0]


class ExtProxy(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*args):
            c = X.CTX[0]
            if c is None:
                raise RuntimeError("extension call outside a context: " + name)
            return c.call(name, *args)

        f.__name__ = name
        return f


_done = [False]


def install():
    if _done[0]:
        return
    _done[0] = True
    sys.dont_write_bytecode = True
    sys.meta_path[:] = [m for m in sys.meta_path if "ditable" not in type(m).__name__ and "ditable" not in type(m).__module__]
    if build.REPO in sys.path:
        sys.path.remove(build.REPO)
    sys.path.insert(0, build.REPO)
    import warnings

    warnings.simplefilter("ignore")
    for n in EXT:
        sys.modules["phono3py." + n] = ExtProxy("phono3py." + n)
    import phono3py

    assert phono3py.__file__.startswith(build.REPO + "/"), phono3py.__file__
    for n in EXT:
        setattr(phono3py, n, sys.modules["phono3py." + n])


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, E, F))


class symfloat(metaclass=_FloatMeta):
    """Stands in for the builtin ``float`` while executing symbolically."""

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.ravel()[0]
        if isinstance(x, (E, F)):
            return X.to_real(x) if isinstance(x, E) else x
        return float(x)


class symcomplex(metaclass=type):
    def __new__(cls, x=0.0, y=None):
        if isinstance(x, (E, F, Cx)) or isinstance(y, (E, F)):
            return Cx(x, y if y is not None else 0) if not isinstance(x, Cx) else x
        return complex(x) if y is None else complex(x, y)


def patch(symbolic, extra=("phonopy.phonon.degeneracy",)):
    """Swap numpy for NP in every loaded phono3py module (+ named modules)."""
    install()
    for n, m in list(sys.modules.items()):
        if m is None:
            continue
        if n.startswith("phono3py") and n.split(".")[-1] not in EXT or n in extra:
            if getattr(m, "np", None) is np:
                m.np = NP
            if symbolic and n.startswith("phono3py"):
                m.float = symfloat
                m.complex = symcomplex


def _isobj(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def _hassym(a):
    if isinstance(a, (E, Cx)):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(_hassym(x) for x in a)
    return isinstance(a, F)


def _cx(d):
    if d is symfloat:
        return False
    return d is complex or d is symcomplex or (d is not None and not isinstance(d, type) and np.dtype(d).kind == "c") or (
        isinstance(d, type) and d is not object and np.dtype(d).kind == "c")


def _new(shape, dtype, fill, order="C"):
    a = np.empty(shape, dtype=object, order=order or "C")
    cx = _cx(dtype)
    if fill is None:
        a = a.view(SymArr)
        a.is_cx = cx
        return a
    f = Cx(X.num(fill), 0) if cx else X.num(fill)
    for ix in np.ndindex(*a.shape):
        a[ix] = f
    return a.view(SymArr)


def conv(a, dtype):
    """object array -> object array of the kind dtype asks for."""
    a = np.asarray(a, dtype=object)
    r = np.empty(a.shape, dtype=object)
    cx = _cx(dtype)
    for ix in np.ndindex(*a.shape):
        v = a[ix]
        if cx:
            r[ix] = Cx.of(v)
        elif isinstance(v, Cx):
            if dtype is not None and not cx:
                r[ix] = v.re
            else:
                r[ix] = v
        elif isinstance(v, E):
            r[ix] = v
        elif isinstance(v, (complex, np.complexfloating)):
            r[ix] = Cx.of(complex(v))
        elif v is None:
            r[ix] = None
        else:
            r[ix] = X.num(v)
    return r.view(SymArr)


def _nest(x):
    """np.asarray(dtype=object) that keeps nested arrays rectangular."""
    if isinstance(x, np.ndarray):
        return np.asarray(x, dtype=object) if x.dtype != object else x
    if isinstance(x, (list, tuple)):
        parts = [_nest(v) for v in x]
        if parts and all(isinstance(p, np.ndarray) for p in parts):
            return np.stack(parts)
        r = np.empty(len(parts), dtype=object)
        for i, p in enumerate(parts):
            r[i] = p
        return r
    return x


class Linalg:
    def __getattr__(self, n):
        return getattr(np.linalg, n)

    def norm(self, a, ord=None, axis=None, keepdims=False):
        if sym() and _hassym(a):
            a = np.asarray(a, dtype=object)
            s = _map(symarr(a), lambda v: v.re * v.re + v.im * v.im if isinstance(v, Cx) else v * v).sum(axis=axis)
            return NP.sqrt(s)
        return np.linalg.norm(a, ord=ord, axis=axis, keepdims=keepdims)

    def pinv(self, a, *args, **kw):
        if sym() and _hassym(a):
            b = ground(a)
            if b is None:
                raise Unsupported("pinv of symbols")
            r = np.linalg.pinv(b, *args, **kw)
            return conv(r, r.dtype)
        return np.linalg.pinv(a, *args, **kw)

    def eigh(self, a, *args, **kw):
        if sym() and _hassym(a):
            b = ground(a)
            if b is None:
                raise Unsupported("eigh of symbols")
            w, v = np.linalg.eigh(b, *args, **kw)
            return conv(w, w.dtype), conv(v, v.dtype)
        return np.linalg.eigh(a, *args, **kw)

    def eigvalsh(self, a, *args, **kw):
        if sym() and _hassym(a):
            b = ground(a)
            if b is None:
                # any values
                c = X.CTX[0]
                c.neig = k = getattr(c, "neig", 0) + 1
                return c.reals("eigval%d" % k, (len(a),))
            w = np.linalg.eigvalsh(b, *args, **kw)
            return conv(w, w.dtype)
        return np.linalg.eigvalsh(a, *args, **kw)

    def det(self, a):
        if sym() and _hassym(a):
            a = np.asarray(a, dtype=object)
            if a.shape == (3, 3):
                return (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1])
                        - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
                        + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))
            raise Unsupported("det")
        return np.linalg.det(a)

    def inv(self, a):
        if sym() and _hassym(a):
            a = np.asarray(a, dtype=object)
            if a.shape != (3, 3):
                raise Unsupported("inv of %s" % (a.shape,))
            d = self.det(a)
            r = np.empty((3, 3), dtype=object)
            for i in range(3):
                for j in range(3):
                    m = [[a[k, l] for l in range(3) if l != i] for k in range(3) if k != j]
                    r[i, j] = (m[0][0] * m[1][1] - m[0][1] * m[1][0]) * (1 if (i + j) % 2 == 0 else -1) / d if isinstance(d, (E, F)) else F(1) * (m[0][0] * m[1][1] - m[0][1] * m[1][0]) * (1 if (i + j) % 2 == 0 else -1) / d
            return r.view(SymArr)
        return np.linalg.inv(a)


def ground(a):
    """float version of an object array (or nest) without symbols; else None"""
    a = np.asarray(_nest(a), dtype=object)
    r = np.empty(a.shape, dtype=complex)
    cx = False
    for ix in np.ndindex(*a.shape):
        v = a[ix]
        if isinstance(v, E):
            return None
        if isinstance(v, Cx):
            if isinstance(v.re, E) or isinstance(v.im, E):
                return None
            cx = True
            v = complex(float(v.re), float(v.im))
        r[ix] = complex(v) if isinstance(v, (complex, np.complexfloating)) else float(v)
    return r if cx or any(isinstance(v, complex) for v in a.ravel()[:1]) else np.ascontiguousarray(r.real)


def grounded(f, strict=True):
    """f called with exact object arrays turned into floats"""
    import functools

    def g(v):
        if isinstance(v, np.ndarray) and v.dtype == object:
            w = ground(v)
            if w is None and not strict:
                return v
            if w is None:
                raise Unsupported("symbolic value in %s" % getattr(f, "__name__", f))
            return w
        return float(v) if isinstance(v, F) else v

    @functools.wraps(f)
    def h(*a, **k):
        return f(*[g(v) for v in a], **{n: g(v) for n, v in k.items()})

    h.__grounded__ = True
    return h


def _un(name, f):
    def g(self, a, *args, **kw):
        if sym() and _hassym(a):
            if isinstance(a, (E, Cx, F)):
                return f(a)
            a = np.asarray(a, dtype=object)
            if a.ndim == 0:
                return f(a[()])
            r = _map(symarr(a), f)
            return r
        return getattr(np, name)(a, *args, **kw)

    g.__name__ = name
    return g


def _fexp(v):
    if isinstance(v, (complex, np.complexfloating)):
        v = Cx.of(complex(v))
    return v.exp() if isinstance(v, Cx) else X.fn("exp", v)


def _fabs(v):
    return abs(v) if isinstance(v, (E, Cx)) else abs(X.num(v))


class _FloatingMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (np.floating, E, F, int)) and not isinstance(o, bool)


class symfloating(metaclass=_FloatingMeta):
    """Stands in for numpy.floating (elements of symbolic float arrays)."""


class NPClass:
    linalg = Linalg()

    @property
    def floating(self):
        return symfloating if sym() else np.floating

    def __getattr__(self, n):
        return getattr(np, n)

    def zeros(self, shape, dtype=float, order="C", **k):
        if sym() and is_float_dtype(dtype):
            return _new(shape, dtype, 0, order)
        return np.zeros(shape, dtype=dtype, order=order, **k)

    def ones(self, shape, dtype=float, order="C", **k):
        if sym() and is_float_dtype(dtype):
            return _new(shape, dtype, 1, order)
        return np.ones(shape, dtype=dtype, order=order, **k)

    def empty(self, shape, dtype=float, order="C", **k):
        if sym() and is_float_dtype(dtype):
            return _new(shape, dtype, None, order)
        a = np.empty(shape, dtype=dtype, order=order, **k)
        if X.CTX[0] is not None:
            _poison(a)
        return a

    def full(self, shape, v, dtype=None, **k):
        if sym() and (is_float_dtype(dtype) or _hassym(v)):
            return _new(shape, dtype, v)
        return np.full(shape, v, dtype=dtype, **k)

    def _like(self, a, dtype, fill, f, k):
        if sym() and (is_float_dtype(dtype) or dtype is None and (_isobj(a) or _hassym(a) or np.asarray(a).dtype.kind in "fc")):
            if dtype is None:
                dtype = "double"
                if _isobj(a):
                    if any(isinstance(v, Cx) for v in a.ravel()) or getattr(a, "is_cx", False):
                        dtype = "c16"
                else:
                    dtype = np.asarray(a).dtype
            return _new(np.shape(a), dtype, fill)
        return f(a, dtype=dtype, **k)

    def zeros_like(self, a, dtype=None, **k):
        return self._like(a, dtype, 0, np.zeros_like, k)

    def ones_like(self, a, dtype=None, **k):
        return self._like(a, dtype, 1, np.ones_like, k)

    def empty_like(self, a, dtype=None, **k):
        r = self._like(a, dtype, None, np.empty_like, k)
        if isinstance(r, np.ndarray) and r.dtype != object and X.CTX[0] is not None:
            _poison(r)
        return r

    def _arr(self, f, a, dtype, k):
        if sym():
            k.pop("order", None)
            copy = k.pop("copy", True)
            if is_float_dtype(dtype):
                return conv(_nest(a), dtype)
            if dtype is None:
                if _isobj(a):
                    return a.copy() if f is np.array and copy else a
                n = _nest(a) if isinstance(a, (list, tuple)) else None
                if n is not None and isinstance(n, np.ndarray) and any(isinstance(v, (E, Cx, F, float, complex)) for v in n.ravel()):
                    return conv(n, None)
                r = f(a, **k)
                if r.dtype.kind in "fc":
                    return conv(r, r.dtype)
                return r
            if _hassym(a):
                b = np.asarray(_nest(a), dtype=object)
                if np.dtype(dtype).kind in "iu":
                    if any(isinstance(v, (E, F)) for v in b.ravel()):
                        r = _map(symarr(b), lambda v: X.trunc(v) if isinstance(v, (E, F)) else int(v))
                        r.esz = np.dtype(dtype).itemsize
                        return r
                    return np.array(b.tolist(), dtype=dtype).reshape(b.shape)
                if np.dtype(dtype).kind == "b":
                    return np.array([bool(v) for v in b.ravel()], dtype=dtype).reshape(b.shape)
        return f(a, dtype=dtype, **k)

    def array(self, a, dtype=None, **k):
        return self._arr(np.array, a, dtype, k)

    def asarray(self, a, dtype=None, **k):
        if sym() and _isobj(a) and is_float_dtype(dtype):
            return a
        return self._arr(np.asarray, a, dtype, k)

    def ascontiguousarray(self, a, dtype=None, **k):
        if sym() and _hassym(a):
            return np.ascontiguousarray(self._arr(np.array, a, dtype, k)).view(SymArr)
        return np.ascontiguousarray(a, dtype=dtype, **k)

    exp = _un("exp", _fexp)
    sqrt = _un("sqrt", lambda v: v.sqrt() if isinstance(v, Cx) else X.fn("sqrt", v))
    sin = _un("sin", lambda v: X.fn("sin", v))
    cos = _un("cos", lambda v: X.fn("cos", v))
    sinh = _un("sinh", lambda v: X.fn("sinh", v))
    cosh = _un("cosh", lambda v: X.fn("cosh", v))
    tanh = _un("tanh", lambda v: X.fn("sinh", v) / X.fn("cosh", v))
    log = _un("log", lambda v: X.fn("log", v))
    expm1 = _un("expm1", lambda v: X.fn("exp", v) - 1)
    abs = _un("abs", _fabs)
    absolute = _un("absolute", _fabs)
    fabs = _un("fabs", _fabs)
    rint = _un("rint", lambda v: X.rint(v))
    floor = _un("floor", lambda v: X.floor(v))
    square = _un("square", lambda v: v * v)
    conj = _un("conj", lambda v: v.conjugate() if isinstance(v, (Cx, complex)) else v)
    conjugate = conj
    real = _un("real", lambda v: v.real if isinstance(v, (Cx, complex)) else v)
    imag = _un("imag", lambda v: v.imag if isinstance(v, (Cx, complex)) else 0)
    sign = _un("sign", lambda v: X.ite(X.lt(0, v), 1, X.ite(X.lt(v, 0), -1, 0)))
    isnan = _un("isnan", lambda v: False)
    reciprocal = _un("reciprocal", lambda v: X.div(1, v))

    def power(self, a, b):
        if sym() and (_hassym(a) or _hassym(b)):
            return np.asarray(a, dtype=object).view(SymArr) ** b
        return np.power(a, b)

    def maximum(self, a, b):
        if sym() and (_hassym(a) or _hassym(b)):
            a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            r = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(*a.shape):
                r[ix] = X.ite(X.lt(a[ix], b[ix]), b[ix], a[ix])
            return r.view(SymArr) if r.ndim else r[()]
        return np.maximum(a, b)

    def minimum(self, a, b):
        if sym() and (_hassym(a) or _hassym(b)):
            a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            r = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(*a.shape):
                r[ix] = X.ite(X.lt(b[ix], a[ix]), b[ix], a[ix])
            return r.view(SymArr) if r.ndim else r[()]
        return np.minimum(a, b)

    def where(self, c, *ab):
        if not sym() or not ab:
            if sym() and _isobj(c):
                c = np.array([bool(v) for v in c.ravel()]).reshape(c.shape)
            return np.where(c, *ab)
        a, b = ab
        if not (_hassym(a) or _hassym(b) or _hassym(c)):
            r = np.where(c, a, b)
            return conv(r, r.dtype) if r.dtype.kind in "fc" else r
        c, a, b = np.broadcast_arrays(np.asarray(c), np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        r = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            cc = c[ix]
            if isinstance(cc, E):
                r[ix] = X.ite(cc, a[ix], b[ix])
            else:
                r[ix] = a[ix] if cc else b[ix]
        return r.view(SymArr) if r.ndim else r[()]

    def extract(self, c, a):
        if sym() and _isobj(a):
            return a.ravel()[np.asarray(c, dtype=bool).ravel()]
        return np.extract(c, a)

    def einsum(self, sub, *ops, **k):
        if sym() and any(_hassym(o) for o in ops):
            k.pop("optimize", None)
            k.pop("dtype", None)
            return np.asarray(np.einsum(sub, *[np.asarray(o, dtype=object) for o in ops], **k)).view(SymArr)
        return np.einsum(sub, *ops, **k)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if sym() and (_hassym(a) or _hassym(b)):
            a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            r = np.empty(a.shape, dtype=bool)
            for ix in np.ndindex(*a.shape):
                r[ix] = bool(X.le(_fabs(a[ix] - b[ix]), X.num(atol) + X.num(rtol) * _fabs(b[ix])))
            return r
        return np.isclose(a, b, rtol=rtol, atol=atol, **k)

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        return bool(np.all(self.isclose(a, b, rtol=rtol, atol=atol)))

    def iscomplexobj(self, a):
        if sym() and _isobj(a):
            return any(isinstance(v, Cx) for v in a.ravel())
        return np.iscomplexobj(a)

    def linspace(self, a, b, n=50, endpoint=True, **k):
        if sym():
            d = X.sub(b, a)
            m = (n - 1) if endpoint else n
            return conv(np.array([X.add(a, X.mul(d, F(i, m))) if m else a for i in range(n)], dtype=object), "double")
        return np.linspace(a, b, n, endpoint=endpoint, **k)

    def arange(self, *a, **k):
        if sym() and any(isinstance(x, (E, F, float)) for x in a):
            if any(isinstance(x, (E, F)) for x in a):
                lo, hi, st = (0,) * (len(a) == 1) + a + (1,) * (len(a) < 3)
                out = []
                while X.add(lo, X.mul(st, len(out))) < hi:  # branches
                    out.append(X.add(lo, X.mul(st, len(out))))
                    if len(out) > 500:
                        raise Unsupported("symbolic arange")
                return conv(np.array(out, dtype=object), "double")
            return conv(np.arange(*a, **k), "double")
        return np.arange(*a, **k)


def _poison(a):
    """Uninitialised memory reads show up on replay."""
    if a.dtype.kind in "fc":
        a[...] = np.nan
    elif a.dtype.kind in "iu":
        a[...] = np.iinfo(a.dtype).max // 3


NP = NPClass()
