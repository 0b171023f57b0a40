"""numpy facade for transformed modules: object arrays of proxies where values are symbolic"""
import builtins
import math
import types

import numpy as np
import z3

from . import core
from .core import (Sym, SymBool, SymComplex, SymInt, SymReal, SymStr, Unsupported, _lift, _rt, _type, and_, is_cplx,
                   is_num, is_sym, ite, or_, sym_not)


def _rtmod():
    from . import rt
    return rt


def deep(x):
    return _rtmod().deep_sym(x)


def isobj(x):
    return issubclass(_type(x), np.ndarray) and x.dtype == object


def _xr(x):
    return _type(x).__name__ in ("DataArray", "Variable")


def touches(*xs):
    for x in xs:
        if is_sym(x) or isobj(x):
            return True
        if _xr(x) and x.dtype == object:
            return True
        if _type(x) in (list, tuple) and deep(x):
            return True
    return False


def force_obj():
    return core.active() and core.cur().memo.get("np_object", True)


def map1(f, x):
    if _xr(x):
        return x.copy(data=map1(f, np.asarray(x.values, dtype=object)))
    if _type(x) in (list, tuple):
        x = to_obj(x)
    if issubclass(_type(x), np.ndarray):
        out = np.empty(x.shape, dtype=object)
        of, xf = out.reshape(-1), x.reshape(-1)
        for i in range(xf.size):
            of[i] = f(xf[i])
        return out if out.ndim else out.item()
    return f(x)


def map2(f, a, b):
    if _xr(a) or _xr(b):
        raise Unsupported("binary ufunc on xarray")
    a = to_obj(a) if _type(a) in (list, tuple) else a
    b = to_obj(b) if _type(b) in (list, tuple) else b
    if not issubclass(_type(a), np.ndarray) and not issubclass(_type(b), np.ndarray):
        return f(a, b)
    aa, bb = _arr(a), _arr(b)
    aa, bb = np.broadcast_arrays(aa, bb)
    out = np.empty(aa.shape, dtype=object)
    of = out.reshape(-1)
    for i, (p, q) in enumerate(zip(aa.reshape(-1), bb.reshape(-1))):
        of[i] = f(p, q)
    return out


def _arr(a):
    if issubclass(_type(a), np.ndarray):
        return a
    out = np.empty((), dtype=object)
    out[()] = a
    return out


def to_obj(x):
    if issubclass(_type(x), np.ndarray):
        return x.astype(object) if x.dtype != object else x
    if _xr(x):
        return to_obj(x.values)
    if _type(x) in (list, tuple):
        if builtins.any(_type(v) in (list, tuple) or issubclass(_type(v), np.ndarray) for v in x):
            rows = [to_obj(v) for v in x]
            shp = {r.shape if issubclass(_type(r), np.ndarray) else () for r in rows}
            if len(shp) != 1:
                raise ValueError("setting an array element with a sequence. inhomogeneous shape")
            s = shp.pop()
            out = np.empty((len(rows),) + s, dtype=object)
            for i, r in enumerate(rows):
                out[i] = r
            return out
        out = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            out[i] = v
        return out
    return x


def infer_dtype(x):
    kinds = set()
    for v in x.reshape(-1):
        t = _type(v)
        if t is SymComplex or is_cplx(v):
            return np.dtype(complex)
        if t is SymReal or t in (float, np.float64, np.float32):
            kinds.add("f")
        elif t is SymInt or t in (int, np.int64, np.int32):
            kinds.add("i")
        elif t is SymBool or t in (bool, np.bool_):
            kinds.add("b")
        else:
            kinds.add("O")
    if "O" in kinds:
        return np.dtype(object)
    if "f" in kinds or not kinds:
        return np.dtype(float)
    if "i" in kinds:
        return np.dtype(int)
    return np.dtype(bool)


def conv(v, dtype):
    """convert one element to numpy dtype semantic"""
    if dtype is None or dtype is object:
        return v
    k = np.dtype(dtype).kind
    r = _rtmod()
    if k == "f":
        if _type(v) is SymComplex:
            return v.re
        return r.float_(v) if v is not None else math.nan
    if k in "iu":
        if _type(v) is SymStr:
            return r.int_(v)
        return r.int_(v)
    if k == "c":
        if _type(v) is SymStr:
            return r.complex_parse(v)
        return SymComplex.of(v) if is_sym(v) else complex(v)
    if k == "b":
        return r.bool_(v)
    if k in "UO":
        return v
    raise Unsupported(f"dtype {dtype}")


def np_array(obj, dtype=None, *a, **k):
    if core.active() and (deep(obj) or isobj(obj)):
        o = to_obj(obj)
        if not issubclass(_type(o), np.ndarray):
            out = np.empty((), dtype=object)
            out[()] = conv(o, dtype)
            return out
        if dtype is not None and dtype is not object:
            return map1(lambda v: conv(v, dtype), o) if o.ndim else _arr(conv(o.item(), dtype))
        ndmin = k.get("ndmin", 0)
        o = o.copy()
        while o.ndim < ndmin:
            o = o[None]
        return o
    return np.array(obj, dtype, *a, **k) if dtype is not None else np.array(obj, *a, **k)


def np_asarray(obj, dtype=None, *a, **k):
    if core.active() and isobj(obj) and dtype is None:
        return obj
    if core.active() and (deep(obj) or isobj(obj)):
        return np_array(obj, dtype)
    return np.asarray(obj, dtype, *a, **k) if dtype is not None else np.asarray(obj, *a, **k)


def _alloc(shape, dtype, val):
    r = _rtmod()
    if is_sym(shape):
        shape = shape.__index__()
    elif _type(shape) in (tuple, list):
        shape = tuple(s.__index__() if is_sym(s) else s for s in shape)
    k = np.dtype(dtype if dtype is not None else float).kind
    if force_obj() and k in "fc" or (core.active() and is_sym(val)):
        out = np.empty(shape, dtype=object)
        v = val
        if not is_sym(val) and k == "c":
            v = complex(val)
        elif not is_sym(val) and k == "f":
            v = float(val)
        out.fill(v)
        return out
    out = np.empty(shape, dtype=dtype if dtype is not None else float)
    out.fill(val)
    return out


def zeros(shape, dtype=None, *a, **k):
    if not core.active():
        return np.zeros(shape, dtype or float, *a, **k)
    return _alloc(shape, dtype, 0)


def empty(shape, dtype=None, *a, **k):
    if not core.active():
        return np.empty(shape, dtype or float, *a, **k)
    return _alloc(shape, dtype, 0)


def ones(shape, dtype=None, *a, **k):
    if not core.active():
        return np.ones(shape, dtype or float, *a, **k)
    return _alloc(shape, dtype, 1)


def full(shape, v, dtype=None, *a, **k):
    if not core.active():
        return np.full(shape, v, dtype, *a, **k)
    if dtype is None:
        dtype = complex if _type(v) is SymComplex or is_cplx(v) else float if _type(v) in (SymReal, float, np.float64) else None
        if dtype is None and not is_sym(v):
            return np.full(shape, v)
    return _alloc(shape, dtype, v)


def _like(x, dtype, val):
    d = dtype
    shape = x.shape if hasattr(x, "shape") else np.shape(to_obj(x) if touches(x) else x)
    if d is None:
        d = infer_dtype(x) if isobj(x) else getattr(x, "dtype", float)
    return _alloc(shape, d, val)


def zeros_like(x, dtype=None, *a, **k):
    return _like(x, dtype, 0) if core.active() else np.zeros_like(x, dtype, *a, **k)


def ones_like(x, dtype=None, *a, **k):
    return _like(x, dtype, 1) if core.active() else np.ones_like(x, dtype, *a, **k)


def empty_like(x, dtype=None, *a, **k):
    return _like(x, dtype, 0) if core.active() else np.empty_like(x, dtype, *a, **k)


def full_like(x, v, dtype=None, *a, **k):
    return _like(x, dtype, v) if core.active() else np.full_like(x, v, dtype, *a, **k)


def eye(n, *a, **k):
    r = np.eye(n, *a, **k)
    return r.astype(object) if force_obj() else r


def real(x):
    return map1(lambda v: v.real if is_sym(v) or hasattr(v, "real") else v, x)


def imag(x):
    return map1(lambda v: v.imag, x)


def _un(name, mathf, npf):
    def f(x, *a, **k):
        if not touches(x):
            return npf(x, *a, **k)

        def g(v):
            if is_sym(v):
                return getattr(v, name)()
            if v is None:
                raise TypeError("loop of ufunc does not support argument 0 of type NoneType")
            r = npf(v)
            return r.item() if hasattr(r, "item") else r
        return map1(g, x)
    return f


def absolute(x, *a, **k):
    if not touches(x):
        return np.abs(x, *a, **k)
    return map1(lambda v: abs(v), x)


def sqrt_el(v):
    if is_sym(v):
        return v.sqrt()
    r = np.sqrt(v)
    return r.item()


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if x is None and core.active():
        return np.nan_to_num(x)
    if not touches(x):
        return np.nan_to_num(x, copy=copy, nan=nan, posinf=posinf, neginf=neginf)

    def g(v):
        if is_sym(v):
            return v
        r = np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
        return r.item()
    return map1(g, x)


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if _type(a) is SymStr or _type(b) is SymStr or _type(a) is str or _type(b) is str:
        raise TypeError("ufunc 'isfinite' not supported for the input types")
    if a is None or b is None:
        raise TypeError("ufunc 'isfinite' not supported for the input types")
    if not is_sym(a) and not is_sym(b):
        return builtins.bool(np.isclose(a, b, rtol, atol, equal_nan))
    for q in (a, b):
        if is_num(q) and (q != q or q in (math.inf, -math.inf)):
            return False
    if _type(a) is SymComplex or _type(b) is SymComplex or is_cplx(a) or is_cplx(b):
        a, b = SymComplex.of(a), SymComplex.of(b)
        return abs(a - b) <= atol + rtol * abs(b)
    if _type(a) is SymBool:
        a = a.as_num()
    if _type(b) is SymBool:
        b = b.as_num()
    return abs(a - b) <= (atol + rtol * abs(b))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not touches(a, b):
        return np.isclose(a, b, rtol, atol, equal_nan)
    return map2(lambda p, q: _isclose(p, q, rtol, atol, equal_nan), a, b)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not touches(a, b):
        return np.allclose(a, b, rtol, atol, equal_nan)
    r = map2(lambda p, q: _isclose(p, q, rtol, atol, equal_nan), a, b)
    return and_(*list(r.reshape(-1))) if issubclass(_type(r), np.ndarray) else r


def array_equal(a, b, equal_nan=False):
    if not touches(a, b):
        return np.array_equal(a, b, equal_nan)
    a, b = np_asarray(a), np_asarray(b)
    if a.shape != b.shape:
        return False
    return and_(*[p == q for p, q in zip(a.reshape(-1), b.reshape(-1))])


def where(c, *xy):
    if not xy:
        if touches(c):
            c = np.array([builtins.bool(v) for v in np.asarray(c).reshape(-1)]).reshape(np.shape(c))
        return np.where(c)
    x, y = xy
    if not touches(c, x, y):
        return np.where(c, x, y)
    if touches(c):
        cc = np_asarray(c) if not is_sym(c) else _arr(c)
    else:
        cc = np.asarray(c)
    xa, ya = _arr(to_obj(x) if touches(x) else np.asarray(x)), _arr(to_obj(y) if touches(y) else np.asarray(y))
    cc, xa, ya = np.broadcast_arrays(cc, xa, ya)
    out = np.empty(cc.shape, dtype=object)
    of = out.reshape(-1)
    for i, (c1, p, q) in enumerate(zip(cc.reshape(-1), xa.reshape(-1), ya.reshape(-1))):
        of[i] = ite(c1, p, q)
    return out


def _cmpf(op, npf):
    import operator
    f = getattr(operator, op)

    def g(a, b, *r, **k):
        if not touches(a, b):
            return npf(a, b, *r, **k)
        return map2(f, a, b)
    return g


def np_all(x, axis=None, **k):
    if not touches(x):
        return np.all(x, axis=axis, **k)
    x = np_asarray(x)
    if axis is None:
        return and_(*[_rtmod().bool_(v) for v in x.reshape(-1)])
    return np.apply_along_axis(lambda r: and_(*list(r)), axis, x)


def np_any(x, axis=None, **k):
    if not touches(x):
        return np.any(x, axis=axis, **k)
    x = np_asarray(x)
    if axis is None:
        return or_(*[_rtmod().bool_(v) for v in x.reshape(-1)])
    return np.apply_along_axis(lambda r: or_(*list(r)), axis, x)


def np_sum(x, axis=None, **k):
    if not touches(x):
        return np.sum(x, axis=axis, **k)
    return np.sum(np_asarray(x), axis=axis)


def np_mean(x, axis=None, **k):
    if not touches(x):
        return np.mean(x, axis=axis, **k)
    x = np_asarray(x)
    n = x.size if axis is None else x.shape[axis]
    return np.sum(x, axis=axis) / n


def np_min(x, axis=None, **k):
    if not touches(x):
        return np.min(x, axis=axis, **k)
    return _red(x, axis, lambda a, b: ite(a <= b, a, b))


def np_max(x, axis=None, **k):
    if not touches(x):
        return np.max(x, axis=axis, **k)
    return _red(x, axis, lambda a, b: ite(a >= b, a, b))


def _red(x, axis, f):
    x = np_asarray(x)
    if axis is None:
        it = list(x.reshape(-1))
        if not it:
            raise ValueError("zero-size array to reduction operation which has no identity")
        r = it[0]
        for v in it[1:]:
            r = f(r, v)
        return r
    y = np.moveaxis(x, axis, 0)
    r = y[0]
    for v in y[1:]:
        r = map2(f, r, v)
    return r


def np_clip(x, lo=None, hi=None, *a, **k):
    if not touches(x, lo, hi):
        return np.clip(x, lo, hi, *a, **k)

    def g(v, l, h):
        if l is not None:
            v = ite(v < l, l, v)
        if h is not None:
            v = ite(v > h, h, v)
        return v
    return map1(lambda v: g(v, lo, hi), x)


def argsort(x, *a, **k):
    if not touches(x):
        return np.argsort(x, *a, **k)
    import functools
    x = np_asarray(x)

    def cmp(i, j):
        if builtins.bool(x[i] < x[j]):
            return -1
        if builtins.bool(x[j] < x[i]):
            return 1
        return i - j
    return np.array(sorted(range(x.size), key=functools.cmp_to_key(cmp)), dtype=int)


def np_sort(x, *a, **k):
    if not touches(x):
        return np.sort(x, *a, **k)
    x = np_asarray(x)
    return x[argsort(x)]


def unique(x, *a, **k):
    if not touches(x) or a or k:
        return np.unique(x, *a, **k)
    x = np_sort(np_asarray(x).reshape(-1))
    out = []
    for v in x:
        if not out or not builtins.bool(out[-1] == v):
            out.append(v)
    return to_obj(out)


def argmin(x, *a, **k):
    if not touches(x):
        return np.argmin(x, *a, **k)
    x = np_asarray(x).reshape(-1)
    b = 0
    for i in range(1, x.size):
        if builtins.bool(x[i] < x[b]):
            b = i
    return b


def argmax(x, *a, **k):
    if not touches(x):
        return np.argmax(x, *a, **k)
    x = np_asarray(x).reshape(-1)
    b = 0
    for i in range(1, x.size):
        if builtins.bool(x[i] > x[b]):
            b = i
    return b


def prod(x, axis=None, **k):
    if not touches(x):
        return np.prod(x, axis=axis, **k)
    x = np_asarray(x)
    if axis is not None:
        return np.multiply.reduce(x, axis=axis)
    r = 1.0
    for v in x.reshape(-1):
        r = r * v
    return r


def nonzero(x):
    if not touches(x):
        return np.nonzero(x)
    x = np_asarray(x)
    return np.nonzero(np.array([builtins.bool(v != 0) if not _type(v) is SymBool else builtins.bool(v) for v in x.reshape(-1)]).reshape(x.shape))


def linspace(a, b, n=50, *r, **k):
    if not touches(a, b, n):
        return np.linspace(a, b, n, *r, **k)
    n = n.__index__() if is_sym(n) else n
    return to_obj([a + (b - a) * i / (n - 1) for i in range(n)])


def arange(*a, **k):
    if not touches(*a):
        return np.arange(*a, **k)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a[:3]
    n = -((lo - hi) // st)
    n = n.__index__() if is_sym(n) else int(n)
    return to_obj([lo + i * st for i in range(n)]) if n > 0 else np.empty(0, dtype=object)


def diff(x, n=1, **k):
    if not touches(x):
        return np.diff(x, n, **k)
    x = np_asarray(x)
    return x[1:] - x[:-1]


def np_round(x, d=0, *a, **k):
    if not touches(x):
        return np.round(x, d, *a, **k)
    return map1(lambda v: core.sym_round(v, d) if _type(v) in (SymReal, SymInt) else
                SymComplex(core.sym_round(_lift(v.re), d), core.sym_round(_lift(v.im), d)) if _type(v) is SymComplex else round(v, d), x)


def searchsorted(a, v, side="left", sorter=None):
    if not touches(a, v):
        return np.searchsorted(a, v, side, sorter)
    a = np_asarray(a)

    def one(q):
        i = 0
        while i < a.size and builtins.bool(a[i] < q if side == "left" else a[i] <= q):
            i += 1
        return i
    if issubclass(_type(v), np.ndarray) or _type(v) is list:
        return np.array([one(q) for q in v])
    return one(v)


def interp(x, xp, fp, left=None, right=None, period=None):
    if not touches(x, xp, fp):
        return np.interp(x, xp, fp, left, right, period)
    xp, fp = list(np_asarray(xp)), list(np_asarray(fp))

    def one(q):
        if builtins.bool(q < xp[0]):
            return fp[0] if left is None else left
        if builtins.bool(q > xp[-1]):
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if builtins.bool(q <= xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) * (q - xp[i]) / (xp[i + 1] - xp[i])
        return fp[-1]
    return map1(one, x)


def matmul(a, b, *r, **k):
    if not touches(a, b):
        return np.matmul(a, b, *r, **k)
    return np.matmul(to_obj(np.asarray(a)) if not isobj(a) else a, to_obj(np.asarray(b)) if not isobj(b) else b)


def dot(a, b):
    if not touches(a, b):
        return np.dot(a, b)
    return np.dot(to_obj(np_asarray(a)), to_obj(np_asarray(b)))


def det(a):
    if not touches(a):
        return np.linalg.det(a)
    a = np_asarray(a)
    if a.ndim > 2:
        return to_obj([det(m) for m in a])
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    r = 0.0
    for j in range(n):
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        t = a[0, j] * det(minor)
        r = r + t if j % 2 == 0 else r - t
    return r


def inv(a):
    if not touches(a):
        return np.linalg.inv(a)
    a = np_asarray(a)
    if a.ndim > 2:
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            out[i] = inv(a[i])
        return out
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    d = core.settled(det(a))
    if builtins.bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = 1 / d
        return out
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(a, j, 0), i, 1)
            c = det(minor)
            if (i + j) % 2:
                c = -c
            out[i, j] = c / d
    return out


def angle(x, deg=False):
    if not touches(x):
        return np.angle(x, deg)
    r = map1(lambda v: SymComplex.of(v).angle() if is_sym(v) else float(np.angle(v)), x)
    return r * (180 / math.pi) if deg else r


def arctan2(a, b):
    if not touches(a, b):
        return np.arctan2(a, b)
    return map2(lambda p, q: core.sym_atan2(p, q) if is_sym(p) or is_sym(q) else math.atan2(p, q), a, b)


def isfalse(npf):
    def f(x, *a, **k):
        if not touches(x):
            return npf(x, *a, **k)
        r = map1(lambda v: False if is_sym(v) else builtins.bool(npf(v)), x)
        return r.astype(bool) if issubclass(_type(r), np.ndarray) else r
    return f


def istrue(npf):
    def f(x, *a, **k):
        if not touches(x):
            return npf(x, *a, **k)
        r = map1(lambda v: True if is_sym(v) else builtins.bool(npf(v)), x)
        return r.astype(bool) if issubclass(_type(r), np.ndarray) else r
    return f


def minimum(a, b, *r, **k):
    if not touches(a, b):
        return np.minimum(a, b, *r, **k)
    return map2(lambda p, q: ite(p <= q, p, q), a, b)


def maximum(a, b, *r, **k):
    if not touches(a, b):
        return np.maximum(a, b, *r, **k)
    return map2(lambda p, q: ite(p >= q, p, q), a, b)


def logical(op, npf):
    def f(a, b, *r, **k):
        if not touches(a, b):
            return npf(a, b, *r, **k)
        g = and_ if op == "and" else or_
        return map2(lambda p, q: g(_rtmod().bool_(p), _rtmod().bool_(q)), a, b)
    return f


def logical_not(x, *a, **k):
    if not touches(x):
        return np.logical_not(x, *a, **k)
    return map1(lambda v: sym_not(_rtmod().bool_(v)), x)


def conj(x):
    if not touches(x):
        return np.conj(x)
    return map1(lambda v: v.conjugate(), x)


def sign(x):
    if not touches(x):
        return np.sign(x)
    return map1(lambda v: ite(v > 0, 1, ite(v < 0, -1, 0)), x)


def freqs_zpk(z, p, k, worN=200):
    raise Unsupported("scipy freqs_zpk")


def power(a, b):
    if not touches(a, b):
        return np.power(a, b)
    return map2(lambda p, q: p ** q, a, b)


def unwrap(x, *a, **k):
    if not touches(x):
        return np.unwrap(x, *a, **k)
    raise Unsupported("unwrap")


# -- binary and unary ufuncs without a shim of their own: element by element through the Python operators
def _fmod(p, q):
    r = abs(p) % abs(q)
    return ite(p < 0, -r, r)


def _trunc(v):
    return core.trunc_int(v) * 1.0


_BIN = {
    "add": lambda p, q: p + q, "subtract": lambda p, q: p - q, "multiply": lambda p, q: p * q, "divide": lambda p, q: p / q,
    "true_divide": lambda p, q: p / q, "floor_divide": lambda p, q: p // q, "mod": lambda p, q: p % q,
    "remainder": lambda p, q: p % q, "fmod": _fmod, "hypot": lambda p, q: core.sym_sqrt(p * p + q * q),
    "power": lambda p, q: p ** q, "float_power": lambda p, q: p ** q,
    "minimum": lambda p, q: ite(p <= q, p, q), "maximum": lambda p, q: ite(p >= q, p, q),
    "fmin": lambda p, q: ite(p <= q, p, q), "fmax": lambda p, q: ite(p >= q, p, q),
    "copysign": lambda p, q: ite(q < 0, -abs(p), abs(p)),
    "heaviside": lambda p, q: ite(p < 0, 0.0, ite(p > 0, 1.0, q)),
}
_UNI = {
    "negative": lambda v: -v, "positive": lambda v: +v, "square": lambda v: v * v, "reciprocal": lambda v: 1 / v,
    "fabs": abs, "trunc": _trunc, "fix": _trunc, "signbit": lambda v: v < 0,
}


def _unfold(npf, op):
    """reduce, accumulate and outer of a binary ufunc"""
    def reduce(x, axis=0, dtype=None, out=None, keepdims=False, **k):
        if not touches(x) or k or out is not None:
            return npf.reduce(x, axis=axis, keepdims=keepdims, **k)
        return _red(x, axis, op)

    def accumulate(x, axis=0, **k):
        if not touches(x):
            return npf.accumulate(x, axis=axis, **k)
        x = np_asarray(x)
        y = np.moveaxis(x, axis, 0)
        out = np.empty(y.shape, dtype=object)
        for i in range(len(y)):
            out[i] = y[0] if i == 0 else map2(op, out[i - 1], y[i])
        return np.moveaxis(out, 0, axis)

    def outer(a, b, **k):
        if not touches(a, b):
            return npf.outer(a, b, **k)
        a, b = np_asarray(a), np_asarray(b)
        return map2(op, a.reshape(a.shape + (1,) * b.ndim), b)
    return reduce, accumulate, outer


def _bin(name):
    npf, sym = getattr(np, name), _BIN[name]

    def op(p, q):
        if is_sym(p) or is_sym(q):
            return sym(p, q)
        r = npf(p, q)
        return r.item() if hasattr(r, "item") and getattr(r, "ndim", 0) == 0 and not isobj(r) else r

    def f(a, b, out=None, *r, where=True, dtype=None, **k):
        if not touches(a, b, where) and not isobj(out):
            k.update({} if out is None else {"out": out})
            k.update({} if where is True else {"where": where})
            k.update({} if dtype is None else {"dtype": dtype})
            return npf(a, b, *r, **k)
        if _xr(a) or _xr(b):
            return npf(a, b, *r, **k)
        out = out[0] if _type(out) is tuple else out
        if where is True:
            v = map2(op, a, b)
        else:
            w = np_asarray(where)
            aa, bb, ww = np.broadcast_arrays(_arr(to_obj(a) if _type(a) in (list, tuple) else a),
                                             _arr(to_obj(b) if _type(b) in (list, tuple) else b), w)
            v = np.empty(aa.shape, dtype=object)
            old = np.zeros(aa.shape) if out is None else out
            for i in np.ndindex(*aa.shape):
                v[i] = op(aa[i], bb[i]) if _rtmod().bool_(ww[i]) else old[i]
        if out is not None:
            if not isobj(out):
                raise Unsupported("ufunc into an array of numbers")
            out[...] = v
            return out
        return v
    f.reduce, f.accumulate, f.outer = _unfold(npf, op)
    f.at = npf.at
    f.__name__ = name
    return f


def _uni(name):
    npf, sym = getattr(np, name), _UNI[name]

    def op(v):
        if is_sym(v):
            return sym(v)
        r = npf(v)
        return r.item() if hasattr(r, "item") else r

    def f(x, *a, **k):
        if not touches(x) or a or k:
            return npf(x, *a, **k)
        return map1(op, x)
    f.__name__ = name
    return f


def np_var(x, axis=None, dtype=None, out=None, ddof=0, **k):
    if not touches(x):
        return np.var(x, axis=axis, ddof=ddof, **k)
    x = np_asarray(x)
    n = x.size if axis is None else x.shape[axis]
    m = np.sum(x, axis=axis, keepdims=True) / n
    return np.sum(map1(lambda v: (v.conjugate() * v).real if is_cplx(v) or _type(v) is SymComplex else v * v, x - m), axis=axis) / (n - ddof)


def np_std(x, axis=None, dtype=None, out=None, ddof=0, **k):
    if not touches(x):
        return np.std(x, axis=axis, ddof=ddof, **k)
    return map1(sqrt_el, np_var(x, axis, ddof=ddof))


def ptp(x, axis=None, **k):
    if not touches(x):
        return np.ptp(x, axis=axis, **k)
    return np_max(x, axis) - np_min(x, axis)


def norm(x, ord=None, axis=None, keepdims=False):
    if not touches(x):
        return np.linalg.norm(x, ord, axis, keepdims)
    x = np_asarray(x)
    if keepdims or not (ord is None or (ord in (2, "fro") and (x.ndim == 1 or axis is not None))):
        raise Unsupported("norm")
    return map1(sqrt_el, np.sum(map1(lambda v: abs(v) * abs(v), x), axis=axis))


def fromiter(it, dtype=float, count=-1, **k):
    it = list(it)
    if not touches(it):
        return np.fromiter(it, dtype, count, **k)
    return np_array(it[:count] if count >= 0 else it, dtype=dtype)


class LinAlg:
    norm = staticmethod(norm)
    inv = staticmethod(inv)
    det = staticmethod(det)

    def __getattr__(self, n):
        return getattr(np.linalg, n)


class FFT:
    @staticmethod
    def fftfreq(n, d=1.0):
        if not touches(n, d):
            return np.fft.fftfreq(n, d)
        n = n.__index__() if is_sym(n) else n
        k = [i for i in range((n - 1) // 2 + 1)] + [i for i in range(-(n // 2), 0)]
        return to_obj([i / (n * d) for i in k])

    @staticmethod
    def rfftfreq(n, d=1.0):
        if not touches(n, d):
            return np.fft.rfftfreq(n, d)
        n = n.__index__() if is_sym(n) else n
        return to_obj([i / (n * d) for i in range(n // 2 + 1)])

    def __getattr__(self, n):
        return getattr(np.fft, n)


_OVR = dict(
    array=np_array, asarray=np_asarray, asanyarray=np_asarray, zeros=zeros, empty=empty, ones=ones, full=full, eye=eye,
    zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like, abs=absolute,
    absolute=absolute, nan_to_num=nan_to_num, isclose=isclose, allclose=allclose, array_equal=array_equal, where=where,
    all=np_all, any=np_any, sum=np_sum, mean=np_mean, min=np_min, max=np_max, amin=np_min, amax=np_max, clip=np_clip,
    argsort=argsort, sort=np_sort, unique=unique, argmin=argmin, argmax=argmax, prod=prod, nonzero=nonzero,
    linspace=linspace, arange=arange, diff=diff, round=np_round, searchsorted=searchsorted, interp=interp, matmul=matmul,
    dot=dot, angle=angle, arctan2=arctan2, isnan=isfalse(np.isnan), isinf=isfalse(np.isinf),
    isfinite=istrue(np.isfinite), minimum=minimum, maximum=maximum, logical_and=logical("and", np.logical_and),
    logical_or=logical("or", np.logical_or), logical_not=logical_not, conj=conj, conjugate=conj, sign=sign, power=power,
    unwrap=unwrap, linalg=LinAlg(), fft=FFT(),
    less=_cmpf("lt", np.less), less_equal=_cmpf("le", np.less_equal), greater=_cmpf("gt", np.greater),
    greater_equal=_cmpf("ge", np.greater_equal), equal=_cmpf("eq", np.equal), not_equal=_cmpf("ne", np.not_equal),
)
for _n in ("sqrt", "exp", "cos", "sin", "tan", "log", "log10", "tanh", "arctan", "arccos", "deg2rad", "rad2deg",
           "radians", "degrees", "floor", "ceil", "rint"):
    _OVR[_n] = _un(_n, None, getattr(np, _n))
for _n in _BIN:
    _OVR[_n] = _bin(_n)
for _n in _UNI:
    _OVR[_n] = _uni(_n)
for _n in ("logical_and", "logical_or"):
    _OVR[_n].reduce = {"logical_and": np_all, "logical_or": np_any}[_n]
_OVR.update(var=np_var, std=np_std, ptp=ptp, fromiter=fromiter)
_OVR["real"] = lambda x: real(x) if touches(x) and not is_sym(x) else (x.real if is_sym(x) else np.real(x))
_OVR["imag"] = lambda x: imag(x) if touches(x) and not is_sym(x) else (x.imag if is_sym(x) else np.imag(x))


class NpShim(types.ModuleType):
    def __getattr__(self, n):
        return getattr(np, n)


NP = NpShim("numpy")
for _k, _v in _OVR.items():
    setattr(NP, _k, _v)


# methods of object arrays (called through rt.callm)
def _m(f, npname):
    def g(self, *a, **k):
        if self.dtype != object:
            return getattr(self, npname)(*a, **k)
        return f(self, *a, **k)
    return g


def _astype(self, dtype, *a, **k):
    if self.dtype != object or dtype is object:
        return self.astype(dtype, *a, **k)
    if not deep(self) and not force_obj():
        return self.astype(dtype, *a, **k)
    return map1(lambda v: conv(v, dtype), self) if self.size else self.copy()


def _sort(self, *a, **k):
    if self.dtype != object:
        return self.sort(*a, **k)
    self[:] = np_sort(self.copy())


METHODS = {
    "astype": _astype, "all": _m(np_all, "all"), "any": _m(np_any, "any"), "sum": _m(np_sum, "sum"),
    "mean": _m(np_mean, "mean"), "min": _m(np_min, "min"), "max": _m(np_max, "max"), "conj": _m(conj, "conj"),
    "conjugate": _m(conj, "conjugate"), "argmin": _m(argmin, "argmin"), "argmax": _m(argmax, "argmax"),
    "argsort": _m(argsort, "argsort"), "sort": _sort, "prod": _m(prod, "prod"), "round": _m(np_round, "round"),
    "std": _m(np_std, "std"), "var": _m(np_var, "var"), "clip": _m(np_clip, "clip"),
}
