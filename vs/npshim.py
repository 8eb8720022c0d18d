"""numpy facade for irspack modules under symbolic execution: arrays that would
hold floats hold exact terms (object dtype) but still report a float dtype."""
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import R, SymBool, SymInt, SymReal, _num

_F64 = np.dtype("float64")
_F32 = np.dtype("float32")


def _map1(f):
    def g(x):
        n = _num(x)
        return R(f(n)) if not isinstance(n, float) or True else n

    return g


def _tobool(f):
    return lambda x: f(x)


def _isinf(x):
    return isinstance(x, float) and x in (core.INF, -core.INF)


def _isnan(x):
    return isinstance(x, float) and x != x


def _maxi(a, b):
    if _isnan(a) or _isnan(b):
        return core.NAN
    return b if core.cmp("lt", _num(a), _num(b)) else a


def _mini(a, b):
    if _isnan(a) or _isnan(b):
        return core.NAN
    return b if core.cmp("lt", _num(b), _num(a)) else a


_UN = {
    np.sqrt: lambda x: R(core.sqrt(_num(x))),
    np.log: lambda x: R(core.log(_num(x))),
    np.log2: lambda x: R(core.div(_num(core.log(_num(x))), _num(core.log(Fraction(2))))),
    np.log1p: lambda x: R(core.log(_num(core.add(_num(x), Fraction(1))))),
    np.exp: lambda x: R(core.exp(_num(x))),
    np.absolute: lambda x: R(core.absv(_num(x))),
    np.fabs: lambda x: R(core.absv(_num(x))),
    np.floor: lambda x: R(core.floor_(_num(x))),
    np.ceil: lambda x: R(core.ceil_(_num(x))),
    np.rint: lambda x: R(core.rint_(_num(x))),
    np.trunc: lambda x: R(core.trunc_(_num(x))),
    np.square: lambda x: R(core.mul(_num(x), _num(x))),
    np.sign: lambda x: R(core.sign(_num(x))),
    np.reciprocal: lambda x: R(core.div(Fraction(1), _num(x))),
    np.negative: lambda x: R(core.neg(_num(x))),
}
_UNB = {np.isinf: _isinf, np.isnan: _isnan, np.isfinite: lambda x: not (_isinf(x) or _isnan(x)),
        np.isposinf if hasattr(np, "isposinf") else None: lambda x: _isinf(x) and x > 0,
        np.signbit: lambda x: core.cmp("lt", _num(x), Fraction(0))}
_BIN = {
    np.add: lambda a, b: R(core.add(_num(a), _num(b))),
    np.subtract: lambda a, b: R(core.sub(_num(a), _num(b))),
    np.multiply: lambda a, b: R(core.mul(_num(a), _num(b))),
    np.true_divide: lambda a, b: R(core.div(_num(a), _num(b))),
    np.power: lambda a, b: R(core.power(_num(a), _num(b))),
    np.maximum: _maxi, np.minimum: _mini, np.fmax: _maxi, np.fmin: _mini,
    np.floor_divide: lambda a, b: R(core.floor_(_num(core.div(_num(a), _num(b))))),
}


def _isobj(a):
    return isinstance(a, np.ndarray) and np.ndarray.dtype.__get__(a) == object


def _numeric(a):
    if isinstance(a, np.ndarray):
        if np.ndarray.dtype.__get__(a) != object:
            return a.dtype.kind in "biuf"
        return all(_num(x) is not None for x in a.ravel().tolist())
    return _num(a) is not None


def sarr(a, fdt=_F64):
    a = np.asarray(a, dtype=object).view(SArr) if not isinstance(a, SArr) else a
    a._fdt = fdt
    return a


def wrap_floats(a, fdt=None):
    """float ndarray -> SArr of exact constants"""
    if isinstance(a, SArr):
        return a
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        o = np.empty(a.shape, dtype=object)
        fl = o.reshape(-1) if a.size else o.ravel()
        src = a.ravel().tolist()
        for i, v in enumerate(src):
            fl[i] = R(v)
        out = o.view(SArr)
        out._fdt = fdt or a.dtype
        return out
    return a


class SArr(np.ndarray):
    _fdt = _F64

    def __array_finalize__(self, obj):
        self._fdt = getattr(obj, "_fdt", _F64)

    @property
    def dtype(self):
        return self._fdt

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        base = [np.asarray(i).view(np.ndarray) if isinstance(i, SArr) else i for i in inputs]
        fdt = next((i._fdt for i in inputs if isinstance(i, SArr)), _F64)
        where = kw.get("where", True)
        if method == "__call__" and where is True:
            f = _UN.get(ufunc)
            if f is not None:
                return self._finish(np.frompyfunc(f, 1, 1)(base[0]), out, fdt)
            f = _UNB.get(ufunc)
            if f is not None:
                r = np.frompyfunc(f, 1, 1)(base[0])
                return r.astype(bool) if isinstance(r, np.ndarray) else bool(r)
            f = _BIN.get(ufunc)
            if f is not None and _numeric(base[0]) and _numeric(base[1]):
                return self._finish(np.frompyfunc(f, 2, 1)(*base), out, fdt)
        if method == "reduce" and ufunc in (np.add, np.multiply) and kw.get("where", True) is True:
            kw.pop("where", None)
            kw.pop("dtype", None)
            kw.pop("initial", None)
            b = base[0]
            if b.dtype != object:
                b = wrap_floats(b.astype(float)).view(np.ndarray)
            r = getattr(ufunc, "reduce")(b, dtype=object, initial=core.ZERO if ufunc is np.add else core.ONE, **kw)
            return self._finish(r, out, fdt)
        kw.pop("dtype", None) if method == "reduce" else None
        outs = None
        if out is not None:
            outs = tuple(o.view(np.ndarray) if isinstance(o, SArr) else o for o in out)
        r = getattr(ufunc, method)(*base, out=outs, **kw) if outs is not None else getattr(ufunc, method)(*base, **kw)
        if out is not None and len(out) == 1 and out[0] is not None:
            return out[0]
        if isinstance(r, np.ndarray) and r.dtype == object:
            r = r.view(SArr)
            r._fdt = fdt
        return r

    def _finish(self, r, out, fdt):
        if out is not None and out[0] is not None:
            o = out[0]
            o.view(np.ndarray)[...] = r if o.dtype.kind != "f" or isinstance(o, SArr) else r
            return o
        if isinstance(r, np.ndarray):
            r = r.view(SArr)
            r._fdt = fdt
        return r

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dtype)
        if dt.kind == "f" or dt == object:
            r = self.copy() if copy else self
            if dt.kind == "f":
                if core.ENG.narrow and dt.itemsize < r._fdt.itemsize:
                    r = sarr(np.frompyfunc(lambda x: core.narrow(x, dt), 1, 1)(r.view(np.ndarray)))
                r._fdt = dt
            return r
        if dt.kind == "b":
            return np.frompyfunc(lambda x: bool(x), 1, 1)(self.view(np.ndarray)).astype(bool)
        if dt.kind in "iu":
            return np.frompyfunc(lambda x: int(x), 1, 1)(self.view(np.ndarray)).astype(dt)
        return super().astype(dtype)

    def mean(self, axis=None, **kw):
        s = np.add.reduce(self, axis=axis)
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def max(self, axis=None, **kw):
        return np.maximum.reduce(self, axis=axis)

    def min(self, axis=None, **kw):
        return np.minimum.reduce(self, axis=axis)

    def dot(self, other):
        from . import spshim

        if isinstance(other, spshim._Base):
            return spshim._dense_dot_sparse(self, other)
        return _matmul(self, other)

    def __matmul__(self, other):
        return self.dot(other)

    def __rmatmul__(self, other):
        return _matmul(other, self)

    def nonzero(self):
        return self.astype(bool).nonzero()

    def __getitem__(self, k):
        return super().__getitem__(_unshim_index(k))

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and not isinstance(v, SArr) and v.dtype.kind == "f":
            v = wrap_floats(v)
        elif isinstance(v, (float, int, Fraction)) and not isinstance(v, bool):
            v = R(v)
        super().__setitem__(_unshim_index(k), v)

    def fill(self, v):
        self[...] = v

    def __reduce__(self):
        return (_rebuild, (self.tolist(), self.shape, str(self._fdt)))


def _rebuild(lst, shape, fdt):
    a = np.empty(shape, dtype=object)
    a[...] = np.array(lst, dtype=object).reshape(shape)
    r = a.view(SArr)
    r._fdt = np.dtype(fdt)
    return r


def _unshim_index(k):
    if isinstance(k, SArr):
        return np.frompyfunc(int, 1, 1)(k.view(np.ndarray)).astype(np.int64)
    if isinstance(k, SymInt):
        return int(k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, tuple):
        return tuple(_unshim_index(x) if isinstance(x, (SArr, SymInt)) else x for x in k)
    return k


def _plain(a):
    a = np.asarray(a)
    if a.dtype.kind in "f":
        a = wrap_floats(a)
    return a.view(np.ndarray)


def _matmul(a, b):
    a, b = _plain(a), _plain(b)
    if a.ndim == 1 and b.ndim == 1:
        s = core.ZERO
        for x, y in zip(a.tolist(), b.tolist()):
            s = R(core.add(_num(s), _num(core.mul(_num(x), _num(y)))))
        return s
    A = a.reshape(1, -1) if a.ndim == 1 else a
    B = b.reshape(-1, 1) if b.ndim == 1 else b
    if A.ndim != 2 or B.ndim != 2:
        raise core.Unsupported("matmul ndim")
    if A.shape[1] != B.shape[0]:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            s = core.ZERO
            for k in range(A.shape[1]):
                x, y = _num(A[i, k]), _num(B[k, j])
                s = R(core.add(_num(s), _num(core.mul(x, y))))
            out[i, j] = s
    if a.ndim == 1:
        out = out[0]
    if b.ndim == 1:
        out = out[..., 0]
    return out.view(SArr)


# --------------------------------------------------------------------------
def _fkind(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind == "f"
    except TypeError:
        return False


def _filled(shape, v, dtype):
    a = np.empty(shape, dtype=object)
    a[...] = v
    r = a.view(SArr)
    r._fdt = np.dtype(dtype) if dtype is not None else _F64
    return r


def zeros(shape, dtype=None, order="C", **kw):
    return _filled(shape, core.ZERO, dtype) if _fkind(dtype) else np.zeros(shape, dtype=dtype)


def ones(shape, dtype=None, order="C", **kw):
    return _filled(shape, core.ONE, dtype) if _fkind(dtype) else np.ones(shape, dtype=dtype)


def empty(shape, dtype=None, order="C", **kw):
    if not _fkind(dtype):
        return np.empty(shape, dtype=dtype)
    r = _filled(shape, core.ZERO, dtype)
    if core.ENG.path is not None:
        fl = r.view(np.ndarray).reshape(-1)
        for i in range(fl.size):
            fl[i] = SymReal(e=core.P().fresh("uninit"))
    return r


def full(shape, fill_value, dtype=None, **kw):
    if dtype is None and not isinstance(fill_value, (float, SymReal, np.floating)):
        return np.full(shape, fill_value)
    return _filled(shape, R(fill_value), dtype) if _fkind(dtype) else np.full(shape, fill_value, dtype=dtype)


def _like(fn):
    def g(a, dtype=None, **kw):
        dt = dtype if dtype is not None else getattr(a, "dtype", None)
        return fn(np.shape(a), dt)

    return g


def _from(a, dtype, np_fn, **kw):
    from . import spshim

    if isinstance(a, (spshim._Base,)):
        return np_fn(a)
    if isinstance(a, SArr):
        if dtype is None:
            return np_fn(a) if np_fn is np.array and kw.get("copy", True) is False else (
                a.copy() if np_fn is np.array else a)
        return a.astype(dtype, copy=np_fn is np.array)
    if dtype is None and isinstance(a, (list, tuple)) and len(a) == 0:
        return np_fn(a)
    r = np.asarray(a) if not _has_sym(a) else _objarray(a)
    if r.dtype == object and (dtype is None or _fkind(dtype)):
        if r.size and all(isinstance(x, (SymReal, float, Fraction)) or (_num(x) is not None and dtype is not None)
                          for x in r.ravel().tolist()):
            o = np.frompyfunc(R, 1, 1)(r)
            return sarr(o) if dtype is None else sarr(o).astype(dtype, copy=False)
        return r
    if dtype is not None and np.dtype(dtype).kind != "f":
        return np_fn(r, dtype=dtype)
    if r.dtype.kind == "f" or (dtype is not None and r.dtype.kind in "biuf"):
        return wrap_floats(r.astype(np.float64), np.dtype(dtype) if dtype is not None else r.dtype)
    return np_fn(a, dtype=dtype) if dtype is not None else np_fn(a)


def _has_sym(a):
    if isinstance(a, (list, tuple)):
        return any(_has_sym(x) for x in a)
    return core.is_sym(a) or isinstance(a, SArr)


def _objarray(a):
    if core.is_sym(a):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    rows = [_objarray(x) if isinstance(x, (list, tuple)) else x for x in a]
    if rows and isinstance(rows[0], np.ndarray):
        return np.stack([np.asarray(r, dtype=object) for r in rows])
    r = np.empty(len(rows), dtype=object)
    for i, x in enumerate(rows):
        r[i] = x
    return r


def array(a, dtype=None, **kw):
    return _from(a, dtype, np.array, **kw)


def asarray(a, dtype=None, **kw):
    return _from(a, dtype, np.asarray)


def ascontiguousarray(a, dtype=None, **kw):
    return _from(a, dtype, np.ascontiguousarray)


def _post(fn):
    def g(*a, **k):
        r = fn(*a, **k)
        if isinstance(r, np.ndarray) and not isinstance(r, SArr) and np.ndarray.dtype.__get__(r) == object:
            src = next((x for x in _flat(a) if isinstance(x, SArr)), None)
            if src is not None:
                r = r.view(SArr)
                r._fdt = src._fdt
        return r

    return g


def _flat(a):
    for x in a:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        else:
            yield x


def allclose(a, b, **kw):
    return bool(np.all(asarray(a) == asarray(b)))


def arange(*a, dtype=None, **kw):
    a = [int(x) if isinstance(x, SymInt) else x for x in a]
    r = np.arange(*a, dtype=dtype, **kw)
    return wrap_floats(r)


def linspace(*a, **k):
    return wrap_floats(np.linspace(*a, **k))


def dot(a, b):
    return a.dot(b) if isinstance(a, SArr) or hasattr(a, "tocsr") else (_matmul(a, b) if _isobj(b) else np.dot(a, b))


def errstate(**k):
    return np.errstate(**k)


def eye(n, m=None, dtype=None, **k):
    r = np.eye(n, m, **k)
    return wrap_floats(r)


def isclose(a, b, **k):
    return asarray(a) == asarray(b)


def _any_all(fn):
    def g(a, axis=None, **k):
        if isinstance(a, SArr):
            a = a.astype(bool)
        elif _isobj(a):
            a = np.frompyfunc(bool, 1, 1)(a).astype(bool)
        return fn(a, axis=axis, **k)

    return g


def where(c, *xy):
    if isinstance(c, SArr):
        c = c.astype(bool)
    if not xy:
        return np.where(c)
    x, y = xy
    if any(isinstance(v, SArr) or isinstance(v, SymReal) for v in (x, y)):
        c, x, y = np.broadcast_arrays(c, _asobj(x), _asobj(y))
        out = np.empty(c.shape, dtype=object)
        for i in np.ndindex(*c.shape):
            out[i] = R(x[i] if c[i] else y[i])
        return out.view(SArr)
    return wrap_floats(np.where(c, x, y))


def _asobj(v):
    if core.is_sym(v) or isinstance(v, (float, int)):
        r = np.empty((), dtype=object)
        r[()] = v
        return r
    return np.asarray(v, dtype=object).view(np.ndarray)


def clip(a, lo, hi, **k):
    if isinstance(a, SArr) or core.is_sym(a):
        r = a
        if lo is not None:
            r = np.maximum(r, lo) if isinstance(a, SArr) else _maxi(r, lo)
        if hi is not None:
            r = np.minimum(r, hi) if isinstance(a, SArr) else _mini(r, hi)
        return r
    return np.clip(a, lo, hi, **k)


def _scalar_or(f, ufunc):
    def g(x, *a, **k):
        if isinstance(x, (SymReal, SymInt)):
            return f(x)
        return ufunc(x, *a, **k)

    return g


# linalg.inv: contract stub -------------------------------------------------
def _det(A):
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    tot = core.ZERO
    for j in range(n):
        m = R(_num(A[0, j])) * R(_num(_det(np.delete(np.delete(A, 0, 0), j, 1))))
        tot = tot + m if j % 2 == 0 else tot - m
    return tot


def inv(a, *args, **kw):
    """exact adjugate formula up to 3x3; beyond that a contract stub"""
    A = _plain(a)
    n = A.shape[0]
    if A.ndim != 2 or n != A.shape[1]:
        raise np.linalg.LinAlgError("square matrix required")
    if n > 3:
        return _inv_contract(a)
    d = _det(A)
    if bool(R(_num(d)) == 0):
        raise np.linalg.LinAlgError("singular matrix")
    B = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c = _det(np.delete(np.delete(A, j, 0), i, 1)) if n > 1 else R(1)
            B[i, j] = (R(_num(c)) if (i + j) % 2 == 0 else -R(_num(c))) / R(_num(d))
    return B.view(SArr)


def solve(a, b, *args, **kw):
    return _matmul(inv(a), b)


def _inv_contract(a):
    """A fresh matrix B constrained by A B = B A = I (contract of numpy.linalg.inv
    for a nonsingular argument)."""
    A = _plain(a)
    n = A.shape[0]
    p = core.P()
    B = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            B[i, j] = SymReal(e=p.fresh("inv"))
    for M, N in ((A, B), (B, A)):
        for i in range(n):
            for j in range(n):
                s = core.ZERO
                for k in range(n):
                    s = R(core.add(_num(s), _num(core.mul(_num(M[i, k]), _num(N[k, j])))))
                p.add(core.zr(_num(s)) == (1 if i == j else 0))
    return B.view(SArr)


def diag(v, k=0):
    a = v if isinstance(v, np.ndarray) else np.asarray(v, dtype=object if _has_sym(v) else None)
    if not (isinstance(a, SArr) or _isobj(a)) or a.ndim != 1:
        return _post(np.diag)(a, k)
    n = len(a) + abs(k)
    out = np.empty((n, n), dtype=object)
    out[...] = core.ZERO
    for i, x in enumerate(a):
        out[i + max(-k, 0), i + max(k, 0)] = x
    return out.view(SArr)


class _Linalg(types.ModuleType):
    def __getattr__(self, n):
        return getattr(np.linalg, n)


linalg = _Linalg("numpy.linalg")
linalg.inv = inv
linalg.solve = solve


class _Random(types.ModuleType):
    def __getattr__(self, n):
        if n in ("RandomState", "mtrand"):
            from .rngshim import NondetRandomState

            return NondetRandomState
        return getattr(np.random, n)


class _NP(types.ModuleType):
    def __getattr__(self, n):
        v = getattr(np, n)
        if n in ("concatenate", "vstack", "hstack", "stack", "repeat", "tile", "transpose", "reshape",
                 "broadcast_to", "atleast_2d", "flip", "sort", "cumsum", "take", "delete", "append", "ravel",
                 "squeeze", "expand_dims", "unique", "roll", "outer", "column_stack"):
            return _post(v)
        return v


np_mod = _NP("numpy")
for _n, _v in dict(
    zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=_like(zeros), ones_like=_like(ones),
    empty_like=_like(empty), array=array, asarray=asarray, ascontiguousarray=ascontiguousarray,
    asfortranarray=ascontiguousarray, allclose=allclose, arange=arange, linspace=linspace, dot=dot, matmul=dot,
    eye=eye, identity=eye, diag=diag, isclose=isclose, any=_any_all(np.any), all=_any_all(np.all), where=where, clip=clip,
    full_like=lambda a, v, dtype=None, **k: full(np.shape(a), v, dtype if dtype is not None else getattr(a, "dtype", None)),
    linalg=linalg, random=_Random("numpy.random"),
    isinf=_scalar_or(lambda x: False, np.isinf), isnan=_scalar_or(lambda x: False, np.isnan),
    isfinite=_scalar_or(lambda x: True, np.isfinite),
    maximum=np.maximum, minimum=np.minimum,
).items():
    setattr(np_mod, _n, _v)
np_mod.__path__ = []
