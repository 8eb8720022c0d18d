"""scipy.sparse facade for irspack modules under symbolic execution.

Index structure is concrete and every structural operation (conversion,
slicing, stacking, transposition, ...) is performed by the real scipy on a
carrier matrix whose stored entries are entry numbers; the symbolic values are
then gathered through the result.  Arithmetic is done on exact terms."""
import types

import numpy as np
import scipy.sparse as rs

from . import core, npshim
from .core import R, SymReal, _num
from .npshim import SArr, wrap_floats

_REAL = {"csr": rs.csr_matrix, "csc": rs.csc_matrix, "coo": rs.coo_matrix, "lil": rs.lil_matrix}


def _vals(a, dtype=None):
    """1-d value array in the model's representation"""
    if isinstance(a, SArr):
        r = a
    else:
        a = npshim.asarray(a)
        r = wrap_floats(a) if isinstance(a, np.ndarray) else a
    if dtype is not None and np.dtype(dtype) != r.dtype:
        r = npshim.asarray(r, dtype=dtype)
    return r


def _add(x, y):
    return R(core.add(_num(x), _num(y)))


class _Base:
    fmt = None
    __array_priority__ = 100.0
    __array_ufunc__ = None
    ndim = 2

    # -- construction ------------------------------------------------------
    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, _Base):
            src = arg
            if shape is not None and tuple(shape) != src.shape:
                raise ValueError("inconsistent shapes")
            if src.fmt != self.fmt:
                src = src.asformat(self.fmt)
            elif copy or src is not arg:
                src = src.copy()
            self._take(src._s, src.data)
        elif rs.issparse(arg):
            real = arg.asformat(self.fmt)
            d = real.data
            self._take(_carrier_like(real), wrap_floats(np.array(d)))
        elif isinstance(arg, tuple) and len(arg) == 2 and all(_isint(x) for x in arg):
            n, m = (int(x) for x in arg)
            self._take(_REAL[self.fmt]((n, m), dtype=np.int64),
                       npshim.zeros(0, dtype if dtype is not None else np.float64))
            dtype = None
        elif isinstance(arg, tuple) and len(arg) == 2:
            data, (row, col) = arg
            data = _vals(data)
            row = np.asarray(_unint(row))
            col = np.asarray(_unint(col))
            if len(row) != len(col) or len(row) != len(data):
                raise ValueError("row, column, and data array must all be the same length")
            if shape is not None:
                shape = tuple(int(x) for x in shape)
            c = rs.coo_matrix((np.arange(1, len(data) + 1), (row, col)), shape=shape)
            self._from_coo(c, data)
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = arg
            data = _vals(data)
            ind, ptr = np.asarray(_unint(ind)), np.asarray(_unint(ptr))
            if shape is not None:
                shape = tuple(int(x) for x in shape)
            s = _REAL[self.fmt]((np.arange(1, len(data) + 1), ind, ptr), shape=shape)
            self._take(s, data)
        else:
            a = npshim.asarray(arg)
            if isinstance(a, np.ndarray) and a.ndim == 1:
                a = a.reshape(1, -1)
            if isinstance(a, np.matrix):
                a = np.asarray(a)
            if not isinstance(a, np.ndarray) or a.ndim != 2:
                raise TypeError("unsupported sparse constructor argument")
            mask = a.astype(bool)
            r, c = np.nonzero(np.asarray(mask))
            vals = a[r, c]
            co = rs.coo_matrix((np.arange(1, len(r) + 1), (r, c)), shape=a.shape)
            self._from_coo(co, _vals(vals))
        if dtype is not None and np.dtype(dtype) != self.dtype:
            self.data = _vals(self.data, dtype)

    def _from_coo(self, c, data):
        if self.fmt == "coo":
            self._take(c, data)
            return
        order = np.lexsort((c.col, c.row) if self.fmt == "csr" else (c.row, c.col))
        row, col, ids = c.row[order], c.col[order], c.data[order] - 1
        out_r, out_c, out_v = [], [], []
        dv = data
        for k in range(len(ids)):
            v = dv[ids[k]]
            if out_r and out_r[-1] == row[k] and out_c[-1] == col[k]:
                if isinstance(data, SArr):
                    out_v[-1] = _add(out_v[-1], v)
                else:
                    out_v[-1] = out_v[-1] + v if data.dtype != bool else (out_v[-1] or v)
            else:
                out_r.append(row[k])
                out_c.append(col[k])
                out_v.append(v)
        n = len(out_v)
        s = rs.coo_matrix((np.arange(1, n + 1), (np.array(out_r, dtype=np.int64), np.array(out_c, dtype=np.int64))),
                          shape=c.shape).asformat(self.fmt)
        if isinstance(data, SArr):
            vals = np.empty(n, dtype=object)
            for i, v in enumerate(out_v):
                vals[i] = v
            vals = vals.view(SArr)
            vals._fdt = data._fdt
        else:
            vals = np.array(out_v, dtype=data.dtype)
        self._take(_renumber(s), vals[np.asarray(s.data, dtype=np.int64) - 1])

    def _take(self, s, data):
        self._s = s
        self.data = data

    @classmethod
    def _mk(cls, s, data):
        """wrap a carrier whose data are 1-based positions in `data`"""
        k = _CLS[s.format]
        r = k.__new__(k)
        ids = np.asarray(s.data, dtype=np.int64)
        if ids.size and ids.min() < 1:
            raise core.Unsupported("carrier entry lost")
        r._take(_renumber(s), data[ids - 1] if len(ids) else data[:0])
        return r

    def _c(self):
        """carrier with entry numbers"""
        return _renumber(self._s, copy=True)

    def _op(self, f):
        return self._mk(f(self._c()), self.data)

    # -- attributes --------------------------------------------------------
    @property
    def shape(self):
        return tuple(int(x) for x in self._s.shape)

    @property
    def format(self):
        return self.fmt

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def indices(self):
        return self._s.indices

    @indices.setter
    def indices(self, v):
        self._s.indices = np.asarray(v)

    @property
    def indptr(self):
        return self._s.indptr

    @indptr.setter
    def indptr(self, v):
        self._s.indptr = np.asarray(v)

    @property
    def row(self):
        return self._s.row

    @property
    def col(self):
        return self._s.col

    @property
    def nnz(self):
        return self._s.nnz

    @property
    def size(self):
        return self._s.nnz

    def getnnz(self, axis=None):
        return self._s.getnnz(axis)

    def count_nonzero(self):
        return int(np.count_nonzero(np.asarray(self.data.astype(bool))))

    @property
    def has_sorted_indices(self):
        return self._s.has_sorted_indices

    @has_sorted_indices.setter
    def has_sorted_indices(self, v):
        pass

    @property
    def has_canonical_format(self):
        return self._s.has_canonical_format

    @has_canonical_format.setter
    def has_canonical_format(self, v):
        pass

    @property
    def T(self):
        return self.transpose()

    def transpose(self, axes=None, copy=False):
        return self._op(lambda c: c.T)

    # -- conversion --------------------------------------------------------
    def copy(self):
        return self._mk(self._c(), self.data.copy())

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def asformat(self, f, copy=False):
        if f is None or f == self.fmt:
            return self
        if self.fmt == "coo":
            r = _CLS[f].__new__(_CLS[f])
            r._from_coo(self._c(), self.data)
            return r
        return self._op(lambda c: c.asformat(f))

    def tocsr(self, copy=False):
        return self.copy() if copy and self.fmt == "csr" else self.asformat("csr")

    def tocsc(self, copy=False):
        return self.copy() if copy and self.fmt == "csc" else self.asformat("csc")

    def tocoo(self, copy=False):
        return self.asformat("coo")

    def tolil(self, copy=False):
        raise core.Unsupported("lil_matrix")

    todok = tolil

    def astype(self, dtype, casting="unsafe", copy=True):
        r = self.copy() if copy or np.dtype(dtype) != self.dtype else self
        if np.dtype(dtype) != r.dtype:
            r.data = _vals(r.data, dtype)
        return r

    def _coo(self):
        c = self._c().tocoo()
        return np.asarray(c.row), np.asarray(c.col), np.asarray(c.data, dtype=np.int64) - 1

    def toarray(self, order=None, out=None):
        r, c, k = self._coo()
        if isinstance(self.data, SArr):
            o = npshim.zeros(self.shape, self.dtype)
            raw = o.view(np.ndarray)
            for i, j, p in zip(r.tolist(), c.tolist(), k.tolist()):
                raw[i, j] = _add(raw[i, j], self.data[p])
            return o
        o = np.zeros(self.shape, dtype=self.dtype)
        np.add.at(o, (r, c), self.data[k]) if self.dtype != bool else o.__setitem__((r, c), True)
        return o

    @property
    def A(self):
        return self.toarray()

    def todense(self, *a, **k):
        return _matrix(self.toarray())

    # -- in-place structure ------------------------------------------------
    def sort_indices(self):
        if self.fmt == "coo":
            raise AttributeError("sort_indices")
        c = self._c()
        c.sort_indices()
        ids = np.asarray(c.data, dtype=np.int64) - 1
        self._s.indices[:] = c.indices
        self._s.has_sorted_indices = True
        self.data[:] = self.data[ids]

    def sorted_indices(self):
        r = self.copy()
        r.sort_indices()
        return r

    def sum_duplicates(self):
        r, c, k = self._coo()
        if self.fmt == "coo":
            raise core.Unsupported("coo.sum_duplicates")
        co = rs.coo_matrix((k + 1, (r, c)), shape=self.shape)
        self._from_coo(co, self.data)

    def eliminate_zeros(self):
        keep = np.asarray(self.data.astype(bool))
        r, c, k = self._coo()
        m = keep[k]
        co = rs.coo_matrix((k[m] + 1, (r[m], c[m])), shape=self.shape)
        s = co.asformat(self.fmt)
        ids = np.asarray(s.data, dtype=np.int64)
        self._take(_renumber(s), self.data[ids - 1])

    def setdiag(self, values, k=0):
        if k:
            raise core.Unsupported("setdiag offset")
        n = min(self.shape)
        vals = [values] * n if np.ndim(values) == 0 else list(values)
        r, c, ids = self._coo()
        off = r != c
        row = np.concatenate([r[off], np.arange(n)])
        col = np.concatenate([c[off], np.arange(n)])
        data = npshim._post(np.concatenate)([self.data[ids[off]], _vals(vals, self.dtype)])
        co = rs.coo_matrix((np.arange(1, len(row) + 1), (row, col)), shape=self.shape)
        self._from_coo(co, data)

    # -- queries -----------------------------------------------------------
    def nonzero(self):
        r, c, k = self._coo()
        m = np.asarray(self.data.astype(bool))[k]
        return r[m], c[m]

    def diagonal(self, k=0):
        d = self.toarray()
        return npshim._post(np.diagonal)(d, k).copy()

    def sum(self, axis=None, dtype=None, out=None):
        a = self.toarray()
        if axis is None:
            return a.sum() if a.size else (core.ZERO if isinstance(a, SArr) else a.sum())
        if axis < 0:
            axis += 2
        s = np.add.reduce(a, axis=axis)
        s = s.reshape(1, -1) if axis == 0 else s.reshape(-1, 1)
        return _matrix(s)

    def mean(self, axis=None, **k):
        s = self.sum(axis)
        n = self.shape[0] * self.shape[1] if axis is None else self.shape[axis]
        return s / n

    def max(self, axis=None, out=None):
        a = self.toarray()
        if axis is None:
            return a.max()
        m = a.max(axis)
        return coo_matrix(m.reshape(1, -1) if axis == 0 else m.reshape(-1, 1))

    def min(self, axis=None, out=None):
        a = self.toarray()
        if axis is None:
            return a.min()
        m = a.min(axis)
        return coo_matrix(m.reshape(1, -1) if axis == 0 else m.reshape(-1, 1))

    # -- arithmetic --------------------------------------------------------
    def _entries(self):
        r, c, k = self._coo()
        out = {}
        for i, j, p in zip(r.tolist(), c.tolist(), k.tolist()):
            v = self.data[p]
            out[i, j] = _add(out[i, j], v) if (i, j) in out else v
        return out

    @staticmethod
    def _build(entries, shape, fmt, like, drop_zero=False):
        keys = sorted(entries)
        if drop_zero:
            keys = [k for k in keys if bool(entries[k] != 0)]
        vals = [entries[k] for k in keys]
        if isinstance(like, SArr) or any(core.is_sym(v) for v in vals):
            d = np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                d[i] = R(v)
            d = d.view(SArr)
            d._fdt = like.dtype if like.dtype.kind == "f" else np.dtype(float)
        else:
            d = np.array(vals, dtype=like.dtype if like.dtype != bool else np.int64)
        rows = np.array([k[0] for k in keys], dtype=np.int64)
        cols = np.array([k[1] for k in keys], dtype=np.int64)
        return _CLS[fmt if fmt != "coo" else "csr"]((d, (rows, cols)), shape=shape)

    def _binary(self, o, f):
        if self.shape != o.shape:
            raise ValueError("inconsistent shapes")
        a, b = self._entries(), o._entries()
        zero = core.ZERO if isinstance(self.data, SArr) or isinstance(o.data, SArr) else 0
        e = {k: f(a.get(k, zero), b.get(k, zero)) for k in set(a) | set(b)}
        like = self.data if isinstance(self.data, SArr) else o.data
        # scipy's binopt drops entries that become exactly zero
        return self._build(e, self.shape, self.fmt, like, drop_zero=True)

    def __add__(self, o):
        if isinstance(o, _Base):
            return self._binary(o, lambda x, y: x + y)
        if np.ndim(o) == 0:
            if bool(o == 0):
                return self.copy()
            raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")
        return self.toarray() + o

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _Base):
            return self._binary(o, lambda x, y: x - y)
        return self.toarray() - o

    def __rsub__(self, o):
        return o - self.toarray()

    def __neg__(self):
        r = self.copy()
        r.data = -r.data
        return r

    def __abs__(self):
        r = self.copy()
        r.data = abs(r.data)
        return r

    def _scaled(self, f):
        r = self.copy()
        r.data = f(r.data)
        return r

    def multiply(self, o):
        if isinstance(o, _Base):
            if o.shape != self.shape:
                o = o.toarray()
            else:
                a, b = self._entries(), o._entries()
                e = {k: a[k] * b[k] for k in set(a) & set(b)}
                return self._build(e, self.shape, "csr", self.data if isinstance(self.data, SArr) else o.data)
        if np.ndim(o) == 0:
            return self._scaled(lambda d: d * o)
        o = npshim.asarray(o)
        o = np.asarray(o) if not isinstance(o, SArr) else o
        if o.ndim == 1:
            o = o.reshape(1, -1)
        b = np.broadcast_to(o.view(np.ndarray), self.shape)
        e = {k: v * b[k] for k, v in self._entries().items()}
        return self._build(e, self.shape, "coo", self.data)

    def __mul__(self, o):
        if np.ndim(o) == 0 and not isinstance(o, _Base):
            return self._scaled(lambda d: d * o)
        return self.dot(o)

    def __rmul__(self, o):
        if np.ndim(o) == 0:
            return self._scaled(lambda d: d * o)
        return _dense_dot_sparse(o, self)

    def __truediv__(self, o):
        if np.ndim(o) == 0 and not isinstance(o, _Base):
            return self._scaled(lambda d: d / o)
        raise core.Unsupported("sparse / array")

    def power(self, n, dtype=None):
        return self._scaled(lambda d: d**n)

    def __pow__(self, n):
        raise core.Unsupported("sparse ** n")

    def sqrt(self):
        return self._scaled(np.sqrt)

    def dot(self, o):
        if np.ndim(o) == 0 and not isinstance(o, _Base):
            return self * o
        if isinstance(o, _Base):
            if self.shape[1] != o.shape[0]:
                raise ValueError("dimension mismatch")
            a, b = self._entries(), o._entries()
            rows = {}
            for (i, j), v in b.items():
                rows.setdefault(i, []).append((j, v))
            e = {}
            for (i, k), v in a.items():
                for j, w in rows.get(k, ()):
                    t = v * w
                    e[i, j] = e[i, j] + t if (i, j) in e else t
            return self._build(e, (self.shape[0], o.shape[1]), self.fmt, self.data if isinstance(self.data, SArr) else o.data)
        if isinstance(o, np.ndarray) or isinstance(o, (list, tuple)):
            return npshim._matmul(self.toarray(), o)
        raise core.Unsupported("sparse.dot")

    __matmul__ = dot

    def __rmatmul__(self, o):
        return _dense_dot_sparse(o, self)

    # -- comparison: only what returns sparse booleans -----------------------
    def __eq__(self, o):
        return NotImplemented if not isinstance(o, _Base) else self is o

    __hash__ = None

    def __ne__(self, o):
        if not isinstance(o, _Base) and np.ndim(o) == 0:
            return self._cmp0(o, lambda a, b: a != b)
        if isinstance(o, _Base):
            raise core.Unsupported("sparse comparison")
        return NotImplemented

    def _cmp0(self, o, op):
        """comparison with a scalar for which implicit zeros give False"""
        if np.ndim(o) or isinstance(o, _Base):
            raise core.Unsupported("sparse comparison")
        r = self.copy()
        r.data = np.array([bool(op(v, o)) for v in r.data], dtype=bool)
        if bool(op(core.ZERO, o)):
            raise core.Unsupported("dense comparison result")
        return r

    def __gt__(self, o):
        return self._cmp0(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp0(o, lambda a, b: a >= b)

    def __lt__(self, o):
        return self._cmp0(o, lambda a, b: a < b)

    def __bool__(self):
        if self.shape == (1, 1):
            return self.nnz != 0
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __len__(self):
        raise TypeError("sparse array length is ambiguous; use getnnz()")

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    # -- indexing ----------------------------------------------------------
    def __getitem__(self, k):
        if self.fmt == "coo":
            raise TypeError("'coo_matrix' object is not subscriptable")
        k = _index(k)
        r = self._c()[k]
        if rs.issparse(r):
            return self._mk(r, self.data)
        if np.ndim(r) == 0:
            r = int(r)
            return self.data[r - 1] if r else (core.ZERO if isinstance(self.data, SArr) else self.dtype.type(0))
        at = np.asarray(r)
        zero = core.ZERO if isinstance(self.data, SArr) else self.dtype.type(0)
        vals = [self.data[int(x) - 1] if x else zero for x in at.ravel()]
        if isinstance(self.data, SArr):
            return npshim.sarr(np.array(vals + [None], dtype=object)[:-1].reshape(at.shape)).view(_SMatrix)
        return np.asmatrix(np.array(vals, dtype=self.dtype).reshape(at.shape))

    def __setitem__(self, k, v):
        raise core.Unsupported("sparse item assignment")

    def getrow(self, i):
        return self._op(lambda c: c.getrow(i).asformat("csr"))

    def getcol(self, j):
        return self._op(lambda c: c.getcol(j))

    def reshape(self, *a, **k):
        return self._op(lambda c: c.reshape(*a, **k).asformat(self.fmt))

    def _extreme(self, o, pick):
        if not isinstance(o, _Base):
            raise core.Unsupported("sparse maximum/minimum with an array")
        return self._binary(o, lambda x, y: x if bool(pick(x, y)) else y)

    def maximum(self, o):
        return self._extreme(o, lambda x, y: x >= y)

    def minimum(self, o):
        return self._extreme(o, lambda x, y: x <= y)

    def sign(self):
        r = self.copy()
        r.data = np.sign(r.data) if not isinstance(r.data, SArr) else npshim.sarr(np.array(
            [core.R(1) if bool(v > 0) else core.R(-1) if bool(v < 0) else core.R(0) for v in r.data] or [], dtype=object))
        return r

    def __repr__(self):
        return f"<symbolic {self.fmt} {self.shape} nnz={self.nnz}>"

    def __reduce__(self):
        if self.fmt == "coo":
            return (_CLS["coo"], ((self.data, (self.row, self.col)), self.shape))
        return (_CLS[self.fmt], ((self.data, self.indices, self.indptr), self.shape))


def _isint(x):
    return isinstance(x, (int, np.integer, core.SymInt)) and not isinstance(x, bool)


def _unint(a):
    if isinstance(a, SArr):
        return a.astype(np.int64)
    if isinstance(a, (list, tuple)) and any(isinstance(x, core.SymInt) for x in a):
        return [int(x) for x in a]
    if isinstance(a, np.ndarray) and a.dtype == object:
        return np.array([int(x) for x in a], dtype=np.int64)
    return a


def _index(k):
    k = npshim._unshim_index(k)
    if isinstance(k, slice):
        return slice(*(int(x) if isinstance(x, core.SymInt) else x for x in (k.start, k.stop, k.step)))
    if isinstance(k, tuple):
        return tuple(_index(x) for x in k)
    return k


def _renumber(s, copy=False):
    n = len(s.data)
    if s.format == "coo":
        r = rs.coo_matrix((np.arange(1, n + 1), (s.row, s.col)), shape=s.shape, copy=copy)
    else:
        r = type(s)((np.arange(1, n + 1), s.indices, s.indptr), shape=s.shape, copy=copy)
    return r


def _carrier_like(real):
    return _renumber(real, copy=True)


class csr_matrix(_Base):
    fmt = "csr"


class csc_matrix(_Base):
    fmt = "csc"


class coo_matrix(_Base):
    fmt = "coo"


_CLS = {"csr": csr_matrix, "csc": csc_matrix, "coo": coo_matrix}
_REAL = {"csr": rs.csr_matrix, "csc": rs.csc_matrix, "coo": rs.coo_matrix}


class _SMatrix(SArr):
    """np.matrix-like result of .sum(axis)"""

    def __array_finalize__(self, obj):
        super().__array_finalize__(obj)

    @property
    def A1(self):
        return self.view(SArr).ravel()

    @property
    def A(self):
        return self.view(SArr)

    def astype(self, dtype, *a, **k):
        r = SArr.astype(self.view(SArr), dtype)
        return r.view(_SMatrix) if isinstance(r, SArr) else np.matrix(r)

    def ravel(self, *a, **k):
        return self.view(SArr).ravel().reshape(1, -1).view(_SMatrix)

    flatten = ravel

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [i.view(SArr) if isinstance(i, _SMatrix) else i for i in inputs]
        out = kw.get("out")
        if out:
            kw["out"] = tuple(o.view(SArr) if isinstance(o, _SMatrix) else o for o in out)
            getattr(ufunc, method)(*ins, **kw)
            return out[0]
        r = getattr(ufunc, method)(*ins, **kw)
        return r.view(_SMatrix) if isinstance(r, SArr) and r.ndim == 2 else r


def _matrix(a):
    if isinstance(a, SArr):
        return a.view(_SMatrix)
    return np.asmatrix(a)


def _dense_dot_sparse(a, s):
    return npshim._matmul(a, s.toarray())


def _stack(blocks, fn, fmt):
    bl = [b if isinstance(b, _Base) else csr_matrix(b) for b in blocks]
    off, cs = 0, []
    for b in bl:
        c = b._c()
        c.data = c.data + off
        off += len(c.data)
        cs.append(c)
    r = fn(cs, format=fmt)
    # blocks may come out in any format
    data = npshim._post(np.concatenate)([b.data for b in bl]) if bl else None
    if any(isinstance(b.data, SArr) for b in bl):
        data = np.concatenate([np.asarray(_vals(b.data, np.float64)).view(np.ndarray) for b in bl]).view(SArr)
        data._fdt = np.result_type(*[b.dtype for b in bl])
    return _Base._mk(r, data)


def hstack(blocks, format=None, dtype=None):
    r = _stack(blocks, rs.hstack, format)
    return r if dtype is None else r.astype(dtype)


def vstack(blocks, format=None, dtype=None):
    r = _stack(blocks, rs.vstack, format)
    return r if dtype is None else r.astype(dtype)


def diags(d, offsets=0, shape=None, format=None, dtype=None):
    d = npshim.asarray(d)
    if d.ndim == 2 and len(d) == 1:
        d = d[0]
    if d.ndim != 1 or (np.ndim(offsets) == 0 and offsets != 0):
        raise core.Unsupported("diags")
    n = len(d)
    return _CLS[format or "csr"]((d, (np.arange(n), np.arange(n))), shape=shape or (n, n))


def identity(n, dtype="d", format=None):
    return diags(npshim.ones(n, dtype), format=format)


def eye(m, n=None, k=0, dtype=float, format=None):
    if n not in (None, m) or k:
        raise core.Unsupported("eye")
    return identity(m, dtype, format)


def issparse(x):
    return isinstance(x, _Base) or rs.issparse(x)


class _Sp(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(rs, n)


sp_mod = _Sp("scipy.sparse")
for _n, _v in dict(csr_matrix=csr_matrix, csc_matrix=csc_matrix, coo_matrix=coo_matrix, csr_array=csr_matrix,
                   csc_array=csc_matrix, coo_array=coo_matrix, hstack=hstack, vstack=vstack, diags=diags,
                   identity=identity, eye=eye, issparse=issparse, isspmatrix=issparse, spmatrix=_Base,
                   isspmatrix_csr=lambda x: isinstance(x, csr_matrix),
                   isspmatrix_csc=lambda x: isinstance(x, csc_matrix)).items():
    setattr(sp_mod, _n, _v)
sp_mod.__path__ = []
