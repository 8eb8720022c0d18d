"""Entry points called by the symbolic C++ scalar (vs/cpp/sym_impl.hpp)."""
from fractions import Fraction

import numpy as np

from . import core
from .core import _num, zr


def _back(x):
    """python float when exactly representable (fast path in C++), else a term"""
    if isinstance(x, core.SymReal):
        if x.c is None:
            return x
        x = x.c
    if isinstance(x, Fraction):
        d = x.denominator
        if d & (d - 1) == 0 and -(2**53) < x.numerator < 2**53 and d < 2**200:
            return float(x)
        return core.SymReal(c=x)
    if isinstance(x, core.SymInt):
        return core.SymReal(e=zr(x))
    if isinstance(x, int):
        return float(x)
    return x


def cpp_out(x):
    return core.R(x)


def cpp_coerce(o):
    n = _num(o)
    if n is None:
        return None
    return _back(n)


def cpp_add(a, b):
    return _back(core.add(_num(a), _num(b)))


def cpp_sub(a, b):
    return _back(core.sub(_num(a), _num(b)))


def cpp_mul(a, b):
    return _back(core.mul(_num(a), _num(b)))


def cpp_div(a, b):
    return _back(core.div(_num(a), _num(b)))


def cpp_pow(a, b):
    return _back(core.power(_num(a), _num(b)))


def cpp_neg(a):
    return _back(core.neg(_num(a)))


def cpp_abs(a):
    return _back(core.absv(_num(a)))


def cpp_sqrt(a):
    return _back(core.sqrt(_num(a)))


def cpp_log(a):
    return _back(core.log(_num(a)))


def cpp_log2(a):
    return _back(core.div(_num(core.log(_num(a))), _num(core.log(Fraction(2)))))


def cpp_log10(a):
    return _back(core.div(_num(core.log(_num(a))), _num(core.log(Fraction(10)))))


def cpp_exp(a):
    return _back(core.exp(_num(a)))


def cpp_tanh(a):
    raise core.Unsupported("tanh")


def cpp_floor(a):
    return _back(core.floor_(_num(a)))


def cpp_ceil(a):
    return _back(core.ceil_(_num(a)))


def cpp_trunc(a):
    return _back(core.trunc_(_num(a)))


def cpp_round(a):
    return _back(core.round_half_away(_num(a)))


def cpp_rint(a):
    return _back(core.rint_(_num(a)))


def _c(op):
    def f(a, b):
        return bool(core.cmp(op, _num(a), _num(b)))

    return f


cpp_lt, cpp_le, cpp_gt, cpp_ge, cpp_eq, cpp_ne = map(_c, ("lt", "le", "gt", "ge", "eq", "ne"))


def cpp_to_int(a):
    t = core.trunc_(_num(a))
    if isinstance(t, float):
        return -(2**63)
    return core.concretize(zr(_num(t)))


def cpp_choice(what, n):
    return core.P().choice(what, n)


def cpp_fresh(what, a, b):
    p = core.P()
    if what == "normal":
        key = str(a), str(b)
        draws = p.__dict__.setdefault("draws", {})
        if key not in draws:
            draws[key] = core.SymReal(e=p.fresh(what))
        return draws[key]
    v = p.fresh(what)
    if what == "uniform":
        p.add(v >= zr(_num(a)))
        p.add(v < zr(_num(b)))
    return core.SymReal(e=v)


def cpp_uninit(_):
    p = core.P()
    return core.SymReal(e=p.fresh("uninit"))


def cpp_unsupported(what):
    raise core.Unsupported(what)


def cpp_make_array(lst, shape):
    from .npshim import SArr

    a = np.empty(len(lst), dtype=object)
    for i, v in enumerate(lst):
        a[i] = core.R(v)
    return a.reshape(shape).view(SArr)


def cpp_sparse_type(name):
    from . import spshim

    return getattr(spshim, name)
