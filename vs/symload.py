"""Import the real irspack package from /repo/src for symbolic execution:
its Python modules see the numpy / scipy.sparse / math facades, its extension
modules are the symbolic builds of the C++ sources."""
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import math
import sys
import types

from . import build, core, npshim, spshim
from .core import SymInt, SymReal, _num, R

RESETS = []
LOADED = {}


class _DummyMeta(type):
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Dummy


class _Dummy(metaclass=_DummyMeta):
    def __init__(self, *a, **k):
        raise core.Unsupported("extension module not loaded for this property")


class _DummyModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Dummy


class _DummyLoader(importlib.abc.Loader):
    def create_module(self, spec):
        m = _DummyModule(spec.name)
        if spec.name == "irspack._version":
            m.__version__ = "0.0.0"
        return m

    def exec_module(self, module):
        pass


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, sos):
        self.sos = {build.PACKAGE[k]: str(v) for k, v in sos.items()}

    def find_spec(self, name, path=None, target=None):
        if name in self.sos:
            loader = importlib.machinery.ExtensionFileLoader(name, self.sos[name])
            return importlib.util.spec_from_file_location(name, self.sos[name], loader=loader)
        if name == "irspack._version" or name in build.PACKAGE.values():
            return importlib.machinery.ModuleSpec(name, _DummyLoader())
        return None


# -- scipy / math facades ----------------------------------------------------
class _Facade(types.ModuleType):
    def __init__(self, name, real, **over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)
        self.__dict__["__path__"] = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self._real, n)


def _m1(f, real):
    def g(x, *a):
        if isinstance(x, (SymReal, SymInt)):
            return R(f(_num(x)))
        return real(x, *a)

    return g


def _expit(x):
    import scipy.special

    if isinstance(x, npshim.SArr):
        import numpy as np

        return np.frompyfunc(lambda v: 1.0 / (R(core.exp(_num(-v))) + 1.0), 1, 1)(x.view(np.ndarray)).view(npshim.SArr)
    return scipy.special.expit(x)


def _facades():
    import scipy
    import scipy.linalg
    import scipy.special

    mt = _Facade("math", math, sqrt=_m1(core.sqrt, math.sqrt), log=_m1(core.log, math.log), exp=_m1(core.exp, math.exp),
                 log2=_m1(lambda x: core.div(_num(core.log(x)), _num(core.log(core.Fraction(2)))), math.log2),
                 isnan=lambda x: False if core.is_sym(x) else math.isnan(x),
                 isinf=lambda x: False if core.is_sym(x) else math.isinf(x),
                 isfinite=lambda x: True if core.is_sym(x) else math.isfinite(x),
                 fabs=_m1(core.absv, math.fabs))
    la = _Facade("scipy.linalg", scipy.linalg, inv=npshim.inv, solve=npshim.solve)
    spc = _Facade("scipy.special", scipy.special, expit=_expit)
    sp = _Facade("scipy", scipy, sparse=spshim.sp_mod, linalg=la, special=spc)
    return {"numpy": npshim.np_mod, "scipy": sp, "scipy.sparse": spshim.sp_mod, "scipy.linalg": la,
            "scipy.special": spc, "math": mt, "numpy.linalg": npshim.linalg}


_real_import = builtins.__import__


def _make_import(fac):
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and globals is not None and str(globals.get("__name__", "")).split(".")[0] == "irspack":
            if name in fac:
                if fromlist:
                    return fac[name]
                return fac[name.split(".")[0]]
        return _real_import(name, globals, locals, fromlist, level)

    return imp


class _FM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or isinstance(x, SymReal)

    def __call__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return SymReal(e=core.zr(x))
        if hasattr(x, "item") and not isinstance(x, builtins.float) and getattr(x, "shape", None) in ((), (1,), (1, 1)):
            return cls(x.item())
        return builtins.float(x)


class symfloat(metaclass=_FM):
    pass


def _symsum(it, start=0):
    return builtins.sum(it, start)


def _patch_pandas():
    """pandas columns made from facade arrays are plain object columns of terms"""
    import numpy as np
    import pandas.core.construction as c

    real = c.sanitize_array

    def sanitize_array(data, *a, **k):
        if isinstance(data, npshim.SArr):
            data = np.array(data.view(np.ndarray), dtype=object, copy=True)
            if not any(core.is_sym(x) for x in data.ravel().tolist()):
                data = data.astype(np.float64)
        return real(data, *a, **k)

    for n, m in list(sys.modules.items()):
        if n.startswith("pandas") and getattr(m, "sanitize_array", None) is real:
            m.sanitize_array = sanitize_array


def load(modules, repo=None):
    """modules: names of extension modules to load in symbolic form"""
    sys.dont_write_bytecode = True
    sos = build.build(list(modules), "sym")
    import optuna, pandas, pydantic, scipy.sparse, sklearn.decomposition  # noqa: F401,E401

    _patch_pandas()
    sys.meta_path.insert(0, _Finder(sos))
    sys.path.insert(0, str(build.REPO / "src"))
    fac = _facades()
    builtins.__import__ = _make_import(fac)
    import irspack
    import irspack.evaluation
    import irspack.optimization
    import irspack.split
    import irspack.utils
    from irspack import dataset, recommenders  # noqa: F401

    for n, m in list(sys.modules.items()):
        if n.split(".")[0] == "irspack" and m is not None:
            if "_vs_reset" in m.__dict__:
                RESETS.append(m._vs_reset)
            if not isinstance(m, _DummyModule) and "float" not in m.__dict__:
                try:
                    m.__dict__["float"] = symfloat
                except Exception:
                    pass
    return irspack


def patch_floats():
    """modules imported later (lazily)"""
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] == "irspack" and m is not None and "float" not in m.__dict__:
            m.__dict__["float"] = symfloat
