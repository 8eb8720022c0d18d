"""Import the real irspack package (real numpy / pandas / scipy, natively
compiled extension modules) from /repo/src."""
import importlib.abc
import importlib.machinery
import importlib.util
import sys
import types

from . import build


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, sos):
        self.sos = {build.PACKAGE[k]: str(v) for k, v in sos.items()}

    def find_spec(self, name, path=None, target=None):
        if name in self.sos:
            loader = importlib.machinery.ExtensionFileLoader(name, self.sos[name])
            return importlib.util.spec_from_file_location(name, self.sos[name], loader=loader)
        if name == "irspack._version":
            return importlib.machinery.ModuleSpec(name, _VersionLoader())
        return None


class _VersionLoader(importlib.abc.Loader):
    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        m.__version__ = "0.0.0"
        return m

    def exec_module(self, module):
        pass


def install():
    sys.dont_write_bytecode = True
    sos = build.build(list(build.SOURCES), "native")
    sys.meta_path.insert(0, _Finder(sos))
    sys.path.insert(0, str(build.REPO / "src"))
    import irspack

    return irspack
