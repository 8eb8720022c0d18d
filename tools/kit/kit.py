"""Build the extension modules of the tree in the current directory natively (with the small
nanobind stand-in beside this file) into a scratch directory and make irspack importable."""
import atexit
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import types

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = {
    "irspack.utils._util_cpp": "util.cpp",
    "irspack.evaluation._core_evaluator": "evaluator.cpp",
    "irspack.recommenders._knn": "knn/wrapper.cpp",
    "irspack.recommenders._ials_core": "als/wrapper.cpp",
}


def install():
    sys.dont_write_bytecode = True
    repo = os.getcwd()
    out = tempfile.mkdtemp(prefix="kit_")
    atexit.register(shutil.rmtree, out, True)
    procs, sos = [], {}
    for mod, f in SRC.items():
        so = os.path.join(out, mod.rsplit(".", 1)[1] + ".so")
        sos[mod] = so
        procs.append(subprocess.Popen(
            ["g++", "-std=c++17", "-O1", "-fPIC", "-shared", "-w", "-pthread", f"-I{HERE}", f"-I{sysconfig.get_paths()['include']}",
             "-I/usr/include/eigen3", f"-I{repo}/cpp_source", f"{repo}/cpp_source/{f}", "-o", so]))
    if any(p.wait() for p in procs):
        print("extension does not compile")
        sys.exit(3)

    class Version(importlib.abc.Loader):
        def create_module(self, spec):
            m = types.ModuleType(spec.name)
            m.__version__ = "0.0.0"
            return m

        def exec_module(self, module):
            pass

    class Finder(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path=None, target=None):
            if name in sos:
                return importlib.util.spec_from_file_location(
                    name, sos[name], loader=importlib.machinery.ExtensionFileLoader(name, sos[name]))
            if name == "irspack._version":
                return importlib.machinery.ModuleSpec(name, Version())

    sys.meta_path.insert(0, Finder())
    sys.path.insert(0, os.path.join(repo, "src"))
