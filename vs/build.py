"""Compile /repo's C++ extension modules (native or symbolic) from the current
working tree.  Objects are cached under /verif/.build keyed by a hash of every
C++ source file involved, so an edited source is always recompiled."""
import hashlib
import os
import re
import shutil
import tempfile
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VS_REPO", "/repo"))
CPP = REPO / "cpp_source"
STUB = VERIF / "vs" / "cpp"
CACHE = Path(os.environ.get("VS_BUILD", str(VERIF / ".build")))

SOURCES = {
    "_util_cpp": "util.cpp",
    "_core_evaluator": "evaluator.cpp",
    "_knn": "knn/wrapper.cpp",
    "_ials_core": "als/wrapper.cpp",
}
PACKAGE = {
    "_util_cpp": "irspack.utils._util_cpp",
    "_core_evaluator": "irspack.evaluation._core_evaluator",
    "_knn": "irspack.recommenders._knn",
    "_ials_core": "irspack.recommenders._ials_core",
}


RELAXED = ("sym_relaxed", "sym_implicit_relaxed")


class BuildError(Exception):
    pass


def _hash(mode: str) -> str:
    h = hashlib.sha256(mode.encode())
    for root in (CPP, STUB):
        for p in sorted(root.rglob("*")):
            if p.is_file():
                h.update(str(p.relative_to(root)).encode())
                h.update(p.read_bytes())
    return h.hexdigest()[:20]


_TOK = re.compile(
    r'''(?P<skip>//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])+'|^[ \t]*\#[^\n]*)
      |(?P<fn>\bstd::(?:sqrt|log|log2|log10|log1p|exp|exp2|pow)\b(?=\s*\())
      |(?P<lit>(?<![\w.])(?:\d+\.\d*|\.\d+|\d+(?=[eE]))(?:[eE][+-]?\d+)?[fFlL]?(?!\w))''',
    re.S | re.M | re.X)


def rewrite(text):
    """Floating literals become Sym constants; std:: transcendental functions
    become term-building ones (so 1/std::log2(2+i) stays an exact term)."""

    def sub(m):
        if m.group("skip") is not None:
            return m.group(0)
        if m.group("fn"):
            return "vsym_math::" + m.group(0)[5:]
        return "Sym(" + m.group(0).rstrip("fFlL") + ")"

    return _TOK.sub(sub, text)


_CONSTEXPR = re.compile(r"(?<!static )\bconstexpr\s+(?=(?:const\s+)?(?:auto|float|double|Real|\w*Float\w*|\w*Scalar\w*)\s+\w+\s*(?:=|\{))")


def relax_constexpr(text):
    """`constexpr Real x = <expression>` -> `const Real x = ...` (term-building
    arithmetic is not a constant expression)."""
    return _CONSTEXPR.sub("const ", text)


def _flags(mode):
    import sysconfig

    inc = sysconfig.get_paths()["include"]
    f = ["g++", "-std=c++17", "-fPIC", "-shared", "-w", f"-I{STUB}", f"-I{inc}",
         "-I/usr/include/eigen3"]
    if mode == "native":
        f += ["-O2"]
    else:
        f += ["-O1", "-DVS_SYMBOLIC", "-ftrivial-auto-var-init=pattern",
              "-include", str(STUB / "prelude.hpp")]
        if mode.startswith("sym_implicit"):
            f += ["-DVS_IMPLICIT"]
    return f + ["-pthread"]


def _compile(name, mode):
    d = CACHE / f"{mode}-{_hash(mode)}"
    d.mkdir(parents=True, exist_ok=True)
    so = d / f"{name}.so"
    if so.exists():
        return so
    tmp = d / f".{name}.{os.getpid()}.so"
    scratch = None
    src = CPP
    try:
        if mode != "native":
            scratch = Path(tempfile.mkdtemp(prefix="vs_src_"))
            src = scratch / "cpp_source"
            for f in CPP.rglob("*"):
                if f.is_file() and f.suffix in (".hpp", ".cpp", ".h", ".cc", ".hxx", ".inl"):
                    t = src / f.relative_to(CPP)
                    t.parent.mkdir(parents=True, exist_ok=True)
                    text = rewrite(f.read_text())
                    if mode in RELAXED:
                        text = relax_constexpr(text)
                    t.write_text(text)
        extra = ["-DVS_BLOCK2"] if name == "_util_cpp" and mode != "native" else []
        cmd = _flags(mode) + extra + [f"-I{src}", str(src / SOURCES[name]), "-o", str(tmp)]
        p = subprocess.run(cmd, capture_output=True, text=True)
    finally:
        if scratch is not None:
            shutil.rmtree(scratch, ignore_errors=True)
    if p.returncode != 0:
        raise BuildError(f"{name} [{mode}] does not compile:\n{p.stderr[:4000]}")
    os.replace(tmp, so)
    return so


def build(names, mode):
    """-> {name: path}.  mode: 'native' or 'sym'."""

    def one(n):
        if mode != "sym":
            return n, _compile(n, mode)
        first = None
        for m in ("sym", "sym_implicit") + RELAXED:
            try:
                return n, _compile(n, m)
            except BuildError as e:
                first = first or e
        raise first

    with ThreadPoolExecutor(4) as ex:
        return dict(ex.map(one, names))


if __name__ == "__main__":
    for mode in sys.argv[1:] or ["native", "sym"]:
        print(build(list(SOURCES), mode))
