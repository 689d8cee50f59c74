"""Makes the real modules of /repo/python/qugar importable where what they
import (dolfinx, ffcx, ufl, mpi4py, pyvista, cffi, qugar.cpp) is not installed.

Only packages that are not there are replaced: any name asked of them is a
class that cannot be used (Missing), so annotations and class statements
evaluate, and a harness puts stand-ins with the documented behaviour where a
function under contract calls one. Every module below qugar is the file in
/repo; only qugar/__init__.py and qugar/dolfinx/__init__.py are not run (they
import everything)."""
import importlib
import importlib.abc
import importlib.machinery
import os
import pathlib
import sys
import types

REPO = pathlib.Path(os.environ.get("QV_REPO", "/repo"))
VENV = "/opt/qugar-venv/lib/python3.12/site-packages"
FAKE = ("mpi4py", "dolfinx", "ffcx", "ufl", "petsc4py", "pyvista", "cffi", "vtk", "vtkmodules", "qugar.cpp", "basix.ufl")
VERSIONS = {"dolfinx.cpp": "0.10.0", "ffcx": "0.10.1", "ufl": "2025.2.0", "basix": "0.10.0"}


class StubMissing(Exception):
    """the code under contract uses something of another package that has no stand-in"""


class _Meta(type):
    def __call__(cls, *a, **k):
        if cls.__dict__.get("_missing"):
            raise StubMissing(f"{cls.__module__}.{cls.__name__}")
        return super().__call__(*a, **k)

    def __getattr__(cls, name):
        if name.startswith("__") or not cls.__dict__.get("_missing"):
            raise AttributeError(name)
        return missing(cls.__module__ + "." + cls.__name__, name)


def missing(module, name):
    return _Meta(name, (), {"_missing": True, "__module__": module})


class StandIn:
    """base of the stand-ins: what they do not have is not a fault of the code under contract"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise StubMissing(f"{type(self).__name__}.{name}")


class Fake(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name == "__version__" and self.__name__ in VERSIONS:
            return VERSIONS[self.__name__]
        if name.startswith("__"):
            raise AttributeError(name)
        full = f"{self.__name__}.{name}"
        if full in sys.modules:
            return sys.modules[full]
        v = missing(self.__name__, name)
        setattr(self, name, v)
        return v


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if any(name == f or name.startswith(f + ".") for f in FAKE):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        m = Fake(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, module):
        pass


_done = False


def setup():
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    sys.path.append(VENV)
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    sys.meta_path.insert(0, _Finder())
    for name, path in (("qugar", REPO / "python/qugar"), ("qugar.dolfinx", REPO / "python/qugar/dolfinx")):
        p = types.ModuleType(name)
        p.__path__ = [str(path)]
        sys.modules[name] = p
    import qugar
    qugar.dolfinx = sys.modules["qugar.dolfinx"]
    u = importlib.import_module("qugar.utils")
    qugar.has_FEniCSx = u.has_FEniCSx = True
    u.has_PETSc = False
    qugar.has_PyVista = u.has_PyVista = True
    # names a subclass statement or a signature needs to be proper classes
    import dolfinx.jit
    import dolfinx.mesh
    dolfinx.mesh.Mesh = type("Mesh", (), {})
    dolfinx.jit.mpi_jit_decorator = lambda f: f  # one process


def load(name):
    """the real module qugar.<name>"""
    setup()
    return importlib.import_module("qugar." + name)
