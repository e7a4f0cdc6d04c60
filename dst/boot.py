"""Loads the code under test, from /repo's working tree, as often as needed.

Each boot() gives a new set of module objects: a new "process image" of the
library, whose module and class level state starts from nothing.  Compiled code
is cached, and all its code objects are handed to the simulator's line and call
seams.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import sim

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

_code = {}


def _compiled(path):
    c = _code.get(path)
    if c is None:
        with sim_open(path, "rb") as f:
            data = f.read()
        c = compile(data, path, "exec", dont_inherit=True)
        _code[path] = c
        sim.register_code(c)
        sim._monitoring["events"] = -1   # set events again for the new code
    return c


sim_open = open


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(_compiled(self.path), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top == "qudiet":
            rel = name.split(".")
        elif top == "src":
            rel = name.split(".")[1:]
        elif name == "experimental":
            p = os.path.join(REPO, "experimental.py")
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(p))
        else:
            return None
        base = os.path.join(SRC, *rel)
        if not rel:
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [SRC]
            return spec
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(init), submodule_search_locations=[base])
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                name, base + ".py", loader=_Loader(base + ".py"))
        return None


_finder = _Finder()


def ours(name):
    top = name.split(".")[0]
    return top in ("qudiet", "src", "experimental")


def purge():
    gone = {k: sys.modules.pop(k) for k in list(sys.modules) if ours(k)}
    return gone


def install():
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)


def device(gpu):
    """The machine has a (simulated) GPU, or none."""
    if gpu:
        from . import cupystub
        cupystub.install()
        os.environ["CUDA_HOME"] = "/simulated"
    else:
        for k in ("CUDA_HOME", "CUDA_PATH", "CUDA_VERSION", "CUDNN_VERSION", "COLAB_GPU"):
            os.environ.pop(k, None)


class Image:
    """One booted process image."""

    def __init__(self, prefix="qudiet", gpu=False):
        self.prefix = prefix
        purge()
        device(gpu)
        p = prefix

        def imp(name):
            return importlib.import_module(f"{p}.{name}")
        self.qc_mod = imp("core.quantum_circuit")
        self.QuantumCircuit = self.qc_mod.QuantumCircuit
        out = imp("core.output")
        self.Output, self.OutputType, self.OutputMethod = out.Output, out.OutputType, out.OutputMethod
        self.ArbitaryGate = imp("circuit_library").ArbitaryGate
        self.qasm = imp("qasm.qasm_parser")
        self.backends = {
            "numpy": imp("core.backend.NumpyBackend").NumpyBackend,
            "sparse": imp("core.backend.SparseBackend").SparseBackend,
        }
        if gpu:
            self.backends["cuda"] = imp("core.backend.CUDABackend").CUDABackend
            self.backends["cudasparse"] = imp("core.backend.CUDASparseBackend").CUDASparseBackend
        default = getattr(imp("core.backend"), "DefaultBackend", None)
        self.default = next((k for k, v in self.backends.items() if v is default), "sparse")
        self.modules = {k: v for k, v in sys.modules.items() if ours(k)}
        for b, cls in self.backends.items():
            wrap_backend(cls, b)

    def activate(self):
        purge()
        sys.modules.update(self.modules)


class RunnerImage:
    """The process image of the batch runner: both copies of the library that
    it loads, and its own module."""

    def __init__(self, gpu=False):
        purge()
        device(gpu)
        self.runner = importlib.import_module("experimental")
        self.backends = {}
        for label, mod, cls in (("sparse", "SparseBackend", "SparseBackend"), ("numpy", "NumpyBackend", "NumpyBackend"),
                                ("cuda", "CUDABackend", "CUDABackend"), ("sparse-cuda", "CUDASparseBackend", "CUDASparseBackend")):
            if "cuda" in label and not gpu:
                continue
            for top in ("qudiet", "src.qudiet"):
                c = getattr(importlib.import_module(f"{top}.core.backend.{mod}"), cls)
                wrap_backend(c, label)
                self.backends[top, label] = c
        self.circuits = [importlib.import_module(f"{top}.core.quantum_circuit").QuantumCircuit
                         for top in ("qudiet", "src.qudiet")]
        self.modules = {k: v for k, v in sys.modules.items() if ours(k)}


OPS = ("kron", "dot", "eye", "matrix", "nonzero", "is_unitary")
BACKEND_USE = {}


def wrap_backend(cls, name):
    """Puts every public operation of a backend class behind the seam."""
    if getattr(cls, "_dst_wrapped", None) is cls:
        return
    S = sim.SIM
    for op in sorted(set(OPS) | {k for k, v in cls.__dict__.items()
                                 if isinstance(v, (staticmethod, classmethod)) and not k.startswith("_")}):
        raw = cls.__dict__.get(op)
        if raw is None:
            continue
        if not isinstance(raw, (staticmethod, classmethod)):
            continue
        real = raw.__func__
        is_cls = isinstance(raw, classmethod)

        def make(real, op, is_cls):
            label = f"{name}.{op}"

            def operation(*a, **k):
                if not S.on:
                    return real(*a, **k)
                BACKEND_USE[name] = BACKEND_USE.get(name, 0) + 1
                f = S.seam("backend", label)
                r = real(*a, **k)
                S.seam_after(f, "backend")
                return r
            operation.__name__ = op
            operation.__doc__ = real.__doc__
            return classmethod(operation) if is_cls else staticmethod(operation)
        setattr(cls, op, make(real, op, is_cls))
    cls._dst_wrapped = cls


def load_script(relpath, name):
    """A script of the repository as a new module object."""
    path = os.path.join(REPO, relpath)
    m = types.ModuleType(name)
    m.__file__ = path
    exec(_compiled(path), m.__dict__)
    return m
