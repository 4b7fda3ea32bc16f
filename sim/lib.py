"""Loading the code under test from /repo's working tree.

`load()` gives the one shared instance; `fresh()` gives a pristine, private
re-import (new module objects, new caches) whose code objects are captured so
that the scheduler can set preemption points in them, and whose `threading`
and `time` are the simulator's.
"""

from __future__ import annotations

import importlib
import importlib.abc
import importlib.util
import os
import sys
import types

SRC = os.path.join(os.environ.get("SIM_REPO", "/repo"), "src")
PKG = "astrodynx"


def _version_stub():
    m = types.ModuleType(PKG + "._version")
    m.version = m.__version__ = "0.0.0"
    m.version_tuple = m.__version_tuple__ = (0, 0, 0)
    return m


_COMPILED: dict = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg, codes):
        self.path, self.is_pkg, self.codes = path, is_pkg, codes

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        key = (self.path, hash(src))
        # shared between instances: watching one instance watches them all
        code = _COMPILED.get(key)
        if code is None:
            code = _COMPILED[key] = compile(src, self.path, "exec", dont_inherit=True)
        _walk(code, self.codes)
        exec(code, module.__dict__)


def _walk(code, acc):
    for k in code.co_consts:
        if isinstance(k, types.CodeType) and k not in acc:
            acc[k] = None
            _walk(k, acc)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, codes):
        self.codes = codes

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        base = os.path.join(SRC, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            spec = importlib.util.spec_from_file_location(
                name, init, loader=_Loader(init, True, self.codes),
                submodule_search_locations=[base])
            return spec
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                name, base + ".py", loader=_Loader(base + ".py", False, self.codes))
        if name == PKG + "._version":
            return importlib.util.spec_from_loader(name, _VersionLoader())
        return None


class _VersionLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return _version_stub()

    def exec_module(self, module):
        pass


class Instance:
    """A loaded copy of the package."""

    def __init__(self, modules, codes):
        self.modules = modules
        self.adx = modules[PKG]
        self.codes = codes

    def activate(self):
        """Make this copy the one `import astrodynx` finds."""
        deactivate()
        sys.modules.update(self.modules)


def deactivate():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        del sys.modules[k]


def fresh(replace=None) -> Instance:
    """Import a private copy from the working tree.

    `replace` maps module names (e.g. "threading") to stand-ins that the
    package sees if it imports them.
    """
    saved = {k: v for k, v in sys.modules.items()
             if k == PKG or k.startswith(PKG + ".")}
    deactivate()
    codes: dict = {}
    finder = _Finder(codes)
    sys.meta_path.insert(0, finder)
    swapped = {}
    for name, mod in (replace or {}).items():
        swapped[name] = sys.modules.get(name)
        sys.modules[name] = mod
    try:
        importlib.import_module(PKG)
        importlib.import_module(PKG + ".diffeq")
        mods = {k: v for k, v in sys.modules.items()
                if k == PKG or k.startswith(PKG + ".")}
    finally:
        for name, mod in swapped.items():
            if mod is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = mod
        sys.meta_path.remove(finder)
        deactivate()
        sys.modules.update(saved)
    return Instance(mods, codes)


_shared = None


def load():
    global _shared
    if _shared is None:
        _shared = fresh()
        _shared.activate()
        for n, m in _shared.modules.items():
            f = getattr(m, "__file__", None)
            if f and not os.path.realpath(f).startswith(os.path.realpath(SRC)):
                raise RuntimeError(f"{n} imported from {f}, not from {SRC}")
    return _shared.adx
