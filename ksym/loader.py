"""Imports kiel (and harness code) from source through the instrumentation."""
import builtins
import importlib.machinery
import importlib.util
import os
import sys

from . import instrument
from . import models
from . import rt

_code = {}
FUNCTIONS = {}
SOURCES = {}


def _builtins():
    d = dict(vars(builtins))
    d.update(rt.HELPERS)
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            m = models.module_for(name)
            if m is not None:
                return m
        return real_import(name, globals, locals, fromlist, level)

    d["__import__"] = imp
    return d


_B = None


class Loader(object):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        global _B
        if _B is None:
            _B = _builtins()
        key = (self.name, self.path)
        if key not in _code:
            with open(self.path, encoding="utf-8") as f:
                src = f.read()
            code, fns = instrument.compile_module(src, self.path, self.name)
            _code[key] = code
            FUNCTIONS[self.name] = fns
            SOURCES[self.name] = self.path
        module.__dict__["__builtins__"] = _B
        exec(_code[key], module.__dict__)


class Finder(object):
    def __init__(self, roots):
        self.roots = roots      # top-level package -> directory

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *name.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True),
                       (base + ".py", False)):
            if os.path.exists(p):
                spec = importlib.machinery.ModuleSpec(
                    name, Loader(name, p, pkg), origin=p, is_package=pkg)
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [base]
                return spec
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))


def fresh(*tops):
    """Drops loaded modules of these packages so the next import re-runs."""
    for n in list(sys.modules):
        if n.split(".")[0] in tops:
            del sys.modules[n]
