"""Loads a fresh copy of the package under test per simulated process and
reports every executed source line of it to the kernel."""
import ast
import sys
import os
import types
import importlib.abc
import importlib.machinery
import warnings

from . import kernel as K

PKG = "hpelm"
TOOL = 4
_code_cache = {}
_codes = set()


class RepoLoader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _get_code(self.path)
        k = K.KERNEL
        if k is not None:
            k.quiet += 1
        try:
            exec(code, module.__dict__)
        finally:
            if k is not None:
                k.quiet -= 1

    def get_code(self, name):
        return _get_code(self.path)


class RepoFinder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root
        self.cache = {}

    def _lookup(self, fullname):
        base = os.path.join(self.root, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        return base, init, 2 if os.path.isfile(init) else 1 if os.path.isfile(base + ".py") else 0

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        hit = self.cache.get(fullname)
        if hit is None:
            hit = self.cache[fullname] = self._lookup(fullname)
        base, init, kind = hit
        if kind == 2:
            ld = RepoLoader(init)
            spec = importlib.machinery.ModuleSpec(fullname, ld, origin=init, is_package=True)
            spec.submodule_search_locations = [base]
        elif kind == 1:
            ld = RepoLoader(base + ".py")
            spec = importlib.machinery.ModuleSpec(fullname, ld, origin=base + ".py")
        else:
            return None
        spec.has_location = True
        return spec


def _get_code(path):
    c = _code_cache.get(path)
    if c is None:
        with REAL_OPEN(path, "rb") as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = compile(src, path, "exec", dont_inherit=True)
            CLEANUP[path] = cleanup_lines(src)
        _code_cache[path] = c
        _register(c)
    return c


CLEANUP = {}             # file -> lines where no exception is made to appear


def cleanup_lines(src):
    """Lines of finally bodies, of handlers that re-raise, and of with headers
    (where the context is left): an exception that appears out of nowhere
    there cannot be defended against."""
    out = set()

    def add(nodes):
        for n in nodes:
            out.update(range(n.lineno, n.end_lineno + 1))
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Try):
            add(n.finalbody)
            for h in n.handlers:
                if isinstance(h.body[-1], ast.Raise) and h.body[-1].exc is None:
                    out.add(h.lineno)
                    add(h.body)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            out.update(range(n.lineno, n.body[0].lineno))
            if n.body[0].lineno == n.lineno:
                out.add(n.lineno)
    return out


def _register(code):
    # functions only: module bodies run at import time
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _codes.add(c)
            sys.monitoring.set_local_events(TOOL, c, sys.monitoring.events.LINE)
            _register(c)


def _line(code, lineno):
    k = K.KERNEL
    if k is not None:
        k.line(code, lineno)


REAL_OPEN = open
FINDER = None


def install(root):
    global FINDER
    FINDER = RepoFinder(root)
    sys.meta_path.insert(0, FINDER)
    sys.monitoring.use_tool_id(TOOL, "sim")
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _line)


def is_pkg(name):
    return name == PKG or name.startswith(PKG + ".")


def strip():
    """remove the package's modules from sys.modules and return them"""
    out = {}
    for n in [n for n in sys.modules if is_pkg(n)]:
        out[n] = sys.modules.pop(n)
    return out


def load_fresh():
    """import a fresh copy of the package; returns its module dict"""
    saved = strip()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            __import__(PKG)
        mods = strip()
    finally:
        strip()
        sys.modules.update(saved)
    return mods
