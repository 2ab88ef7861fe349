"""Loads the project's modules from /repo's current source with symbolic libraries underneath.

The source is compiled unchanged; only the names its import statements bind (numpy, scipy, torch, ...)
and the builtin float are replaced, so what is executed is the code of the working tree.
"""

from __future__ import annotations

import builtins
import importlib.abc
import importlib.util
import os
import sys

from vsym import nparr, proxies

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "ramannoodle"
TABLE = {}
_real_import = builtins.__import__


def _table():
    if TABLE:
        return TABLE
    import numpy.typing

    TABLE["numpy"] = nparr.NP
    TABLE["numpy.linalg"] = nparr.LA_PROXY
    TABLE["numpy.fft"] = nparr.FFT_PROXY
    TABLE["numpy.typing"] = numpy.typing
    nparr.OVR["typing"] = numpy.typing
    TABLE["math"] = proxies.MATH
    TABLE["spglib"] = proxies.spglib_module()
    for d in (proxies.scipy_modules(), proxies.tqdm_module(), proxies.pymatgen_modules()):
        TABLE.update(d)
    from vsym import torchshim

    TABLE.update(torchshim.modules())
    return TABLE


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    mine = (globals or {}).get("__name__", "")
    internal = list(fromlist or ()) == ["__doc__"]  # C code's PyImport_Import borrows the caller's globals
    if level == 0 and not internal and "._" not in name and (mine == PKG or mine.startswith(PKG + ".")):
        t = _table()
        if name in t:
            if fromlist:
                m = t[name]
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        raise ImportError(f"cannot import name {f!r} from {name!r}")
                return m
            return t[name.split(".")[0]]
        root = name.split(".")[0]
        if root in t and root not in ("math",):
            raise nparr.Unsupported(f"import {name}")
    return _real_import(name, globals, locals, fromlist, level)


_B = dict(vars(builtins))
_B["__import__"] = _import
_B["float"] = proxies.SymFloat


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        mod.__dict__["__builtins__"] = _B
        exec(compile(src, self.path, "exec"), mod.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            s = importlib.util.spec_from_file_location(name, p, loader=_Loader(p), submodule_search_locations=[base])
            return s
        if os.path.isdir(base):
            s = importlib.util.spec_from_loader(name, None, is_package=True)
            s.submodule_search_locations = [base]
            return s
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=_Loader(base + ".py"))
        return None


_installed = []


def install():
    """Route imports of the project through the symbolic loader (this process only)."""
    if _installed:
        return
    for m in list(sys.modules):
        if m == PKG or m.startswith(PKG + "."):
            del sys.modules[m]
    f = _Finder()
    sys.meta_path.insert(0, f)
    _installed.append(f)
