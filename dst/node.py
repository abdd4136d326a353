"""Fresh copies of the repository's modules for each simulated process."""

import importlib
import importlib.abc
import importlib.machinery
import os
import sys

import winsim
from simfs import MOUNT

REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = MOUNT + "/site"
_code = {}


def _is_ours(name):
    return name in ("tn", "itn") or name.startswith(("tn.", "itn."))


def find_source(name):
    base = os.path.join(REPO, *name.split("."))
    if os.path.isfile(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    if os.path.isfile(base + ".py"):
        return base + ".py", False
    if os.path.isdir(base):
        return None, True
    return None, False


def code_for(name, edited=None):
    if edited:
        path, pkg = find_source(name)
        rel = path and path[len(REPO) + 1:]
        if rel in edited:
            return compile(edited[rel], path, "exec", dont_inherit=True), pkg, SITE + path[len(REPO):]
    e = _code.get(name)
    if e is None:
        path, pkg = find_source(name)
        if path is None:
            e = (None, pkg, None)
        else:
            with open(path, "rb") as f:
                src = f.read()
            virt = SITE + path[len(REPO):]
            e = (compile(src, path, "exec", dont_inherit=True), pkg, virt)
        _code[name] = e
    return e


_warm = []


def warm():
    """Has the standard modules that the code under test uses loaded before any import of it on "Windows"."""
    if not _warm:
        _warm.append(True)
        import subprocess
        code = "import sys; sys.path.insert(0, {!r}); import tn.processor; print(*sys.modules)".format(REPO)
        out = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True)
        for name in out.stdout.split():
            if not _is_ours(name):
                try:
                    importlib.import_module(name)
                except ImportError:
                    pass


class _Loader(importlib.abc.Loader):

    def __init__(self, code, virt, world):
        self.code = code
        self.virt = virt
        self.world = world

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__file__ = self.virt
        if self.code is None:
            return
        sim = self.world.sim
        sim.atomic += 1
        try:
            if self.world.windows:
                with winsim.importing():
                    exec(self.code, module.__dict__)
            else:
                exec(self.code, module.__dict__)
        finally:
            sim.atomic -= 1


class Finder(importlib.abc.MetaPathFinder):
    """Serves tn.* and itn.* while a world is active."""

    def __init__(self, world):
        self.world = world

    def find_spec(self, name, path=None, target=None):
        if not _is_ours(name):
            return None
        code, pkg, virt = code_for(name, self.world.edited)
        if code is None and not pkg:
            return None
        shown = self.world.swap.shown
        if shown is not None:
            shown.new_modules.append(name)
        spec = importlib.machinery.ModuleSpec(name, _Loader(code, virt, self.world), origin=virt, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [os.path.dirname(virt) if virt else SITE]
        return spec


class ModuleSwap:
    """Keeps sys.modules showing the running process's tn/itn modules."""

    def __init__(self, world):
        self.world = world
        self.finder = Finder(world)
        self.shown = None
        self.saved = None

    def install(self):
        self.saved = {k: sys.modules.pop(k) for k in [k for k in sys.modules if _is_ours(k)]}
        sys.meta_path.insert(0, self.finder)

    def uninstall(self):
        self._stash()
        sys.meta_path.remove(self.finder)
        for k in [k for k in sys.modules if _is_ours(k)]:
            del sys.modules[k]
        sys.modules.update(self.saved)

    def _stash(self):
        if self.shown is not None:
            mods = {k: sys.modules.pop(k) for k in [k for k in sys.modules if _is_ours(k)]}
            self.shown.modules = mods
            self.shown = None

    def show(self, proc):
        if proc is self.shown:
            return
        # sys.modules is large: only touch the names known to be ours
        if self.shown is not None:
            mods = self.shown.modules
            live = {}
            for k in list(mods):
                m = sys.modules.pop(k, None)
                if m is not None:
                    live[k] = m
            for k in self.shown.new_modules:
                m = sys.modules.pop(k, None)
                if m is not None:
                    live[k] = m
            self.shown.modules = live
            self.shown.new_modules = []
        self.shown = proc
        if proc is not None:
            if proc.modules is None:
                proc.modules = {}
            sys.modules.update(proc.modules)

    def load(self, proc, names, pool=True):
        """Imports names into proc (fresh)."""
        prev = self.shown
        key = tuple(names) + (("on Windows", ) if self.world.windows else ())
        if pool and not proc.modules and os.environ.get("VERIF_NOPOOL") is None:
            got = POOL.take(key)
            if got is not None:
                self.show(None)
                proc.modules, proc.snap = dict(got[0]), got[1]
                proc.pool_key = key
                self.show(prev)
                return [proc.modules[n] for n in names]
        fresh = pool and not proc.modules
        self.show(proc)
        sim = self.world.sim
        sim.atomic += 1
        try:
            out = [importlib.import_module(n) for n in names]
        finally:
            sim.atomic -= 1
            proc.modules = {k: v for k, v in sys.modules.items() if _is_ours(k)}
            self.show(prev)
        if fresh:
            proc.pool_key, proc.snap = key, POOL.snap(proc.modules)
        else:
            proc.pool_key, proc.snap = key, None
        return out


# ---------------------------------------------------------------- pooling
# Importing the modules afresh for each simulated process is exact but slow.  A
# module set whose state is provably as it was right after import is reused.
import functools
import logging
import pathlib
import re
import types

_PRIM = (str, bytes, int, float, bool, complex, type(None), re.Pattern, logging.Logger, logging.Handler, types.ModuleType,
         pathlib.PurePath, types.BuiltinFunctionType, types.MappingProxyType, type(Ellipsis), types.MethodDescriptorType,
         types.WrapperDescriptorType, types.GetSetDescriptorType, types.MemberDescriptorType, type(NotImplemented))
_DUNDER = ("__builtins__", "__spec__", "__loader__", "__cached__", "__path__")


class _NotPoolable(Exception):
    pass


_CLASS_SKIP = frozenset(("__dict__", "__weakref__", "__doc__", "__dataclass_fields__", "__dataclass_params__", "__annotations__",
                         "__abstractmethods__", "_abc_impl", "__match_args__"))


class _Snapshot:
    """Shallow copies of every mutable container reachable from the modules."""

    def __init__(self, modules):
        self.own = set(modules)
        self.modules = {}
        self.dicts = []
        self.lists = []
        self.sets = []
        self.classes = []
        self.functions = []
        self.seen = set()
        for name in sorted(modules):
            d = modules[name].__dict__
            vals = [(k, v) for k, v in d.items() if k not in _DUNDER]
            self.modules[name] = (modules[name], [k for k, v in vals], [v for k, v in vals])
            for k, v in vals:
                self.visit(v)

    def visit(self, v, depth=0):
        if isinstance(v, _PRIM):
            return
        if depth > 12:
            raise _NotPoolable("deep")
        if id(v) in self.seen:
            return
        if isinstance(v, (tuple, frozenset)):
            for x in v:
                self.visit(x, depth + 1)
            return
        mod = getattr(v, "__module__", None)
        if isinstance(v, list):
            self.seen.add(id(v))
            self.lists.append((v, list(v)))
            for x in v:
                self.visit(x, depth + 1)
            return
        if isinstance(v, set):
            self.seen.add(id(v))
            self.sets.append((v, frozenset(v)))
            for x in v:
                self.visit(x, depth + 1)
            return
        if isinstance(v, dict):
            self.seen.add(id(v))
            self.dicts.append((v, list(v), list(v.values())))
            for k, x in v.items():
                self.visit(k, depth + 1)
                self.visit(x, depth + 1)
            return
        if isinstance(v, (staticmethod, classmethod)):
            return self.visit(v.__func__, depth + 1)
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                self.visit(f, depth + 1)
            return
        if isinstance(v, types.FunctionType):
            if mod not in self.own:
                return
            self.seen.add(id(v))
            cells = self._cells(v)
            self.functions.append((v, v.__defaults__, v.__kwdefaults__ and dict(v.__kwdefaults__), v.__code__, dict(v.__dict__), cells))
            for x in (v.__defaults__, v.__kwdefaults__, v.__dict__, tuple(cells)):
                self.visit(x, depth + 1)
            return
        if isinstance(v, type):
            if mod not in self.own:
                return
            self.seen.add(id(v))
            items = [(k, x) for k, x in vars(v).items() if k not in _CLASS_SKIP]
            self.classes.append((v, items))
            for k, x in items:
                self.visit(x, depth + 1)
            return
        if mod is not None and (mod.startswith(("_pynini", "pynini", "typing", "_pywrapfst"))
                                or mod == "functools" and not isinstance(v, (functools._lru_cache_wrapper, functools.partial))):
            return
        if mod == "builtins" or type(v).__module__ in ("typing", "_frozen_importlib", "__future__"):
            return
        if callable(v) and mod not in self.own and not isinstance(v, functools._lru_cache_wrapper) and hasattr(v, "__wrapped__"):
            return
        raise _NotPoolable("{} {}".format(type(v), mod))

    @staticmethod
    def _cells(f):
        out = []
        for cell in f.__closure__ or ():
            try:
                out.append(cell.cell_contents)
            except ValueError:
                out.append("empty")
        return out

    def unchanged(self, modules):
        if set(modules) != set(self.modules):
            return False
        for name, (m, keys, vals) in self.modules.items():
            if modules[name] is not m:
                return False
            items = [(k, v) for k, v in m.__dict__.items() if k not in _DUNDER]
            if len(items) != len(keys):
                return False
            for (k, v), k0, v0 in zip(items, keys, vals):
                if k != k0 or v is not v0:
                    return False
        for v, copy in self.lists:
            if not _same(v, copy):
                return False
        for v, copy in self.sets:
            if v != copy:
                return False
        for v, keys, vals in self.dicts:
            if list(v) != keys or not _same(list(v.values()), vals):
                return False
        for v, items in self.classes:
            now = [(k, x) for k, x in vars(v).items() if k not in _CLASS_SKIP]
            if len(now) != len(items):
                return False
            for (k, x), (k0, x0) in zip(now, items):
                if k != k0 or x is not x0:
                    return False
        for f, de, kw, code, d, cells in self.functions:
            if f.__defaults__ is not de or f.__kwdefaults__ != kw or f.__code__ is not code or f.__dict__ != d:
                return False
            if cells and not _same(self._cells(f), cells):
                return False
        return True


def _same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class Pool:

    def __init__(self):
        self.free = {}
        self.off = None
        self.stats = {"fresh": 0, "reused": 0, "dropped": 0}

    def take(self, key):
        lst = self.free.get(key)
        if lst:
            self.stats["reused"] += 1
            return lst.pop()
        self.stats["fresh"] += 1
        return None

    def put(self, key, modules, snap):
        if self.off or snap is None:
            return
        try:
            if snap.unchanged(modules):
                self.free.setdefault(key, []).append((modules, snap))
                return
        except _NotPoolable:
            pass
        self.stats["dropped"] += 1

    def snap(self, modules):
        if self.off:
            return None
        try:
            return _Snapshot(modules)
        except _NotPoolable as e:
            self.off = str(e)
            return None


POOL = Pool()
