"""A symbolic pynini: a graph is the hash of the expression that builds it.

The whole grammar construction of /repo (every rule module, every option) runs on it in
milliseconds instead of up to a minute.  Two builds with equal hashes performed the same
graph algebra on the same data, so their real graphs are equal; hashes that differ are
decided by real builds (see pipelab.py).  The pure Python parts of pynini (pynini.lib,
pynini.examples) are the installed ones, executed over this module.
"""

import builtins
import hashlib
import importlib.util
import math
import os
import sys
import types

import _pywrapfst
import pynini as real_pynini

FstIOError = _pywrapfst.FstIOError
FstOpError = _pywrapfst.FstOpError
FstArgError = _pywrapfst.FstArgError
MAGIC = b"SYMFST\0\1"
BLOCK = 8191  # what the native file reader asks for at a time

SALT = [0]
_ids = {}


class Unsupported(Exception):
    """The build asks something of a graph that only a real one can answer."""


def node(op, *parts):
    key = (op, ) + parts
    d = _ids.get(key)
    if d is None:
        if len(_ids) > 400000:
            _ids.clear()
        h = hashlib.blake2b(digest_size=16)
        for p in key:
            b = p if isinstance(p, bytes) else str(p).encode("utf-8", "surrogatepass")
            h.update(len(b).to_bytes(4, "big"))
            h.update(b)
        d = _ids[key] = h.hexdigest()
    return d


def N(x):
    if isinstance(x, Fst):
        return x.n
    if isinstance(x, str):
        return node("accep", x)
    if x is None:
        return "none"
    if isinstance(x, bool) or isinstance(x, (int, float)):
        return node("num", repr(float(x)))
    if isinstance(x, (list, tuple)):
        return node("list", *[N(y) if not isinstance(y, str) else "s" + y for y in x])
    if isinstance(x, (set, frozenset, types.GeneratorType)) or hasattr(x, "__iter__"):
        return N(list(x))
    raise Unsupported("argument of type {}".format(type(x)))


def KW(k):
    return N([[a, N(b) if not isinstance(b, str) else b] for a, b in sorted(k.items())]) if k else ""


def W(weight):
    return "" if weight is None or weight == "" else repr(float(weight)) if not isinstance(weight, Fst) else weight.n


def leaves(*graphs):
    """The strings the expressions of these graphs are made of: {digest of a string map or a text: its rows}."""
    by = {d: key for key, d in _ids.items()}
    todo, seen, out = [g.n for g in graphs], set(), {}
    while todo:
        d = todo.pop()
        key = by.get(d)
        if key is None or d in seen:
            continue
        seen.add(d)
        if key[0] == "string_map":
            rows = []
            for r in key[1:-2]:
                k = by.get(r)
                rows.append(list(k[1:]) if k is not None and k[0] == "row" else [r[1:]])
            out[d] = [[x for x in row if isinstance(x, str)] for row in rows]
        elif key[0] == "accep" and isinstance(key[1], str):
            out[d] = [[key[1]]]
        else:
            todo += [x for x in key[1:] if isinstance(x, str) and len(x) == 32]
            if key[0].startswith("f:"):
                texts = [x[1:] for x in key[1:] if isinstance(x, str) and x.startswith("s")]
                if texts:
                    out[d] = [texts]
    return out


class Fst:
    __slots__ = ("n", "__weakref__")

    def __init__(self, n=None, arc_type="standard"):
        self.n = n if isinstance(n, str) and len(n) == 32 else node("empty")

    # constructive operators
    def __add__(self, o):
        return Fst(node("cat", self.n, N(o)))

    def __radd__(self, o):
        return Fst(node("cat", N(o), self.n))

    def __or__(self, o):
        return Fst(node("or", self.n, N(o)))

    def __ror__(self, o):
        return Fst(node("or", N(o), self.n))

    def __matmul__(self, o):
        return Fst(node("compose", self.n, N(o)))

    def __rmatmul__(self, o):
        return Fst(node("compose", N(o), self.n))

    def __sub__(self, o):
        return Fst(node("difference", self.n, N(o)))

    def __rsub__(self, o):
        return Fst(node("difference", N(o), self.n))

    def __pow__(self, o):
        if isinstance(o, tuple):
            lo, hi = o
            return Fst(node("closure", self.n, lo, hi if hi is not Ellipsis else "inf"))
        return Fst(node("closure", self.n, o, o))

    def __eq__(self, o):
        return isinstance(o, Fst) and self.n == o.n

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        # stands for the address: the order of a set of graphs differs between processes
        return hash((SALT[0], self.n))

    def __repr__(self):
        return "<symbolic Fst {}>".format(self.n)

    def __str__(self):
        return self.n

    def __getitem__(self, k):
        raise Unsupported("indexing a graph")

    plus = property(lambda s: Fst(node("closure", s.n, 1, "inf")))
    star = property(lambda s: Fst(node("closure", s.n, 0, "inf")))
    ques = property(lambda s: Fst(node("closure", s.n, 0, 1)))

    # methods changing the graph in place; those that keep what it means do nothing
    def _same(self, *a, **k):
        return self

    optimize = rmepsilon = arcsort = minimize = connect = topsort = epsnormalize = _same

    def _set(self, op, *parts):
        self.n = node(op, self.n, *parts)
        return self

    def closure(self, lower=0, upper=0):
        return self._set("closure", lower, upper or "inf")

    def project(self, project_type):
        return self._set("project", project_type)

    def invert(self):
        return self._set("invert")

    def concat(self, o):
        return self._set("cat", N(o))

    def union(self, *o):
        return self._set("union", *[N(x) for x in o])

    def copy(self):
        return Fst(self.n)

    def arc_type(self):
        return "standard"

    def weight_type(self):
        return "tropical"

    def input_symbols(self):
        return None

    output_symbols = input_symbols

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Fst.{}".format(name))

    # files
    def write_to_string(self):
        body = MAGIC + self.n.encode()
        return body + hashlib.sha256(body).digest() * 2

    @staticmethod
    def read_from_string(data):
        data = bytes(data)
        body = data[:len(MAGIC) + 32]
        if not data.startswith(MAGIC) or data[len(body):] != hashlib.sha256(body).digest() * 2:
            raise FstIOError("Read-from-string failed")
        return Fst(body[len(MAGIC):].decode())

    def write(self, source):
        import osseam
        osseam._fst_write(self, source)

    @classmethod
    def read(cls, source):
        try:
            with builtins.open(source, "rb") as f:
                data = f.read()
        except OSError as e:
            raise FstIOError("Read failed: {}".format(source)) from e
        return cls.read_from_string(data)


def native_open(path):
    """What a native reader gets from a file: its bytes, or the failure to open or start reading it."""
    try:
        with builtins.open(os.fspath(path), "rb", buffering=0) as f:
            data = bytearray(f.read(BLOCK))
            more = data
            while more:
                with QUIET():
                    more = f.read(1 << 20)
                data += more
            return bytes(data)
    except OSError as e:
        raise FstIOError("Read failed") from e


class QUIET:
    """No faults inside (the part of a native read whose failure is listed as a known finding)."""
    world = None

    def __enter__(self):
        w = QUIET.world
        self.was = w.faults_on if w is not None else None
        if w is not None:
            w.faults_on = False

    def __exit__(self, *a):
        if QUIET.world is not None:
            QUIET.world.faults_on = self.was


class Far:

    def __init__(self, filename, mode="r", **k):
        if mode != "r":
            raise Unsupported("writing archives")
        self.data = native_open(filename)

    def get_fst(self):
        return Fst(node("far", hashlib.sha256(self.data).hexdigest()))

    def __getitem__(self, key):
        return Fst(node("far", hashlib.sha256(self.data).hexdigest(), key))

    def find(self, key):
        return True

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Far.{}".format(name))


def string_file(filename, *a, **k):
    return Fst(node("string_file", hashlib.sha256(native_open(filename)).hexdigest(), N(list(a)), KW(k)))


def string_map(lines, *a, **k):
    rows = []
    for line in lines:
        rows.append(("s" + line) if isinstance(line, str) else node("row", *[x if isinstance(x, str) else N(x) for x in line]))
    return Fst(node("string_map", *(rows + [N(list(a)), KW(k)])))


def accep(astring, weight=None, arc_type=None, **k):
    return Fst(N(astring) if weight is None and not k else node("accep", astring if isinstance(astring, str) else N(astring), W(weight), KW(k)))


def _call(name):

    def f(*a, **k):
        return Fst(node("f:" + name, *([N(x) if not isinstance(x, str) else "s" + x for x in a] + [KW(k)])))

    f.__name__ = name
    return f


def closure(f, lower=0, upper=0):
    return Fst(node("closure", N(f), lower, upper or "inf"))


def project(f, project_type):
    return Fst(node("project", N(f), project_type))


def invert(f):
    return Fst(node("invert", N(f)))


def compose(a, b, **k):
    return Fst(node("compose", N(a), N(b), KW(k) if k else "")) if k else Fst(node("compose", N(a), N(b)))


def difference(a, b, **k):
    return Fst(node("difference", N(a), N(b)))


def union(*a):
    return Fst(node("union", *[N(x) for x in a]))


def concat(a, b):
    return Fst(node("cat", N(a), N(b)))


def _copy(f, *a, **k):
    return Fst(N(f))


def _module(name, **d):
    m = types.ModuleType(name)
    m.__dict__.update(d)
    m.__version__ = getattr(real_pynini, "__version__", "x")
    return m


def make():
    """{module name: module} to put into sys.modules."""
    core = dict(Fst=Fst, Far=Far, string_file=string_file, string_map=string_map, accep=accep, acceptor=accep, closure=closure, project=project,
                invert=invert, compose=compose, difference=difference, union=union, concat=concat, escape=real_pynini.escape, FstLike=object,
                WeightLike=object, Weight=object, optimize=_copy, rmepsilon=_copy, determinize=_copy, FstIOError=FstIOError,
                FstOpError=FstOpError, FstArgError=FstArgError, FstError=_pywrapfst.FstError)
    for name in ("cross", "cdrewrite", "shortestpath", "intersect", "replace", "leniently_compose", "pdt_compose", "generated_symbols",
                 "push", "prune", "reverse", "cross_product", "transducer", "epsilon_machine", "shortestdistance", "synchronize",
                 "disambiguate", "lenient_compose", "default_token_type", "reweight", "randgen", "arcmap"):
        core[name] = _call(name)
    p = _module("pynini", **core)
    p.__path__ = list(real_pynini.__path__)

    def missing(name):
        if name.startswith("__") or name in ("lib", "examples", "export"):
            raise AttributeError(name)
        if name[:1].isupper():
            return getattr(real_pynini, name)
        raise Unsupported("pynini.{}".format(name))

    p.__getattr__ = missing
    mods = {"pynini": p}
    saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "pynini" or k.startswith("pynini.")}
    sys.modules["pynini"] = p
    try:
        import importlib
        for name in ("pynini.lib", "pynini.lib.byte", "pynini.lib.utf8", "pynini.lib.pynutil", "pynini.lib.rewrite", "pynini.lib.tagger",
                     "pynini.examples", "pynini.examples.plurals"):
            importlib.import_module(name)
        mods = {k: m for k, m in sys.modules.items() if k == "pynini" or k.startswith("pynini.")}
    finally:
        for k in mods:
            sys.modules.pop(k, None)
        sys.modules.update(saved)
    return mods


_MODS = [None]


class active:
    """While entered, ``import pynini`` gets the symbolic one."""

    def __init__(self, world=None):
        self.world = world

    def __enter__(self):
        if _MODS[0] is None:
            _MODS[0] = make()
        QUIET.world = self.world
        self.saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "pynini" or k.startswith("pynini.")}
        sys.modules.update(_MODS[0])

    def __exit__(self, *a):
        for k in _MODS[0]:
            sys.modules.pop(k, None)
        sys.modules.update(self.saved)
        QUIET.world = None
