"""The real pipelines from /repo, built once per worker process and never called there.

Calls happen only in forks of this pristine process: references (one call alone)
and simulated runs.
"""

import _thread
import os
import pickle
import sys
import threading
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
ACTIVE_SIM = [None]
_real = (threading.Lock, threading.RLock)
_ready = [False]
_built = {}
_refs = {}


class HybridLock:
    """A lock of the code under test: plain bookkeeping, blocking through the active simulator."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        sim = ACTIVE_SIM[0]
        t = sim.current if sim is not None else None
        if t is not None:
            sim.yield_point()
        me = t if t is not None else "main"
        if self.re and self.owner is me:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            if t is None:
                raise RuntimeError("lock held for ever")
            sim.block(lambda: self.owner is None, "lock", None if timeout is None or timeout < 0 else timeout)
            if self.owner is not None:
                return False
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner is not None

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


def _from_repo():
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        name = f.f_code.co_filename
        if name.startswith((REPO + "/tn/", REPO + "/itn/")):
            return True
        if not name.endswith(("threading.py", "functools.py", "dataclasses.py")):
            return False
        f = f.f_back
    return False


def _Lock():
    return HybridLock() if _from_repo() else _real[0]()


def _RLock():
    return HybridLock(True) if _from_repo() else _real[1]()


def setup():
    if _ready[0]:
        return
    _ready[0] = True
    threading.Lock = _Lock
    threading.RLock = _RLock
    sys.path.insert(0, REPO)
    import logging
    logging.getLogger("wetext").addHandler(logging.NullHandler())
    logging.disable(logging.CRITICAL)
    import tn.processor
    if not tn.processor.__file__.startswith(REPO + "/"):
        raise RuntimeError("imported {} instead of {}".format(tn.processor.__file__, REPO))


def base_kind(seed):
    """The pipeline a seed exercises: by its number, so that each worker process builds only one or two."""
    try:
        i = int(str(seed).rsplit(":", 1)[1])
    except ValueError:
        i = 0
    big = TIER == "thorough"
    return ("toy", "zh_itn" if big else "toy", "en_tn" if big else "toy", "toy", "ja_itn", "ja_tn", "en_itn", "zh_tn")[i % 8]


INSTANCES = {
    "toy": ("toy:1", "toy:2", "toy:itn", "toy:en", "toy:en_itn"),
    "ja_itn": ("ja_itn:0", "ja_itn:1"),
    "ja_tn": ("ja_tn:0", "ja_tn:1"),
    "en_itn": ("en_itn:0", ),
    "zh_tn": ("zh_tn:0", ),
    "zh_itn": ("zh_itn:0", ),
    "en_tn": ("en_tn:0", ),
}


def instances(kind):
    return INSTANCES[kind]


def kind_of(inst):
    return inst.split(":")[0]


def built(name):
    if name not in _built:
        setup()
        _built[name] = _build(name)
    return _built[name]


def _build(name):
    kind, var = name.split(":")
    if kind == "toy":
        return toy(var)
    if kind == "ja_itn":
        from itn.japanese.inverse_normalizer import InverseNormalizer
        return InverseNormalizer(cache_dir=False, enable_0_to_9=var == "1", full_to_half=var == "1")
    if kind == "ja_tn":
        from tn.japanese.normalizer import Normalizer
        return Normalizer(cache_dir=False, full_to_half=var != "1", remove_puncts=var == "1")
    if kind == "en_itn":
        from itn.english.inverse_normalizer import InverseNormalizer
        return InverseNormalizer(cache_dir=False)
    if kind == "zh_tn":
        from tn.chinese.normalizer import Normalizer
        return Normalizer(cache_dir=False)
    if kind == "zh_itn":
        from itn.chinese.inverse_normalizer import InverseNormalizer
        return InverseNormalizer(cache_dir=False)
    if kind == "en_tn":
        from tn.english.normalizer import Normalizer
        return Normalizer(cache_dir=False)
    raise KeyError(name)


def toy(var):
    """A small pipeline with ambiguity, re-ordered fields, deletions and escapes."""
    import pynini
    from pynini.lib import pynutil
    from tn.processor import Processor
    orders = None
    order = "tn"
    if var == "itn":
        order = "itn"
        import itn.japanese.inverse_normalizer as m
        orders = m.TOKEN_ORDERS
    elif var == "en":
        order = "en_tn"
        import tn.english.normalizer as m
        orders = m.TOKEN_ORDERS
    elif var == "en_itn":
        order = "itn"
        import itn.english.inverse_normalizer as m
        orders = getattr(m, "TOKEN_ORDERS", None)
    shift = {"1": 0, "2": 1, "itn": 2, "en": 3, "en_itn": 4}[var]

    class Toy(Processor):

        def __init__(self):
            super().__init__("toy", order, orders)
            self.build_fst("toy", False, False)

        def build_tagger_and_verbalizer(self):
            w = pynutil.add_weight
            digit = pynini.union(*"0123456789")
            words = pynini.string_map([("a", "A{}".format(shift)), ("b", "B{}".format(shift)), ("ab", "AB"), ("x", "ex"), ("q", 'q"'),
                                       ("zz", "z\\"), ("m", "em"), ("k", "")])
            date = pynutil.insert('date { day: "') + pynini.cross("d", "") + digit + pynutil.insert('" month: "') + digit + \
                pynutil.insert('" zone: "u" } ')
            money = pynutil.insert('money { currency: "$" value: "') + pynutil.delete("m") + digit + pynutil.insert('" integer_part: "7" } ')
            word = pynutil.insert('w { value: "') + (words @ self.CHAR.star) + pynutil.insert('" } ')
            alt = pynutil.insert('alt { value: "') + (words @ self.CHAR.star) + pynutil.insert('" } ')
            num = pynutil.insert('n { value: "') + digit + pynutil.insert('" } ')
            one = pynini.union(w(word, 1.0), w(alt, 1.5), w(date, 0.5), w(money, 0.7), w(num, 1.2), w(pynutil.delete(" "), 0.1))
            self.tagger = pynini.union(one).plus.optimize() @ self.build_rule(pynutil.delete(" "), r="[EOS]")
            field = self.SIGMA
            names = pynini.union("w", "alt", "n", "v", "x")
            key = pynini.union(*["day", "month", "year", "currency", "value", "extra", "zone", "integer_part", "hour", "minute",
                                 "preserve_order", "text"])
            simple = pynutil.delete(names) + pynutil.delete(' { value: "') + field + pynutil.delete('" }')
            many = pynutil.delete(pynini.union("date", "money", "time")) + pynutil.delete(" {") + pynini.closure(
                pynutil.delete(" ") + key + pynini.cross(': "', "=") + field + pynini.cross('"', ";"), 1) + pynutil.delete(" }")
            loud = pynutil.delete("alt") + pynutil.delete(' { value: "') + field + pynutil.delete('" }') + pynutil.insert("!")
            tok = pynini.union(w(simple, 0.1), w(many, 0.1), w(loud, 0.4))
            self.verbalizer = tok + pynini.closure(pynutil.delete(" ") + tok)

    return Toy()


def create(which):
    """Another normalizer made while others are in use."""
    if which < 3:
        return toy(("1", "itn", "en")[which])
    from tn.processor import Processor
    p = Processor("t", "tn", {"date": ["month", "day"]})
    p.token_parser()
    q = Processor("t", "itn")
    q.token_parser()
    return p, q


def freeze(v):
    """A comparable, picklable form of an answer."""
    if isinstance(v, (str, int, float, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [freeze(x) for x in v]
    if hasattr(v, "as_dict"):
        return {"as_dict": v.as_dict(), "repr": repr(v)}
    return repr(v)


class ForkDied(Exception):
    pass


def fork_eval(fn, timeout=None):
    """fn() in a forked child; returns its pickled answer."""
    r, w = os.pipe()
    sys.__stdout__.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException as e:
                data = pickle.dumps(("exc", "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]))
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        raise ForkDied(os.WTERMSIG(status))
    if not chunks:
        raise ForkDied("exit {}".format(status))
    return pickle.loads(b"".join(chunks))


def reference(call):
    """What the call answers alone, in a process that did nothing else."""
    key = repr(call)  # 1 and True are different arguments
    if key in _refs:
        return _refs[key]
    name, op, args = call
    obj = built(name)

    def alone():
        try:
            return ("ok", freeze(getattr(obj, op)(*args)))
        except Exception as e:
            return ("exc", type(e).__name__, str(e)[:300])

    kind, value = fork_eval(alone)
    if kind != "ok":
        raise RuntimeError("reference failed: {}".format(value))
    if len(_refs) > 20000:
        _refs.clear()
    _refs[key] = value
    return value


def in_fork(fn, c):
    """Runs one simulation in a fork; brings its outcome and decision log back."""
    from outcome import Outcome
    from simcore import HarnessError
    c.opcodes = c.flag("cfg:opcodes", 0.3)

    def child():
        o = fn()
        return ({k: getattr(o, k) for k in Outcome.__slots__}, c.log, c.count)

    try:
        kind, value = fork_eval(child)
    except ForkDied as e:
        if isinstance(e.args[0], int) and e.args[0] not in (9, 15, 2):
            o = Outcome()
            if c.opcodes:
                # CPython 3.12 itself jumps to address 0 when an exception meets a generator under bytecode tracing
                o.inconclusive = "interpreter crash under bytecode tracing"
                o.digest = "crash"
                o.ends.append("interpreter-crash")
                return o
            o.violations = [("native-crash", "the process running the code under test died from signal {}".format(e.args[0]))]
            o.digest = "crash"
            o.extra = {"history": []}
            return o
        raise HarnessError("run died: {}".format(e))
    if kind != "ok":
        raise HarnessError(value)
    d, c.log, c.count = value
    o = Outcome()
    for k, v in d.items():
        setattr(o, k, v)
    return o
