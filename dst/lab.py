"""Cache laboratory: simulated processes running the real cache and build_fst code
over toy grammars, plus the recorded history the oracles read."""

import contextlib
import gc
import logging
import os
import pathlib
import random
import sys
import traceback

import pynini

import node as node_mod
import osseam
import winsim
from osseam import FaultPlan, World
from simcore import HarnessError, Sim, SimAbort, SimKilled
from simfs import DIR, FIFO, FILE, LINK, MOUNT, SimFS

HOME = MOUNT + "/home"
ROOT = HOME + "/cache"
TIMEOUT_ENV = "WETEXTPROCESSING_CACHE_LOCK_TIMEOUT"


class Violation(Exception):

    def __init__(self, cls, message):
        super().__init__(message)
        self.cls = cls
        self.message = message


class Rec:
    """One constructor call."""
    _fields = ("id", "proc", "task", "prefix", "cfg", "src", "force", "cached", "inv", "ret", "t_inv", "t_ret", "outcome", "sig",
               "exc", "exc_type", "builds", "muts", "leaks", "hostile", "faults", "fault_list", "phase", "obj", "ops", "mutlist",
               "cache_dir", "errno_list", "locks", "pfaults")
    __slots__ = _fields

    def __init__(self, **k):
        for f in self._fields:
            setattr(self, f, k.get(f))

    def brief(self):
        s = "#{} {} {}{} [{}..{}] t={:.3f}..{} -> {}".format(
            self.id, self.task, self.key, " FORCE" if self.force else "", self.inv, self.ret, self.t_inv,
            "{:.3f}".format(self.t_ret) if self.t_ret is not None else "-", self.outcome)
        if self.outcome == "ok":
            s += " " + str(self.sig)
        elif self.exc:
            s += " " + self.exc
        if self.builds:
            s += " built " + ",".join(self.builds)
        return s

    @property
    def key(self):
        return "{}/{}/{}".format(self.prefix, self.cfg, self.src)


class Build:
    __slots__ = ("gen", "proc", "key", "start", "end", "status", "t_start", "t_end", "tag", "rec")

    def __init__(self, gen, proc, key, start, t):
        self.gen = gen
        self.proc = proc
        self.key = key
        self.start = start
        self.t_start = t
        self.end = None
        self.t_end = None
        self.status = "running"
        self.tag = None
        self.rec = None


class BuildFailure(Exception):
    pass


class Lab:

    def __init__(self, choices, strategy=None, max_steps=40000, max_time=1e6, windows=False):
        self.c = choices
        self.sim = Sim(choices, max_steps=max_steps, max_time=max_time)
        c = choices
        strat = c.pick("cfg:strategy", 4) if strategy is None else strategy
        if strat == 3:
            self.sim.strategy = "pct"
            r = c.rng("pct")
            self.sim.pct_points = frozenset(r.randrange(1, 800) for _ in range(4))
        else:
            self.sim.p_switch = (0.05, 0.2, 0.6)[strat]
        self.fs = SimFS(self._file_time)
        self.w = World(self.sim, self.fs, choices)
        self.w.swap = node_mod.ModuleSwap(self.w)
        self.w.windows = windows
        self.win = winsim.Modules() if windows else None
        self.sim.on_switch = self._on_switch
        self.history = []
        self.builds = {}
        self.gen_seq = 0
        self.running = {}
        self.overlaps = []
        self.phase = 0
        self.violations = []
        self.errors = []
        self.probes = {}
        self.env_shown = None
        self.build_time = (0.0, 0.02, 0.4)
        self.p_build_fail = 0.0
        self.filler = 0
        self.bulk = 0
        self.split_build = False
        self.notes = []
        self.phase_ends = []
        self.real_fp = False
        self.seq = 0

    # ---- life cycle ----------------------------------------------------
    def __enter__(self):
        if self.win is not None:
            node_mod.warm()
        osseam.activate(self.w)
        self.gc_was = gc.isenabled()
        gc.disable()
        self.w.swap.install()
        if self.win is not None:
            self.win.install()
        self.saved_env = {k: os.environ.get(k) for k in ("HOME", "XDG_CACHE_HOME", TIMEOUT_ENV, "TMPDIR")}
        os.environ["HOME"] = HOME
        os.environ.pop("XDG_CACHE_HOME", None)
        os.environ.pop(TIMEOUT_ENV, None)
        import tempfile
        self.saved_tmp = tempfile.tempdir
        tempfile.tempdir = MOUNT + "/tmp"
        random.seed(12345)
        self.saved_hooks = (sys.unraisablehook,)
        sys.unraisablehook = lambda *a: None
        logging.disable(logging.CRITICAL)
        self.fs.makedirs(HOME)
        self.fs.makedirs(MOUNT + "/tmp")
        if self.spell:
            self.fs.symlink(HOME, MOUNT + "/alias", self.fs.root)
            self.fs.sync_all()
        return self

    def __exit__(self, *a):
        self.w.faults_on = False
        self.sim.on_switch = None
        self.w.swap.show(None)
        self.w.swap.uninstall()
        if self.win is not None:
            self.win.uninstall()
        osseam.deactivate()
        for k, v in self.saved_env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        import tempfile
        tempfile.tempdir = self.saved_tmp
        sys.unraisablehook = self.saved_hooks[0]
        for p in self.w.procs + ([self._pp] if getattr(self, "_pp", None) is not None else []):
            if p.modules and getattr(p, "snap", None) is not None:
                node_mod.POOL.put(p.pool_key, p.modules, p.snap)
            p.modules = None
        if self.gc_was:
            gc.enable()

    def _on_switch(self, prev, t):
        n = t.node
        if n is None:
            return
        self.w.swap.show(n)
        env = n.env.get(TIMEOUT_ENV)
        if env != self.env_shown:
            self.env_shown = env
            if env is None:
                os.environ.pop(TIMEOUT_ENV, None)
            else:
                os.environ[TIMEOUT_ENV] = env

    def tick(self):
        """Strictly increasing event numbers: real-time order of invocations and returns."""
        self.seq += 1
        return self.seq

    @contextlib.contextmanager
    def cut_short(self, cut):
        """What runs inside is interrupted at a line: of the whole [n], or [m, F(, "plain")]: line m of the F-th function."""
        info = self.sim.current.info
        if len(cut) > 1:
            info["functions"], info["line"], info["plain"], info["seen"] = cut[1], cut[0], len(cut) > 2, set()
        else:
            info["lines_left"] = cut[0] if cut else None
        try:
            yield
        finally:
            info["lines_left"] = info["lines_of"] = info["functions"] = None

    def preempt_lines(self, p):
        """Lets the scheduler switch threads between source lines of the code under test."""
        sim, c = self.sim, self.c
        ours = {}

        def local(frame, event, arg):
            if event == "line" and not sim.atomic and sim.current is not None:
                info = sim.current.info
                left = info.get("lines_left")
                if left is not None and info.get("lines_of") in (None, frame):  # until the user presses Ctrl-C
                    info["lines_left"] = left - 1 if left else None
                    if not left:
                        info["lines_of"] = None
                        self.probe("interrupt between lines")
                        raise KeyboardInterrupt("injected")
                if not p and left is None:
                    return None
                if p and c.pick("line", 2, p):
                    sim.yield_point()
            return local

        def trace(frame, event, arg):
            code = frame.f_code
            ok = ours.get(code)
            if ok is None:
                ok = ours[code] = code.co_filename.startswith((node_mod.REPO + "/tn/", node_mod.REPO + "/itn/"))
            if not ok:
                return None
            if sim.current is not None and sim.current.info.get("functions"):  # the interrupt is meant for one function
                info = sim.current.info
                seen = info.setdefault("seen", set())
                if code not in seen and code.co_flags & 1 and (not info.get("plain") or "." not in code.co_qualname and not code.co_name.startswith("<")):
                    seen.add(code)
                    info["functions"] -= 1
                    if not info["functions"]:
                        info["lines_of"], info["lines_left"] = frame, info["line"]
            if not p:
                info = sim.current.info if sim.current is not None else {}
                if info.get("lines_left") is None or info.get("lines_of") not in (None, frame):
                    return None
            return local

        sim.trace_fn = trace

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def flag_violation(self, cls, msg):
        self.violations.append((cls, msg))

    # ---- processes -----------------------------------------------------
    def proc(self, name=None, timeout=None):
        p = self.w.process(name or "p{}".format(len(self.w.procs)))
        if timeout is not None:
            p.env[TIMEOUT_ENV] = repr(timeout)
        p.toy = None
        p.code_version = None
        return p

    def load(self, p):
        """Import the real modules in process p (must run in one of p's tasks or the driver)."""
        if p.toy is None:
            mod, = self.w.swap.load(p, ["tn.processor"])
            p.toy = make_toy(self, p, mod.Processor)
        return p.toy

    def module(self, p, name):
        m, = self.w.swap.load(p, [name]) if p.modules is None or name not in p.modules else (p.modules[name],)
        return m

    # ---- constructors --------------------------------------------------
    def construct(self, p, prefix="sim", cfg="A", src="v1", force=False, cache_dir=ROOT, keep=False, **build):
        """Runs one constructor in the current task; returns its Rec."""
        t = self.sim.current
        cls = self.load(p)
        rec = Rec(id=len(self.history), proc=p.name, task=t.name, prefix=prefix, cfg=cfg, src=src, force=force, cache_dir=cache_dir,
                  inv=self.tick(), t_inv=self.sim.now, outcome="running", builds=[], phase=self.phase, faults=0)
        self.history.append(rec)
        self.sim.event("invoke", t.name, rec.id, rec.key, force)
        t.info["faults"] = 0
        t.info["fault_list"] = []
        t.info["rec"] = rec
        if self.spell and cache_dir == ROOT:
            cache_dir = self._spelled(p)
        muts0 = p.mut_ops
        ops0 = p.fs_ops
        locks0 = p.lock_ops
        try:
            try:
                obj = cls(prefix, cfg, src, cache_dir, force, rec, build)
                rec.outcome = "ok"
                self.sim.atomic += 1
                try:
                    rec.sig = self.sig_of(obj)
                finally:
                    self.sim.atomic -= 1
                if keep:
                    rec.obj = obj
                del obj
            except (SimKilled, SimAbort):
                rec.outcome = "killed" if p.dead else "aborted"
                raise
            except BaseException as e:
                rec.outcome = "exc"
                rec.exc_type = type(e).__name__
                rec.exc = "{}: {}".format(type(e).__name__, str(e)[:200])
                rec.errno_list = errnos(e)
                if isinstance(e, HarnessError):
                    raise
                if not isinstance(e, (Exception, KeyboardInterrupt)):
                    raise
                e.__traceback__ = None
                e = None
        finally:
            rec.ret = self.tick()
            rec.t_ret = self.sim.now
            rec.faults = t.info.get("faults", 0)
            rec.fault_list = t.info.get("fault_list")
            rec.muts = p.mut_ops - muts0
            rec.ops = p.fs_ops - ops0
            rec.locks = p.lock_ops - locks0
            b = self.running.pop(id(rec), None)
            if b is not None:
                b.status = "failed"
                b.end = self.sim.steps
                b.t_end = self.sim.now
            if not p.dead:
                self.sim.event("return", t.name, rec.id, rec.outcome, rec.sig if rec.outcome == "ok" else rec.exc_type)
        return rec

    def _spelled(self, p):
        """One of the names of the cache directory."""
        alone = not any(r.proc == p.name and r.outcome == "running" for r in self.history[:-1])
        k = self.c.pick("cfg:spelling", 8 if self.win is None else 6)
        if k in (1, 6) and not alone:
            k = 0
        if alone:
            p.cwd = HOME
        p.wander = k == 1
        if k == 6:
            p.cwd = MOUNT + "/tmp"
        return (ROOT, "cache", "~/cache", pathlib.PurePath(ROOT), ROOT + "/", HOME + "/../home/./cache", "../alias/cache", MOUNT + "/alias/cache")[k]

    def sig_of(self, obj):
        return signature(obj)

    def spawn(self, p, fn, name=None, daemon=False):
        return self.sim.spawn(fn, name or "{}.{}".format(p.name, len(p.tasks)), p, daemon)

    ages = jumpy = spell = False
    granularity = 0

    def _jump(self):
        """The wall clock is set while constructors run."""
        for _ in range(3):
            self.sim.sleep(self.c.of("jump", (0.05, 0.001, 0.5, 5.0)))
            d = self.c.of("jump", (0.0, 30.0, -30.0, 90000.0, -90000.0, 1e8, -1e9))
            if d:
                self.sim.wall_offset += d
                self.w.count("wall-clock jump")
                self.sim.event("jump", d)

    def _scan(self):
        """Another program (a virus scanner, an indexer) opens files for a moment, without leave to rename or remove them."""
        for _ in range(3):
            self.sim.sleep(self.c.of("scan", (0.0, 0.0005, 0.005, 0.05, 0.5)))
            n = self.fs.node(ROOT)
            files = [i for p, i in self.fs.iter(n, ROOT) if i.kind == FILE and not p.endswith(".lock")] if n is not None else []
            if not files:
                continue
            h = winsim.Foreign(files[self.c.pick("scan", len(files))])
            self.w.foreign.append(h)
            self.w.count("file held by another program")
            try:
                self.sim.sleep(self.c.of("scan", (0.0003, 0.01, 0.1, 0.3)))
            finally:
                self.w.foreign.remove(h)

    def _file_time(self):
        now = self.sim.wall()
        return now - now % self.granularity if self.granularity else now

    def circumstances(self):
        """What an installation may look like: old entries, coarse time stamps, containers with equal process numbers."""
        c = self.c
        self.ages = c.flag("cfg:ages", 0.25)
        self.jumpy = c.flag("cfg:jumpy", 0.15)
        self.granularity = c.of("cfg:granularity", (0, 2, 1), 0.15)  # of file time stamps, in seconds
        self.spell = c.flag("cfg:spell", 0.12)  # processes name the one cache directory in different ways
        k = c.pick("cfg:pids", 4, 0.75)
        if k:
            self.w.pids = ((1, ), (7, ), (1, 2))[k - 1]
            if c.flag("cfg:hosts", 0.5):
                self.w.hosts = "c"

    def run(self, stop_on=None):
        """Runs all spawned tasks to completion (or power loss / hang)."""
        if self.ages and self.phase:  # entries and leftovers grow old between the phases
            k = self.c.pick("age", len(AGES), 0.5)
            if k:
                self.sim.wall_offset += AGES[k]
                self.w.count("time passes")
        if self.w.windows and self.c.flag("cfg:scan", 0.3):
            self.sim.spawn(self._scan, "scanner", None, daemon=True)
        if self.jumpy and self.phase:
            self.sim.spawn(self._jump, "clock", None, daemon=True)
        why = self.sim.run(stop_on=lambda: self.w.powered_off or (stop_on is not None and stop_on()))
        self.phase_ends.append(why)
        self.phase += 1
        for t in self.sim.tasks:
            if t.hung and t.info.get("rec") is not None and t.info["rec"].outcome in ("aborted", "running"):
                t.info["rec"].outcome = "hung"
                t.info["rec"].exc = str((self.sim.hang_reason or {}).get(t.name))
            if t.error is not None and not isinstance(t.error, (SimKilled, SimAbort)):
                if not t.info.get("expected"):
                    self.errors.append((t.name, t.error))
        self.sim.tasks = []
        if self.errors:
            name, e = self.errors[0]
            raise HarnessError("task {} failed: {}".format(name, "".join(traceback.format_exception(type(e), e, e.__traceback__))))
        return why

    def reboot(self):
        """After a power loss: only durable state survives."""
        for p in self.w.procs:
            p.kill("power")
        lost = self.fs.power_loss(self.c)
        self.w.powered_off = False
        self.sim.event("reboot", len(lost))
        self.w.fault_log.append((round(self.sim.now, 6), "machine", "power loss", "", "; ".join(lost) or "nothing lost"))
        self.w.count("reboot")
        if lost:
            self.w.count("reboot-lost-data")
        self.sim.now += 60.0
        return lost

    def quiet(self):
        """Faults stop, disks work again."""
        self.w.faults_on = False
        self.w.readonly = False
        self.w.full = False
        self.w.read_chunk = 1 << 30

    def calm_construct(self, prefix="sim", cfg="A", src="v1", force=False, timeout=None, **build):
        """A fresh process constructs once, undisturbed; returns Rec (outcome may be hung)."""
        self.quiet()
        p = self.proc("fresh{}".format(len(self.w.procs)), timeout=timeout)
        out = []
        build.setdefault("calm", True)
        self.spawn(p, lambda: out.append(self.construct(p, prefix, cfg, src, force, **build)))
        self.run()
        rec = out[0] if out else self.history[-1]
        p.kill("exit")
        return rec

    # ---- oracles -------------------------------------------------------
    def pair_problem(self, rec):
        """None, or why a successful constructor's pair is wrong."""
        if rec.outcome != "ok":
            return None
        tag, verb = rec.sig
        if tag is None or verb is None:
            return "unusable graphs {!r}".format(rec.sig)
        if tag != verb:
            return "classifier and verbalizer of different builds: {!r} vs {!r}".format(tag, verb)
        parts = tag.split("|")
        if len(parts) != 4:
            return "foreign graphs {!r}".format(tag)
        prefix, cfg, src, gen = parts
        b = self.builds.get(gen)
        if b is None:
            return "graphs of an unknown build {!r}".format(tag)
        if (prefix, cfg) != (rec.prefix, rec.cfg):
            return "asked for {} but got graphs of {}/{}".format(rec.key, prefix, cfg)
        if src != rec.src:
            return "asked for sources {} but got graphs built from {}".format(rec.src, src)
        if b.status != "done":
            return "graphs of build {} which never completed ({})".format(gen, b.status)
        return None

    def gen_of(self, rec):
        return rec.sig[0].split("|")[3] if rec.outcome == "ok" and rec.sig[0] else None

    def paths(self, prefix="sim", cfg="A", src="v1", root=ROOT, p=None):
        """The bundle object of the real cache module for an entry (driver side)."""
        p = p or self._path_proc()
        mod = self.module(p, "tn.cache")
        prefix, _, order = prefix.partition(":")
        return mod.CacheBundle(root, prefix, order or "tn", config_of(cfg), src)

    def alike(self, prefix="sim", cfg="A", n=200):
        """Two source versions whose entries have names as much alike as can be found among n."""
        names = [(os.path.basename(str(self.paths(prefix, cfg, "n{}".format(i)).path)), i) for i in range(n)]
        best = []
        for turn in (lambda x: x, lambda x: x[::-1]):
            order = sorted((turn(x), i) for x, i in names)
            for (a, i), (b, j) in zip(order, order[1:]):
                best.append((-len(os.path.commonprefix((a, b))), i, j))
        best.sort()
        return [("n{}".format(i), "n{}".format(j)) for _, i, j in best[:4]]

    def _path_proc(self):
        if getattr(self, "_pp", None) is None:
            self._pp = osseam.SimProcess(self.w, "paths", 998)
        return self._pp


def errnos(e):
    out = []
    seen = 0
    while e is not None and seen < 8:
        if isinstance(e, OSError) and e.errno is not None:
            out.append(e.errno)
        e = e.__cause__ or e.__context__
        seen += 1
    return out


AGES = (0, 3.0, 3700.0, 90000.0, 3.5e6, 4e7, -3.0, -90000.0)


def config_of(cfg):
    return {"option": cfg}


def signature(obj):
    return (_find(obj.tagger, False), _find(obj.verbalizer, True))


def _find(graph, is_verb):
    """The identity text carried by a toy graph; every path has to be as it was made."""
    try:
        paths = graph.paths()
        found = None
        others = []
        n = 0
        while not paths.done() and n < 400:
            i, o = paths.istring(), paths.ostring()
            if float(paths.weight()) != 0:
                return "altered weight"
            if is_verb:
                if i.startswith("sim { value: \"") and o.startswith("out "):
                    if i[14:-3] == o[4:] and found is None:
                        found = o[4:]
                    else:
                        return "inconsistent {!r} {!r}".format(i, o)
                else:
                    others.append((o, i))
            elif i == "input":
                if found is not None:
                    return "ambiguous"
                found = o[14:-3]
            else:
                others.append((i, o))
            n += 1
            paths.next()
        for i, o in others:
            if i[:1] == "z":
                ok = i == o and not i.strip("z")
            else:
                k = i[1:len(i) // 3]
                ok = i in (("t" + k) * 3, ("w" + k) * 3) and o[:1] in ("u", "v") and o[1:] == k + (found or "")
            if not ok:
                return "altered path {!r} {!r}".format(i[:40], o[:80])
        return found
    except Exception as e:
        return "broken: {}".format(type(e).__name__)


_BULK = {}


def bulk(n):
    """A part of a graph that makes its file large."""
    if n not in _BULK:
        _BULK[n] = pynini.accep("z" * n)
    return _BULK[n]


_TEMPLATE = {}


def _base_init(obj, base):
    """Processor.__init__("sim", "tn"); it is slow (pynini constants), so its result
    is reused when every attribute it sets is an immutable value or a graph."""
    code = base.__init__.__code__
    tpl = _TEMPLATE.get(code)
    if tpl is None:
        base.__init__(obj, "sim", "tn")
        ok = all(isinstance(v, (str, int, float, bool, type(None), pynini.Fst)) for v in obj.__dict__.values())
        _TEMPLATE[code] = dict(obj.__dict__) if ok else False
    elif tpl is False:
        base.__init__(obj, "sim", "tn")
    else:
        obj.__dict__.update(tpl)


def make_toy(lab, p, base):
    """A grammar class over this process's real Processor."""

    class Toy(base):

        def __init__(self, prefix, cfg, src, cache_dir, force, rec, build):
            _base_init(self, base)
            self.cfg = cfg
            self.src = src
            self.prefix_ = prefix  # "sim:itn" is the prefix sim with the field order of another direction
            prefix, _, order = prefix.partition(":")
            if order:
                self.ordertype = order
            self.rec = rec
            self.build = build
            self.build_fst(prefix, cache_dir, force, config_of(cfg))

        if not lab.real_fp:

            def _source_fingerprint(self, prefix):
                return self.src

        def _begin(self):
            lab.gen_seq += 1
            gen = "g{}".format(lab.gen_seq)
            b = Build(gen, p, (self.prefix_, self.cfg, self.src), lab.sim.steps, lab.sim.now)
            b.rec = self.rec
            for other in lab.builds.values():
                if other.status == "running" and other.key == b.key and not other.proc.dead:
                    lab.overlaps.append((other.gen, gen))
            lab.builds[gen] = b
            lab.running[id(self.rec)] = b
            self.rec.builds.append(gen)
            lab.sim.event("build", lab.sim.current.name, gen, self.prefix_, self.cfg, self.src)
            return gen

        def _work(self, part):
            try:
                self._work_(part)
            except BaseException:
                # the build is over the moment it raises, not when the constructor returns
                b = lab.running.pop(id(self.rec), None)
                if b is not None:
                    b.status = "failed"
                    b.end = lab.sim.steps
                    b.t_end = lab.sim.now
                raise

        def _work_(self, part):
            """Simulated compile time with interruption points."""
            if p.wander:  # a relative name means what it meant when the constructor was called
                p.cwd = MOUNT + "/tmp"
            bt = self.build.get("time")
            if bt is None:
                bt = 0.0 if self.build.get("calm") else lab.c.of("b:" + self.rec.task, lab.build_time)
            lab.w.op("build", part)
            if bt == "hang":
                while True:
                    lab.sim.sleep(3600.0)
            if bt:
                lab.sim.sleep(bt / 2)
                lab.w.op("build", part)
                lab.sim.sleep(bt / 2)
            fail = self.build.get("fail")
            if fail is None:
                fail = not self.build.get("calm") and lab.p_build_fail and lab.c.flag("bf:" + self.rec.task, lab.p_build_fail)
            if fail:
                lab.w.count("build-failure")
                raise BuildFailure("grammar compilation failed")

        def _text(self, gen):
            src = self.build["data"](self) if "data" in self.build else self.src
            return "|".join((self.prefix_, self.cfg, src, gen))

        def _mk_tagger(self, text):
            g = pynini.cross("input", 'sim { value: "' + text + '" }')
            for i in range(lab.filler):
                g = g | pynini.cross("t{}".format(i) * 3, "u{}{}".format(i, text))
            return g | bulk(lab.bulk) if lab.bulk else g

        def _mk_verbalizer(self, text):
            g = pynini.cross('sim { value: "' + text + '" }', "out " + text)
            for i in range(lab.filler):
                g = g | pynini.cross("v{}{}".format(i, text), "w{}".format(i) * 3)
            return g | bulk(lab.bulk) if lab.bulk else g

        def _end(self):
            b = lab.running.pop(id(self.rec))
            b.status = "done"
            b.end = lab.sim.steps
            b.t_end = lab.sim.now
            lab.sim.event("built", lab.sim.current.name, b.gen)

        if lab.split_build:

            def build_tagger(self):
                self.gen = self._begin()
                self.text = self._text(self.gen)
                self._work("tagger")
                self.tagger = self._mk_tagger(self.text)

            def build_verbalizer(self):
                self._work("verbalizer")
                self.verbalizer = self._mk_verbalizer(self.text)
                self._end()
        else:

            def build_tagger_and_verbalizer(self):
                gen = self._begin()
                text = self._text(gen)
                self._work("tagger")
                self.tagger = self._mk_tagger(text)
                self._work("verbalizer")
                self.verbalizer = self._mk_verbalizer(text)
                self._end()

    return Toy
