"""The real pipelines, built inside simulated processes.

Their modules are the ones in /repo; their rule data sits in the simulated file system.
Graphs are symbolic (sympynini) unless ``real`` is set.
"""

import os
import sys

import node as node_mod
import osseam
import sympynini
from lab import ROOT, Build, Lab
from node import REPO, SITE
from osseam import FaultPlan
from simcore import Choices, HarnessError
from simfs import FILE

KINDS = {
    "zh_tn": ("tn.chinese.normalizer", "Normalizer"),
    "en_tn": ("tn.english.normalizer", "Normalizer"),
    "ja_tn": ("tn.japanese.normalizer", "Normalizer"),
    "zh_itn": ("itn.chinese.inverse_normalizer", "InverseNormalizer"),
    "en_itn": ("itn.english.inverse_normalizer", "InverseNormalizer"),
    "ja_itn": ("itn.japanese.inverse_normalizer", "InverseNormalizer"),
}
NAMES = tuple(KINDS)
_options = {}
_site = None
_refs = {}


def options(kind):
    """[(keyword, default)] of the boolean options of a pipeline, read from its source."""
    if kind not in _options:
        import ast
        mod, cls = KINDS[kind]
        with open(os.path.join(REPO, *mod.split(".")) + ".py", encoding="utf-8") as f:
            tree = ast.parse(f.read())
        out = []
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef) and n.name == cls:
                for m in n.body:
                    if isinstance(m, ast.FunctionDef) and m.name == "__init__":
                        args = m.args.args[-len(m.args.defaults):] if m.args.defaults else []
                        pairs = list(zip(args, m.args.defaults)) + list(zip(m.args.kwonlyargs, m.args.kw_defaults))
                        out = [(a.arg, d.value) for a, d in pairs if isinstance(d, ast.Constant) and isinstance(d.value, bool)
                               and a.arg not in ("overwrite_cache", "cache_dir")]
        _options[kind] = out
    return _options[kind]


def pick_cfg(c, stream, kind, p=0.5):
    """A seeded choice of options, as text ("" = all defaults)."""
    opts = options(kind)
    if not opts or not c.flag(stream, p):
        return ""
    out = []
    for name, default in opts:
        if c.flag(stream, 0.35):
            out.append("{}={}".format(name, int(not default)))
    return ",".join(out)


def kwargs_of(cfg):
    return {k: v == "1" for k, v in (x.split("=") for x in cfg.split(",") if x)}


def site_files():
    """{relative path: bytes} of the production files of /repo."""
    global _site
    if _site is None:
        out = {}
        for pkg in ("tn", "itn"):
            for d, dirs, names in os.walk(os.path.join(REPO, pkg)):
                dirs[:] = sorted(x for x in dirs if x not in ("test", "__pycache__"))
                for n in sorted(names):
                    if n.endswith((".pyc", ".md")):
                        continue
                    p = os.path.join(d, n)
                    with open(p, "rb") as f:
                        out[p[len(REPO) + 1:]] = f.read()
        _site = out
    return _site


def data_files():
    return [p for p in site_files() if not p.endswith(".py")]


class PipeLab(Lab):
    """A Lab whose constructors are those of the six pipelines."""

    def __init__(self, choices, real=False, edits=(), **k):
        k.setdefault("max_steps", 400000)
        super().__init__(choices, **k)
        self.real = real
        self.expect = {}  # (kind, cfg) -> reference signature
        self.edits = dict(edits)

    def __enter__(self):
        super().__enter__()
        fs = self.fs
        for rel, data in site_files().items():
            if rel in self.edits:
                data = self.edits[rel](data)
                if rel.endswith(".py"):
                    self.w.edited[rel] = data
            fs.put(SITE + "/" + rel, data)
        if self.real:
            self._shim()
        else:
            self.sym = sympynini.active(self.w)
            self.sym.__enter__()
        return self

    def __exit__(self, *a):
        if self.real:
            self._unshim()
        else:
            self.sym.__exit__(*a)
        for p in self.w.procs:
            p.snap = None  # pipelines keep graphs at module level: never pooled
        return super().__exit__(*a)

    # real pynini reads its rule data from the simulated files
    def _shim(self):
        import pynini
        import tempfile
        scratch = self.scratch = _scratch()
        self.saved_native = (pynini.string_file, pynini.Far)
        real_sf, real_far = self.saved_native

        def local(path):
            data = sympynini.native_open(path)
            dst = os.path.join(scratch, "f")
            fd = osseam.REAL["open"](dst, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            try:
                while data:
                    data = data[osseam.REAL["write"](fd, data):]
            finally:
                osseam.REAL["close"](fd)
            return dst

        def string_file(filename, *a, **k):
            return real_sf(local(filename), *a, **k)

        def far(filename, *a, **k):
            return real_far(local(filename), *a, **k)

        pynini.string_file = string_file
        pynini.Far = far

    def _unshim(self):
        import pynini
        import shutil
        pynini.string_file, pynini.Far = self.saved_native
        W = osseam.W
        osseam.W = None
        try:
            shutil.rmtree(self.scratch, ignore_errors=True)
        finally:
            osseam.W = W

    # ---- constructors --------------------------------------------------
    def load(self, p):
        return lambda *a: self.pipeline(p, a[0])(*a)

    def pipeline(self, p, kind):
        if p.toy is None:
            p.toy = {}
        if kind not in p.toy:
            mod, cls = KINDS[kind]
            m = self.w.swap.load(p, [mod], pool=False)[0]
            p.toy[kind] = make(self, p, kind, getattr(m, cls))
        return p.toy[kind]

    def sig_of(self, obj):
        if self.real:
            return (obj.tagger.write_to_string(), obj.verbalizer.write_to_string())
        return (getattr(obj.tagger, "n", None), getattr(obj.verbalizer, "n", None))

    def pair_problem(self, rec):
        if rec.outcome != "ok":
            return None
        want = self.expect.get((rec.prefix, rec.cfg))
        if want is None or rec.sig == want:
            return None
        for (k, cfg), sig in sorted(self.expect.items()):
            if sig == rec.sig:
                return "asked for {}({}) but got the graphs of {}({})".format(rec.prefix, rec.cfg, k, cfg)
        return "graphs of {}({}) differ from those of an undisturbed build".format(rec.prefix, rec.cfg)


def _scratch():
    import random
    p = "/dev/shm" if os.path.isdir("/dev/shm") else "/tmp"
    d = os.path.join(p, "verif-pipe-{}-{}".format(os.getpid(), random.SystemRandom().randrange(1 << 40)))
    (osseam.REAL.get("mkdir") or os.mkdir)(d, 0o700)
    return d


def make(lab, p, kind, base):

    class Pipeline(base):
        real_class = base

        def __init__(self, prefix, cfg, src, cache_dir, force, rec, build):
            self.__dict__["rec"] = rec
            self.__dict__["build"] = build
            super().__init__(cache_dir=cache_dir, overwrite_cache=force, **kwargs_of(cfg))

        if not lab.real_fp:

            def _source_fingerprint(self, prefix):
                return self.rec.src

        else:

            def _source_fingerprint(self, prefix):
                v = super()._source_fingerprint(prefix)
                p.stage = "fingerprinted"
                return v

        def build_tagger_and_verbalizer(self):
            rec = self.rec
            lab.gen_seq += 1
            gen = "g{}".format(lab.gen_seq)
            b = Build(gen, p, (kind, rec.cfg, rec.src), lab.sim.steps, lab.sim.now)
            b.rec = rec
            lab.builds[gen] = b
            lab.running[id(rec)] = b
            rec.builds.append(gen)
            lab.sim.event("build", lab.sim.current.name, gen, rec.key)
            lab.w.op("build", "tagger")
            bt = self.build.get("time", 0.0)
            if bt:
                lab.sim.sleep(bt)
            super().build_tagger_and_verbalizer()
            lab.w.op("build", "verbalizer")
            lab.running.pop(id(rec), None)
            b.status = "done"
            b.end = lab.sim.steps
            b.t_end = lab.sim.now
            lab.sim.event("built", lab.sim.current.name, gen)

    return Pipeline


def reference(kind, cfg, edits=()):
    """(signature, site data operations) of an undisturbed build alone in a fresh process."""
    key = (kind, cfg, tuple(sorted((k, f.__name__) for k, f in dict(edits).items())))
    if key not in _refs:
        with PipeLab(Choices("reference"), edits=edits, strategy=0) as lab:
            lab.w.faults_on = False
            p = lab.proc()
            reads = []
            lab.w.watch = lambda node, k, path: reads.append((k, str(path))) if isinstance(path, str) and is_data(path) else None
            recs = []
            lab.spawn(p, lambda: recs.append(lab.construct(p, kind, cfg, cache_dir=False)))
            lab.run()
            if recs and recs[0].exc_type == "Unsupported":
                _refs[key] = None
                return None
            if not recs or recs[0].outcome != "ok":
                raise HarnessError("reference build of {}({}) failed: {}".format(kind, cfg, recs and recs[0].exc))
            _refs[key] = (recs[0].sig, reads)
    return _refs[key]


def supported():
    """The pipelines whose construction the symbolic pynini can follow."""
    out = [k for k in NAMES if reference(k, "") is not None]
    if not out:
        raise HarnessError("no pipeline can be built symbolically")
    return out


def is_data(path):
    return path.startswith(SITE + "/") and not path.endswith(".py")
