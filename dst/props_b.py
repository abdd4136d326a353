"""B01, B02: building the real pipelines (and C01 over them)."""

import ast
import errno
import fcntl
import glob
import hashlib
import json
import os
import random
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import pipelab
from lab import ROOT, FaultPlan
from node import SITE
from outcome import from_lab
from outcome import Outcome
from pipelab import PipeLab, is_data, pick_cfg, reference, supported
from scen import bad_pairs, escapes, must_ok
from simcore import Choices as _Choices
from simcore import HarnessError
from simfs import DIR, FILE

DATA_OPS = ("open_r", "read", "stat", "list")


def one_kind(c, stream):
    kinds = supported()
    return kinds[c.pick(stream, len(kinds))]


def skipped(what):
    o = Outcome()
    o.digest = o.case = "skipped " + what
    return o


def wrong(lab, out, recs):
    for r in recs:
        p = lab.pair_problem(r)
        if p:
            out.append(("poorer-grammar", "{}: {}".format(r.brief(), p)))


# ---------------------------------------------------------------- B01
def b01(c):
    """Rule data that cannot be opened or read: an exception or the full grammar, nothing poorer stored."""
    kind = one_kind(c, "cfg:kind")
    cfg = pick_cfg(c, "cfg:opt", kind)
    after = one_kind(c, "cfg:after") if c.flag("cfg:more", 0.4) else kind
    after_cfg = pick_cfg(c, "cfg:opt2", after) if after != kind else cfg
    if reference(kind, cfg) is None or reference(after, after_cfg) is None:
        return skipped(kind)  # these options need answers only real graphs give
    ref, ops = reference(kind, cfg)
    ref2 = reference(after, after_cfg)[0]
    with PipeLab(c) as lab:
        w, fs = lab.w, lab.fs
        lab.expect = {(kind, cfg): ref, (after, after_cfg): ref2}
        lab.real_fp = c.flag("cfg:realfp", 0.1)
        w.read_chunk = c.of("cfg:chunk", (1 << 30, 500, 4000), 0.3)
        cache = ROOT if c.flag("cfg:cache", 0.6) else False
        mode = c.pick("cfg:mode", 8)
        hit = [0]
        restore = None
        p = lab.proc()
        files = sorted({path for k, path in ops if k == "open_r"})
        victim = files[c.pick("cfg:file", len(files))]
        if mode in (0, 1, 2):
            # exactly one access fails, or every one from it on
            spots = [i for i, (k, path) in enumerate(ops) if k in ("open_r", "read")] if c.flag("cfg:content", 0.75) else range(len(ops))
            nth = spots[c.pick("cfg:nth", len(spots))]
            lasting = mode == 2
            seen = [0]

            def only(node, k, path):
                if node is not p or not isinstance(path, str) or not is_data(path) or k not in DATA_OPS:
                    return False
                seen[0] += 1
                return seen[0] - 1 == nth or lasting and seen[0] - 1 > nth

            w.plan = FaultPlan(read=1.0, ops=DATA_OPS, only=only)
        elif mode in (3, 4):
            # one file fails at open, at reading or at both, always or the first time only
            kinds = (("open_r", ), ("read", ), ("open_r", "read", "stat"))[c.pick("cfg:ops", 3)]
            first = c.flag("cfg:first")

            def only(node, k, path):
                if node is not p or path != victim or k not in kinds:
                    return False
                hit[0] += 1
                return not first or hit[0] == 1

            w.plan = FaultPlan(read=1.0, ops=DATA_OPS, only=only)
        elif mode == 5:
            # the file is gone, or a directory has its name
            content = fs.get(victim)
            how = c.pick("cfg:gone", 3)
            fs.unlink(victim, None)
            if how == 1:
                fs.makedirs(victim)
            elif how == 2:
                fs.symlink(victim + ".missing", victim, None)
            w.count("missing data file")
            w.fault_log.append((0, p.name, ("removed", "directory instead", "dangling link")[how], "", victim))

            def restore():
                if how == 1:
                    fs.rmdir(victim, None)
                elif how == 2:
                    fs.unlink(victim, None)
                fs.put(victim, content)
        elif mode == 6:
            p.fd_limit = c.pick("cfg:fds", 5)
            w.count("few descriptors")
        else:
            rate = c.of("cfg:rate", (.003, .03, .2))
            w.plan = FaultPlan(read=rate, short=c.of("cfg:short", (0, .3)), intr=c.of("cfg:intr", (0, .0005)), ops=DATA_OPS,
                               only=lambda node, k, path: node is p and isinstance(path, str) and is_data(path))
        w.faults_on = True
        rival = None
        lab.spawn(p, lambda: lab.construct(p, kind, cfg, cache_dir=cache, force=c.flag("cfg:force", 0.2)))
        if cache and c.flag("cfg:rival", 0.25):
            rival = lab.proc()
            lab.spawn(rival, lambda: lab.construct(rival, kind, cfg, cache_dir=cache))
        lab.run()
        out = []
        met = lab.history[0].faults or sum(w.fault_counts.values())
        failed = sum(r.outcome != "ok" for r in lab.history)
        # the same process again, faults still there; then without them; then another pipeline in it
        if c.flag("cfg:again", 0.4):
            lab.spawn(p, lambda: lab.construct(p, kind, cfg, cache_dir=cache))
            lab.run()
        if restore is not None:
            restore()
        lab.quiet()
        p.fd_limit = 4096
        if c.flag("cfg:retry", 0.6):
            lab.spawn(p, lambda: lab.construct(p, kind, cfg, cache_dir=cache))
            if after != kind:
                lab.spawn(p, lambda: lab.construct(p, after, after_cfg, cache_dir=cache))
            lab.run()
        wrong(lab, out, lab.history)
        if not out:
            for q in w.procs:
                q.kill("exit")
            n0 = len(lab.history)
            for k, o in dict.fromkeys(((kind, cfg), (after, after_cfg))):
                q = lab.proc()
                lab.spawn(q, lambda: lab.construct(q, k, o, cache_dir=cache or ROOT))
                lab.run()
                q.kill("exit")
            must_ok(out, lab.history[n0:], "not-usable", "fresh process after the data became readable")
            for r in lab.history[n0:]:
                why = lab.pair_problem(r)
                if why:
                    out.append(("poorer-stored", "{}: {}".format(r.brief(), why)))
        return from_lab(lab, met > 0, "{} m{}".format(kind, mode), out[:3])


# ---------------------------------------------------------------- C01 over the pipelines
def c01_pipes(c):
    """Constructors of the real pipelines with various options share a cache under faults and crashes."""
    kinds = [one_kind(c, "cfg:kind") for _ in range(1 + c.pick("cfg:nkind", 2))]
    keys = []
    for i in range(2 + c.pick("cfg:nkeys", 4)):
        k = kinds[c.pick("cfg:which", len(kinds))]
        same = [cfg for q, cfg in keys if q == k]
        if same and pipelab.options(k) and c.flag("cfg:near", 0.6):  # differs in one option only
            flip, default = pipelab.options(k)[c.pick("cfg:flip", len(pipelab.options(k)))]
            on = pipelab.kwargs_of(same[c.pick("cfg:near", len(same))])
            on[flip] = not on.get(flip, default)
            keys.append((k, ",".join("{}={}".format(n, int(on[n])) for n, d in pipelab.options(k) if on.get(n, d) != d)))
            continue
        keys.append((k, pick_cfg(c, "cfg:opt", k, 0.85)))
    keys = [k for k in keys if reference(*k) is not None]
    if not keys:
        return skipped("options")
    expect = {key: reference(*key)[0] for key in keys}
    with PipeLab(c) as lab:
        w = lab.w
        lab.expect = expect
        w.faults_on = False
        if c.flag("cfg:pop", 0.5):
            for k in keys[:2]:
                lab.calm_construct(*k, src="v1")
            lab.fs.sync_all()
        for ph in range(1 + c.pick("cfg:phases", 2)):
            w.faults_on = True
            w.plan = FaultPlan(read=c.of("cfg:read", (0, .002)), mut=c.of("cfg:mut", (0, .01)), kill=c.of("cfg:kill", (0, .001)),
                               power=c.of("cfg:power", (0, .0003)), stall=c.of("cfg:stall", (0, .01)), short=c.of("cfg:short", (0, .1)),
                               only=lambda node, k, path: not isinstance(path, str) or not path.startswith(SITE + "/"))
            for i in range(1 + c.pick("cfg:nproc", 3)):
                p = lab.proc()
                for j in range(1 + c.pick("cfg:nthr", 2, 0.3)):
                    todo = [(keys[c.pick("cfg:use", len(keys))], c.flag("cfg:force", 0.2)) for _ in range(1 + c.pick("cfg:ncon", 3))]

                    def body(p=p, todo=todo, n=i * 4 + j):
                        d = c.of("d:{}".format(n), (0.0, 0.0003, 0.02), 0.5)
                        if d:
                            lab.sim.sleep(d)
                        for key, force in todo:
                            lab.construct(p, *key, src="v1", force=force, time=c.of("bt:{}".format(n), (0.0, 0.02)))

                    lab.spawn(p, body)
            lab.run()
            if w.powered_off:
                lab.reboot()
            else:
                for p in w.procs:
                    p.kill("exit")
        n0 = len(lab.history)
        out = []
        for k in dict.fromkeys(keys):
            lab.calm_construct(*k, src="v1")
        must_ok(out, lab.history[n0:], "not-usable", "fresh undisturbed process")
        bad_pairs(lab, out)
        escapes(lab, out)
        oks = [r for r in lab.history if r.outcome == "ok"]
        return from_lab(lab, len(oks) > 1, "pipelines", out[:3])


# ---------------------------------------------------------------- B02
LOCALES = ("C.UTF-8", "C", "POSIX", "en_US.UTF-8")
ENCODINGS = ("utf-8", "cp1252", "gbk", "shift_jis", "ascii", "latin-1", "utf-16")
_decided = {}
BUILD_SECONDS = {"ja_itn": 2, "ja_tn": 13, "en_itn": 5, "zh_tn": 6, "zh_itn": 32, "en_tn": 52}


def run_child(job, env, flags=(), timeout=240):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "TZ"))}
    e.update(env)
    p = subprocess.run([sys.executable, *flags, os.path.join(os.path.dirname(os.path.abspath(__file__)), "envchild.py")],
                       input=json.dumps(job).encode(), capture_output=True, env=e, timeout=timeout)
    at = p.stdout.rfind(b"\nRESULT ")
    if at < 0:
        raise HarnessError("environment child failed ({}): {}".format(p.returncode, p.stderr[-1500:].decode("utf-8", "replace")))
    return json.loads(p.stdout[at + 8:])


def _cuts(c):
    """Where a construction is cut short: [line], or [line of a function, so-manieth function to run for the first time]."""
    scale = c.pick("cfg:cutscale", 10)
    cut = [c.pick("cfg:cutat", (30, 300, 3000, 20000, 2, 6, 20, 100, 12, 50)[scale])]
    if scale > 5:  # in a function of a module
        cut += [1 + c.pick("cfg:cutin", 7), "plain"]
    elif scale > 3:
        cut += [1 + c.pick("cfg:cutin", 120)]
    return cut


def b02_cut(c):
    """Constructions cut short in a process, then whole ones in it: those have the same grammar as ever."""
    kind = c.of("cfg:kind", ("en_itn", "zh_tn", "zh_itn", "ja_itn", "ja_tn", "en_itn", "en_tn", "en_itn"))
    cfg = pick_cfg(c, "cfg:opt", kind, 0.3)
    after = one_kind(c, "cfg:after") if c.flag("cfg:more", 0.2) else kind
    after_cfg = pick_cfg(c, "cfg:opt2", after) if after != kind else cfg
    if kind not in supported() or reference(kind, cfg) is None or reference(after, after_cfg) is None:
        return skipped(kind)
    with PipeLab(c) as lab:
        w = lab.w
        w.faults_on = False
        lab.expect = {(kind, cfg): reference(kind, cfg)[0], (after, after_cfg): reference(after, after_cfg)[0]}
        lab.preempt_lines(0)
        p = lab.proc()
        cuts = [_cuts(c) for _ in range(1 + c.pick("cfg:ncuts", 4))]

        def history():
            for cut in cuts:
                with lab.cut_short(cut):
                    lab.construct(p, kind, cfg, cache_dir=False)

        lab.spawn(p, history)
        lab.run()
        n0 = len(lab.history)
        landed = sum(r.outcome != "ok" for r in lab.history)

        def whole():
            for k, o in dict.fromkeys(((kind, cfg), (after, after_cfg))):
                lab.construct(p, k, o, cache_dir=False)

        lab.spawn(p, whole)
        lab.run()
        out = []
        must_ok(out, lab.history[n0:], "build-failed", "construction after some that were cut short")
        wrong(lab, out, lab.history)
        for _ in range(landed):
            w.count("interrupted construction")
        o = from_lab(lab, landed > 0, "cut " + kind, out[:3])
        o.extra["cuts"] = cuts
        return o


def b02(c):
    """The same pipelines built in another process environment have the same grammar."""
    if c.flag("cfg:inproc", 0.65):
        return b02_cut(c)
    threads = []
    for t in range(1 + c.pick("cfg:threads", 2, 0.25)):
        todo = []
        for _ in range(1 + c.pick("cfg:n", 3)):
            k = one_kind(c, "cfg:kind")
            todo.append([k, pick_cfg(c, "cfg:opt", k, 0.4)])
        if c.flag("cfg:interrupt", 0.45):  # constructions cut short, and tried again
            at = c.pick("cfg:cut", len(todo))
            k, cfg = todo[at]
            if c.flag("cfg:cutother", 0.3):
                k = c.of("cfg:cutkind", ("en_itn", "en_tn", "zh_tn", "zh_itn", "ja_itn", "ja_tn"))
                cfg = pick_cfg(c, "cfg:opt", k, 0.4)
            for _ in range(1 + c.pick("cfg:ncuts", 4)):
                todo.insert(at, [k, cfg] + _cuts(c))
        threads.append(todo)
    hashseed = c.pick("env:hash", 1 << 20, 0.85)
    utf8 = c.flag("env:utf8", 0.2)
    env = {
        "PYTHONHASHSEED": str(hashseed),
        "PYTHONUTF8": "1" if utf8 else "0",
        "PYTHONCOERCECLOCALE": "0",
        "LC_ALL": c.of("env:locale", LOCALES, 0.6),
        "PYTHONIOENCODING": c.of("env:io", ("utf-8", "ascii", "latin-1"), 0.3),
        "TZ": c.of("env:tz", ("UTC", "Asia/Tokyo", "America/St_Johns", "Etc/GMT+12"), 0.4),
    }
    if c.flag("env:opt", 0.25):
        env["PYTHONOPTIMIZE"] = str(1 + c.pick("env:opt2", 2))
    if c.flag("env:dev", 0.1):
        env["PYTHONDEVMODE"] = "1"
    job = {
        "schedule": "b02-child:{}".format(c.pick("cfg:schedule", 1 << 16)),
        "threads": threads,
        "encoding": c.of("env:enc", ENCODINGS, 0.6),
        "listing": c.pick("env:list", 5),
        "salt": c.pick("env:salt", 1 << 16, 0.8),
        "clock": c.of("env:clock", (0, -5e8, 1.2e9, 13.5 * 3600), 0.4),
        "cwd": c.of("env:cwd", ("/simfs/home", "/simfs", SITE, SITE + "/tn", "/simfs/tmp"), 0.6),
        "env": {"HOME": "/simfs/nowhere"} if c.flag("env:home", 0.2) else {},
        "lines": c.of("cfg:lines", (0.002, 0.02)) if len(threads) > 1 else 0,
    }
    job["encoding"] = "utf-8" if utf8 else job["encoding"]
    o = Outcome()
    want = {}
    for todo in threads:
        for k, cfg, *_ in todo:
            r = reference(k, cfg)
            if r is None:
                return skipped(k)
            want[k + "|" + cfg] = list(r[0])
    got = run_child(job, env)
    o.steps = got["steps"]
    o.digest = got["digest"] + "|" + "|".join("{}={}".format(k, v) for k, v in sorted(env.items())) + str(sorted(job.items(), key=str))
    o.digest = hashlib.sha256(o.digest.encode()).hexdigest()
    o.nontrivial = hashseed != 0 or job["encoding"] != "utf-8" or len(threads) > 1 or any(len(t) > 1 for t in threads)
    o.ends = got["ends"]
    o.case = threads[0][0][0]
    if got["landed"]:
        o.nontrivial = True
        o.faults["interrupted construction"] = got["landed"]
    for name, on in (("hash seed", hashseed), ("locale " + env["LC_ALL"], env["LC_ALL"] != "C.UTF-8"), ("encoding " + job["encoding"], job["encoding"] != "utf-8"),
                     ("listing order", job["listing"]), ("set order of graphs", job["salt"]), ("clock", job["clock"]),
                     ("python -O", env.get("PYTHONOPTIMIZE")), ("cwd", job["cwd"] != "/simfs/home"), ("concurrent build", len(threads) > 1),
                     ("built others before", any(len(t) > 1 for t in threads))):
        if on:
            o.faults[name] = o.faults.get(name, 0) + 1
    o.sample = {"env": env, "job": {k: v for k, v in job.items()}}
    o.extra = {"env": env, "job": job, "history": []}
    for key in sorted(got["built"]):
        for b in got["built"][key]:
            if "exc" in b:
                if b["exc"].startswith("Unsupported"):
                    continue
                o.violations.append(("build-failed", "{} does not build in this environment: {}".format(key, b["exc"])))
            elif b["sig"] != want[key]:
                verdict = decide(key, want[key], b["sig"], job, env)
                if verdict:
                    o.violations.append(("other-grammar", "{}: {}".format(key, verdict)))
                else:
                    o.probes["expression differs, grammar not shown to differ"] = 1
    o.violations = o.violations[:2]
    return o


def probes_for(kind):
    """Texts on which two grammars of a pipeline are compared."""
    lang = {"zh": "chinese", "en": "english", "ja": "japanese"}[kind[:2]]
    pkg = "itn" if kind.endswith("itn") else "tn"
    out = []
    for f in sorted(glob.glob(os.path.join(pipelab.REPO, pkg, lang, "test", "data", "*.txt"))):
        with open(f, encoding="utf-8") as h:
            for line in h:
                out.append(line.split("=>")[0].strip())
    rows = []
    for rel, data in sorted(pipelab.site_files().items()):
        if rel.startswith("{}/{}/data/".format(pkg, lang)) and rel.endswith(".tsv"):
            lines = data.decode("utf-8", "replace").splitlines()
            r = random.Random(rel)
            for line in r.sample(lines, min(len(lines), 25)):
                for i, x in enumerate(line.split("\t")[:2]):
                    rows.append(x)
                    rows.append("3" + x)
                    rows.append(x + "3")
    r = random.Random(kind)
    r.shuffle(rows)
    r.shuffle(out)
    return list(dict.fromkeys(x for pair in zip(out + rows, rows + out) for x in pair if x and len(x) < 60))[:4000]


def focused(key, base, plain, job, env):
    """Texts about what the two expressions do not share: rows of a table that only one of them has."""
    r = random.Random(key)
    one = run_child(dict(base, leaves=key), plain)["built"].get(key, [{}])[0].get("leaves") or {}
    out = []
    for b in run_child(dict(job, leaves=key), env)["built"].get(key, []):
        two = b.get("leaves") or {}
        for mine, other in ((one, two), (two, one)):
            known = {x for rows in other.values() for row in rows for x in row}
            for d in sorted(set(mine) - set(other)):
                odd = [row for row in mine[d] if any(x not in known for x in row)]
                kin = {x for row in mine[d] for x in row if x in known and x.strip()}
                texts = [t for t in probes_for(key.split("|")[0]) if any(x in t for x in kin)] if odd and len(mine[d]) > 1 else []
                for row in r.sample(odd, min(4, len(odd))):
                    for x in row:
                        out += [x, "3" + x, x + "3", "3 " + x, x + " 3", "A, " + x, "the " + x + " of"]
                        for t in r.sample(texts, min(12, len(texts))):
                            k = max((k for k in kin if k in t), key=len)
                            out.append(t.replace(k, x))
    return list(dict.fromkeys(t for t in out if t and len(t) < 80))[:1500]


def decide(key, want, sig, job, env):
    """Real builds in both environments decide whether the grammar really differs."""
    memo = (key, tuple(want), tuple(sig))
    if memo in _decided:
        return _decided[memo]
    store = os.path.join(tempfile.gettempdir(), "b02-verdict-" + "-".join(want + sig) + ".json")
    if os.path.exists(store):
        with open(store) as f:
            return json.load(f)[0]
    if os.environ.get("VERIF_MINIMISING"):
        return None
    kind, cfg = key.split("|", 1)
    # real builds are slow: a few at a time, within what is left of the check's time
    until = float(os.environ.get("VERIF_DECIDE_UNTIL") or time.time() + 900)
    cost = 60 + (3 if job.get("lines") else 1) * sum(BUILD_SECONDS[k] for todo in job["threads"] for k, *_ in todo)
    slot = take_slot(kind, until - cost)
    if slot is None:
        return None
    try:
        left = until - time.time()
        plain = {"PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"}
        base = {"schedule": "base", "threads": [[[kind, cfg]]]}
        probes = list(dict.fromkeys(focused(key, base, plain, job, env) + probes_for(kind)))
        extra = {"real": True, "probe_key": key, "probes": probes, "probe_seconds": max(5, min(40, left / 4))}
        with ThreadPoolExecutor(2) as ex:
            ra, rb = ex.submit(run_child, dict(base, **extra), plain, (), left), ex.submit(run_child, dict(job, **extra), env, (), left)
            ra, rb = ra.result(), rb.result()
    except subprocess.TimeoutExpired:
        return None
    finally:
        os.close(slot)
    verdict = None
    x = ra["built"][key][0]
    for y in rb["built"].get(key, []):
        if "exc" in y:
            verdict = "does not build: " + y["exc"]
        elif x["sig"] != y["sig"]:
            for t, p, q in zip(probes, x["outputs"], y["outputs"]):
                if p != q:
                    verdict = "{!r} gives {!r} instead of {!r}".format(t, q, p)
                    break
        if verdict:
            break
    _decided[memo] = verdict
    with open(store + str(os.getpid()), "w") as f:
        json.dump([verdict], f)
    os.replace(store + str(os.getpid()), store)
    if verdict is None:
        with open(os.path.join(tempfile.gettempdir(), "b02-same-" + kind), "a") as f:
            f.write(".")
    return verdict


def take_slot(kind, until):
    """One of three tickets for real builds; None when the time is up or this pipeline was found equal twice."""
    while time.time() < until:
        try:
            if os.path.getsize(os.path.join(tempfile.gettempdir(), "b02-same-" + kind)) >= 2:
                return None
        except OSError:
            pass
        for i in range(3):
            fd = os.open(os.path.join(tempfile.gettempdir(), "b02-slot-{}".format(i)), os.O_CREAT | os.O_RDWR | os.O_CLOEXEC, 0o600)
            try:
                fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
                return fd
            except OSError:
                os.close(fd)
        time.sleep(0.5)
    return None


# ---------------------------------------------------------------- B01: the recorded finding
NATIVE_TABLE = "tn/japanese/data/char/common_chinese_char.tsv"
NATIVE_CHILD = """
import hashlib, sys
sys.path.insert(0, {repo!r})
import logging
logging.disable(logging.CRITICAL)
from tn.japanese.normalizer import Normalizer
try:
    n = Normalizer(cache_dir=False, tag_oov=True)
    print("graphs", hashlib.sha256(n.tagger.write_to_string() + n.verbalizer.write_to_string()).hexdigest())
except Exception as e:
    print("raised", type(e).__name__)
"""


def native_read_error(nth):
    """Builds ja_tn (tag_oov) with real pynini while reads of one big table fail from the nth on.  -> what came out"""
    d = tempfile.mkdtemp(prefix="b01-")
    so = os.path.join(d, "shim.so")
    here = os.path.dirname(os.path.abspath(__file__))
    try:
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(here, "shim_read.c"), "-ldl"], check=True, capture_output=True)
        e = dict(os.environ)
        e.update(LD_PRELOAD=so, PYTHONHASHSEED="0")
        if nth is not None:
            e.update(SHIM_FILE=NATIVE_TABLE, SHIM_NTH=str(nth))
        p = subprocess.run([sys.executable, "-c", NATIVE_CHILD.format(repo=pipelab.REPO)], capture_output=True, env=e, timeout=100)
        return p.stdout.decode().strip()
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def b01_known(c):
    """Directed: the second block of a table that pynini reads natively cannot be read."""
    o = Outcome()
    o.digest = o.case = "native read error"
    good, first, later = native_read_error(None), native_read_error(0), native_read_error(1)
    o.extra = {"undisturbed": good, "first read fails": first, "second read fails": later}
    if not good.startswith("graphs"):
        raise HarnessError("undisturbed build: " + good)
    if first.startswith("graphs") and first != good:
        o.violations.append(("native-unread", "a table none of which can be read gives a poorer grammar"))
    if later.startswith("graphs") and later != good:
        o.violations.append(("native-truncated", "a read error after the first block of {} gives a poorer grammar without an error".format(NATIVE_TABLE)))
    return o


# ---------------------------------------------------------------- C15 over the pipelines
_edited = {}
_imports = {}


def _rule_modules(kind, cfg):
    """Source files of the modules a pipeline's construction imports."""
    if (kind, cfg) not in _imports:
        with PipeLab(_Choices("imports"), strategy=0) as lab:
            lab.w.faults_on = False
            p = lab.proc()
            lab.spawn(p, lambda: lab.construct(p, kind, cfg, cache_dir=False))
            lab.run()
            names = {m.replace(".", "/") for m in p.modules}
        _imports[(kind, cfg)] = sorted(r for r in pipelab.site_files()
                                       if r.endswith(".py") and (r[:-3] in names or r.endswith("/__init__.py") and r[:-12] in names))
    return _imports[(kind, cfg)]


def _edit(c, rel, data):
    """Another content for a production file, or None: one row less, or one constant of a rule changed."""
    if rel.endswith(".tsv"):
        rows = data.splitlines(True)
        full = [i for i, r in enumerate(rows) if r.strip() and rows.count(r) == 1]
        if len(full) < 2:
            return None
        i = full[c.pick("edit:row", len(full))]
        return b"".join(rows[:i] + rows[i + 1:])
    if not rel.endswith(".py"):
        return None
    text = data.decode("utf-8")
    tree = ast.parse(text)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(id(n.value))
    spots = [n for n in ast.walk(tree) if isinstance(n, ast.Constant) and id(n) not in skip and n.lineno == n.end_lineno
             and (isinstance(n.value, str) and n.value and "/" not in n.value and "." not in n.value or type(n.value) in (int, float))]
    if not spots:
        return None
    n = spots[c.pick("edit:spot", len(spots))]
    lines = data.split(b"\n")
    line = lines[n.lineno - 1]
    new = n.value + "x" if isinstance(n.value, str) else n.value + 1
    lines[n.lineno - 1] = line[:n.col_offset] + repr(new).encode() + line[n.end_col_offset:]
    return b"\n".join(lines)


def _edited_reference(kind, cfg, rel, data):
    """The grammar of the edited tree, None when it does not build."""
    key = (kind, cfg, rel, hashlib.sha256(data).digest())
    if key not in _edited:
        if len(_edited) > 3000:
            _edited.clear()
        with PipeLab(_Choices("reference"), edits={rel: lambda old: data}, strategy=0) as lab:
            lab.w.faults_on = False
            p = lab.proc()
            lab.spawn(p, lambda: lab.construct(p, kind, cfg, cache_dir=False))
            lab.run()
            r = lab.history[0]
            _edited[key] = r.sig if r.outcome == "ok" else None
    return _edited[key]


def c15_pipes(c):
    """One production file of the installed package is edited before, between or during constructions of a real pipeline."""
    kind = one_kind(c, "cfg:kind")
    cfg = pick_cfg(c, "cfg:opt", kind)
    if reference(kind, cfg) is None:
        return skipped(kind)
    before, ops = reference(kind, cfg)
    files = pipelab.site_files()
    where = c.pick("cfg:where", 5)
    if where < 2:  # data this pipeline reads
        pool = sorted({path[len(SITE) + 1:] for k, path in ops if k == "open_r"})
    elif where < 4:  # code it imports
        pool = _rule_modules(kind, cfg)
        if c.flag("cfg:shared", 0.6):  # by other pipelines, too
            own = os.path.dirname(pipelab.KINDS[kind][0].replace(".", "/")) + "/"
            pool = [f for f in pool if not f.startswith(own) and not f.endswith("__init__.py")] or pool
    else:
        pool = sorted(files)
    rel = pool[c.pick("cfg:file", len(pool))]
    data = _edit(c, rel, files[rel]) if rel in files else None
    after = data is not None and _edited_reference(kind, cfg, rel, data)
    if not after or after == before:
        return skipped("edit")
    with PipeLab(c) as lab:
        w, fs = lab.w, lab.fs
        w.faults_on = False
        lab.real_fp = True
        out = []

        def put(new):
            """Replaces the file atomically, in data and code."""
            content = data if new else files[rel]
            fs.put(SITE + "/" + rel + ".new~", content)
            fs.rename(SITE + "/" + rel + ".new~", SITE + "/" + rel, None, None)
            if rel.endswith(".py"):
                if new:
                    w.edited[rel] = content
                else:
                    w.edited.pop(rel, None)
            w.count("source edit")
            w.fault_log.append((round(lab.sim.now, 6), "editor", "edit" if new else "revert", "", rel))

        versions = {False: before, True: after}
        state = c.flag("cfg:first", 0.3)  # which version is installed first
        if state:
            put(True)
        w.plan = FaultPlan(stall=c.of("cfg:stall", (0, .02)), kill=c.of("cfg:kill", (0, 0, .0005)),
                           mut=c.of("cfg:mut", (0, 0, .01)), only=lambda node, k, path: not isinstance(path, str) or not path.startswith(SITE + "/"))
        w.plan.stalls = (0.0003, 0.004, 0.06)
        for ph in range(1 + c.pick("cfg:phases", 2)):
            w.faults_on = True
            p = lab.proc()
            p.stage = None
            live = c.flag("cfg:live", 0.5)
            bt = c.of("cfg:bt", (0.0, 0.02))
            state0 = state
            lab.spawn(p, lambda: lab.construct(p, kind, cfg, "-", force=c.flag("cfg:force", 0.3), time=bt))
            if live:

                def editor():
                    nonlocal state
                    while p.stage is None and not p.dead:
                        lab.sim.sleep(0.0005)
                    lab.sim.sleep(c.of("e", (0.00002, 0.0003, 0.002, 0.01, 0.03, 0.1)))
                    state = not state
                    put(state)

                lab.sim.spawn(editor, "editor", None, daemon=True)
            lab.run()
            p.kill("exit")
            r = lab.history[-1]
            if r.outcome == "ok" and r.sig not in (versions[state0], versions[state]):
                out.append(("inconsistent", "the grammar matches no version of {}: {}".format(rel, r.brief())))
            if c.flag("cfg:rest", 0.6):
                state = not state
                put(state)
        lab.quiet()
        for _ in range(2):
            r = lab.calm_construct(kind, cfg, src="-")
            must_ok(out, [r], "failed", "constructor for an unchanging source tree")
            if r.outcome == "ok" and r.sig != versions[state]:
                out.append(("poisoned", "after {} {} {}({}) gets the grammar {}".format(
                    "an edit of" if state else "the original of", rel, kind, cfg,
                    "of the other version of the file" if r.sig == versions[not state] else "of no version")))
            state = not state
            put(state)
        return from_lab(lab, True, "pipeline {} {}".format(kind, rel), out[:3])
