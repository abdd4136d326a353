"""R01-R04: the C++ runtime (C API, command line and Android binding) under schedules, failing allocations and failing files."""

import os
import shutil
import tempfile

import rtlab
from outcome import Outcome
from rtlab import PTYPES, hexed
from simcore import HarnessError

TEXTS = ("a", "b", "c", "dd", "e", "f", "g", "h", "i", "j", "k", "\u957f", "zz")
OTHER = ("q", "aq", "qa", "d", "\u4e2d", "\xff")  # what the small graphs do not know
MALFORMED = ("x", "date", "date {", 'date { year: "1" ', 'date { year: "1', 'date { : "1" }', "{ }", 'date { year "1" }', 'char { value: "\\', 'a { b: "c" } }', "\u4e2d { }",
             'date{ year: "1" }', 'char { value: "\\" }')
ODD = (b"\xff", b"\xf8\x88", b'char { value: "\xff" }', b'char { value: "\xfe\xfe\xfe\xfe" }', b"\xe4\xb8", b'char { value: "\xe4')


class Job:
    """One job for rtsim, with the reference answer of every operation."""

    def __init__(self):
        self.lines = []
        self.cfg = []
        self.binary = "rtsim"
        self.want = {}  # "task.op kind" -> acceptable answers
        self.task = None
        self.n = 0

    def pre(self):
        self.lines.append("pre")
        self.task, self.n = -1, 0

    def start(self):
        self.task = 0 if self.task in (None, -1) else self.task + 1
        self.n = 0
        self.lines.append("task")

    def op(self, kind, slot, a=None, b=None, want=()):
        self.lines.append(" ".join([kind, str(slot)] + [x for x in (a, b) if x is not None]))
        self.want["{}.{} {}".format(self.task, self.n, kind)] = want
        self.n += 1

    def text(self):
        return ("\n".join(self.cfg + self.lines) + "\n").encode()


def ok(text):
    return "ok " + hexed(text if isinstance(text, bytes) else text.encode("utf-8"))


def pick_text(c, stream, n=4):
    k = 1 + c.pick(stream, n)
    return "".join(TEXTS[c.pick(stream, len(TEXTS))] for _ in range(k))


def add_call(c, job, slot, ptype, variant, alive=True):
    """One call with its reference answer."""
    kind = c.of("op:kind", ("norm", "tag", "verb", "verb"))
    how = c.pick("op:how", 12, 0.35)
    if kind in ("tag", "norm"):
        if how == 1:
            text = ""
            want = [ok("")]
        elif how in (2, 3):
            text = c.of("op:other", OTHER)
            if c.flag("op:mix"):
                text = pick_text(c, "op:text", 2) + text
            parts = rtlab.parts_of(ptype, variant, text)
            want = [ok("")] if parts is None else [ok((rtlab.ref_tag if kind == "tag" else rtlab.ref_norm)(ptype, variant, text))]
            if parts is None and kind == "norm":
                want.append("null -")
        elif how == 4:
            job.op(kind, slot, "null", want=["null -"])
            return
        else:
            text = pick_text(c, "op:text")
            want = [ok((rtlab.ref_tag if kind == "tag" else rtlab.ref_norm)(ptype, variant, text))]
        data = text.encode("latin-1") if text == "\xff" else text.encode("utf-8")
        if text == "\xff":
            want = [ok(""), "null -"]
    else:
        if how == 1:
            data, want = b"", [ok("")]
        elif how in (2, 3, 4):
            data, want = c.of("op:bad", MALFORMED).encode("utf-8"), ["null -"]
        elif how == 5:
            data, want = c.of("op:odd", ODD), None  # anything that is not a crash
        elif how == 6:
            data, want = b'who { k: "v" }', [ok("")]
        else:
            text = pick_text(c, "op:text")
            data, want = rtlab.ref_tag(ptype, variant, text).encode("utf-8"), [ok(rtlab.ref_norm(ptype, variant, text))]
            if c.flag("op:trim", 0.2):
                data = data.strip()
    job.op(kind, slot, hexed(data), want=["null -"] if not alive and want is not None else want)


def add_switches(c, job, ntasks, p=0.8):
    """Seeded points at which the running task loses the processor."""
    how = c.pick("sched:how", 5)
    if how in (0, 1):  # anywhere
        step = 0
        for _ in range(c.pick("sched:n", 48, p)):
            g = c.pick("sched:gap", 26)
            j = c.pick("sched:jit", 64)
            to = c.pick("sched:to", ntasks)
            if g:
                step += max(1, int(1.55**g * (1 + j / 64)))
                job.cfg.append("switch {} {}".format(step, to))
    if how in (1, 2):
        job.binary = "rthot"  # at accesses to the library's global variables
        n = 0
        for _ in range(1 + c.pick("sched:hots", 16, p)):
            g = c.pick("sched:hotgap", 14)
            to = c.pick("sched:to", ntasks)
            if g:
                n += max(1, int(1.45**(g - 1)))
                job.cfg.append("hot {} {}".format(n, to))
    if how in (3, 4):  # in chosen places of the library's code, whenever they are reached
        for _ in range(1 + c.pick("sched:sites", 10, p)):
            at = c.pick("sched:site", 4096)
            for k in range(1, 1 + c.pick("sched:visits", 6, p)):
                job.cfg.append("site {} {} {}".format(at, k, c.pick("sched:to", ntasks)))


def execute(c, job, o, note, repeat_on_leak=True):
    """Runs the job; collects the violations every job can show."""
    p = rtlab.run(job.binary, job.text())
    if p is None:
        o.violations.append(("no-progress", "the calls never come back (60 s of real time)"))
        o.digest = rtlab.sha("hang", job.text())
        return {}, []
    out = p.stdout.decode("utf-8", "replace")
    lines = out.splitlines()
    res = {}
    stats = {}
    for ln in lines:
        w = ln.split(" ")
        if w[0] == "res":
            res[w[1] + " " + w[2]] = (int(w[3]), " ".join(w[4:]))
        elif w[0] == "stats":
            stats = {k: int(v) for k, v in (x.split("=") for x in w[1:])}
        elif w[0] == "abort":
            o.violations.append(("aborted", "{}: the library ends the whole process: {}".format(last_call(lines), " ".join(w[2:]))))
        elif w[0] == "changed":
            o.violations.append(("answer-changed", "an answer still held by its caller changed: {}".format(ln)))
        elif w[0] == "misuse":
            o.violations.append(("jni-misuse", "{}: {}".format(last_call(lines), " ".join(w[1:]))))
        elif w[0] == "unsupported":
            raise HarnessError(ln)
        elif w[0] == "unreleased":
            o.violations.append(("not-released", "characters borrowed from a Java string are never given back: {}".format(" ".join(w[1:]))))
        elif w[0] == "deadlock":
            o.violations.append(("deadlock", "no call can go on: waiting for {}".format(" ".join(w[1:]))))
        elif w[0] == "end":
            o.ends.append(w[1])
            if w[1] == "step-cap":
                o.inconclusive = "step-cap"
    if p.returncode != 0:
        err = p.stderr.decode("utf-8", "replace")
        if not o.violations:
            if "ERROR: AddressSanitizer" not in err and "runtime error" not in err and p.returncode > 0:
                raise HarnessError("rtsim ended with {}: {}".format(p.returncode, err[-800:]))
            o.violations.append(("crashed", "{}: {}".format(last_call(lines), summary(err, p.returncode))))
    for key, (nf, got) in res.items():
        if got.startswith("exc "):
            o.violations.append(("exception-escapes", "{}: a C++ exception ({}) leaves {}".format(
                key, got[4:], "the native method" if job.binary == "rtjni" else "the C API")))
    live = [int(x.split()[1]) for x in lines if x.startswith("live ")]
    if live and live[0] and not o.violations and job.binary == "rtjni":
        if not c.flag("cfg:leaks", 0.25):
            live = []
    if live and live[0] and not o.violations and job.binary == "rtjni":
        two, six = (lives(rtlab.run(job.binary, b"repeat %d\n" % n + job.text())) for n in (2, 6))
        if two and six and six[0] >= two[0] + 4:
            o.violations.append(("leak", "{} more allocation(s) are never freed after every repetition".format((six[0] - two[0]) // 4)))
    elif live and live[0] and not o.violations and repeat_on_leak:
        q = rtlab.run(job.binary, b"repeat 6\n" + job.text())
        more = [int(x.split()[1]) for x in (q.stdout.decode("utf-8", "replace") if q else "").splitlines() if x.startswith("live ")]
        if more and more[0] >= 5 * live[0]:
            o.violations.append(("leak", "{} allocation(s) made by the calls are never freed ({} after six repetitions)".format(live[0], more[0])))
    o.steps = stats.get("steps", 0) + len(res)
    o.switches = stats.get("switches", 0)
    for k in ("failed_allocs", "failed_reads", "switches", "lock_waits"):
        if stats.get(k):
            o.faults[k] = stats[k]
    o.digest = rtlab.sha(out, job.text().split(b"\ntask")[0].replace(rtlab.scratch().encode(), b""))
    o.extra = {"history": lines[:200], "job": job.text().decode().splitlines()[:200], "note": note}
    o.sample = {"note": note, "events": lines[:14]}
    return res, lines


def lives(p):
    return [int(x.split()[1]) for x in (p.stdout.decode("utf-8", "replace") if p else "").splitlines() if x.startswith("live ")]


def last_call(lines):
    calls = [x[5:] for x in lines if x.startswith("call ")]
    done = {x.split(" ")[1] for x in lines if x.startswith("res ")}
    open_ = [x for x in calls if x.split(" ")[0] not in done]
    return "in " + (open_[-1] if open_ else "cleanup")


def summary(err, rc):
    for ln in err.splitlines():
        if "ERROR: AddressSanitizer" in ln or "runtime error" in ln:
            return ln.split("==ERROR: ")[-1][:160].split(" on ")[0].split(" (pc")[0]
    return "the process died ({})".format(rc)


def judge(job, res, o, faults_excuse):
    for key, want in job.want.items():
        if key not in res:
            continue
        nf, got = res[key]
        if want is None or got in want or got.startswith("exc "):
            continue
        if nf and faults_excuse and got == "null -":
            continue
        o.violations.append(("wrong-answer", "{} gives {} instead of {}{}".format(key, show(got), " or ".join(show(w) for w in want[:3]),
                                                                                   " (after a failure inside it)" if nf else "")))
    missing = [k for k in job.want if k not in res]
    if missing and not o.violations and "done" in o.ends:
        raise HarnessError("no result for {}".format(missing[:3]))


def show(r):
    kind, _, h = r.partition(" ")
    if kind != "ok":
        return kind
    try:
        return repr(bytes.fromhex(h.replace("-", "")).decode("utf-8", "replace"))[:200]
    except ValueError:
        return r[:100]


def pick_graphs(c, n):
    out = []
    for i in range(n):
        if out and c.flag("cfg:samept", 0.4):
            pt = out[0][0]
        else:
            pt = PTYPES[c.pick("cfg:ptype", len(PTYPES))]
        out.append((pt, "12"[c.pick("cfg:variant", 2)]))
    return out


# ---------------------------------------------------------------- R01
def r01(c):
    """Concurrent calls through the C API, on shared and private processors."""
    job = Job()
    graphs = pick_graphs(c, 1 + c.pick("cfg:handles", 3))
    job.cfg.append("warm {} {}".format(*rtlab.paths(*graphs[0])))
    warm = c.flag("cfg:warm", 0.7)
    if not warm:
        job.cfg.pop()
    job.cfg.append("cap 4000000")
    job.pre()
    for i, g in enumerate(graphs):
        job.op("create", i, *rtlab.paths(*g), want=["ok -"])
    ntasks = 2 + c.pick("cfg:tasks", 3)
    for t in range(ntasks):
        job.start()
        own = 10 + t
        mine = None
        for _ in range(1 + c.pick("cfg:ops", 4)):
            k = c.pick("op:where", 8, 0.3)
            if k == 1 and mine is None:
                mine = pick_graphs(c, 1)[0]
                job.op("create", own, *rtlab.paths(*mine), want=["ok -"])
            elif k == 2 and mine is not None:
                job.op("destroy", own, want=["ok -"])
                mine = None
            elif k == 3:
                job.op("drop", 1 + c.pick("op:drop", 3), want=["ok -"])
            elif k == 4 and mine is not None:
                add_call(c, job, own, *mine)
            else:
                i = c.pick("op:handle", len(graphs))
                add_call(c, job, i, *graphs[i])
    add_switches(c, job, ntasks)
    o = Outcome()
    res, lines = execute(c, job, o, "concurrent calls")
    judge(job, res, o, False)
    o.nontrivial = o.switches > 0
    o.case = "{} tasks".format(ntasks)
    o.violations = o.violations[:3]
    return o


# ---------------------------------------------------------------- R02
def spoil(c, d, path, other):
    """A damaged copy of a graph file.  -> (path, what was done)"""
    how = c.of("bad:how", ("missing", "empty", "truncated", "header", "directory", "not a graph", "text", "unreadable name", "loop"))
    dst = os.path.join(d, os.path.basename(path))
    with open(path, "rb") as f:
        data = f.read()
    if how == "missing":
        return dst, how
    if how == "unreadable name":
        return os.path.join(path, os.path.basename(path)), how
    if how == "directory":
        os.mkdir(dst)
        return dst, how
    if how == "loop":
        os.symlink(os.path.basename(dst), dst)
        return dst, how
    if how == "empty":
        data = b""
    elif how == "truncated":
        data = data[:1 + c.pick("bad:at", len(data) - 1)]
    elif how == "header":
        at = c.pick("bad:at", 4)
        data = data[:at] + bytes([data[at] ^ (1 + c.pick("bad:bits", 255))]) + data[at + 1:]
    elif how == "not a graph":
        data = os.path.basename(path).encode() * 40
    else:
        data = b"0 1 97 98\n1\n"
    with open(dst, "wb") as f:
        f.write(data)
    return dst, how


def r02(c):
    """Failing allocations, unreadable or damaged graph files, malformed text: null answers, nothing else."""
    job = Job()
    tmp = tempfile.mkdtemp(prefix="r02-", dir=rtlab.scratch())
    try:
        graphs = pick_graphs(c, 1 + c.pick("cfg:handles", 2))
        job.cfg.append("warm {} {}".format(*rtlab.paths(*graphs[0])))
        job.cfg.append("cap 4000000")
        mode = c.pick("cfg:mode", 5)
        notes = []
        ntasks = 1 + c.pick("cfg:tasks", 3, 0.3)
        if mode in (0, 1):  # failing allocations
            n = 0
            for _ in range(1 + c.pick("fail:n", 4)):
                n += 1 + int(1.5**c.pick("fail:gap", 22) * (1 + c.pick("fail:jit", 32) / 32))
                job.cfg.append("fail {}".format(n))
            if c.flag("fail:from", 0.15):
                job.cfg.append("failfrom {}".format(n))
        elif mode == 2:  # failing reads
            job.cfg.append("readfail {} {}".format(1 + c.pick("read:nth", 8), c.of("read:errno", (5, 116, 12))))
            if c.flag("read:short", 0.5):
                job.cfg.append("short {}".format(c.of("read:len", (1, 7, 64, 1000))))
        elif c.flag("read:short", 0.2):
            job.cfg.append("short {}".format(c.of("read:len", (3, 64, 1000))))
        shared = []
        job.pre()
        for i, g in enumerate(graphs):
            t, v = rtlab.paths(*g)
            alive = True
            if mode == 3 and c.flag("bad:which", 0.6):
                d = os.path.join(tmp, str(i))
                os.mkdir(d)
                if c.flag("bad:tagger"):
                    t, how = spoil(c, d, t, v)
                else:
                    v, how = spoil(c, d, v, t)
                alive = False
                notes.append(how)
            elif mode == 4 and c.flag("bad:name", 0.5):
                # a file name that names no pipeline
                nt = os.path.join(tmp, "{}{}.fst".format(c.of("bad:prefix", ("model", "xx_tn", "tagger", "zh", "zhtn_")), i))
                shutil.copyfile(t, nt)
                t = nt
                alive = False
                notes.append("unknown prefix")
            shared.append(alive)
            if mode == 4 and not alive and c.flag("bad:null", 0.2):
                job.op("create", i, "-", v, want=["null -"])
            else:
                job.op("create", i, t, v, want=["ok -"] if alive else ["null -"])
        for t in range(ntasks):
            job.start()
            for _ in range(1 + c.pick("cfg:ops", 5)):
                k = c.pick("op:where", 6, 0.25)
                i = c.pick("op:handle", len(graphs))
                if k == 1:
                    own = 10 + t
                    job.op("create", own, *rtlab.paths(*graphs[i]), want=["ok -"])
                    add_call(c, job, own, *graphs[i])
                    job.op("destroy", own, want=["ok -"])
                elif k == 2:
                    job.op("drop", 1 + c.pick("op:drop", 3), want=["ok -"])
                else:
                    add_call(c, job, i, *graphs[i], alive=shared[i])
        if ntasks > 1:
            add_switches(c, job, ntasks)
        o = Outcome()
        res, lines = execute(c, job, o, notes)
        # a processor that could not be created answers null until its place is taken by another one
        dead = set()
        task, n = None, 0
        for ln in job.lines:
            w = ln.split(" ")
            if w[0] == "pre":
                task, n = -1, 0
            elif w[0] == "task":
                task, n = 0 if task in (None, -1) else task + 1, 0
            else:
                key = "{}.{} {}".format(task, n, w[0])
                n += 1
                if w[0] == "create" and key in res:
                    (dead.add if res[key][1] == "null -" else dead.discard)(w[1])
                elif w[0] in ("tag", "verb", "norm") and w[1] in dead:
                    job.want[key] = ["null -"]
        judge(job, res, o, True)
        for n in notes:
            o.faults[n] = o.faults.get(n, 0) + 1
        o.nontrivial = bool(notes or o.faults.get("failed_allocs") or o.faults.get("failed_reads") or any(w == ["null -"] for w in job.want.values()))
        o.case = "m{}".format(mode)
        o.violations = o.violations[:3]
        o.digest = rtlab.sha(o.digest, mode, *notes)
        return o
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- R04
ASTRAL = "\U00020bb7"
JTEXTS = TEXTS + (ASTRAL, )
JODD = ("q", "a\ud83d", "\udc00a", "\ud83d\ud83d\ude00", "\U0001f600", "\uffff", "\u0800\u07ff")


def utf16(text):
    return text.encode("utf-16-be", "surrogatepass").hex() or "-"


def jok(text):
    return "ok " + utf16(text)


def r04(c):
    """The Android binding: any thread, any string, any failure."""
    job = Job()
    job.binary = "rtjni"
    tmp = tempfile.mkdtemp(prefix="r04-", dir=rtlab.scratch())
    try:
        job.cfg.append("cap 4000000")
        mode = c.pick("cfg:mode", 5)
        notes = []
        ntasks = 1 + c.pick("cfg:tasks", 4, 0.4)
        if mode == 1:  # failing allocations in the library
            n = 0
            for _ in range(1 + c.pick("fail:n", 4)):
                n += 1 + int(1.5**c.pick("fail:gap", 22) * (1 + c.pick("fail:jit", 32) / 32))
                job.cfg.append("fail {}".format(n))
            if c.flag("fail:from", 0.1):
                job.cfg.append("failfrom {}".format(n))
        elif mode == 2:  # the virtual machine runs out of memory
            job.cfg.append("jfail {}".format(1 + c.pick("jfail", 24)))
        elif mode == 3:
            job.cfg.append("readfail {} {}".format(1 + c.pick("read:nth", 24), c.of("read:errno", (5, 116, 12))))
        if c.flag("read:short", 0.2):
            job.cfg.append("short {}".format(c.of("read:len", (3, 64, 1000))))
        inits = []  # (key, variant or None) in the order of execution

        def init(n):
            v = "12"[c.pick("cfg:variant", 2)]
            top = os.path.dirname(rtlab.paths("zh_tn", v)[0])
            how = c.pick("init:how", 8, 0.5)
            good = True
            if how == 1:
                job.op("jinit", 0, "null", want=["thrown"])
                inits.append(("{}.{} jinit".format(job.task, job.n - 1), None))
                notes.append("null directory")
                return
            d = os.path.join(tmp, c.of("init:name", ("m", "\u6a21", ASTRAL)) + str(n))
            if how in (2, 3):
                notes.append("no such directory")
                good = False
            elif how == 4 or mode == 4:
                os.mkdir(d)
                names = ["zh_tn_tagger.fst", "zh_tn_verbalizer.fst", "zh_itn_tagger.fst", "zh_itn_verbalizer.fst"]
                bad = names[c.pick("bad:which", 4)]
                for f in names:
                    if f != bad:
                        os.symlink(os.path.join(top, f), os.path.join(d, f))
                notes.append(spoil(c, d, os.path.join(top, bad), os.path.join(top, names[0]))[1])
                if notes[-1] == "unreadable name":
                    notes[-1] = "missing"
                good = False
            elif how in (5, 6):
                os.symlink(top, d)
            else:
                d = top
            job.op("jinit", 0, utf16(d), want=["ok -"] if good else ["thrown"])
            inits.append(("{}.{} jinit".format(job.task, job.n - 1), v if good else None))

        def call():
            kind = c.of("op:kind", ("jnorm", "jinv"))
            how = c.pick("op:how", 10, 0.4)
            if how == 1:
                job.op(kind, 0, "null", want=["thrown"])
                return
            if how == 2:
                job.op(kind, 0, utf16("a\0b"), want=None)
                return
            if how == 3:
                text = ""
            elif how in (4, 5):
                text = c.of("op:odd", JODD)
            else:
                text = "".join(JTEXTS[c.pick("op:text", len(JTEXTS))] for _ in range(1 + c.pick("op:text", 4)))
            job.op(kind, 0, utf16(text), want=[text])

        job.pre()
        first = 0 if c.flag("cfg:noinit", 0.1) else 1 + c.pick("cfg:more", 3, 0.3)
        for n in range(first):
            init(n)
            if c.flag("cfg:between", 0.2):
                call()
        for t in range(ntasks):
            job.start()
            for _ in range(1 + c.pick("cfg:ops", 5)):
                if ntasks == 1 and c.flag("cfg:again", 0.15):
                    init(10 + len(inits))
                call()
        if ntasks > 1:
            add_switches(c, job, ntasks)
            job.binary = "rtjni"
        o = Outcome()
        res, lines = execute(c, job, o, notes)
        state = None  # what the last successful initialisation has put in force
        at = dict(inits)
        for ln in (x for x in lines if x.startswith("res ")):
            w = ln.split(" ")
            key = w[1] + " " + w[2]
            want = job.want.get(key)
            if w[2] == "jinit":
                if res[key][1] == "ok -" and want == ["ok -"]:
                    state = at[key]
                continue
            if want is None or want == ["thrown"]:
                continue
            if state is None:
                job.want[key] = ["thrown"]
                continue
            ptype, text = "zh_tn" if w[2] == "jnorm" else "zh_itn", want[0]
            known = text == "" or rtlab.parts_of(ptype, state, text) is not None
            job.want[key] = [jok(rtlab.ref_norm(ptype, state, text))] if known else [jok(""), "thrown"]
        for key, (nf, got) in sorted(res.items()):
            want = job.want[key]
            if got.startswith("exc "):
                continue
            said = "thrown" if got.startswith("thrown ") else got
            if said == "null -":
                o.violations.append(("null-answer", "{} returns null without an exception".format(key)))
            elif want is not None and said not in want and not (nf and said == "thrown"):
                o.violations.append(("wrong-answer", "{} gives {} instead of {}{}".format(key, jshow(got), " or ".join(jshow(x) for x in want), " (after a failure inside it)" if nf else "")))
        if [k for k in job.want if k not in res] and not o.violations and "done" in o.ends:
            raise HarnessError("calls without a result")
        for n in notes:
            o.faults[n] = o.faults.get(n, 0) + 1
        o.nontrivial = bool(o.switches or o.faults or any(w == ["thrown"] for w in job.want.values()))
        o.case = ("calls", "allocation fails", "virtual machine fails", "graph cannot be read", "damaged graph")[mode]
        o.violations = o.violations[:3]
        return o
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def jshow(r):
    kind, _, h = r.partition(" ")
    if kind != "ok" or h == "-":
        return r
    try:
        return ascii(bytes.fromhex(h).decode("utf-16-be", "surrogatepass"))[:200]
    except ValueError:
        return r[:100]


# ---------------------------------------------------------------- R03
def r03(c):
    """The command line program: every line answered in order, or a failing exit status."""
    o = Outcome()
    tmp = tempfile.mkdtemp(prefix="r03-", dir=rtlab.scratch())
    try:
        ptype, variant = pick_graphs(c, 1)[0]
        tagger, verbalizer = rtlab.paths(ptype, variant)
        lines = []
        for _ in range(c.pick("cfg:lines", 30)):
            k = c.pick("line:kind", 10, 0.35)
            if k in (1, 2):
                lines.append("")
            elif k == 3:
                lines.append(c.of("line:other", ("q", "aq ", " ", "\t", "a b", "\u2028a", "a\r", "date { }")))
            elif k == 4:
                lines.append(pick_text(c, "line:text", 60))
            else:
                lines.append(pick_text(c, "line:text"))
        data = "".join(x + "\n" for x in lines)
        if lines and lines[-1] and c.flag("cfg:nonl", 0.2):
            data = data[:-1]
        text = pick_text(c, "cfg:text") if c.flag("cfg:astext", 0.3) else ""
        want = []
        for x in ([text] if text else []) + lines:
            want.append(("".join((rtlab.ref_tag(ptype, variant, x), "\n", rtlab.ref_norm(ptype, variant, x), "\n"))).encode("utf-8"))
        head = len(want) - len(lines)
        full = b"".join(want)
        src = os.path.join(tmp, "input.txt")
        raw = data.encode("utf-8")
        args = ["--tagger", tagger, "--verbalizer", verbalizer]
        if text:
            args += ["--text", text]
        mode = c.pick("cfg:mode", 8)
        env = {}
        failure = None
        if mode == 7:
            failure = c.of("bad:input", ("input is missing", "input is a directory"))
            if failure == "input is a directory":
                os.mkdir(src)
            lines_ok = 0
        else:
            with open(src, "wb") as f:
                f.write(raw)
        use_file = mode != 6 or c.flag("cfg:file", 0.7)
        if use_file:
            args += ["--file", src]
        env["SIM_INPUT"] = src
        chunks = [1 + int(1.6**c.pick("chunk:len", 16)) for _ in range(c.pick("chunk:n", 12))]
        if chunks:
            env["SIM_CHUNKS"] = ",".join(map(str, chunks + [0] if c.flag("chunk:rest") else chunks))
        out = os.path.join(tmp, "out")
        limit = None
        if mode == 4:
            nth = c.pick("fail:nth", 6)
            env["SIM_READ_FAIL"] = "{}:{}".format(nth, c.of("fail:errno", (5, 116, 13)))
        elif mode == 5:
            limit = c.pick("out:limit", len(full) + 1)
            env["SIM_FSIZE"] = str(limit)
        elif mode == 6:
            how = c.pick("bad:graph", 3)
            failure = "graph cannot be read"
            if how == 0:
                env["SIM_GRAPH_FAIL"] = "{}:5".format(1 + c.pick("bad:at", 2))
            elif how == 1:
                args[1 if c.flag("bad:which") else 3] = os.path.join(tmp, ptype + "_missing.fst")
            else:
                bad = os.path.join(tmp, ptype + "_tagger.fst")
                with open(bad, "wb") as f:
                    f.write(b"junk" * c.pick("bad:size", 4))
                args[1] = bad
        log_r, log_w = os.pipe()
        os.set_blocking(log_r, False)
        fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_CLOEXEC, 0o600)
        env["SIM_LOG"] = str(log_w)
        try:
            p = run_main(args, env, fd, log_w)
            os.close(log_w)
            log = read_all(log_r)
        finally:
            os.close(log_r)
            os.close(fd)
        if p is None:
            o.violations.append(("no-progress", "the program never ends (60 s of real time)"))
            o.digest = rtlab.sha("hang")
            return o
        rc, err = p
        with open(out, "rb") as f:
            got = f.read()
        reads = [tuple(map(int, x.split())) for x in log.split("\n") if x.strip()]
        judge_main(o, mode, rc, err, got, want, head, raw, reads, limit, failure, use_file)
        o.nontrivial = len(reads) > 2 or mode >= 4
        o.case = ("chunks", "chunks", "chunks", "chunks", "read error", "output limit", "graph", "input")[mode]
        if mode >= 4:
            o.faults[failure or o.case] = 1
        if chunks:
            o.faults["short read"] = sum(1 for n, _ in reads if n > 0)
        o.steps = len(reads) + len(lines)
        o.ends = ["exit 0" if rc == 0 else "failing exit"]
        o.digest = rtlab.sha(got, rc == 0, log, raw, mode, limit)
        o.sample = {"case": o.case, "lines": lines[:5], "reads": reads[:10], "exit": rc}
        o.extra = {"history": [], "args": args, "env": env, "lines": lines, "reads": reads, "exit": rc, "stderr": err[-500:], "output": got.decode("utf-8", "replace")[-2000:]}
        return o
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_main(args, env, out, log_w):
    import subprocess
    e = {"ASAN_OPTIONS": "detect_leaks=0:symbolize=0:exitcode=77", "UBSAN_OPTIONS": "symbolize=0", "LC_ALL": "C.UTF-8"}
    e.update(env)
    try:
        p = subprocess.run([rtlab.binary("rtmain"), *args], stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, env=e, timeout=60,
                           pass_fds=(log_w, ))
    except subprocess.TimeoutExpired:
        return None
    return p.returncode, p.stderr.decode("utf-8", "replace")


def read_all(fd):
    out = b""
    while True:
        try:
            d = os.read(fd, 65536)
        except BlockingIOError:
            break
        if not d:
            break
        out += d
    return out.decode()


def judge_main(o, mode, rc, err, got, want, head, raw, reads, limit, failure, use_file):
    full = b"".join(want)
    v = o.violations
    if rc == 77 or "runtime error" in err and rc != 0:
        v.append(("crashed", summary(err, rc)))
        return
    if mode < 4:
        if rc != 0:
            v.append(("fails", "exit status {} although nothing failed: {}".format(rc, err[-200:])))
        if got != full:
            v.append(("wrong-output", "expected {!r}, got {!r}".format(*differ(full, got))))
    elif mode == 4:
        failed = any(n < 0 for n, _ in reads)
        given = sum(n for n, _ in reads if n > 0)
        done = raw[:given].count(b"\n")
        least = b"".join(want[:head + done])
        if failed:
            if got != least:
                v.append(("wrong-output", "{} whole line(s) were read before the error: expected {!r}, got {!r}".format(done, *differ(least, got))))
            if rc == 0:
                v.append(("failure-unreported", "the input could not be read to its end, but the exit status is 0"))
        else:
            if rc != 0 or got != full:
                v.append(("wrong-output", "exit status {}, expected {!r}, got {!r}".format(rc, *differ(full, got))))
    elif mode == 5:
        if limit >= len(full):
            if rc != 0 or got != full:
                v.append(("wrong-output", "exit status {}, expected {!r}, got {!r}".format(rc, *differ(full, got))))
        else:
            if not full.startswith(got):
                v.append(("wrong-output", "not a prefix of the right answers: expected {!r}, got {!r}".format(*differ(full, got))))
            if rc == 0:
                v.append(("failure-unreported", "only {} of {} bytes of output could be written, but the exit status is 0".format(limit, len(full))))
    elif mode == 6:
        if rc == 0:
            v.append(("failure-unreported", "a graph could not be read, but the exit status is 0"))
        if got:
            v.append(("wrong-output", "a graph could not be read, but there are answers: {!r}".format(got[:200])))
    else:
        first = b"".join(want[:head])
        if rc == 0:
            v.append(("failure-unreported", "{}, but the exit status is 0".format(failure)))
        if got != first:
            v.append(("wrong-output", "expected {!r}, got {!r}".format(*differ(first, got))))
    # answered before more input is awaited
    if limit is None and not v:
        given = 0
        for n, size in reads:
            need = len(b"".join(want[:head + raw[:given].count(b"\n")]))
            if size < need:
                v.append(("late-answer", "{} bytes of input were read, more were awaited, but only {} of {} bytes of answers had been written".format(
                    given, size, need)))
                break
            given += max(0, n)
    o.violations = v[:3]


def differ(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 20)
    return a[i:i + 100].decode("utf-8", "replace"), b[i:i + 100].decode("utf-8", "replace")
