"""L01-L03: the shipped command line on simulated byte streams.

Input arrives in seeded chunks with seeded delays and may fail; output is
recorded at every write and may fail.  Normalizers are stand-ins that answer
uniquely per text; argument parsing, stream handling and main() are real.
"""

import builtins
import contextlib
import errno
import hashlib
import io
import os
import sys
import tempfile
import types

import realpipe
from outcome import Outcome
from simcore import HarnessError

ALPHABET = ["a", "b", "7", " ", "  ", "\t", "。", "é", "\U0001f600", "\u2028", "\u2029", "\x85", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x00",
            "\ufeff", "\xa0", "\u3000", '"', "\\", "{", "}", "儿", "12月", "-", "#", "\x1a", "\x1f", "$5", "--", "''"]
STUBS = (("tn.chinese.normalizer", "Normalizer"), ("tn.japanese.normalizer", "Normalizer"), ("tn.english.normalizer", "Normalizer"),
         ("itn.chinese.inverse_normalizer", "InverseNormalizer"), ("itn.japanese.inverse_normalizer", "InverseNormalizer"),
         ("itn.english.inverse_normalizer", "InverseNormalizer"))
_mods = {}


class Events:
    """The event log of one run, hashed as it grows."""

    def __init__(self, limit):
        self.h = hashlib.sha256()
        self.n = 0
        self.trace = []
        self.limit = limit
        self.t = 0.0

    def add(self, *parts):
        self.n += 1
        line = "|".join(str(p) for p in parts)
        self.h.update(line.encode("utf-8", "backslashreplace") + b"\n")
        if self.limit:
            self.trace.append("{:.3f} {}".format(self.t, line))


def tagged_of(text):
    return "T<{}>".format(text)


def spoken_of(tagged):
    return "V[{}]".format(tagged)


class Fake:
    """Stand-in normalizer: unique answers, optional failure at one call."""
    world = None

    def __init__(self, *a, **k):
        self.w = Fake.world
        w = self.w
        w.ev.add("construct")
        if w.fault == ("construct", ):
            w.fire("construct")

    def tag(self, text, *a, **k):
        w = self.w
        w.tags += 1
        w.ev.add("tag", repr(text))
        if w.fault[:2] == ("tag", w.tags):
            w.fire("tag")
        return tagged_of(text)

    def verbalize(self, tagged, *a, **k):
        w = self.w
        w.verbs += 1
        w.ev.add("verbalize", repr(tagged))
        if w.fault[:2] == ("verbalize", w.verbs):
            w.fire("verbalize")
        w.done.append(tagged)
        w.processed_at = len(w.out)
        return spoken_of(tagged)

    def normalize(self, text, *a, **k):
        return self.verbalize(self.tag(text))


class ChunkRaw(io.RawIOBase):
    """A byte source that delivers seeded chunks, some of them late, some failing."""

    def __init__(self, w, name):
        super().__init__()
        self.w = w
        self.name = name
        self.pos = 0
        self.mode = "rb"

    def readable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return self.w.tty

    def readinto(self, b):
        w = self.w
        w.reads += 1
        end, delay = w.chunk_at(self.pos)
        if delay > 0:
            w.waits += 1
            w.ev.t += delay
            w.ev.add("wait", self.pos, delay)
            w.at_wait(self.pos)
        if w.fault[0] == "read" and self.pos >= w.fault[1] and not w.fired:
            w.fire("read")
        if w.fault[0] == "read" and self.pos < w.fault[1] < end:
            end = w.fault[1]
        if self.pos >= len(w.data):
            w.ev.add("eof")
            return 0
        n = min(len(b), end - self.pos)
        b[:n] = w.data[self.pos:self.pos + n]
        w.ev.add("read", self.pos, n)
        self.pos += n
        w.delivered = max(w.delivered, self.pos)
        return n


class OutBuffer(io.BufferedIOBase):
    """Records every write the moment the program makes it."""

    def __init__(self, w):
        super().__init__()
        self.w = w
        self.raw = self

    def writable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def write(self, b):
        b = bytes(b)
        w = self.w
        w.writes += 1
        if w.fault[:2] == ("write", w.writes):
            w.out += b[:w.fault[2]]
            w.ev.add("write-fails", len(b))
            w.fire("write")
        w.out += b
        w.ev.add("write", hashlib.sha256(b).hexdigest()[:12], len(b))
        return len(b)

    def flush(self):
        w = self.w
        if w.finishing:
            return
        w.flushes += 1
        if w.fault[:2] == ("flush", w.flushes):
            w.fire("flush")


class CliWorld:

    def __init__(self, c):
        import scen
        self.c = c
        self.ev = Events(scen.TRACE)
        self.data = b""
        self.bounds = []
        self.delays = {}
        self.fault = ("none", )
        self.fired = False
        self.exc = None
        self.tty = False
        self.out = bytearray()
        self.tags = self.verbs = self.reads = self.waits = self.writes = self.flushes = 0
        self.done = []
        self.delivered = 0
        self.processed_at = 0
        self.late = []
        self.finishing = False
        self.lines = []
        self.useful_waits = 0
        self.need = None
        self.seen_lines = 0
        self.seen_pos = 0

    def fire(self, where):
        self.fired = True
        self.fired_done = len(self.done)
        self.fired_where = where
        self.ev.add("fault", where, repr(self.exc))
        raise self.exc

    def chunk_at(self, pos):
        import bisect
        i = bisect.bisect_right(self.bounds, pos)
        end = self.bounds[i] if i < len(self.bounds) else len(self.data)
        return max(end, pos + 1), self.delays.get(pos, 0.0)

    def at_wait(self, pos):
        """The program waits for input: everything delivered in full must be answered."""
        if self.need is None:
            self.need = [0]
            for x in self.lines:
                self.need.append(self.need[-1] + len(expected([x])))
        self.seen_lines += self.data.count(b"\n", self.seen_pos, pos)
        self.seen_pos = max(self.seen_pos, pos)
        k = self.seen_lines
        if k == 0:
            return
        self.useful_waits += 1
        need = self.need[min(k, len(self.lines))]
        if len(self.out) < need and not self.late:
            self.late.append("waiting for input after {} complete lines ({} bytes), but only {} of the {} bytes of their answers are written".format(
                k, pos, len(self.out), need))


def expected(lines):
    return "".join("{}\n{}\n".format(tagged_of(x), spoken_of(tagged_of(x))) for x in lines).encode("utf-8", "surrogateescape")


def modules():
    """The real command line modules with stand-in normalizer classes behind create_processor."""
    if not _mods:
        realpipe.setup()
        for name, attr in STUBS:
            pkg, _, leaf = name.rpartition(".")
            __import__(pkg)
            m = types.ModuleType(name)
            setattr(m, attr, Fake)
            sys.modules[name] = m
            setattr(sys.modules[pkg], leaf, m)
        import itn.main
        import tn.cli
        import tn.main
        _mods.update(cli=tn.cli, tn=tn.main, itn=itn.main)
    return _mods


def _gen_lines(c):
    size = c.pick("text", 12)
    n = (3, 1, 2, 4, 5, 8, 12, 20, 40, 3, 2, 0)[size]
    if c.flag("text", 0.02):
        n = 400 + c.pick("text", 800)
    lines = []
    for _ in range(n):
        k = c.pick("text", 8)
        if k == 0:
            lines.append("")
        elif k == 1:
            lines.append(" " * c.pick("text", 4))
        else:
            m = 1 + c.pick("text", 6)
            s = "".join(ALPHABET[c.pick("text", len(ALPHABET))] for _ in range(m))
            if c.flag("text", 0.02):
                s = s * (1 + 9000 // max(1, len(s)))
            lines.append(s)
    if lines and c.flag("text", 0.3):  # repeated lines must be answered each time
        lines.append(lines[-1])
    return lines


def _encode(c, lines):
    """Bytes with seeded line endings; the last line may end without one."""
    style = c.pick("text", 4)  # \n, \r\n, mixed
    out = []
    for i, s in enumerate(lines):
        last = i == len(lines) - 1
        end = "\r\n" if style == 1 or (style == 2 and c.flag("text")) else "\n"
        if last and s and c.flag("text", 0.5):
            end = "\r" if c.flag("text", 0.15) else ""
        out.append(s + end)
    return "".join(out).encode("utf-8")


def _schedule(c, w, slow):
    """Where reads split and which chunks come late."""
    n = len(w.data)
    k = c.pick("chunk", 6)
    if k == 0 and not slow:
        bounds = []
    elif k == 1:
        bounds = list(range(1, n)) if n < 3000 else list(range(7, n, 97))
    elif k == 2:  # right around line ends
        bounds = [i + 1 + c.of("chunk", (0, 0, -1, 1, -2)) for i, b in enumerate(w.data) if b == 10 and c.flag("chunk", 0.7)]
    elif k == 3 or slow and k == 0:
        bounds = [i + 1 for i, b in enumerate(w.data) if b == 10]
    else:
        bounds = [1 + c.pick("chunk", max(1, n)) for _ in range(1 + c.pick("chunk", 12))]
    bounds = sorted({b for b in bounds if 0 < b < n})
    w.bounds = bounds
    p = (0.0, 0.2, 1.0)[c.pick("chunk", 3)] if not slow else (0.4, 1.0)[c.pick("chunk", 2)]
    if p:
        for b in [0] + bounds + [n]:
            if p == 1.0 or c.flag("late", p):
                w.delays[b] = (0.001, 0.2, 30.0)[c.pick("late", 3)]


def _argv(c, w, mode):
    direction = c.of("cfg", ("tn", "itn"))
    lang = c.of("cfg", ("zh", "en", "ja"))
    argv = []
    if lang != "zh" or c.flag("cfg"):
        argv = ["--language", lang] if c.flag("cfg") else ["--language=" + lang]
    if c.flag("cfg", 0.3):
        argv += ["--overwrite_cache"]
    if c.flag("cfg", 0.3):
        argv += ["--cache_dir", "/nonexistent"]
    return direction, argv


@contextlib.contextmanager
def _opened(w, path):
    """open() of our input path goes to the simulated byte source."""
    real = io.open

    def fake_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            same = os.fspath(file) == path
        except TypeError:
            same = False
        if not same or any(x in mode for x in "wax+"):
            return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        w.ev.add("open", mode, encoding, errors, newline)
        if w.fault == ("open", ):
            w.fire("open")
        raw = ChunkRaw(w, path)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        t.mode = mode
        return t

    saved = builtins.open, io.open
    builtins.open = fake_open
    io.open = fake_open
    try:
        yield
    finally:
        builtins.open, io.open = saved


def _execute(c, w, direction, argv, source, path):
    """Runs the real entry point; -> ("ok", None) | ("error", exception)."""
    mods = modules()
    Fake.world = w
    out = io.TextIOWrapper(OutBuffer(w), encoding="utf-8", errors="surrogateescape", newline="\n", write_through=True)
    stdin = io.TextIOWrapper(io.BufferedReader(ChunkRaw(w, "<stdin>")), encoding="utf-8", errors=c.of("cfg", ("strict", "strict", "surrogateescape")),
                             newline=c.of("cfg", ("\n", None)))
    how = c.pick("cfg", 3)
    saved = sys.stdin, sys.stdout, sys.stderr, sys.argv
    err = io.StringIO()
    try:
        sys.stderr = err
        with _opened(w, path):
            try:
                if how == 0:
                    sys.stdin, sys.stdout, sys.argv = stdin, out, ["x"] + argv
                    mods[direction].main()
                elif how == 1:
                    sys.stdin, sys.stdout, sys.argv = io.TextIOWrapper(io.BytesIO(b"")), io.StringIO(), ["wrong", "--bad"]
                    mods["cli"].run(direction, argv, stdin=stdin, stdout=out)
                else:
                    sys.stdin, sys.stdout, sys.argv = io.TextIOWrapper(io.BytesIO(b"")), io.StringIO(), ["wrong", "--bad"]
                    mods["cli"].run(direction, argv, stdin=stdin, stdout=out, processor_factory=lambda d, a: Fake())
                w.ev.add("returned")
                # what the interpreter does at exit
                out.flush()
                return ("ok", None)
            except SystemExit as e:
                w.ev.add("exit", e.code)
                if e.code in (0, None):
                    try:
                        out.flush()
                    except BaseException as e2:
                        return ("error", e2)
                    return ("ok", None)
                return ("error", e)
            except BaseException as e:
                w.ev.add("raised", type(e).__name__)
                if not w.fired and not isinstance(e, (UnicodeError, OSError)):
                    return ("error", e)
                return ("error", e)
    finally:
        w.finishing = True
        sys.stdin, sys.stdout, sys.stderr, sys.argv = saved
        w.stderr = err.getvalue()
        for f in (out, stdin):
            try:
                f.detach()
            except Exception:
                pass


def _outcome(w, out, nontrivial, case, ended, fault):
    o = Outcome()
    o.violations = out[:3]
    o.digest = w.ev.h.hexdigest()
    o.nontrivial = nontrivial
    o.faults = {fault: 1} if fault else {}
    if w.waits:
        o.faults["late chunk"] = w.waits
    if len(w.bounds):
        o.faults["short read"] = w.reads
    o.steps = w.ev.n
    o.sim_time = w.ev.t
    o.probes = {"waits with complete lines delivered": w.useful_waits}
    o.ends = [ended[0]]
    o.case = case
    o.sample = {"lines": [x[:60] for x in w.lines[:6]], "bytes": len(w.data), "chunks": len(w.bounds) + 1, "waits": w.waits, "fault": repr(w.fault),
                "ended": "{} {!r}".format(ended[0], ended[1])[:200], "output_bytes": len(w.out)}
    o.trace = w.ev.trace
    o.extra = {"history": ["{} lines {} bytes {} chunks {} waits fault {!r} -> {} {!r}".format(len(w.lines), len(w.data), len(w.bounds) + 1, w.waits,
                                                                                         w.fault, ended[0], ended[1])[:500]],
               "fault_log": [repr(w.fault)], "notes": [w.stderr[-500:]]}
    return o


def _scratch():
    d = os.environ.get("TMPDIR") or tempfile.gettempdir()
    return os.path.join(d, "cli-input-{}.txt".format(os.getpid()))


def _prepare(c, slow=False):
    w = CliWorld(c)
    w.lines = _gen_lines(c)
    w.data = _encode(c, w.lines)
    return w


def _where(c, w, argv):
    path = _scratch()
    source = c.of("cfg", ("stdin", "file"))
    if source == "file":
        with open(path, "wb") as f:  # for programs that open it some other way
            f.write(w.data)
        argv = argv + (["--file", path] if c.flag("cfg") else ["--file=" + path])
    return source, path, argv


def _diff(got, want):
    n = 0
    while n < min(len(got), len(want)) and got[n] == want[n]:
        n += 1
    return "differs at byte {}: got ...{!r}, expected ...{!r}".format(n, bytes(got[max(0, n - 30):n + 60]), bytes(want[max(0, n - 30):n + 60]))


def l01(c):
    w = _prepare(c)
    _schedule(c, w, False)
    direction, argv = _argv(c, w, "L01")
    source, path, argv = _where(c, w, argv)
    ended = _execute(c, w, direction, argv, source, path)
    out = []
    want = expected(w.lines)
    if ended[0] != "ok":
        out.append(("failed:" + type(ended[1]).__name__, "undisturbed input of {} lines over {} ended with {!r} {}".format(
            len(w.lines), source, ended[1], w.stderr[-300:])))
    elif bytes(w.out) != want:
        out.append(("answers", "{} lines over {}: output {}".format(len(w.lines), source, _diff(w.out, want))))
    return _outcome(w, out, len(w.lines) > 1 and len(w.bounds) > 0, source, ended, None)


def l02(c):
    w = _prepare(c)
    while not w.data:
        w = _prepare(c)
        if c.replaying:
            w.lines, w.data = ["a"], b"a\n"
    _schedule(c, w, False)
    direction, argv = _argv(c, w, "L02")
    source, path, argv = _where(c, w, argv)
    k = c.pick("fault", 7)
    nl = len(w.lines)
    eio = (OSError(errno.EIO, "I/O error"), OSError(errno.ESTALE, "stale"), KeyboardInterrupt(), MemoryError(), ConnectionResetError(errno.ECONNRESET, "reset"),
           TimeoutError(errno.ETIMEDOUT, "late"))
    proc = (ValueError("cannot"), RuntimeError("boom"), KeyboardInterrupt(), MemoryError(), KeyError("x"), StopIteration("x"), OSError(errno.EIO, "in rule"),
            IndexError("i"), UnicodeEncodeError("utf-8", "x", 0, 1, "y"), GeneratorExit(), EOFError("e"), AttributeError("a"))
    wr = (BrokenPipeError(errno.EPIPE, "pipe"), OSError(errno.ENOSPC, "full"), OSError(errno.EIO, "I/O error"), KeyboardInterrupt(), BlockingIOError(errno.EAGAIN, "again", 0),
          ValueError("I/O operation on closed file"))
    bad = None
    if k <= 1:
        w.fault = ("read", c.pick("fault", len(w.data) + 1))
        w.exc = eio[c.pick("fault", len(eio))]
    elif k == 2:
        pos = c.pick("fault", len(w.data) + 1)
        while pos < len(w.data) and (w.data[pos] & 0xC0) == 0x80:
            pos += 1
        if w.data[pos:pos + 1] == b"\n":
            pos += 1
        junk = (b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf8\x88")[c.pick("fault", 4)]
        w.data = w.data[:pos] + junk + w.data[pos:]
        w.bounds = [b if b <= pos else b + len(junk) for b in w.bounds]
        bad = pos
        w.fault = ("undecodable", pos)
        if source == "file":
            with open(path, "wb") as f:
                f.write(w.data)
    elif k == 3:
        w.fault = ("tag", 1 + c.pick("fault", nl))
        w.exc = proc[c.pick("fault", len(proc))]
    elif k == 4:
        w.fault = ("verbalize", 1 + c.pick("fault", nl))
        w.exc = proc[c.pick("fault", len(proc))]
    elif k == 5:
        w.fault = ("write", 1 + c.pick("fault", 4 * nl), c.of("fault", (0, 0, 1, 3, 10**6)))
        w.exc = wr[c.pick("fault", len(wr))]
    else:
        w.fault = (c.of("fault", ("open", "construct", "flush")), )
        if w.fault[0] == "flush":
            w.fault = ("flush", 1 + c.pick("fault", nl + 1))
        w.exc = (PermissionError(errno.EACCES, "denied"), FileNotFoundError(errno.ENOENT, "gone"), OSError(errno.EMFILE, "many"), RuntimeError("build failed"),
                 KeyboardInterrupt())[c.pick("fault", 5 if w.fault[0] == "construct" else 3)]
    ended = _execute(c, w, direction, argv, source, path)
    out = []
    got = bytes(w.out)
    what = "{} lines over {}, fault {!r} {!r}".format(nl, source, w.fault, w.exc)
    if bad is not None:
        # strict decoding fails; a lenient stream may hand the bytes on and answer everything
        head = w.data[:bad].count(b"\n")
        try:
            text = w.data.decode("utf-8", "surrogateescape")
            text = text.replace("\r\n", "\n")
            lines = text.split("\n")
            other = text.replace("\r", "\n").split("\n")  # a stream may end a line at a lone carriage return as well
            for x in (lines, other):
                if x and x[-1] == "":
                    x.pop()
        except UnicodeError:
            lines = other = w.lines[:head]
        want = expected(lines)
        if not want.startswith(got):
            want = expected(other)
        if ended[0] == "ok":
            if got != want:
                out.append(("unanswered", "{}: ended successfully, output {}".format(what, _diff(got, want))))
        elif not want.startswith(got):
            out.append(("answers", "{}: output {}".format(what, _diff(got, want))))
        fired = ended[0] != "ok"
    else:
        want = expected(w.lines)
        fired = w.fired
        if not want.startswith(got):
            out.append(("answers", "{}: output {}".format(what, _diff(got, want))))
        if not fired:
            if ended[0] == "ok" and got != want:
                out.append(("unanswered", "{} (not reached): ended successfully, output {}".format(what, _diff(got, want))))
            elif ended[0] != "ok":
                out.append(("failed:" + type(ended[1]).__name__, "{} (not reached): ended with {!r}".format(what, ended[1])))
        elif ended[0] == "ok" and not (w.fault[0] == "flush" and got == want):
            out.append(("success", "{}: the failure was hit, yet the program ended successfully; output {}".format(what, _diff(got, want))))
    if fired and ended[0] != "ok":
        n = w.fired_done if w.fired else len(w.done)
        if w.fired and w.fired_where == "write":
            n -= 1  # the line being written
        if w.fired and w.fired_where == "flush":
            n -= 1
        need = expected([x[2:-1] for x in w.done[:max(0, n)]])
        if len(got) < len(need):
            out.append(("lost", "{}: {} lines were processed before the failure, but only {} of the {} bytes of their answers were written".format(
                what, n, len(got), len(need))))
    return _outcome(w, out, fired, "{} {}".format(source, w.fault[0]), ended, w.fault[0] if fired else None)


def l03(c):
    w = _prepare(c)
    if c.flag("text", 0.3):  # a long-running stream
        w.lines = w.lines * (1 + c.pick("text", 30))
        w.data = _encode(c, w.lines)
    _schedule(c, w, True)
    direction, argv = _argv(c, w, "L03")
    source, path, argv = _where(c, w, argv)
    endless = c.flag("cfg", 0.5)
    if endless:  # the stream never ends by itself: it is cut while the program waits for more
        w.delays[len(w.data)] = 3600.0
        w.fault = ("read", len(w.data))
        w.exc = KeyboardInterrupt("cut")
    ended = _execute(c, w, direction, argv, source, path)
    out = []
    want = expected(w.lines)
    if w.late:
        out.append(("late", "{} over {}: {}".format("open-ended stream" if endless else "slow stream", source, w.late[0])))
    elif not want.startswith(bytes(w.out)):
        out.append(("answers", "output {}".format(_diff(w.out, want))))
    return _outcome(w, out, w.useful_waits > 0, source + (" endless" if endless else ""), ended, None)
