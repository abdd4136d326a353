"""The C++ runtime: builds /repo/runtime with the harness of rt/, makes small graphs, runs one job per process."""

import fcntl
import glob
import hashlib
import os
import subprocess
import tempfile

from node import REPO
from simcore import HarnessError

HERE = os.path.dirname(os.path.abspath(__file__))
RT = os.path.join(os.path.dirname(HERE), "rt")
RUNTIME = os.path.join(REPO, "runtime")
WRAPPED = ("malloc", "free", "calloc", "realloc", "strdup", "pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_once",
           "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort")
PTYPES = ("zh_tn", "zh_itn", "en_tn", "en_itn", "ja_tn", "ja_itn")
ITN = {
    "date": ("year", "month", "day", "preserve_order"),
    "fraction": ("sign", "numerator", "denominator"),
    "measure": ("numerator", "denominator", "value", "units"),
    "money": ("currency", "value", "decimal", "quantity"),
    "time": ("hour", "minute", "second", "noon", "zone"),
    "telephone": ("country_code", "number_part"),
    "electronic": ("username", "domain", "protocol"),
}
# the field orders of each pipeline: the reference the runtime has to agree with
ORDERS = {
    "zh_tn": {
        "date": ("year", "month", "day"),
        "fraction": ("denominator", "numerator"),
        "measure": ("denominator", "numerator", "value"),
        "money": ("value", "currency"),
        "time": ("noon", "hour", "minute", "second"),
    },
    "ja_tn": {
        "date": ("year", "month", "day"),
        "money": ("value", "currency"),
    },
    "en_tn": {
        "date": ("preserve_order", "text", "day", "month", "year"),
        "money": ("integer_part", "fractional_part", "quantity", "currency_maj"),
    },
    "zh_itn": ITN,
    "en_itn": ITN,
    "ja_itn": ITN,
}
_state = {}


def scratch():
    d = os.path.join(tempfile.gettempdir(), "rt")
    os.makedirs(d, exist_ok=True)
    return d


def locked(fn):
    d = scratch()
    fd = os.open(os.path.join(d, "lock"), os.O_CREAT | os.O_RDWR | os.O_CLOEXEC, 0o600)
    try:
        fcntl.flock(fd, fcntl.LOCK_EX)
        return fn(d)
    finally:
        os.close(fd)


def sources(sub):
    out = []
    for d in sub:
        top = os.path.join(RUNTIME, d)
        for n in sorted(os.listdir(top)) if os.path.isdir(top) else ():
            if n.endswith((".cc", ".cpp", ".cxx")):
                out.append(os.path.join(top, n))
    return out


def compiler():
    for name in ("clang++", ):
        for d in os.environ.get("PATH", "").split(os.pathsep) + ["/usr/bin", "/usr/local/bin"]:
            p = os.path.join(d, name)
            if os.access(p, os.X_OK):
                return p
    raise HarnessError("no clang++")


def compile_all(jobs):
    """[(source, object, extra flags)], at most 8 at a time."""
    running = []
    for src, obj, extra in jobs:
        cmd = [compiler(), "-std=c++20", "-g", "-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
               "-I" + os.path.join(RT, "stub"), "-I" + RUNTIME, *extra, "-c", src, "-o", obj]
        running.append((cmd, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        if len(running) >= 8:
            finish(running.pop(0))
    while running:
        finish(running.pop(0))


def finish(job):
    cmd, p = job
    err = p.communicate()[1]
    if p.returncode:
        raise HarnessError("the runtime does not compile with the harness: {} ...\n{}".format(cmd[-3], err.decode("utf-8", "replace")[:1500]))


def binary(which):
    """Path of 'rtsim' (C API under the scheduler), 'rthot' (the same, with every access to a global variable a scheduling point), 'rtmain' (command line) or 'rtjni', built from /repo's working tree."""
    if which not in _state:
        _state[which] = locked(lambda d: build(d, which))
    return _state[which]


def jni_headers():
    for top in sorted(glob.glob("/usr/lib/jvm/*/include")):
        if os.path.exists(os.path.join(top, "jni.h")):
            return ("-I" + top, "-I" + os.path.join(top, "linux"))
    raise HarnessError("no jni.h")


COVER = ("-fsanitize-coverage=trace-pc-guard,pc-table", )
COVERHOT = ("-fsanitize-coverage=trace-pc-guard,pc-table,trace-loads,trace-stores", )


def build(d, which):
    out = os.path.join(d, which)
    if os.path.exists(out):
        return out
    lib = sources(("processor", "utils"))
    if which in ("rtsim", "rthot"):
        srcs = [(s, COVER if which == "rtsim" else COVERHOT) for s in lib] + [(os.path.join(RT, "sim.cc"), ())]
    elif which == "rtjni":
        jni = jni_headers()
        srcs = [(s, COVERHOT + jni) for s in lib + sources(("bindings/android", ))] + [(os.path.join(RT, "sim.cc"), ("-DRT_JNI", ) + jni)]
    else:
        srcs = [(s, ()) for s in lib + sources(("bin", ))] + [(os.path.join(RT, "mainsim.cc"), ())]
    jobs = []
    for i, (s, extra) in enumerate(srcs):
        jobs.append((s, os.path.join(d, "{}-{}-{}.o".format(which, i, os.path.basename(s))), extra))
    compile_all(jobs)
    link = [compiler(), "-fsanitize=address,undefined", "-rdynamic"]
    if which != "rtmain":
        link += ["-Wl,--wrap=" + s for s in WRAPPED]
    p = subprocess.run(link + [o for _, o, _ in jobs] + ["-o", out + ".tmp", "-ldl", "-lpthread"], capture_output=True)
    if p.returncode:
        raise HarnessError("the runtime does not link with the harness: " + p.stderr.decode("utf-8", "replace")[:1500])
    os.rename(out + ".tmp", out)
    return out


# ---------------------------------------------------------------- graphs
def items(ptype, variant):
    """[(surface, token name, fields as tagged)]: what the small graphs know."""
    v = variant
    out = [
        ("a", "date", (("day", "3" + v), ("month", "12"), ("year", "1999"))),
        ("b", "money", (("currency", "\u00a5" + v), ("quantity", "m"), ("value", "7"), ("integer_part", "4"), ("decimal", "5"))),
        ("c", "char", (("value", "\u7532" + v), )),
        ("dd", "time", (("second", "1"), ("noon", "pm" + v), ("zone", "jst"), ("minute", "30"), ("hour", "5"))),
        ("e", "fraction", (("numerator", "2"), ("denominator", "9" + v), ("sign", "-"))),
        ("f", "measure", (("value", "60"), ("units", "km" + v), ("denominator", "h"), ("numerator", "x"))),
        ("g", "telephone", (("number_part", "555" + v), ("country_code", "81"))),
        ("h", "electronic", (("protocol", "p" + v), ("domain", "d.org"), ("username", "u"))),
        ("i", "word", (("z", "last" + v), ("a", "first"))),
        ("j", "quoted", (("value", "say \\\"hi\\\" \\\\ " + v), )),
        ("k", "date", (("month", "6"), ("preserve_order", "true"), ("day", "4" + v))),
        ("\u957f", "long", (("value", "\u3042" * 90 + v), )),
        ("zz", "char", (("value", "z" * 40 + v), )),
        ("\U00020bb7", "char", (("value", "\U0001f600" + v), )),
    ]
    return out


def tagged(name, fields):
    return name + " {" + "".join(' {}: "{}"'.format(k, v) for k, v in fields) + " }"


def reordered(ptype, name, fields):
    d = dict(fields)
    order = [k for k, _ in fields]
    if name in ORDERS[ptype] and d.get("preserve_order") != "true":
        order = ORDERS[ptype][name]
    return name + " {" + "".join(' {}: "{}"'.format(k, d[k]) for k in order if k in d) + " }"


def spoken(ptype, variant, surface):
    return "<{}{}{}>".format(ptype[:2].upper() + ptype[3], variant, surface * 2)


def graph_dir():
    if "graphs" not in _state:
        _state["graphs"] = locked(make_graphs)
    return _state["graphs"]


def make_graphs(d):
    top = os.path.join(d, "graphs")
    if os.path.exists(os.path.join(top, "done")):
        return top
    import pynini
    from pynini.lib.pynutil import delete, insert
    os.makedirs(top, exist_ok=True)
    for ptype in PTYPES:
        for v in ("1", "2"):
            its = items(ptype, v)
            tag = pynini.union(*[pynini.cross(pynini.escape(s), pynini.escape(tagged(n, f))) for s, n, f in its])
            # a dearer reading of every item, so that the best path matters
            worse = pynini.union(*[pynini.cross(pynini.escape(s), pynini.escape('worse { value: "{}" }'.replace("{}", s))) for s, n, f in its])
            one = (tag | pynini.lib.pynutil.add_weight(worse, 3.0)) + insert(" ")
            tagger = one.plus.optimize()
            verb = pynini.union(*[pynini.cross(pynini.escape(reordered(ptype, n, f)), pynini.escape(spoken(ptype, v, s))) for s, n, f in its])
            verbalizer = (verb + delete(" ").ques).star.optimize()
            base = os.path.join(top, v)
            os.makedirs(base, exist_ok=True)
            tagger.write(os.path.join(base, ptype + "_tagger.fst"))
            verbalizer.write(os.path.join(base, ptype + "_verbalizer.fst"))
    open(os.path.join(top, "done"), "w").close()
    return top


def paths(ptype, variant):
    base = os.path.join(graph_dir(), variant)
    return os.path.join(base, ptype + "_tagger.fst"), os.path.join(base, ptype + "_verbalizer.fst")


# ---------------------------------------------------------------- the reference
def parts_of(ptype, variant, text):
    """The items a text consists of, or None."""
    its = items(ptype, variant)
    out = []
    while text:
        for it in its:
            if text.startswith(it[0]):
                out.append(it)
                text = text[len(it[0]):]
                break
        else:
            return None
    return out


def ref_tag(ptype, variant, text):
    got = parts_of(ptype, variant, text)
    return "" if not got else "".join(tagged(n, f) + " " for _, n, f in got)


def ref_norm(ptype, variant, text):
    got = parts_of(ptype, variant, text)
    return "" if not got else "".join(spoken(ptype, variant, s) for s, _, _ in got)


# ---------------------------------------------------------------- running
def run(which, stdin=b"", args=(), env=(), timeout=60, **k):
    e = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:symbolize=0:use_sigaltstack=1",
         "UBSAN_OPTIONS": "print_stacktrace=0:symbolize=0", "PATH": os.environ.get("PATH", ""), "LC_ALL": "C.UTF-8"}
    e.update(dict(env))
    try:
        return subprocess.run([binary(which), *args], input=stdin, capture_output=True, env=e, timeout=timeout, **k)
    except subprocess.TimeoutExpired:
        return None


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode("utf-8", "surrogatepass"))
        h.update(b"\0")
    return h.hexdigest()


def hexed(b):
    return b.hex() or "-"
