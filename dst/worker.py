"""Worker process: runs seeds of one property, or one replay, or a minimisation.

worker.py run PROP VERIF_SEED FIRST STRIDE SECONDS MAXRUNS
worker.py seed PROP SEEDSTRING
worker.py replay FILE [--trace]
worker.py minimise IN OUT SECONDS
worker.py known PROP
"""

import collections
import json
import os
import resource
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import registry  # noqa: E402
from simcore import Choices, HarnessError  # noqa: E402

perf = time.perf_counter


def say(kind, obj=None):
    sys.__stdout__.write(kind + (" " + json.dumps(obj) if obj is not None else "") + "\n")
    sys.__stdout__.flush()


def one(prop, seed, overrides=None):
    c = Choices(seed, overrides)
    return registry.scenario(prop)(c), c


def logof(c):
    return {s: {str(k): v for k, v in d.items()} for s, d in c.log.items()}


def run(prop, vseed, first, stride, seconds, maxruns):
    t0 = perf()
    agg = new_agg()
    last = t0
    i = first
    n = 0
    while n < maxruns and perf() - t0 < seconds:
        seed = "{}:{}:{}".format(prop, vseed, i)
        say("S", i)
        try:
            o, c = one(prop, seed)
        except HarnessError as e:
            agg["harness"].append([seed, str(e)[-1500:]])
            o = None
        except Exception as e:  # the machinery broke on this run: not a verdict
            agg["harness"].append([seed, "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]])
            o = None
        n += 1
        i += stride
        if o is not None:
            note(agg, o, seed)
            if o.violations:
                say("V", {"seed": seed, "violations": [list(v)[:2] for v in o.violations][:8], "digest": o.digest,
                          "log": logof(c), "extra": jsonable(o.extra), "case": o.case})
        if perf() - last > 1.0:
            last = perf()
            flush(agg)
            agg = new_agg()
    flush(agg)
    say("E")


def new_agg():
    return {"runs": 0, "nontrivial": 0, "inconclusive": 0, "steps": 0, "sim_time": 0.0, "switches": 0, "faults": collections.Counter(),
            "probes": collections.Counter(), "ends": collections.Counter(), "cases": collections.Counter(),
            "outcomes": collections.Counter(), "digests": [], "samples": [], "harness": [], "first": []}


def note(agg, o, seed):
    agg["runs"] += 1
    agg["steps"] += o.steps
    agg["sim_time"] += o.sim_time
    agg["switches"] += o.switches
    agg["faults"].update(o.faults)
    agg["probes"].update(o.probes)
    agg["ends"].update(o.ends)
    agg["cases"][str(o.case).split(" ")[0][:40]] += 1
    for h in o.extra.get("history", ()):
        if "-> " in h:
            agg["outcomes"][h.split("-> ", 1)[1].split(" ")[0][:30]] += 1
    if o.inconclusive:
        agg["inconclusive"] += 1
    if o.nontrivial and not o.inconclusive:
        agg["nontrivial"] += 1
        agg["digests"].append(o.digest[:20])
        if len(agg["samples"]) < 2 and o.sample:
            agg["samples"].append({"seed": seed, "run": jsonable(o.sample)})
    if len(agg["first"]) < 2:
        agg["first"].append([seed, o.digest])


def jsonable(x):
    return json.loads(json.dumps(x, default=lambda v: repr(v)[:200]))


def flush(agg):
    if agg["runs"] or agg["harness"]:
        say("A", {k: dict(v) if isinstance(v, collections.Counter) else v for k, v in agg.items()})


def same(o, cls):
    return any(v[0] == cls for v in o.violations)


def intlog(log):
    return {s: {int(k): v for k, v in d.items()} for s, d in log.items()}


def replay(path, trace):
    r = json.load(open(path, encoding="utf-8"))
    if trace:
        import scen
        scen.TRACE = 4000
    if r.get("mode") == "seed":
        o, c = one(r["property"], r["seed"])
    else:
        o, c = one(r["property"], r["seed"], intlog(r["choices"]))
    say("R", {"violations": [list(v)[:2] for v in o.violations][:8], "digest": o.digest, "trace": list(o.trace or [])[-4000:] if trace else [],
              "extra": jsonable(o.extra), "case": o.case})


def minimise(src, dst, seconds):
    """ddmin over the logged non-benign decisions, then value shrinking."""
    r = json.load(open(src, encoding="utf-8"))
    prop, seed, cls = r["property"], r["seed"], r["class"]
    t0 = perf()
    os.environ["VERIF_MINIMISING"] = "1"
    tries = [0]

    def pack(items):
        d = {}
        for s, k, v in items:
            d.setdefault(s, {})[k] = v
        return d

    def fails(items):
        tries[0] += 1
        say("S", tries[0])
        try:
            o, c = one(prop, seed, pack(items))
        except Exception:
            return None
        if same(o, cls):
            return [(s, k, v) for s, d in c.log.items() for k, v in d.items()], o
        return None

    items = [(s, int(k), v) for s, d in r["choices"].items() for k, v in d.items()]
    got = fails(items)
    if got is None:
        # the logged decisions alone do not repeat it: fall back on the seed
        o, c = one(prop, seed)
        r["mode"] = "seed" if same(o, cls) else "none"
        r["digest"] = o.digest
        json.dump(r, open(dst, "w", encoding="utf-8"), indent=1, sort_keys=True)
        say("M", {"mode": r["mode"], "tries": tries[0]})
        return
    items, best = got[0], got[1]

    def store():
        r.update(mode="choices", choices={s: {str(k): v for k, v in d.items()} for s, d in pack(items).items()}, digest=best.digest,
                 size=len(items), tries=tries[0], case=best.case, extra=jsonable(best.extra),
                 message=[v[1] for v in best.violations if v[0] == cls][0])
        tmp = dst + ".tmp"
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(r, f, indent=1, sort_keys=True)
        os.replace(tmp, dst)

    store()
    n = 2
    while len(items) > 1 and perf() - t0 < seconds:
        size = max(1, len(items) // n)
        progress = False
        k = 0
        while k < len(items) and perf() - t0 < seconds:
            cand = items[:k] + items[k + size:]
            got = fails(cand)
            if got is not None and len(got[0]) <= len(cand):
                items, best = got
                store()
                progress = True
            else:
                k += size
        if size == 1 and not progress:
            break
        n = min(len(items), n * 2) if not progress or size > 1 else n
        n = max(2, n)
    for k in range(len(items)):
        if perf() - t0 > seconds or k >= len(items):
            break
        s, i, v = items[k]
        if v > 1:
            got = fails(items[:k] + [(s, i, 1)] + items[k + 1:])
            if got is not None and len(got[0]) <= len(items):
                items, best = got
                store()
    say("M", {"mode": "choices", "tries": tries[0], "size": len(items)})


def main(a):
    limit = 6 << 30
    prop = a[1] if a[0] in ("run", "seed", "known") else json.load(open(a[1], encoding="utf-8"))["property"]
    if prop[0] in "CTL" and a[0] in ("run", "minimise", "replay"):
        try:
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
        except (ValueError, OSError):
            pass
    if a[0] == "run":
        run(a[1], a[2], int(a[3]), int(a[4]), float(a[5]), int(a[6]))
    elif a[0] == "seed":
        o, c = one(a[1], a[2])
        say("R", {"violations": [list(v)[:2] for v in o.violations][:8], "digest": o.digest, "log": logof(c), "extra": jsonable(o.extra), "case": o.case})
    elif a[0] == "replay":
        replay(a[1], "--trace" in a)
    elif a[0] == "minimise":
        minimise(a[1], a[2], float(a[3]))
    elif a[0] == "known":
        o = registry.known(a[1])(Choices("{}:known".format(a[1])))
        say("R", {"violations": [list(v)[:2] for v in o.violations][:8], "digest": o.digest})
    sys.__stdout__.flush()
    os._exit(0)


if __name__ == "__main__":
    main(sys.argv[1:])
