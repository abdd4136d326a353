"""T01/T02: real normalizers called by simulated caller threads.

Every caller thread is a real Python thread of which exactly one runs; the
scheduler decides at which source line (or bytecode) of the code under test it
is pre-empted, and where an asynchronous exception strikes.  Each run happens in
a fork of a pristine process (pipelines built, never called); the oracle is the
answer the same call gives alone in another such fork.
"""

import dis
import gc
import inspect
import os
import pickle
import random
import sys
import threading

import realpipe
from outcome import Outcome
from simcore import HarnessError, Sim, SimAbort, SimKilled

GAPS = (10**9, 1, 2, 3, 5, 8, 13, 21, 40, 90, 200, 500, 1500, 5000)
FRAGMENTS = {
    "toy": ["a", "b", "ab", "x1", "q", "zz", "m5", "d12", "k", " "],
    "ja_itn": ["二千二十二年", "十二月", "三十一日", "百二十三", "五時十五分", "千円", "です", "東京", "、", "一点五", "三分の二", "第一", "マイナス五度", "二〇二二年"],
    "ja_tn": ["2022年", "12月", "31日", "123", "5時15分", "1000円", "です", "東京", "、", "1.5", "2/3", "第1", "-5℃", "3kg", "Ａ"],
    "en_itn": ["two thousand twenty two", "twelve dollars", "january first", "half past five", "one hundred twenty three", "point five",
               "two thirds", "the first", "five kilograms", "hello", "world", "at", "dot com"],
    "zh_tn": ["2022年", "12月31日", "123", "下午5:15", "￥1000", "你好", "，", "1.5", "2/3", "第1", "-5°C", "3kg", "Ａ", "呃", "儿化", "3-5个", "10%"],
    "zh_itn": ["二零二二年", "十二月三十一日", "一百二十三", "下午五点十五分", "一千元", "你好", "，", "一点五", "三分之二", "第一", "负五度", "三公斤", "呃", "百分之十"],
    "en_tn": ["2022", "$12", "January 1st", "5:15pm", "123", "0.5", "2/3", "1st", "5kg", "hello", "world", "www.a.com", "Dr. Smith", "a1b2"],
}


_book = {}


def _phrases(kind):
    """Texts that come back in many runs, whose reference answers are known by then."""
    if kind not in _book:
        r = random.Random(kind)
        sep = " " if kind.startswith("en") else ""
        _book[kind] = [sep.join(r.choice(FRAGMENTS[kind]) for _ in range(r.choice((1, 1, 2, 2, 3, 4)))) for _ in range(16)]
    return _book[kind]


def _tokens():
    """Tagged texts whose tokens have fields of other pipelines, of none, and in any order."""
    if "tokens" not in _book:
        r = random.Random("tokens")
        out = []
        for _ in range(20):
            toks = []
            for _ in range(r.choice((1, 1, 2, 3))):
                keys = r.sample(("day", "month", "year", "currency", "value", "extra", "zone", "integer_part", "hour", "minute", "text"),
                                r.choice((2, 3, 4, 5)))
                toks.append("{} {{ {} }}".format(r.choice(("date", "money", "time")), " ".join('{}: "{}"'.format(k, r.choice("123")) for k in keys)))
            out.append(" ".join(toks))
        _book["tokens"] = out
    return _book["tokens"]


def _text(c, kind):
    if c.flag("plan", 0.6):
        return c.of("plan", _phrases(kind))
    frags = FRAGMENTS[kind]
    n = 1 + c.pick("plan", 4, 0.6)
    sep = " " if kind.startswith("en") else ""
    return sep.join(frags[c.pick("plan", len(frags))] for _ in range(n))


def _call(c, inst, kind):
    """One planned call: (instance, operation, args)."""
    k = 12 if kind == "toy" and c.flag("plan", 0.1) else c.pick("plan", 14)
    t = _text(c, kind)
    nb = 2 + c.pick("plan", 4, 0.6)
    if k <= 1:
        return (inst, "tag", (t, ))
    if k == 2:
        return (inst, "tag", (t, nb))
    if k in (3, 4):
        r = realpipe.reference((inst, "tag", (t, )))
        return (inst, "verbalize", (r[1] if r[0] == "ok" and isinstance(r[1], str) else 'x { value: "1" }', ))
    if k in (5, 6):
        return (inst, "normalize", (t, ))
    if k == 7:
        return (inst, "normalize", (t, nb))
    if k in (8, 9):
        return (inst, "normalize_with_mapping", (t, ))
    if k == 10:
        return (inst, "normalize_with_mapping", (t, nb))
    if k == 11:
        return (inst, "normalize_with_mapping", (t, 1, True))
    if k == 12 and kind == "toy" and c.flag("plan", 0.8):
        return (inst, "verbalize", (c.of("plan", _tokens()), ))
    if k == 12:
        return (inst, "verbalize", (("bad {", 'date { day: "1" day: "2" }', 'date { day: "1', 'money { currency: "$" value: "5" extra: "z" }',
                                     'date { preserve_order: "true" day: "1" month: "2" }', 'date { day: "3" month: "2" year: "1" }',
                                     'time { minute: "1" hour: "2" zone: "q" }', 'v { value: "a\\"b" }')[c.pick("plan", 8)], ))
    return (inst, ("normalize", "tag", "normalize_with_mapping")[c.pick("plan", 3)], ((t, 0), ("", 1), ("", 3), (t, True), ("\ud800", ))[c.pick("plan", 5)])


def _near(c, call):
    """A call that a careless memory of earlier answers would take for the given one."""
    name, op, args = call
    t = args[0]
    k = c.pick("plan", 12)
    if k >= 10:  # the same length, one character different
        i = c.pick("plan", len(t)) if k == 10 else len(t) - 1
        t2 = t[:max(i, 0)] + c.of("plan", ("1", "2", "b", "三")) + t[i + 1:] if t else "1"
    elif k == 0:
        t2 = t.upper() if t != t.upper() else t.lower()
    elif k == 1:
        t2 = t + " "
    elif k == 2:
        t2 = " " + t
    elif k == 3:
        t2 = "".join(chr(ord(x) + 0xFEE0) if "!" <= x <= "~" else x for x in t)
    elif k == 4:
        t2 = t[::-1]
    elif k == 5:
        t2 = t + t
    elif k == 6:
        t2 = t[:-1] or t
    elif k == 7:
        t2 = t.replace(" ", "") or t
    elif k == 8:
        return (name, op, (t, ) + ((2 + c.pick("plan", 3), ) if len(args) == 1 and op != "verbalize" else ()))
    else:
        return (name, op, args[:1])
    return (name, op, (t2, ) + tuple(args[1:]))


def _plan(c, mode):
    base = realpipe.base_kind(c.seed)
    insts = list(realpipe.instances(base))
    if c.flag("plan", 0.25):
        insts += realpipe.instances("toy")
    nthreads = 2 + c.pick("plan", 3) if mode == "T01" or c.flag("plan", 0.4) else 1
    pool = []
    todo = []
    for i in range(nthreads):
        calls = []
        for _ in range(1 + c.pick("plan", 3) if nthreads > 1 else 3 + c.pick("plan", 6)):
            if pool and c.flag("plan", 0.45):
                call = pool[c.pick("plan", len(pool))]
                if c.flag("plan", 0.35):  # the same call on another instance
                    others = [x for x in insts if realpipe.kind_of(x) == realpipe.kind_of(call[0])]
                    call = (others[c.pick("plan", len(others))], call[1], call[2])
                elif c.flag("plan", 0.3) and isinstance(call[2][0], str):
                    call = _near(c, call)
            else:
                inst = insts[c.pick("plan", len(insts))]
                call = _call(c, inst, realpipe.kind_of(inst))
            pool.append(call)
            extra = {}
            if mode == "T02":
                k = c.pick("plan", 8)
                if k in (1, 2, 3):
                    extra["interrupt"] = 1 + c.pick("plan", (20, 200, 2000)[c.pick("plan", 3)])
                elif k == 4:
                    extra["mutate"] = c.pick("plan", 5)
                elif k == 5:
                    extra["create"] = c.pick("plan", 4)
                elif k == 6 and base == "toy" and c.flag("plan", 0.3):
                    extra["bulk"] = (40, 150, 300, 1100)[c.pick("plan", 4, 0.7)]
            calls.append((call, extra))
        todo.append(calls)
    after = [pool[c.pick("plan", len(pool))] for _ in range(1 + c.pick("plan", 3))]
    return base, todo, after


def _mutate(value, how):
    """What a careless caller may do to an answer it was given."""
    try:
        if isinstance(value, list):
            if how == 0:
                value.clear()
            elif how == 1:
                value.append("mutated")
            elif how == 2:
                value.reverse()
            elif value:
                value[0] = "mutated"
            return
        if hasattr(value, "as_dict"):
            d = value.as_dict()
            for m in d.get("mappings", []):
                if isinstance(m, dict):
                    for v in m.values():
                        if isinstance(v, dict):
                            v.clear()
                    m.clear()
            if isinstance(d.get("mappings"), list):
                d["mappings"].append({"mutated": True})
            d.clear()
            if isinstance(getattr(value, "mappings", None), list):
                value.mappings.clear()
    except Exception:
        pass


def t01(c):
    return _run(c, "T01")


def t02(c):
    return _run(c, "T02")


def _run(c, mode):
    base, todo, after = _plan(c, mode)
    want = {}
    for call in [x for calls in todo for x, _ in calls] + after:
        want[repr(call)] = realpipe.reference(call)
    return realpipe.in_fork(lambda: _simulate(c, mode, base, todo, after, want), c)


def _simulate(c, mode, base, todo, after, want):
    sim = Sim(c, max_steps=400000, max_time=1e9)
    import scen
    sim.trace_limit = scen.TRACE
    sim.p_switch = 0.85
    strat = c.pick("cfg:strategy", 3)
    opcodes = c.opcodes
    realpipe.ACTIVE_SIM[0] = sim
    out = []
    stats = {"interrupts": 0, "landed": 0, "preempt": 0, "overlap": 0, "mutations": 0, "created": 0, "failed_calls": 0, "bulk": 0}
    history = []
    inside = [0]
    prefix = tuple(realpipe.REPO + d for d in ("/tn/", "/itn/"))
    ours = {}
    floor = (0, 0, 6)[strat]

    def newgap(t):
        k = c.pick("gap:" + t.name, len(GAPS), 0.95)
        t.info["gap"] = GAPS[k] if k == 0 else GAPS[max(1, k - floor)]

    started = {}

    def can_land(frame, event):
        """CPython itself breaks (a jump to address 0) when an exception is raised at an instruction outside every line, or
        before a function's RESUME.  Signals never land there either."""
        if event == "line":
            return True
        code = frame.f_code
        at = started.get(code)
        if at is None:
            at = started[code] = min(i.offset for i in dis.get_instructions(code) if i.opname == "RESUME")
        return frame.f_lineno is not None and frame.f_lasti > at

    def hit(t, frame, event):
        if t.info.get("calm"):
            return
        n = t.info.get("interrupt")
        if n is not None and can_land(frame, event):
            n -= 1
            t.info["interrupt"] = n if n > 0 else None
            if n == 0:
                stats["landed"] += 1
                sim.event("interrupt", t.name)
                raise KeyboardInterrupt("injected")
        t.info["gap"] -= 1
        if t.info["gap"] <= 0:
            newgap(t)
            stats["preempt"] += 1
            sim.yield_point()

    def local(frame, event, arg):
        if event == ("opcode" if frame.f_trace_opcodes else "line"):
            t = sim.current
            if t is not None and not sim.atomic:
                hit(t, frame, event)
        return local

    def trace(frame, event, arg):
        code = frame.f_code
        ok = ours.get(code)
        if ok is None:
            ok = ours[code] = code.co_filename.startswith(prefix)
        if not ok:
            return None
        if opcodes and not code.co_flags & inspect.CO_GENERATOR:
            frame.f_trace_opcodes = True
        return local

    sim.trace_fn = trace

    def perform(t, call, extra):
        name, op, args = call
        obj = realpipe.built(name)
        if "create" in extra:
            stats["created"] += 1
            realpipe.create(extra["create"])
        if "bulk" in extra:  # a long life before this call: many different texts, whose answers are not looked at
            stats["bulk"] += extra["bulk"]
            sys.settrace(None)
            for i in range(extra["bulk"]):
                getattr(obj, ("tag", "normalize", "tag")[i % 3])("".join(FRAGMENTS["toy"][(i >> s) % 10] for s in (0, 1, 3, 4, 6)))
        sim.event("invoke", t.name, name, op, args)
        inside[0] += 1
        if inside[0] > 1:
            stats["overlap"] += 1
        t.info["interrupt"] = extra.get("interrupt")
        if "interrupt" in extra:
            stats["interrupts"] += 1
        value = None
        try:
            sys.settrace(trace)
            value = getattr(obj, op)(*args)
            sys.settrace(None)
            got = ("ok", realpipe.freeze(value))
        except (SimKilled, SimAbort):
            raise
        except KeyboardInterrupt:
            got = ("interrupted", None)
        except Exception as e:
            stats["failed_calls"] += 1
            got = ("exc", type(e).__name__, str(e)[:300])
        finally:
            sys.settrace(None)
            t.info["interrupt"] = None
            inside[0] -= 1
        sim.event("return", t.name, got)
        history.append("{} {}.{}{!r}{} -> {!r}".format(t.name, name, op, args, " " + str(extra) if extra else "", got)[:400])
        if got[0] == "interrupted":
            if "interrupt" not in extra:
                out.append(("interrupted", "an interrupt reached a call it was not aimed at: {}".format(history[-1])))
            return
        exp = want[repr(call)]
        if tuple(got) != tuple(exp):
            out.append(("answer", "{}.{}{!r} answered {!r}; alone it answers {!r}".format(name, op, args, got, exp)[:1200]))
        if "mutate" in extra:
            stats["mutations"] += 1
            _mutate(value, extra["mutate"])

    def body(i, calls):
        def run():
            t = sim.current
            newgap(t)
            for call, extra in calls:
                if out:
                    return
                perform(t, call, extra)
                sim.yield_point()
        return run

    gc_was = gc.isenabled()
    gc.disable()
    for i, calls in enumerate(todo):
        sim.spawn(body(i, calls), "caller{}".format(i))
    why = sim.run()
    ends = [why]
    if why == "deadlock":
        out.append(("deadlock", "caller threads wait for each other: {}; calls so far: {}".format(sim.hang_reason, history[-4:])[:1200]))
    errors = [t.error for t in sim.tasks if t.error is not None and not isinstance(t.error, (SimKilled, SimAbort))]
    if errors:
        raise HarnessError("caller failed: {!r}".format(errors[0]))
    if not out and why == "done":
        sim.tasks = []

        def tail():
            t = sim.current
            t.info["calm"] = True
            for call in after:
                perform(t, call, {})

        sim.spawn(tail, "after")
        ends.append(sim.run())
        if ends[-1] == "deadlock":
            out.append(("deadlock", "a later call never returns: {}".format(history[-4:])[:1200]))
    if gc_was:
        gc.enable()
    o = Outcome()
    o.violations = out[:3]
    o.digest = sim.digest()
    o.nontrivial = (stats["overlap"] > 0 and stats["preempt"] > 0) if mode == "T01" else \
        (stats["landed"] + stats["mutations"] + stats["created"] + stats["failed_calls"] > 0)
    o.faults = {k: v for k, v in (("interrupt landed", stats["landed"]), ("result mutated", stats["mutations"]),
                                  ("normalizer created in between", stats["created"]), ("failing call", stats["failed_calls"]), ("call of a long life", stats["bulk"]),
                                  ("pre-emption inside a call", stats["preempt"])) if v}
    o.probes = {"calls overlapping in time": stats["overlap"], "bytecode granularity": int(opcodes)}
    o.steps = sim.steps
    o.sim_time = sim.now - 1000.0
    o.switches = sim.switches
    o.ends = ends
    o.case = base
    if "step-cap" in ends:
        o.inconclusive = "step-cap"
    o.sample = {"pipeline": base, "threads": len(todo), "calls": history[:8]}
    o.trace = list(sim.trace)
    o.extra = {"history": history, "fault_log": [], "notes": []}
    return o
