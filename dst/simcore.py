"""Deterministic simulation core: logged choices, baton scheduler, simulated clock.

One integer seed decides everything.  Every decision is drawn from a named
stream; the sparse set of non-zero decisions *is* the replay file.  Decision 0
is always the benign one (keep running the current task, no fault, smallest
value), so dropping a decision simplifies an execution.
"""

import _thread
import hashlib
import random
import sys
import threading

_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread


class SimKilled(BaseException):
    """The simulated process this task belongs to is dead."""


class SimAbort(BaseException):
    """The run is over; unwind."""


class HarnessError(Exception):
    """The machinery (not the code under test) cannot handle something."""


class Choices:
    """Named decision streams.  Recording: PRNG.  Replay: overrides, else 0."""

    def __init__(self, seed, overrides=None):
        self.seed = seed
        self.replaying = overrides is not None
        self.over = {} if overrides is None else {s: {int(k): v for k, v in d.items()} for s, d in overrides.items()}
        self.log = {}
        self.count = {}
        self._rng = {}

    def rng(self, stream):
        r = self._rng.get(stream)
        if r is None:
            h = hashlib.sha256("{}\0{}".format(self.seed, stream).encode()).digest()
            r = self._rng[stream] = random.Random(int.from_bytes(h[:16], "big"))
        return r

    def _next(self, stream):
        i = self.count.get(stream, 0)
        self.count[stream] = i + 1
        return i

    def _record(self, stream, i, value):
        if value:
            self.log.setdefault(stream, {})[i] = value
        return value

    def pick(self, stream, n, p=None):
        """0..n-1.  With p: non-zero with probability p, uniform over 1..n-1."""
        i = self._next(stream)
        if self.replaying:
            v = self.over.get(stream, {}).get(i, 0)
            if v >= n:
                v = n - 1
        elif n <= 1:
            v = 0
        elif p is None:
            v = self.rng(stream).randrange(n)
        else:
            r = self.rng(stream)
            v = 0 if r.random() >= p else 1 + r.randrange(n - 1)
        return self._record(stream, i, v)

    def forced(self, stream, n, value):
        """Log a decision whose value a strategy computed (replayable)."""
        i = self._next(stream)
        if self.replaying:
            value = self.over.get(stream, {}).get(i, 0)
            if value >= n:
                value = n - 1
        return self._record(stream, i, value)

    def weighted(self, stream, weights):
        """weights[0] is the benign option."""
        i = self._next(stream)
        n = len(weights)
        if self.replaying:
            v = min(self.over.get(stream, {}).get(i, 0), n - 1)
        else:
            x = self.rng(stream).random() * sum(weights)
            v = 0
            for k, w in enumerate(weights):
                x -= w
                if x < 0:
                    v = k
                    break
            else:
                v = 0
        return self._record(stream, i, v)

    def flag(self, stream, p=0.5):
        return self.pick(stream, 2, p) == 1

    def of(self, stream, options, p=None):
        return options[self.pick(stream, len(options), p)]

    def log_size(self):
        return sum(len(d) for d in self.log.values())


class Task:
    __slots__ = ("sim", "name", "fn", "node", "baton", "state", "wake", "pred", "pending", "result", "error", "done",
                 "prio", "index", "ops", "info", "sentinel", "daemon", "why", "hung")

    def __init__(self, sim, name, fn, node, index):
        self.sim = sim
        self.name = name
        self.fn = fn
        self.node = node
        self.index = index
        self.baton = _real_lock()
        self.baton.acquire()
        self.state = "ready"  # ready | sleeping | blocked | done
        self.wake = None
        self.pred = None
        self.pending = None
        self.result = None
        self.error = None
        self.done = False
        self.prio = 0
        self.ops = 0
        self.info = {}
        self.sentinel = None
        self.daemon = False
        self.why = None
        self.hung = False


class Sim:
    """Runs tasks one at a time; decides every switch; owns the clock."""

    def __init__(self, choices, max_steps=60000, max_time=1e7):
        self.c = choices
        self.now = 1000.0  # monotonic seconds
        self.wall0 = 1_700_000_000.0
        self.wall_offset = 0.0
        self.tasks = []
        self.live = []
        self.current = None
        self.steps = 0
        self.switches = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.atomic = 0
        self.aborting = None
        self.strategy = "walk"
        self.p_switch = 0.2
        self.pct_points = ()
        self._driver = _real_lock()
        self._driver.acquire()
        self._hash = hashlib.sha256()
        self.trace = []
        self.trace_limit = 0
        self.tick = 1e-6
        self.task_seq = 0
        self.on_switch = None
        self.names = {}
        self.hang_reason = None
        self.sched_stream = "s"
        self._stop_on = None

    # ---- trace ---------------------------------------------------------
    def event(self, *parts):
        line = "|".join(str(p) for p in parts)
        self._hash.update(line.encode("utf-8", "backslashreplace"))
        self._hash.update(b"\n")
        if self.trace_limit:
            self.trace.append("{:.6f} {}".format(self.now, line))
            if len(self.trace) > self.trace_limit:
                del self.trace[:len(self.trace) // 2]

    def digest(self):
        return self._hash.hexdigest()

    # ---- clock ---------------------------------------------------------
    def monotonic(self):
        return self.now

    def wall(self, node=None):
        off = self.wall_offset + (node.wall_offset if node is not None else 0.0)
        return self.wall0 + self.now + off

    # ---- tasks ---------------------------------------------------------
    def spawn(self, fn, name=None, node=None, daemon=False):
        self.task_seq += 1
        t = Task(self, name or "t{}".format(self.task_seq), fn, node, self.task_seq)
        t.daemon = daemon
        if self.strategy == "pct":
            t.prio = self.c.rng("prio").random() + 1 if not self.c.replaying else 0
        self.tasks.append(t)
        self.live.append(t)
        if node is not None:
            node.tasks.append(t)
        _real_start(self._body, (t,))
        return t

    def _body(self, t):
        t.baton.acquire()
        try:
            if t.pending is not None:
                e, t.pending = t.pending, None
                raise e
            if self.trace_fn is not None:
                sys.settrace(self.trace_fn)
            t.result = t.fn()
        except SimKilled as e:
            t.error = e
        except SimAbort as e:
            t.error = e
        except BaseException as e:  # noqa
            t.error = e
        finally:
            sys.settrace(None)
        self._finish(t)

    trace_fn = None

    def _finish(self, t):
        t.done = True
        t.state = "done"
        if t.sentinel is not None:
            t.sentinel.force_release()
        self.live.remove(t)
        self.event("end", t.name, type(t.error).__name__ if t.error is not None else "ok")
        nxt = self._choose(None)
        self._hand(nxt)

    def _hand(self, nxt):
        if nxt is None:
            self.current = None
            self._driver.release()
        else:
            self._set_current(nxt)
            nxt.baton.release()

    def _set_current(self, t):
        prev = self.current
        self.current = t
        if self.on_switch is not None:
            self.on_switch(prev, t)

    # ---- selection -----------------------------------------------------
    def _runnable(self):
        out = []
        for t in self.live:
            if t.pending is not None or t.state == "ready":
                out.append(t)
            elif t.state == "sleeping":
                if t.wake <= self.now:
                    out.append(t)
            elif t.state == "blocked":
                if t.pred():
                    out.append(t)
                elif t.wake is not None and t.wake <= self.now:
                    out.append(t)
        return out

    def _choose(self, cur):
        """Next task to run, or None when the driver must take over."""
        while True:
            if not self.live:
                return None
            if self.aborting:
                for t in self.live:
                    if t.pending is None:
                        t.pending = SimAbort()
                return self.live[0]
            if self._stop_on is not None and self._stop_on():
                self.aborting = "stopped"
                continue
            if all(t.daemon for t in self.live):
                self.aborting = "done"
                continue
            if self.steps > self.max_steps:
                self.aborting = "step-cap"
                continue
            if self.now > self.max_time:
                self.aborting = "time-cap"
                for t in self.live:
                    if not t.daemon:
                        t.hung = True
                continue
            run = self._runnable()
            if not run:
                wakes = [t.wake for t in self.live if t.wake is not None and t.state in ("sleeping", "blocked")]
                if not wakes:
                    self.aborting = "deadlock"
                    for t in self.live:
                        if not t.daemon:
                            t.hung = True
                    self.hang_reason = {t.name: t.why for t in self.live}
                    self.event("deadlock", *sorted("{}:{}".format(k, v) for k, v in self.hang_reason.items()))
                    continue
                nw = min(wakes)
                if nw > self.now:
                    self.now = nw
                continue
            for t in run:
                if t.pending is not None:
                    return t
            if cur is not None and cur in run:
                run.remove(cur)
                run.insert(0, cur)
            if len(run) == 1:
                return run[0]
            return run[self._pick_index(run, cur)]

    def _pick_index(self, run, cur):
        n = len(run)
        if self.strategy == "pct" and not self.c.replaying:
            if self.steps in self.pct_points and cur is not None:
                cur.prio = -self.steps
            best = max(range(n), key=lambda i: run[i].prio)
            return self.c.forced(self.sched_stream, n, best)
        if cur is not None and run[0] is cur:
            return self.c.pick(self.sched_stream, n, self.p_switch)
        return self.c.pick(self.sched_stream, n)

    # ---- called from tasks ---------------------------------------------
    def _switch(self, t):
        nxt = self._choose(t)
        if nxt is t:
            self._set_current(t)
            self._resume(t)
            return
        self.switches += 1
        self._hand(nxt)
        t.baton.acquire()
        self._resume(t)

    def _resume(self, t):
        t.state = "ready"
        t.wake = None
        t.pred = None
        if t.pending is not None:
            e, t.pending = t.pending, None
            if isinstance(e, SimAbort):
                t.pending = e  # sticky
            raise e
        if t.node is not None and t.node.dead:
            raise SimKilled()

    def check_alive(self, t):
        if self.aborting:
            raise SimAbort()
        if t.node is not None and t.node.dead:
            raise SimKilled()

    def yield_point(self):
        t = self.current
        if t is None:
            return
        self.steps += 1
        self.now += self.tick
        if self.atomic:
            return
        t.state = "ready"
        self._switch(t)

    def sleep(self, seconds):
        t = self.current
        if t is None:
            self.now += max(0.0, seconds)
            return
        self.steps += 1
        self.now += self.tick
        if self.atomic:
            self.now += max(0.0, seconds)
            return
        t.state = "sleeping"
        t.wake = self.now + max(0.0, seconds)
        self._switch(t)

    def block(self, pred, why, timeout=None):
        """Park until pred() holds (True) or the timeout elapses (False)."""
        t = self.current
        if pred():
            return True
        if t is None or self.atomic:
            raise HarnessError("would block outside a task: {}".format(why))
        self.steps += 1
        t.state = "blocked"
        t.pred = pred
        t.why = why
        t.wake = None if timeout is None else self.now + max(0.0, timeout)
        self._switch(t)
        return bool(pred())

    # ---- driver --------------------------------------------------------
    def run(self, stop_on=None):
        """Runs until every non-daemon task is done; returns why it stopped."""
        self.aborting = None
        self._stop_on = stop_on
        nxt = self._choose(None)
        if nxt is not None:
            self._hand(nxt)
            self._driver.acquire()
        self._stop_on = None
        why = self.aborting or "done"
        self.aborting = None
        self.event("phase", why)
        return why


class SimLock:
    """threading.Lock for simulated tasks."""

    def __init__(self, sim, reentrant=False):
        self._sim = sim
        self._owner = None
        self._count = 0
        self._re = reentrant
        self._key = None

    def _me(self):
        t = self._sim.current
        return t if t is not None else self._sim

    def acquire(self, blocking=True, timeout=-1):
        sim = self._sim
        me = self._me()
        if sim.current is not None:
            sim.yield_point()
        if self._re and self._owner is me:
            self._count += 1
            return True
        if self._owner is None:
            self._owner, self._count = me, 1
            return True
        if not blocking:
            return False
        if sim.current is None:
            return True
        sim.block(lambda: self._owner is None, "lock", None if timeout is None or timeout < 0 else timeout)
        if self._owner is None:
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._re and self._owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count <= 0:
            self._owner, self._count = None, 0

    def force_release(self):
        self._owner, self._count = None, 0

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # Condition protocol
    def _is_owned(self):
        return self._owner is self._me()

    def _release_save(self):
        n, self._owner, self._count = self._count, None, 0
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self._count = n

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0
