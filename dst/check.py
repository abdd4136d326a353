"""check.py PROP: decides one property by seeded simulation.  check.py --replay FILE repeats a violation.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  2: no answer.
"""

import argparse
import collections
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import registry  # noqa: E402

PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
WORKER = os.path.join(HERE, "worker.py")
SCRATCH = None
T0 = time.time()


def env(hashseed="0"):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VERIF_NOPOOL"))}
    e.update(PYTHONHASHSEED=hashseed, PYTHONPYCACHEPREFIX=os.path.join(SCRATCH, "pyc"), TMPDIR=SCRATCH, PYTHONDONTWRITEBYTECODE="1",
             PYTHONFAULTHANDLER="", VERIF_DECIDE_UNTIL=str(T0 + 330))
    return e


class Worker:
    def __init__(self, args, hashseed="0"):
        self.err = tempfile.TemporaryFile(dir=SCRATCH)
        self.p = subprocess.Popen([PY, "-X", "utf8", WORKER] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=self.err,
                                  stdin=subprocess.DEVNULL, env=env(hashseed), cwd=SCRATCH, start_new_session=True)
        self.buf = b""
        self.cur = None
        self.beat = time.time()
        self.ended = False
        self.done = False

    def feed(self):
        data = os.read(self.p.stdout.fileno(), 1 << 20)
        if not data:
            self.ended = True
            return []
        self.buf += data
        out = []
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            self.beat = time.time()
            kind, _, rest = line.decode("utf-8", "replace").partition(" ")
            if kind in ("S", "A", "V", "R", "M", "E"):
                try:
                    out.append((kind, json.loads(rest) if rest else None))
                except ValueError:
                    pass
        return out

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()
        self.p.stdout.close()

    def errors(self):
        self.err.seek(0)
        return self.err.read()[-3000:].decode("utf-8", "replace")


def slack(prop):
    return max(0, registry.STALL.get(prop, 60) - 60)


def call(args, timeout, hashseed="0", stall=None):
    """Runs one worker command to its end.  -> (messages, returncode | 'timeout' | 'stall', stderr)"""
    w = Worker(args, hashseed)
    sel = selectors.DefaultSelector()
    sel.register(w.p.stdout, selectors.EVENT_READ)
    t0 = time.time()
    msgs = []
    rc = None
    while True:
        if sel.select(0.5):
            msgs += w.feed()
        if w.ended:
            break
        if time.time() - t0 > timeout:
            rc = "timeout"
            break
        if stall and time.time() - w.beat > stall:
            rc = "stall"
            break
    if rc is None:
        try:
            rc = w.p.wait(10)
        except subprocess.TimeoutExpired:
            rc = "timeout"
    err = w.errors()
    w.kill()
    return msgs, rc, err


def last(msgs, kind):
    out = [m for k, m in msgs if k == kind]
    return out[-1] if out else None


class Totals:
    def __init__(self):
        self.n = collections.Counter()
        self.c = {k: collections.Counter() for k in ("faults", "probes", "ends", "cases", "outcomes")}
        self.digests = set()
        self.samples = []
        self.harness = []
        self.first = []

    def add(self, a):
        for k in ("runs", "nontrivial", "inconclusive", "steps", "sim_time", "switches"):
            self.n[k] += a[k]
        for k in self.c:
            self.c[k].update(a[k])
        self.digests.update(a["digests"])
        self.samples += a["samples"][:1]
        self.harness += a["harness"][:20]
        self.first += a["first"][:1]


def search(prop, vseed, seconds, jobs, maxruns):
    mod, fn, _, _, hang_bad = registry.PROPS[prop]
    stall = registry.STALL.get(prop, 60)
    tot = Totals()
    found = []
    crashed = []
    sel = selectors.DefaultSelector()
    workers = []
    t0 = time.time()
    for k in range(jobs):
        w = Worker(["run", prop, vseed, k, jobs, seconds, maxruns])
        w.k = k
        workers.append(w)
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
    live = set(workers)
    enough = False
    t_found = None
    while live:
        for key, _ in sel.select(0.5):
            w = key.data
            for kind, m in w.feed():
                if kind == "S":
                    w.cur = m
                elif kind == "A":
                    tot.add(m)
                elif kind == "V":
                    found.append(m)
                    t_found = t_found or time.time()
                elif kind == "E":
                    w.done = True
            if w.ended:
                sel.unregister(w.p.stdout)
                live.discard(w)
                rc = w.p.wait()
                if not w.done:
                    crashed.append(("exit {}".format(rc), "{}:{}:{}".format(prop, vseed, w.cur), w.errors()))
        for w in list(live):
            if time.time() - w.beat > stall:
                sel.unregister(w.p.stdout)
                live.discard(w)
                err = w.errors()
                w.kill()
                crashed.append(("stall", "{}:{}:{}".format(prop, vseed, w.cur), err))
        if (found and (len(found) >= 12 or time.time() - t_found > 4)) or len(crashed) >= jobs:
            enough = True
        if enough or time.time() - t0 > seconds + max(240, stall + 20):
            break
    for w in workers:
        w.kill()
    return tot, found, crashed, time.time() - t0


def confirm(prop, found, outdir, seconds):
    """Minimises and re-verifies one violation; returns the replay path or None."""
    found = sorted(found, key=lambda m: sum(len(d) for d in m["log"].values()))
    for m in found[:4]:
        cls, msg = m["violations"][0]
        rep = {"format": 1, "property": prop, "class": cls, "message": msg, "seed": m["seed"], "mode": "choices", "choices": m["log"],
               "digest": m["digest"], "case": m["case"], "extra": m["extra"]}
        name = "{}-{}.json".format(prop, m["seed"].split(":")[-1])
        src = os.path.join(SCRATCH, "raw-" + name)
        dst = os.path.join(outdir, name)
        for p in (src, dst):
            with open(p, "w", encoding="utf-8") as f:
                json.dump(rep, f, indent=1, sort_keys=True)
        call(["minimise", src, dst, seconds], seconds + 60 + slack(prop), stall=60 + slack(prop))
        rep = json.load(open(dst, encoding="utf-8"))
        if rep.get("mode") == "none":
            os.unlink(dst)
            continue
        ok, _ = verify(dst)
        if ok:
            return dst, rep
        rep.update(mode="seed", digest=m["digest"])  # unminimised
        with open(dst, "w", encoding="utf-8") as f:
            json.dump(rep, f, indent=1, sort_keys=True)
        ok, _ = verify(dst)
        if ok:
            return dst, rep
        os.unlink(dst)
    return None, None


def verify(path, trace=False):
    rep = json.load(open(path, encoding="utf-8"))
    prop = rep["property"]
    if rep.get("mode") == "process":
        stall = registry.STALL.get(prop, 60)
        msgs, rc, err = call(["seed", prop, rep["seed"]], stall, "0")
        bad = rc == "timeout" if rep["class"] == "no-progress" else (isinstance(rc, int) and rc < 0)
        return bad, {"returncode": rc, "stderr": err[-2000:]}
    msgs, rc, err = call(["replay", path] + (["--trace"] if trace else []), 300 + slack(prop))
    r = last(msgs, "R")
    if r is None:
        return False, {"returncode": rc, "stderr": err[-3000:]}
    return any(v[0] == rep["class"] for v in r["violations"]), r


def process_failure(prop, crashed, outdir):
    """A run that took its process down or never came back: a verdict only if it repeats."""
    hang_bad = registry.PROPS[prop][4]
    for what, seed, err in crashed[:3]:
        stall = registry.STALL.get(prop, 60)
        msgs, rc, err2 = call(["seed", prop, seed], stall)
        cls = None
        if rc == "timeout" and what == "stall" and hang_bad:
            cls, msg = "no-progress", "the code under test never comes back (no operation for {} s of real time)".format(stall)
        elif isinstance(rc, int) and rc < 0 and rc not in (-9, -15, -2):
            cls, msg = "native-crash", "the process running the code under test died from signal {}".format(-rc)
        if cls:
            dst = os.path.join(outdir, "{}-{}.json".format(prop, seed.split(":")[-1]))
            rep = {"format": 1, "property": prop, "class": cls, "message": msg, "seed": seed, "mode": "process", "choices": {}, "digest": ""}
            with open(dst, "w", encoding="utf-8") as f:
                json.dump(rep, f, indent=1, sort_keys=True)
            return dst, rep
    return None, None


def determinism(prop, firsts, limit):
    """Repeats sampled seeds in a fresh process under other hash seeds; counts digests that differ."""
    same = diff = 0
    t0 = time.time()
    for i, (seed, digest) in enumerate(firsts):
        if time.time() - t0 > limit:
            break
        msgs, rc, err = call(["seed", prop, seed], 120, str(1 + i))
        r = last(msgs, "R")
        if r is not None and r["digest"] == digest:
            same += 1
        else:
            diff += 1
    return same, diff


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.strip():
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--jobs", type=int, default=max(2, min(8, os.cpu_count() or 2)))
    ap.add_argument("--runs", type=int, default=10**9)
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    SCRATCH = tempfile.mkdtemp(prefix="dst-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.chmod(SCRATCH, 0o755)
    rc = 2
    try:
        rc = do_replay(a) if a.replay else do_check(a)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    return rc


def selftest():
    """Setup: nothing is built ahead of a run; the seams are checked against this machine's kernel."""
    import selftest as st
    n = 150
    bad = [r for r in (st.differential(7000 + i) for i in range(n)) if r]
    for r in bad[:5]:
        print("DIFF", r)
    print("simulated file system: {} random histories compared with the kernel's, {} differ".format(n, len(bad)))
    return 1 if len(bad) > n // 10 else 0


def do_replay(a):
    a.replay = os.path.abspath(a.replay)
    ok, r = verify(a.replay, trace=True)
    rep = json.load(open(a.replay, encoding="utf-8"))
    for line in (r.get("trace") or [])[-400:]:
        print("  " + line)
    for k in ("history", "fault_log", "notes"):
        for h in (rep.get("extra") or {}).get(k, ()):
            print("  {}: {}".format(k, h))
    if ok:
        if r.get("digest") and r["digest"] != rep.get("digest"):
            print("(same violation, different event log: the code under test has changed since)")
        print(rep["message"])
        print("VIOLATION property={} replay={}".format(rep["property"], a.replay))
        return 1
    print("not reproduced: {}".format(json.dumps(r)[:2000]))
    return 0


def do_check(a):
    prop = a.prop
    quick, thorough = registry.PROPS[prop][2:4]
    seconds = a.seconds or (thorough if a.tier == "thorough" else quick)
    vseed = int(a.seed) if str(a.seed).lstrip("-").isdigit() else 1
    t0 = time.time()
    outdir = os.path.join(VERIF, "replays")
    os.makedirs(outdir, exist_ok=True)
    jobs = registry.JOBS.get(prop, a.jobs)
    tot, found, crashed, searched = search(prop, a.seed, seconds, jobs, a.runs)
    path = rep = None
    known_lines = []
    if found:
        path, rep = confirm(prop, found, outdir, 20 if a.tier == "quick" else 60)
    if path is None and crashed:
        path, rep = process_failure(prop, crashed, outdir)
    for k in known_findings(prop):
        fn = registry.known(prop)
        if fn is None:
            continue
        msgs, rc, err = call(["known", prop], 120)
        r = last(msgs, "R")
        if r and any(v[0] == k["class"] for v in r["violations"]):
            known_lines.append("KNOWN-FINDING: property={} {}".format(prop, k["what"]))
    dsame, ddiff = determinism(prop, tot.first[:4 if a.tier == "quick" else 24], 20 if a.tier == "quick" else 120) if path is None else (0, 0)
    wall = time.time() - t0
    n = tot.n
    hours = max(searched, 1e-9) / 3600
    real, stub = registry.components(prop)
    cov = {
        "evaluations": n["runs"],
        "distinct_nontrivial": len(tot.digests),
        "rule": registry.RULES[prop] + " Distinct: different SHA-256 of the full event log (every simulated operation, switch, fault and return).",
        "samples": tot.samples[:3] or [{"none": "no non-trivial run finished"}],
        "nontrivial_runs": n["nontrivial"],
        "seeds": "{}:{}:0..{}".format(prop, a.seed, max(0, n["runs"] - 1)),
        "runs_per_hour": round(n["runs"] / hours),
        "workers": jobs,
        "search_seconds": round(searched, 1),
        "simulated_seconds": round(n["sim_time"], 1),
        "simulated_operations": n["steps"],
        "task_switches": n["switches"],
        "faults_injected": dict(tot.c["faults"].most_common(60)),
        "rare_condition_probes": dict(tot.c["probes"]),
        "run_phase_ends": dict(tot.c["ends"]),
        "cases": dict(tot.c["cases"].most_common(40)),
        "outcomes": dict(tot.c["outcomes"].most_common(30)),
        "inconclusive_runs": n["inconclusive"],
        "harness_failures": len(tot.harness),
        "determinism_check": {"seeds_repeated_in_a_fresh_process_with_another_hash_seed": dsame + ddiff, "identical_event_logs": dsame},
        "real_components": real,
        "stubbed_components": stub,
        "known_findings_seen": len(known_lines),
    }
    if path:
        cov["violation"] = {"class": rep["class"], "message": rep["message"][:1500], "replay": path, "seed": rep["seed"],
                            "decisions_after_minimising": rep.get("size")}
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": vseed, "level": "exploration", "coverage": cov,
          "assumptions": registry.ASSUMPTIONS.get(prop, registry.ASSUMPTIONS[prop[0]]), "wall_s": round(wall, 2), "violations": 1 if path else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("{}: {} runs ({} distinct non-trivial), {:.0f} simulated s, {} operations, {} faults, {:.0f} s wall".format(
        prop, n["runs"], len(tot.digests), n["sim_time"], n["steps"], sum(tot.c["faults"].values()), wall))
    for line in known_lines:
        print(line)
    if path:
        print("{}: {}".format(rep["class"], rep["message"][:1500]))
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    problems = []
    if found:
        problems.append("{} violation(s) did not repeat: {} {}".format(len(found), found[0]["seed"], json.dumps(found[0].get("violations", found[0]))[:600]))
    if crashed:
        problems.append("worker ended: {} {} {}".format(*crashed[0]))
    if tot.harness:
        print("harness: " + str(tot.harness[0])[:3000], file=sys.stderr)
        if len(tot.harness) > 0.02 * (n["runs"] + len(tot.harness)):
            problems.append("the machinery failed on {} runs".format(len(tot.harness)))
    if n["inconclusive"] > 0.2 * n["runs"]:
        problems.append("{} of {} runs hit the step cap".format(n["inconclusive"], n["runs"]))
    if not tot.digests:
        problems.append("no non-trivial run finished")
    if problems:
        print("NO ANSWER: " + "; ".join(problems)[:3000])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
