"""Builds pipelines in one prescribed environment (its own process: hash seed, locale, flags).

Reads a job (JSON) on stdin; prints what was built (JSON)."""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    job = json.loads(sys.stdin.buffer.read().decode("utf-8"))
    import pipelab
    import sympynini
    from simcore import Choices
    sympynini.SALT[0] = job.get("salt", 0)
    real = job.get("real", False)
    built = {}
    with pipelab.PipeLab(Choices(job["schedule"]), strategy=2, real=real) as lab:
        w = lab.w
        w.faults_on = False
        w.locale_encoding = job.get("encoding", "utf-8")
        lab.fs.list_salt = job.get("listing", 0)
        lab.sim.wall_offset += job.get("clock", 0)
        p = lab.proc()
        p.cwd = job.get("cwd", "/simfs/home")
        for k, v in job.get("env", {}).items():
            os.environ[k] = v
        if job.get("lines") or any(len(x) > 2 for t in job["threads"] for x in t):
            lab.preempt_lines(job.get("lines", 0))
        recs = []
        p.fd_limit = 1 << 20

        def body(todo):
            for kind, cfg, *lines in todo:
                with lab.cut_short(lines):
                    r = lab.construct(p, kind, cfg, cache_dir=False, keep=True)
                if not (lines and r.outcome == "exc"):
                    recs.append(r)

        for todo in job["threads"]:
            lab.spawn(p, lambda todo=todo: body(todo))
        lab.run()
        for r in recs:
            key = r.prefix + "|" + r.cfg
            if r.outcome != "ok":
                built.setdefault(key, []).append({"exc": r.exc})
            else:
                sig = r.sig
                if real:
                    import hashlib
                    sig = [hashlib.sha256(x).hexdigest() for x in sig]
                built.setdefault(key, []).append({"sig": list(sig), "obj": r.obj, "outputs": None})
        steps, digest = lab.sim.steps, lab.sim.digest()
        ends = list(lab.phase_ends)
        landed = lab.probes.get("interrupt between lines", 0)
    for key, lst in built.items():
        for b in lst:
            obj = b.pop("obj", None)
            if real and obj is not None and key == job.get("probe_key"):
                b["outputs"] = probe(obj, job["probes"], job.get("probe_seconds", 60))
            if job.get("leaves") == key and obj is not None:
                b["leaves"] = sympynini.leaves(obj.tagger, obj.verbalizer)
    sys.stdout.buffer.write(b"\nRESULT " + json.dumps({"built": built, "steps": steps, "digest": digest, "ends": ends, "landed": landed}).encode() + b"\n")
    sys.stdout.buffer.flush()


def probe(obj, texts, seconds):
    import time
    end = time.monotonic() + seconds
    out = []
    for t in texts:
        if time.monotonic() > end:
            break
        try:
            out.append(obj.normalize(t))
        except Exception as e:
            out.append("!" + type(e).__name__)
    return out


if __name__ == "__main__":
    main()
