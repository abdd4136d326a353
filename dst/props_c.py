"""C01-C14: the graph cache under simulated processes, faults, crashes and damage."""

import errno
import os

import scen
from lab import HOME, ROOT, FaultPlan
from outcome import from_lab
from scen import (bad_pairs, damage_bytes, damage_file, damage_pair, entry_contents, escapes, files_below, fsmode, hung, mk, must_ok, populate,
                  rates, rewrite)
from simfs import DIR, FIFO, FILE, LINK, MOUNT


def pick_key(c, stream, prefixes=("sim", "sim2", "sim:itn"), cfgs=("A", "B"), srcs=("v1", "v2"), p=0.3):
    return (c.of(stream, prefixes, p), c.of(stream, cfgs, p), c.of(stream, srcs, p))


def spread(lab, c, stream, most=0.6):
    """A start delay, so that invocations do not all coincide."""
    d = c.of(stream, (0.0, 0.0003, 0.02, 0.2, most), 0.5)
    if d:
        lab.sim.sleep(d)


def maybe_lines(lab, c, p_on=0.15):
    if c.flag("cfg:lines", p_on):
        lab.preempt_lines(c.of("cfg:linesp", (0.01, 0.1)))
        lab.sim.max_steps *= 2
        return True
    return False


# ---------------------------------------------------------------- C01
def c01(c):
    """Everything mixed; a successful constructor always holds its own pair."""
    if c.flag("cfg:pipes", 0.1) and not scen.WINDOWS:
        import props_b
        return props_b.c01_pipes(c)
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        fsmode(lab, c)
        lab.split_build = c.flag("cfg:split", 0.3)
        lab.p_build_fail = c.of("cfg:pbf", (0.0, 0.1, 0.4), 0.4)
        maybe_lines(lab, c, 0.1)
        lab.filler = c.of("cfg:filler", (0, 0, 60), 0.2)
        w.read_chunk = c.of("cfg:chunk", (1 << 30, 7, 100), 0.3)
        keys = [pick_key(c, "cfg:key", p=0.5) for _ in range(1 + c.pick("cfg:nkeys", 3))]
        if c.flag("cfg:pop", 0.5):
            populate(lab, keys[:1 + c.pick("cfg:npop", len(keys))], 1 + c.pick("cfg:rounds", 2))
        olds = {}
        phases = 1 + c.pick("cfg:phases", 3)
        for ph in range(phases):
            w.faults_on = True
            w.plan = FaultPlan(**rates(c, "cfg:f", read=(0, .003, .03), mut=(0, .005, .04), lock=(0, .03), kill=(0, .0005, .003),
                                       power=(0, .0003), intr=(0, .001), stall=(0, .005, .04), short=(0, .05, .3)))
            at_rest = c.pick("cfg:rest", 4, 0.5)
            for _ in range(at_rest):
                _any_damage(lab, c, "rest", olds, files_below(lab, ROOT))
            if c.flag("cfg:vandal", 0.4):
                _spawn_vandal(lab, c, keys, olds)
            if c.flag("cfg:disk", 0.2):
                _spawn_disk(lab, c)
            for i in range(1 + c.pick("cfg:nproc", 4)):
                p = lab.proc(timeout=c.of("cfg:timeout", (600.0, 0.0, 0.3, 2.0), 0.4))
                for j in range(1 + c.pick("cfg:nthr", 2, 0.25)):
                    todo = [(keys[c.pick("cfg:which", len(keys))], c.flag("cfg:force", 0.35))
                            for _ in range(1 + c.pick("cfg:ncon", 2, 0.3))]

                    def body(p=p, todo=todo, n=i * 4 + j):
                        for key, force in todo:
                            spread(lab, c, "d:{}".format(n))
                            lab.construct(p, *key, force=force)

                    lab.spawn(p, body)
            lab.run()
            w.full = w.readonly = False
            if w.powered_off:
                lab.reboot()
            elif ph + 1 < phases and c.flag("cfg:cut", 0.15):
                w.power_off()
                lab.reboot()
            else:
                for p in w.procs:
                    p.kill("exit")
        out = []
        bad_pairs(lab, out)
        escapes(lab, out)
        oks = [r for r in lab.history if r.outcome == "ok"]
        return from_lab(lab, bool(oks) and (sum(w.fault_counts.values()) > 0 or len(oks) > 2), "mixed", out)


def _older(lab, c, key, olds):
    path = str(lab.paths(*key).path)
    cont = entry_contents(lab, path)
    if len(cont) == 3:
        olds.setdefault(path, dict(cont))


def _any_damage(lab, c, stream, olds, files):
    files = [(p, i) for p, i in files if not p.endswith(".lock")]
    if not files:
        return None
    path, inode = files[c.pick(stream, len(files))]
    others = [bytes(i.data) for p, i in files if p != path and os.path.basename(p) == os.path.basename(path)
              and os.path.dirname(p) != os.path.dirname(path)]
    what = damage_file(lab, c, stream, path, inode, None, others)
    if what:
        lab.w.count("damage")
        lab.sim.event("damage", what, lab.w.label(path))
        lab.w.fault_log.append((round(lab.sim.now, 6), "vandal", what, "", lab.w.label(path)))
    return what


def _spawn_vandal(lab, c, keys, olds, times=4, allowed=None, stream="v"):
    """Damages published entries while constructors run."""
    targets = [str(lab.paths(*k).path) for k in keys]

    def vandal():
        for _ in range(times):
            lab.sim.sleep(c.of(stream, (0.0001, 0.0005, 0.003, 0.02, 0.2, 0.7)))
            if allowed is not None and not allowed():
                return
            files = [f for t in targets for f in files_below(lab, t)]
            _any_damage(lab, c, stream, olds, files)

    lab.sim.spawn(vandal, "vandal", None, daemon=True)


def _spawn_disk(lab, c):
    """The disk fills up or turns read-only for a while."""

    def disk():
        lab.sim.sleep(c.of("disk", (0.0002, 0.002, 0.02, 0.2)))
        if c.flag("disk"):
            lab.w.full = True
        else:
            lab.w.readonly = True
        lab.sim.event("disk", lab.w.full, lab.w.readonly)
        lab.sim.sleep(c.of("disk", (0.002, 0.02, 0.5, 5.0)))
        lab.w.full = lab.w.readonly = False
        lab.sim.event("disk", "healed")

    lab.sim.spawn(disk, "disk", None, daemon=True)


# ---------------------------------------------------------------- C02
def c02(c):
    """Damage at rest or racing loads: never served, repaired, stored again."""
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        fsmode(lab, c, ("ext4", "strict"))
        lab.split_build = c.flag("cfg:split", 0.3)
        lab.build_time = (0.0, 0.02)
        w.faults_on = False
        lab.filler = c.of("cfg:filler", (0, 0, 200), 0.3)
        lab.bulk = c.of("cfg:bulk", (0, 5000, 20000, 60000), 0.012)  # graphs as large as the real ones
        w.read_chunk = c.of("cfg:chunk", (1 << 30, 50000) if lab.bulk else (1 << 30, 11, 200), 0.3)
        keys = [("sim", "A", "v1")]
        if c.flag("cfg:second", 0.6):
            keys.append(pick_key(c, "cfg:key", p=0.6))
        keys = list(dict.fromkeys(keys))
        rounds = 1 + c.pick("cfg:rounds", 2)
        for k in keys:
            for i in range(rounds):
                lab.calm_construct(*k, force=i > 0)
                if i == 0:
                    first = entry_contents(lab, str(lab.paths(*k).path))
                    if k == keys[0]:
                        older = first
        fs.sync_all()
        # optionally, a rebuild killed half-way left other copies behind
        if c.flag("cfg:halfway", 0.25):
            w.faults_on = True
            w.plan = FaultPlan(kill=0.01, limits={"kill": 1})
            p = lab.proc()
            lab.spawn(p, lambda: lab.construct(p, *keys[0], force=True, time=0.0))
            lab.run()
            p.kill("exit")
            w.faults_on = False
        out = []
        damages = []
        lab.bit_rot = c.flag("cfg:rot", 0.4)
        resident = None
        if c.flag("cfg:resident", 0.4):
            # a long-lived process that has used the entry before it is damaged
            resident = lab.proc("resident")
            for _ in range(1 + c.pick("cfg:uses", 2)):
                lab.spawn(resident, lambda: lab.construct(resident, *keys[0], calm=True))
                lab.run()
        for rnd in range(1 + c.pick("cfg:dmgrounds", 2, 0.3)):
            racing = c.flag("cfg:racing", 0.35)
            wipe = c.pick("cfg:wipe", 12)
            path0 = str(lab.paths(*keys[0]).path)
            if wipe == 11:
                fs.remove_tree(path0)
                damages.append("entry removed")
                lab.w.count("damage")
            used_older = [False]

            def hit(stream):
                files = [f for f in files_below(lab, ROOT) if not f[0].endswith(".lock")]
                mine = [f for f in files if f[0].startswith(path0 + "/")]
                pool = mine if mine and c.pick("cfg:where", 4) else files
                if not pool:
                    return
                path, inode = pool[c.pick(stream, len(pool))]
                others = [bytes(i.data) for p, i in files if p != path and bytes(i.data) != bytes(inode.data)
                          and (os.path.basename(p) == os.path.basename(path) or os.path.dirname(p) == os.path.dirname(path))]
                o = older if path.startswith(path0 + "/") and not used_older[0] else None
                what = None
                if path.endswith(".fst") and not c.pick(stream, 4):
                    beside = [f for f in files if f[0] == os.path.dirname(path) + "/manifest.json"]
                    if beside:
                        what = damage_pair(lab, c, stream, beside[0], (path, inode), o, others)
                        used_older[0] = True
                if what is None:
                    what = damage_file(lab, c, stream, path, inode, o, others)
                if what is None:
                    return
                if what.startswith("older"):
                    used_older[0] = True
                damages.append(what)
                lab.w.count("damage: " + what.split()[0])
                lab.sim.event("damage", what, w.label(path))
                w.fault_log.append((round(lab.sim.now, 6), "vandal", what, "", w.label(path)))

            builds0 = len(lab.builds)
            if racing:

                def vandal():
                    for _ in range(1 + c.pick("v", 3)):
                        lab.sim.sleep(c.of("v", (0.000003, 0.00001, 0.00002, 0.00005, 0.0001, 0.0003)))
                        if len(lab.builds) > builds0:
                            return
                        hit("v")

                lab.sim.spawn(vandal, "vandal", None, daemon=True)
            else:
                for _ in range(1 + c.pick("cfg:ndmg", 3, 0.4)):
                    hit("v")
            recs = []
            for i in range(1 + c.pick("cfg:nproc", 3, 0.5)):
                p = resident if resident is not None and i == 0 else lab.proc()
                key = keys[0] if i == 0 else keys[c.pick("cfg:which", len(keys))]

                def body(p=p, key=key, i=i):
                    if i:
                        spread(lab, c, "d:{}".format(i), 0.1)
                    recs.append(lab.construct(p, *key))

                lab.spawn(p, body)
            lab.run()
            must_ok(out, [r for r in lab.history if r.phase == lab.phase - 1], "not-repaired", "constructor did not survive damage {}".format(
                damages[-3:]))
            bad_pairs(lab, out)
            for p in w.procs:
                if p is not resident:
                    p.kill("exit")
            used = {(r.prefix, r.cfg, r.src) for r in recs}
            # a racing hit may have come after the last load: the entry is only due
            # to be good again once a constructor has run after the last damage
            if racing:
                for k in sorted(used):
                    must_ok(out, [lab.calm_construct(*k)], "not-repaired", "constructor after damage {}".format(damages[-3:]))
            for k in sorted(used):
                r = lab.calm_construct(*k)
                must_ok(out, [r], "not-repaired", "second constructor after damage {}".format(damages[-3:]))
                if r.outcome == "ok" and r.builds:
                    out.append(("rebuilt-again", "entry was not repaired on disk: {} (damage {})".format(r.brief(), damages[-3:])))
            if out:
                break
        bad_pairs(lab, out)
        o = from_lab(lab, bool(damages), "damage", out[:3])
        o.sample["damage"] = damages[:6]
        return o


# ---------------------------------------------------------------- C03
def c03(c):
    """Kills and power cuts anywhere; a fresh process recovers at once."""
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        fsmode(lab, c)
        lab.split_build = c.flag("cfg:split", 0.3)
        maybe_lines(lab, c, 0.05)
        keys = [("sim", "A", "v1")]
        if c.flag("cfg:second", 0.3):
            keys.append(pick_key(c, "cfg:key", p=0.6))
        keys = list(dict.fromkeys(keys))
        if c.flag("cfg:pop", 0.5):
            populate(lab, keys, 1 + c.pick("cfg:rounds", 2))
            if c.flag("cfg:unsync", 0.3):
                lab.calm_construct(*keys[0], force=True)
                w.faults_on = True
        out = []
        crashes = 0
        for ph in range(1 + c.pick("cfg:phases", 4)):
            w.faults_on = True
            w.plan = FaultPlan(**rates(c, "cfg:f", kill=(.0015, .0005, .005), power=(0, .0003, .002), stall=(0, .01), short=(0, .1)))
            if c.flag("cfg:aim", 0.45):
                w.plan.aim = (c.of("cfg:aimk", ("kill", "power")), c.of("cfg:aimo", ("rename", "fsync", "mkdir", "unlink", "rmdir", "write")),
                              1 + c.pick("cfg:aimn", 4, 0.6))
            for i in range(1 + c.pick("cfg:nproc", 3)):
                p = lab.proc()
                force = c.flag("cfg:force", 0.5)
                key = keys[c.pick("cfg:which", len(keys))]

                def body(p=p, key=key, force=force, i=i):
                    spread(lab, c, "d:{}".format(i))
                    lab.construct(p, *key, force=force)

                lab.spawn(p, body)
            lab.run()
            crashes += sum(1 for p in w.procs if p.dead and p.why_dead.startswith(("kill", "power")))
            cut = w.powered_off or c.flag("cfg:cut", 0.25)
            for p in w.procs:
                p.kill("exit")
            if cut:
                w.power_off()
                lab.reboot()
            must_ok(out, [r for r in lab.history if r.phase == lab.phase - 1 and r.outcome in ("exc", "hung")], "survivor-failed",
                    "only crashes were injected, yet a live constructor failed")
            if c.flag("cfg:probe", 0.3) or out:
                break
        for k in keys:
            r = lab.calm_construct(*k)
            must_ok(out, [r], "no-recovery", "fresh constructor after crashes")
            if r.outcome == "ok" and r.t_ret - r.t_inv > 5.0:
                out.append(("slow-recovery", "fresh constructor waited {:.1f}s: {}".format(r.t_ret - r.t_inv, r.brief())))
        bad_pairs(lab, out)
        return from_lab(lab, crashes > 0, "crashes={}".format(min(crashes, 5)), out[:3])


# ---------------------------------------------------------------- C04
def c04(c):
    """Same key, many constructors: one build, or exactly one taking over."""
    with mk(c) as lab:
        w = lab.w
        key = ("sim", "A", "v1")
        lab.split_build = c.flag("cfg:split", 0.3)
        lab.build_time = (0.02, 0.0, 0.4, 3.0)
        maybe_lines(lab, c, 0.15)
        stored = c.flag("cfg:pop", 0.35)
        if stored:
            populate(lab, [key], 1 + c.pick("cfg:rounds", 2))
        elif c.flag("cfg:old", 0.3):
            populate(lab, [("sim", "A", "v0"), ("sim", "B", "v1")])
        faulty = c.flag("cfg:faulty", 0.6)
        forced_ok = c.flag("cfg:forced", 0.3)
        w.faults_on = True
        if faulty:
            w.plan = FaultPlan(**rates(c, "cfg:f", mut=(0, .003, .02), lock=(0, .03), kill=(.001, 0, .004), intr=(0, .002),
                                       stall=(.01, 0, .04), short=(0, .1)))
            lab.p_build_fail = c.of("cfg:pbf", (0.0, 0.2, 0.5), 0.5)
        else:
            w.plan = FaultPlan(**rates(c, "cfg:f", stall=(.01, 0, .05), short=(0, .1)))
        n0 = len(lab.history)
        nproc = 1 + c.pick("cfg:nproc", 4)
        for i in range(nproc):
            p = lab.proc()
            for j in range(1 + c.pick("cfg:nthr", 3, 0.4)):
                force = forced_ok and c.flag("cfg:force", 0.4)
                again = c.pick("cfg:again", 3, 0.2)

                def body(p=p, force=force, n=i * 4 + j, again=again):
                    spread(lab, c, "d:{}".format(n))
                    lab.construct(p, *key, force=force)
                    for _ in range(again):
                        lab.construct(p, *key)

                lab.spawn(p, body)
        lab.run()
        out = []
        recs = lab.history[n0:]
        for a, b in lab.overlaps:
            out.append(("overlap", "builds {} and {} of the same entry were in progress at once".format(a, b)))
        plain = [r for r in recs if not r.force]
        if faulty:
            n = sum(len(r.builds) for r in plain if r.outcome == "ok")
            limit = 0 if stored else 1
            if not forced_ok and n > limit:
                out.append(("extra-build", "{} successful constructors built, allowed {}".format(n, limit)))
            total = sum(len(r.builds) for r in plain)
            failed = sum(1 for r in recs if r.outcome != "ok")
            if total > limit + failed:
                out.append(("extra-build", "{} builds for {} failed constructors".format(total, failed)))
            for r in recs:
                if r.outcome == "exc" and not r.faults and r.exc_type not in ("KeyboardInterrupt", "BuildFailure"):
                    out.append(("bystander:" + r.exc_type, "no fault hit this constructor, yet it failed: {}".format(r.brief())))
        else:
            must_ok(out, recs, "failed", "nothing failed, yet a constructor did")
            n = sum(len(r.builds) for r in plain)
            want = 0 if stored else 1
            nf = sum(1 for r in recs if r.force)
            if nf == 0 and n != want:
                out.append(("build-count", "{} builds, expected exactly {}".format(n, want)))
            elif n > want:
                out.append(("build-count", "{} unforced builds, expected at most {}".format(n, want)))
            for r in recs:
                if r.force and len(r.builds) != 1:
                    out.append(("build-count", "forced constructor built {} times".format(len(r.builds))))
        bad_pairs(lab, out)
        return from_lab(lab, len(recs) > 1, "faulty" if faulty else "fault-free", out[:3])


# ---------------------------------------------------------------- C05
def linearizable(ops, initial):
    """ops: (inv, ret, kind, value); kind 'w' stores value, 'r' must see it."""
    ops = sorted(ops)
    n = len(ops)
    seen = set()

    def go(done, state):
        if done == (1 << n) - 1:
            return True
        if (done, state) in seen:
            return False
        seen.add((done, state))
        first_ret = min(ops[i][1] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1:
                continue
            inv, ret, kind, val = ops[i]
            if inv > first_ret:
                continue
            if kind == "w":
                if go(done | 1 << i, val):
                    return True
            elif val == state and go(done | 1 << i, state):
                return True
        return False

    return go(0, initial)


def c05(c):
    """Forced rebuilds and loads of one entry are linearizable."""
    with mk(c) as lab:
        w = lab.w
        key = ("sim", "A", "v1")
        lab.split_build = c.flag("cfg:split", 0.2)
        lab.build_time = (0.0, 0.02, 0.3)
        maybe_lines(lab, c, 0.15)
        initial = None
        if c.flag("cfg:pop", 0.7):
            r0 = populate(lab, [key], 1 + c.pick("cfg:rounds", 2))[-1]
            initial = lab.gen_of(r0)
        w.plan = FaultPlan(**rates(c, "cfg:f", stall=(.02, 0, .08), short=(0, .1)))
        w.plan.stalls = (0.0002, 0.004, 0.06, 0.3)
        w.faults_on = True
        n0 = len(lab.history)
        budget = 9
        for i in range(2 + c.pick("cfg:nproc", 3)):
            p = lab.proc()
            for j in range(1 + c.pick("cfg:nthr", 2, 0.3)):
                todo = [c.flag("cfg:force", 0.45) for _ in range(min(budget, 1 + c.pick("cfg:ncon", 3)))]
                budget -= len(todo)

                def body(p=p, todo=todo, n=i * 4 + j):
                    for force in todo:
                        spread(lab, c, "d:{}".format(n), 0.1)
                        lab.construct(p, *key, force=force)

                if todo:
                    lab.spawn(p, body)
        lab.run()
        out = []
        recs = lab.history[n0:]
        must_ok(out, recs, "failed", "nothing failed, yet a constructor did")
        bad_pairs(lab, out)
        if not out and "step-cap" not in lab.phase_ends:
            ops = []
            for r in recs:
                g = lab.gen_of(r)
                if r.builds and g == r.builds[-1]:
                    ops.append((r.inv, r.ret, "w", g))
                elif r.force:
                    out.append(("forced-other", "forced rebuild returned {} instead of its own build: {}".format(g, r.brief())))
                else:
                    ops.append((r.inv, r.ret, "r", g))
            if not out and not linearizable(ops, initial):
                out.append(("not-linearizable", "initial {}: {}".format(initial, "; ".join(r.brief() for r in recs))))
        overlapping = any(a.inv < b.ret and b.inv < a.ret for i, a in enumerate(recs) for b in recs[i + 1:])
        return from_lab(lab, overlapping, "register", out[:3])


# ---------------------------------------------------------------- C06
def c06(c):
    """Failed or interrupted forced rebuilds keep the last good entry."""
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        fsmode(lab, c, ("ext4", "strict"))
        lab.split_build = c.flag("cfg:split", 0.3)
        key = ("sim", "A", "v1")
        populate(lab, [key], 1 + c.pick("cfg:rounds", 2))
        good = lab.history[-1]
        lab.p_build_fail = c.of("cfg:pbf", (0.0, 0.2), 0.3)
        single = c.flag("cfg:single", 0.4) or w.windows
        w.faults_on = True
        if single:
            w.plan = FaultPlan(**rates(c, "cfg:f", read=(0, .01, .05), mut=(.01, 0, .06), lock=(0, .1), kill=(.002, 0, .006),
                                       power=(0, .001), intr=(.001, 0, .006), short=(0, .2), stall=(0, .02)))
            n = 1
        else:
            w.plan = FaultPlan(**rates(c, "cfg:f", mut=(.02, 0, .1), kill=(.001, 0, .004), intr=(0, .003), short=(0, .2), stall=(0, .02)))
            n = 1 + c.pick("cfg:attempts", 4)
        if w.windows:  # what was moved aside is put back only by the constructor that did it
            for k in ("kill", "power", "intr"):
                w.plan.rate[k] = 0
            w.plan.limits = {"mut": 1, "read": 1}
        same = None
        last = int(lab.gen_of(good)[1:])
        out = []
        failed = 0
        for i in range(n):
            if same is None or same.dead or c.flag("cfg:newproc", 0.5):
                same = lab.proc()
            if not single:
                # cleaning up may fail for good, leaving copies behind; crashes aim at the renames
                w.plan.stuck = {"unlink": errno.EACCES, "rmdir": errno.EACCES} if c.flag("cfg:stuck", 0.3) else {}
                aim = c.pick("cfg:aim", 6, 0.7)
                w.plan.aim = (("kill", "power", "intr", ("mut", errno.EIO))[c.pick("cfg:aimk", 4, 0.4)], "rename", aim) if 0 < aim < 4 else None
                w.plan._seen, w.plan._armed = 0, False
                w.plan.aim_stuck = "rename" if c.flag("cfg:aims", 0.3) else None
                lab.sim.sleep(c.of("cfg:gap", (0.0, 0.5, 3.0), 0.5))
            if c.flag("cfg:fullnow", 0.15):
                w.full = True
            elif c.flag("cfg:ronow", 0.05):
                w.readonly = True
            elif c.flag("cfg:fillsup", 0.2) and not w.windows:
                _spawn_disk(lab, c)
            lab.spawn(same, lambda: lab.construct(same, *key, force=True))
            if not single and c.flag("cfg:rival", 0.2):
                q = lab.proc()
                lab.spawn(q, lambda: lab.construct(q, *key, force=c.flag("cfg:rforce")))
            lab.run()
            w.full = w.readonly = False
            if w.powered_off:
                lab.reboot()
            for r in lab.history[-2:]:
                if r.outcome == "ok":
                    last = max(last, int(lab.gen_of(r)[1:]))
                else:
                    failed += 1
        for p in w.procs:
            p.kill("exit")
        r = lab.calm_construct(*key)
        must_ok(out, [r], "no-entry", "constructor after failed forced rebuilds")
        bad_pairs(lab, out)
        if r.outcome == "ok":
            if r.builds:
                out.append(("entry-lost", "the last good entry ({}) is gone: {}".format(lab.gen_of(good), r.brief())))
            elif int(lab.gen_of(r)[1:]) < last:
                out.append(("older-entry", "g{} had been stored, got {}".format(last, r.brief())))
        return from_lab(lab, failed > 0, "single" if single else "repeated", out[:3])


# ---------------------------------------------------------------- C07
def c07(c):
    """A returned, stored entry survives power failure at any later instant."""
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        fsmode(lab, c, ("ext4", "strict"))
        lab.split_build = c.flag("cfg:split", 0.3)
        lab.filler = c.of("cfg:filler", (0, 0, 300), 0.3)
        key = ("sim", "A", "v1")
        out = []
        last = 0
        case = "rest"
        if c.flag("cfg:pop", 0.4):
            populate(lab, [key])
            last = 1
        if c.flag("cfg:rootdeep", 0.3):
            pass
        for rnd in range(1 + c.pick("cfg:rounds", 2)):
            w.faults_on = True
            w.plan = FaultPlan(**rates(c, "cfg:f", stall=(0, .02), short=(0, .2)))
            # a constructor that stores and returns
            force = last > 0 or c.flag("cfg:force", 0.3)
            p = lab.proc()
            lab.spawn(p, lambda: lab.construct(p, *key, force=force))
            lab.run()
            r = lab.history[-1]
            must_ok(out, [r], "failed", "storing constructor")
            if r.outcome != "ok":
                break
            if r.builds:
                last = int(lab.gen_of(r)[1:])
            # optional later activity, then the power fails
            act = c.pick("cfg:later", 4)
            if act:
                case = "during later activity"
                w.plan = FaultPlan(**rates(c, "cfg:f2", kill=(0, .002), power=(.002, .0005, .01), stall=(0, .02), intr=(0, .002)))
                for i in range(act):
                    q = lab.proc()
                    key2 = key if c.flag("cfg:samekey", 0.8) else ("sim", "A", "v2")
                    lab.spawn(q, lambda q=q, key2=key2, f=c.flag("cfg:lforce", 0.6): lab.construct(q, *key2, force=f))
                lab.run()
                for x in lab.history:
                    if x.outcome == "ok" and x.builds and (x.prefix, x.cfg, x.src) == key:
                        last = max(last, int(lab.gen_of(x)[1:]))
            w.power_off()
            lab.reboot()
            r = lab.calm_construct(*key)
            must_ok(out, [r], "no-entry", "constructor after power failure")
            if r.outcome == "ok":
                if r.builds:
                    out.append(("entry-lost", "g{} had been stored and returned; after power failure it was rebuilt: {}".format(
                        last, r.brief())))
                elif int(lab.gen_of(r)[1:]) < last:
                    out.append(("older-entry", "g{} had been stored and returned; after power failure got {}".format(
                        last, r.brief())))
            if out:
                break
        bad_pairs(lab, out)
        return from_lab(lab, True, case, out[:3])


# ---------------------------------------------------------------- C08
def is_timeout(r):
    return r.outcome == "exc" and r.exc_type == "CacheLockTimeout"


def c08(c):
    """Waiting ends: acquired promptly, or a timely timeout."""
    case = c.pick("cfg:case", 5)
    return (c08_finish, c08_finish, c08_timeout, c08_faults, c08_zero)[case](c)


def _clock_jumps(lab, c, n=4):

    def jump():
        for _ in range(n):
            lab.sim.sleep(c.of("jump", (0.01, 0.3, 2.0, 20.0)))
            d = c.of("jump", (0.0, 5.0, -5.0, 3600.0, -3600.0, 1e8, -1e9))
            lab.sim.wall_offset += d
            if d:
                lab.w.count("wall-clock jump")
            lab.sim.event("jump", d)

    lab.sim.spawn(jump, "clock", None, daemon=True)


def c08_finish(c):
    """The holder finishes, fails or dies: the waiters go on promptly."""
    with mk(c) as lab:
        w = lab.w
        key = ("sim", "A", "v1")
        pop = c.flag("cfg:pop", 0.3)
        if pop:
            populate(lab, [key])
        lab.split_build = c.flag("cfg:split", 0.2)
        holder = lab.proc(timeout=600.0)
        how = c.pick("cfg:how", 4)
        hold = c.of("cfg:hold", (0.5, 0.0, 3.0, 40.0))
        if c.flag("cfg:jumps", 0.4):
            _clock_jumps(lab, c)
        w.plan = FaultPlan(**rates(c, "cfg:f", mut=(0, .02), kill=(0, .003), intr=(0, .003)))
        w.plan.only = lambda node, kind, path: node is holder
        if how != 2 and c.flag("cfg:forks", 0.2):  # a child of a killed holder would keep its lock, as on a real system
            w.plan.rate.update(kill=0, fork=0.05)
            w.plan.limits["fork"] = 3
        ended = []
        held = [None]

        def hold_body():
            try:
                held[0] = lab.construct(holder, *key, force=True, time=hold, fail=how == 1)
            finally:
                ended.append(lab.sim.now)

        t = lab.spawn(holder, hold_body)
        if how == 2:

            def killer():
                lab.sim.sleep(hold * c.of("killat", (0.5, 0.1, 0.9)))
                if not t.done:
                    w.count("kill@holder")
                    holder.kill("kill")
                    ended.append(lab.sim.now)

            lab.sim.spawn(killer, "killer", None, daemon=True)
        waiters = []
        for i in range(1 + c.pick("cfg:nwait", 4)):
            p = lab.proc(timeout=c.of("cfg:tmo", (600.0, 90.0), 0.3))
            if how != 2 and c.flag("cfg:samep", 0.2):
                p = holder

            def body(p=p, i=i):
                lab.sim.sleep(c.of("wd:{}".format(i), (0.01, 0.2, 0.0)))
                waiters.append(lab.construct(p, *key, force=c.flag("wf:{}".format(i), 0.3), time=0.0))

            lab.spawn(p, body)
        lab.run()
        out = []
        mine = [r for r in lab.history if r.phase == lab.phase - 1 and r is not held[0]]
        must_ok(out, [r for r in mine if r.proc != holder.name], "waiter-failed", "a waiter of a finished holder")
        out += [("waits-forever", r.brief()) for r in hung(lab) if r.proc == holder.name]
        end = max(ended) if ended else None
        for r in mine:
            if r.outcome != "ok":
                continue
            base = max(end or 0, r.t_inv)
            if end is not None and r.t_ret > base + 2.0:
                out.append(("slow-handover", "holder ended at {:.3f}, waiter returned at {:.3f}: {}".format(end, r.t_ret, r.brief())))
        bad_pairs(lab, out)
        return from_lab(lab, any(end and r.t_inv < end for r in mine), "holder " + ("finishes", "fails", "dies", "finishes")[how], out[:3])


def c08_timeout(c):
    """The holder never finishes: a timeout error, on time by the monotonic clock."""
    with mk(c, max_steps=60000) as lab:
        w, fs = lab.w, lab.fs
        key = ("sim", "A", "v1")
        populate(lab, [key]) if c.flag("cfg:pop", 0.5) else None
        tau_all = (1.0, 0.0, 0.05, 0.3, 5.0, 45.0, None)
        shared = c.of("cfg:htau", (None,) + tau_all[:6], 0.5)  # the time-out of the holder's whole process
        holder = lab.proc(timeout=shared)
        if c.flag("cfg:jumps", 0.7):
            _clock_jumps(lab, c, 8)
        w.plan = FaultPlan(**rates(c, "cfg:f", stall=(0, .01)))
        w.plan.stalls = (0.004, 0.06)
        lab.spawn(holder, lambda: lab.construct(holder, *key, force=True, time="hang"), daemon=True)
        if c.flag("cfg:payload", 0.4):
            # whatever the owner record in the lock file looks like
            def scribble():
                lab.sim.block(lambda: bool(lab.running), "the holder to build")
                n = fs.node(str(lab.paths(*key).lock_path))
                if n is not None and n.kind == FILE:
                    body = (b"{", b"[" * 30000, b'{"a":' * 9000, b"\xff" * 50, b"null", b"7" * 5000, b"x" * 70000, b"", b"{}")[c.pick("pl", 9)]
                    rewrite(lab, n, (b"\0" if c.pick("pl", 4) else b"") + body)
                    w.count("owner record damaged")

            lab.sim.spawn(scribble, "scribble", None, daemon=True)
        recs = []
        default = False
        for i in range(1 + c.pick("cfg:nwait", 3)):
            k = c.pick("cfg:tau", 60)
            tau = tau_all[k % 6] if k < 59 else None
            if tau is None:
                default = True
                lab.sim.max_steps = 400000
            same = c.flag("cfg:samep", 0.3)
            if same and shared is not None:  # another thread of the process that builds
                tau = shared
            p = holder if same and tau == shared else lab.proc(timeout=tau)

            def body(p=p, i=i, tau=tau):
                lab.sim.block(lambda: bool(lab.running), "the holder to build")
                lab.sim.sleep(c.of("wd:{}".format(i), (0.0, 0.2)))
                r = lab.construct(p, *key, force=True)
                recs.append((r, 600.0 if tau is None else tau))

            lab.spawn(p, body)
        lab.run()
        out = []
        for r, tau in recs:
            if not is_timeout(r):
                out.append(("no-timeout:" + str(r.exc_type or r.outcome), "holder never ends, timeout {}: {}".format(tau, r.brief())))
                continue
            el = r.t_ret - r.t_inv
            if el < tau - 1e-6:
                out.append(("early-timeout", "timed out after {:.3f}s, promised {}".format(el, tau)))
            # stalls injected into the waiter itself may add up to a little
            elif el > tau + 1.0 + 0.07 * 20:
                out.append(("late-timeout", "timed out after {:.3f}s, promised {}".format(el, tau)))
        first = [r for r in lab.history if r.proc == holder.name][:1]  # the holder itself: alone in its process when it starts
        for r in hung(lab):
            if r not in first:
                out.append(("waits-forever", r.brief()))
        return from_lab(lab, bool(recs), "timeout" + (" default" if default else ""), out[:3])


def c08_faults(c):
    """Failures inside the locking itself never leave the entry locked."""
    with mk(c) as lab:
        w = lab.w
        key = ("sim", "A", "v1")
        populate(lab, [key]) if c.flag("cfg:pop", 0.3) else None
        p = lab.proc(timeout=0.5)
        w.faults_on = True
        w.plan = FaultPlan(**rates(c, "cfg:f", read=(0, .01), mut=(.02, 0, .08), lock=(.2, 0), intr=(0, .01), short=(0, .2), fork=(0, .02, .1)))
        lab.p_build_fail = c.of("cfg:pbf", (0.0, 0.5), 0.3)
        out = []
        attempts = 1 + c.pick("cfg:attempts", 4)
        nthr = 1 + c.pick("cfg:nthr", 2, 0.3)
        for j in range(nthr):

            def body(j=j):
                for _ in range(attempts):
                    lab.construct(p, *key, force=c.flag("af:{}".format(j), 0.6), time=0.0)

            lab.spawn(p, body)
        lab.run()
        failed = [r for r in lab.history if r.outcome == "exc"]
        lab.quiet()
        who = c.pick("cfg:who", 2)
        for k in range(2):
            if (who + k) % 2 == 0:
                lab.spawn(p, lambda: lab.construct(p, *key, force=True, calm=True))
                lab.run()
                r = lab.history[-1]
            else:
                r = lab.calm_construct(*key, force=True, timeout=0.2)
            must_ok(out, [r], "left-locked", "constructor after failures ({})".format(failed[-1].brief() if failed else "none"))
        bad_pairs(lab, out)
        return from_lab(lab, bool(failed), "lock faults", out[:3])


def c08_zero(c):
    """A zero timeout with nobody else there succeeds."""
    with mk(c) as lab:
        w = lab.w
        key = ("sim", "A", "v1")
        out = []
        if c.flag("cfg:crash", 0.5):
            w.plan = FaultPlan(kill=0.01)
            p = lab.proc()
            lab.spawn(p, lambda: lab.construct(p, *key, force=True))
            lab.run()
            p.kill("exit")
        _clock_jumps(lab, c)
        for i in range(2):
            r = lab.calm_construct(*key, force=c.flag("cfg:force"), timeout=c.of("cfg:tau", (0.0, 0.01)))
            must_ok(out, [r], "uncontended-failed", "nobody holds the lock")
        bad_pairs(lab, out)
        return from_lab(lab, True, "uncontended", out[:3])


# ---------------------------------------------------------------- C09
def c09(c):
    """Two entries do not disturb or delay each other."""
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        k1 = ("sim", "A", "v1")
        k2 = c.of("cfg:other", (("sim", "A", "v2"), ("sim", "B", "v1"), ("sim2", "A", "v1"), ("sim:itn", "A", "v1")))
        if c.flag("cfg:many", 0.5):  # any of many source versions: digests that differ in few places
            k2 = (k2[0], k2[1], "v{}".format(3 + c.pick("cfg:nth", 5000)))
        elif c.flag("cfg:alike", 0.2):
            pair = c.of("cfg:which", lab.alike())
            k1, k2 = ("sim", "A", pair[0]), ("sim", "A", pair[1])
        if c.flag("cfg:swap"):
            k1, k2 = k2, k1
        b2 = lab.paths(*k2)
        b1 = lab.paths(*k1)
        path2, dig2, parent2 = str(b2.path), b2.bundle_digest, str(b2.parent)
        dig1 = b1.bundle_digest
        separate = str(b1.parent) != parent2
        lab.build_time = (0.0, 0.02, 0.3)
        case = c.pick("cfg:case", 3)
        out = []
        pop2 = c.flag("cfg:pop2", 0.6)
        pops = ([k1] if c.flag("cfg:pop1", 0.4) else []) + ([k2] if pop2 else [])
        populate(lab, pops)
        digs = {dig2}
        if c.flag("cfg:crowd", 0.06):  # many more entries, which must survive as well
            crowd = [(k1[0], k1[1], "c{}".format(i)) for i in range(c.of("cfg:ncrowd", (4, 12, 40)))]
            populate(lab, crowd)
            digs |= {lab.paths(*k).bundle_digest for k in crowd}
            w.count("crowded cache")
        a_procs = set()

        def others():
            return {p: v for p, v in fs.snapshot(ROOT).items() if any(d in p for d in digs)}


        def on_mut(kind, inode, name, parent):
            t = lab.sim.current
            if t is None or t.node is None or t.node.name not in a_procs:
                return
            # anything of entry 2 touched by a constructor of entry 1
            who = name or ""
            at = parent
            hops = []
            while at is not None and at is not fs.root and len(hops) < 9:
                hops.append(at)
                at = at.parent
            names = [who]
            for h in hops:
                if h.parent is not None:
                    names += [n for n, i in h.parent.entries.items() if i is h]
            if parent is None and inode is not None:
                names += [n for p, i in fs.iter() if i is inode for n in p.split("/")]
            if any(d in n for d in digs for n in names):
                lab.flag_violation("touched-other", "a constructor of {} did {} on {} of {}".format(k1, kind, w.label("/".join(
                    reversed(names))), k2))

        if case == 0:
            # crash / failure histories of entry 2 left half-written state; entry 1's
            # constructors run with faults and must not touch it
            for _ in range(c.pick("cfg:half2", 3)):
                w.faults_on = True
                w.plan = FaultPlan(kill=0 if w.windows else .004)  # there nobody puts back what was moved aside
                q = lab.proc()
                lab.spawn(q, lambda q=q: lab.construct(q, *k2, force=True, time=0.0))
                lab.run()
                q.kill("exit")
            snap = others()
            fs.on_mutation = on_mut
            for _ in range(1 + c.pick("cfg:nphase", 3)):
                w.faults_on = True
                w.plan = FaultPlan(**rates(c, "cfg:f", read=(0, .02), mut=(.01, 0, .05), kill=(.001, 0, .005), intr=(0, .003),
                                           lock=(0, .05)))
                lab.p_build_fail = c.of("cfg:pbf", (0.0, 0.3), 0.4)
                for i in range(1 + c.pick("cfg:na", 2)):
                    p = lab.proc()
                    a_procs.add(p.name)
                    lab.spawn(p, lambda p=p: lab.construct(p, *k1, force=c.flag("cfg:force", 0.6)))
                lab.run()
                for p in w.procs:
                    p.kill("exit")
            fs.on_mutation = None
            after = others()
            if after != snap:
                gone = sorted(set(snap) - set(after))[:3]
                out.append(("altered-other", "entry {} changed: missing {}".format(k2, [w.label(g) for g in gone])))
            lab.p_build_fail = 0.0
            if pop2:
                r = lab.calm_construct(*k2)
                must_ok(out, [r], "other-broken", "the other entry")
                if r.builds:
                    out.append(("other-lost", "the other entry had to be rebuilt: {}".format(r.brief())))
            label = "isolation"
        else:
            # a builder of entry 1 hangs; entry 2 proceeds
            w.faults_on = True
            w.plan = FaultPlan()
            a = lab.proc()
            a_procs.add(a.name)
            fs.on_mutation = on_mut
            lab.spawn(a, lambda: lab.construct(a, *k1, force=True, time="hang"), daemon=True)
            same = case == 2
            waiters = []
            for i in range(1 + c.pick("cfg:nb", 3)):
                p = a if same else lab.proc()

                def body(p=p, i=i):
                    lab.sim.sleep(c.of("d:{}".format(i), (0.05, 0.2, 0.0001)))
                    waiters.append(lab.construct(p, *k2, force=c.flag("f:{}".format(i)), time=0.0))

                if same:
                    a_procs.clear()
                lab.spawn(p, body)
            lab.run()
            fs.on_mutation = None
            recs = [r for r in lab.history if (r.prefix, r.cfg, r.src) == k2 and r.phase == lab.phase - 1]
            must_ok(out, recs, "delayed", "another entry's builder hangs")
            for r in recs:
                if r.outcome == "ok" and r.t_ret - r.t_inv > 1.0 + 0.5 * len(recs):
                    out.append(("delayed", "waited {:.1f}s for another entry: {}".format(r.t_ret - r.t_inv, r.brief())))
            label = "hung builder, " + ("same process" if same else "other process")
        bad_pairs(lab, out)
        return from_lab(lab, True, label + (", separate parents" if separate else ", one parent"), out[:3])


# ---------------------------------------------------------------- C10
OUT = MOUNT + "/outside"


def c10(c):
    """Links and special files inside the cache directory."""
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        key = ("sim", "A", "v1")
        lab.build_time = (0.0, 0.02)
        fs.makedirs(OUT)
        lab.spell = False  # links are the subject here
        case_race = c.flag("cfg:race", 0.3) and not w.windows  # no directory can be held open there
        # decoy: a complete, valid entry for this very key, outside the cache
        out = []
        p0 = lab.proc("decoy")
        lab.spawn(p0, lambda: lab.construct(p0, *key, cache_dir=OUT + "/root", calm=True))
        lab.run()
        p0.kill("exit")
        decoy_gen = lab.gen_of(lab.history[-1])
        decoy_b = lab.paths(*key, root=OUT + "/root")
        decoy = {"root": OUT + "/root", "prefix": str(decoy_b.parent.parent), "config": str(decoy_b.parent), "bundle": str(decoy_b.path)}
        fs.put(OUT + "/victim", b"precious")
        fs.put(OUT + "/dir/file", b"precious too")
        pop = c.flag("cfg:pop", 0.75)
        if pop:
            populate(lab, [key], 1 + c.pick("cfg:rounds", 2))
        b = lab.paths(*key)
        root, prefix, config, bundle, lock = (str(b.cache_root), str(b.parent.parent), str(b.parent), str(b.path), str(b.lock_path))
        if c.flag("cfg:halfway", 0.3):
            w.faults_on = True
            w.plan = FaultPlan(kill=0.008)
            p = lab.proc()
            lab.spawn(p, lambda: lab.construct(p, *key, force=True, time=0.0))
            lab.run()
            p.kill("exit")
        w.faults_on = False
        done = []

        def swap(stream):
            """Replaces one thing inside the cache directory by a link or special file."""
            below = [(q, i) for q, i in files_below(lab, root, (FILE, DIR)) if q != root]
            kinds = ["bundle", "lock", "file", "config", "prefix", "residual", "any"]
            k = kinds[c.pick(stream, len(kinds))]
            twin = case_race and c.flag(stream, 0.4)
            if twin:
                k = ("bundle", "file", "file", "config", "prefix")[c.pick(stream, 5)]
            target = {"bundle": bundle, "lock": lock, "config": config, "prefix": prefix}.get(k)
            if k == "file":
                fl = [q for q, i in below if i.kind == FILE and q.startswith(bundle + "/")]
                target = fl[c.pick(stream, len(fl))] if fl else lock
            elif k == "residual":
                rs = [q for q, i in below if i.kind == DIR and os.path.dirname(q) == config and q != bundle]
                target = rs[c.pick(stream, len(rs))] if rs else None
                if target is None:
                    # leftovers named the way the cache names its own
                    base = os.path.basename(bundle)
                    target = config + "/.{}.{}-deadbeef".format(base, ("tmp", "previous", "corrupt")[c.pick(stream, 3)])
            elif k == "any" and below:
                target = below[c.pick(stream, len(below))][0]
            if target is None:
                return
            up = os.path.dirname(target)
            try:
                if fs.node(up) is None:
                    fs.makedirs(up)
            except OSError:
                return
            real = fs.node(root)
            for part in up[len(root):].split("/"):
                # only things inside the cache directory proper
                if part:
                    real = real.entries.get(part) if real is not None and real.kind == DIR else None
            if real is None or real.kind != DIR:
                return
            moved = twin or c.flag(stream, 0.4)
            if fs.node(target) is not None:
                if moved:
                    dst = OUT + "/moved{}".format(len(done))
                    fs.rename(target, dst, None, None)
                else:
                    fs.remove_tree(target)
            what = 5 if twin else c.pick(stream, 6 if w.windows else 7)
            name = os.path.basename(target)
            good = {bundle: decoy["bundle"], config: decoy["config"], prefix: decoy["prefix"]}.get(target)
            if os.path.dirname(target) == bundle:
                good = decoy["bundle"] + "/" + name
            if what in (0, 1):
                to = good or (OUT + "/victim" if name.endswith((".lock", ".fst", ".json")) else OUT + "/dir")
            elif what == 2:
                to = OUT + "/nowhere"
            elif what == 3:
                to = target
            elif what == 4:
                to = OUT + "/dir"
            else:
                to = OUT + "/moved{}".format(len(done)) if moved else OUT + "/victim"
            if what == 6:
                fs.mknod(target, FIFO, None)
                done.append("{} -> FIFO".format(k))
            else:
                fs.symlink(to, target, None)
                there = fs.node(to)
                if w.windows and there is not None and there.kind == DIR:
                    fs.node(target).junction = c.flag(stream, 0.5)
                done.append("{} -> link to {}".format(k, to[len(MOUNT):]))
            w.count("swapped-in " + ("FIFO" if what == 6 else "link"))
            lab.sim.event("swap", done[-1])

        outside_ids = {}

        def note_outside():
            outside_ids.clear()
            n = fs.node(OUT)
            for q, i in fs.iter(n, OUT):
                outside_ids[i.ino] = q

        def on_list(node, inode):
            q = outside_ids.get(inode.ino)
            if q is not None and lab.sim.current is not None and lab.sim.current.node is not None:
                lab.flag_violation("read-outside", "read {} ({})".format(w.label(q), done[-2:]))

        def on_read(node, ofd):
            on_list(node, ofd.inode)

        forces = [c.flag("cfg:force", 0.4) for _ in range(2)]
        if not case_race:
            for _ in range(1 + c.pick("cfg:nswap", 2, 0.3)):
                swap("sw")
            fs.sync_all()
            note_outside()
            before = fs.snapshot(OUT)
            w.on_read = on_read
            w.on_list = on_list
            for i in range(1 + c.pick("cfg:ncon", 2)):
                p = lab.proc(timeout=0.3)
                lab.spawn(p, lambda p=p, i=i: lab.construct(p, *key, force=forces[i], time=0.0))
            lab.run()
            w.on_read = w.on_list = None
            after = fs.snapshot(OUT)
            if after != before:
                diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))[:4]
                out.append(("changed-outside", "changed {} ({})".format([w.label(d) for d in diff], done)))
            for r in lab.history[1:]:
                if r.outcome == "hung":
                    out.append(("hung", "{} ({})".format(r.brief(), done)))
            label = "at rest"
        else:

            last_open = {}
            aimed = c.flag("cfg:aimed", 0.6)
            counts = [0, c.pick("cfg:spot", 70)]

            def on_open(node, ofd):
                t = lab.sim.current
                name = os.path.basename(ofd.path)
                if t is not None and t.info.get("rec") is not None and name in ("tagger.fst", "verbalizer.fst", "manifest.json"):
                    last_open.setdefault(t.info["rec"].id, {})[name] = (ofd.linked, ofd.path)

            def watch(node, kind, path):
                # the swap happens just before the chosen system call takes effect
                if isinstance(path, str) and path.startswith(root):
                    counts[0] += 1
                    if counts[0] - 1 == counts[1]:
                        swap("sw")

            def swapper():
                for _ in range(1 + c.pick("sw", 3)):
                    lab.sim.sleep(c.of("sw", (0.000005, 0.00002, 0.00005, 0.0001, 0.0002, 0.001, 0.01)))
                    swap("sw")

            w.on_open = on_open
            if aimed:
                w.watch = watch
            else:
                lab.sim.spawn(swapper, "swapper", None, daemon=True)
            for i in range(1 + c.pick("cfg:ncon", 2)):
                p = lab.proc(timeout=0.3)
                lab.spawn(p, lambda p=p, i=i: lab.construct(p, *key, force=forces[i], time=0.0))
            lab.run()
            w.on_open = w.watch = None
            for r in lab.history[1:]:
                via = [w.label(p) for linked, p in last_open.get(r.id, {}).values() if linked]
                if r.outcome == "ok" and via:
                    out.append(("served-linked", "{} read {} through a link ({})".format(r.brief(), via, done)))
            label = "racing"
        for r in lab.history[1:]:
            if r.outcome == "ok" and decoy_gen in (r.sig[0] or "").split("|")[3:] + (r.sig[1] or "").split("|")[3:]:
                out.append(("served-linked", "{} ({})".format(r.brief(), done)))
        bad_pairs(lab, out)
        escapes(lab, out)
        o = from_lab(lab, bool(done), label, out[:3])
        o.sample["swaps"] = done
        return o


# ---------------------------------------------------------------- C11
def c11(c):
    """After any history, one clean build leaves just a first-ever build's files."""
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        fsmode(lab, c)
        lab.split_build = c.flag("cfg:split", 0.3)
        key = ("sim", "A", "v1")
        lab.p_build_fail = c.of("cfg:pbf", (0.0, 0.2), 0.3)
        out = []
        if c.flag("cfg:pop", 0.4):
            populate(lab, [key], 1 + c.pick("cfg:rounds", 2))
        for ph in range(1 + c.pick("cfg:phases", 4)):
            w.faults_on = True
            w.plan = FaultPlan(**rates(c, "cfg:f", read=(0, .01), mut=(.01, 0, .05), lock=(0, .03), kill=(.003, 0, .006),
                                       power=(0, .001), intr=(0, .003), stall=(0, .01), short=(0, .1)))
            for i in range(1 + c.pick("cfg:nproc", 3)):
                p = lab.proc(timeout=5.0)
                lab.spawn(p, lambda p=p: lab.construct(p, *key, force=c.flag("cfg:force", 0.7), time=0.0))
            if c.flag("cfg:disk", 0.15):
                _spawn_disk(lab, c)
            lab.run()
            w.full = w.readonly = False
            if w.powered_off:
                lab.reboot()
            for p in w.procs:
                p.kill("exit")
            if c.flag("cfg:dmg", 0.2):
                _any_damage(lab, c, "rest", {}, [f for f in files_below(lab, ROOT)])
        lab.p_build_fail = 0.0
        b = lab.paths(*key)
        left = [n for n in (sorted(fs.node(str(b.parent)).entries) if fs.node(str(b.parent)) else [])]
        dirs = [n for n in left if n != b.path.name and fs.node(str(b.parent / n)).kind == DIR]
        if dirs and c.flag("cfg:clones", 0.4):  # many crashes of the same kind
            like = dirs[c.pick("cfg:like", len(dirs))]
            for i in range(c.of("cfg:nclones", (2, 5, 15, 60))):
                name = "{}{:04d}".format(like[:-4], i)
                if name not in left:
                    fs.makedirs(str(b.parent / name))
                    for q, n in files_below(lab, str(b.parent / like)):
                        fs.put(str(b.parent / name) + q[len(str(b.parent / like)):], bytes(n.data))
                    left.append(name)
            w.count("many leftovers")
        kept = None
        if c.flag("cfg:kept", 0.3):  # somebody's file in one leftover: that one stays, and only that one
            dirs = [n for n in left if n != b.path.name and fs.node(str(b.parent / n)).kind == DIR]
            if dirs:
                kept = fs.put("{}/{}/notes.txt".format(b.parent, dirs[c.pick("cfg:where", len(dirs))]), b"mine")
                w.count("foreign file in a leftover")
        r = lab.calm_construct(*key, force=c.flag("cfg:lastforce", 0.6))
        must_ok(out, [r], "failed", "clean constructor")
        nontrivial = len(left) > 2 or any(x.outcome != "ok" for x in lab.history)
        if r.outcome == "ok" and r.builds:
            v = lab.proc("virgin")
            lab.spawn(v, lambda: lab.construct(v, *key, cache_dir=HOME + "/virgin", calm=True))
            lab.run()
            vb = lab.paths(*key, root=HOME + "/virgin")
            got, want = names_below(lab, str(b.cache_root)), names_below(lab, str(vb.cache_root))
            if kept is not None:
                held = [p.rsplit("/", 1)[0] for p, i in fs.iter(fs.node(str(b.cache_root)), "") if i is kept]
                got = [p for p in got if not any(p == h or p.startswith(h + "/") for h in held)]
            if got != want:
                extra = [w.label(x) for x in sorted(set(got) - set(want))]
                missing = [w.label(x) for x in sorted(set(want) - set(got))]
                out.append(("leftovers", "after a clean build: extra {} missing {}".format(extra[:6], missing[:6])))
        o = from_lab(lab, nontrivial, "leftovers {}".format(min(6, max(0, len(left) - 2))), out[:3])
        return o


def names_below(lab, root):
    n = lab.fs.node(root)
    return sorted(p for p, i in lab.fs.iter(n, "")) if n is not None else []


# ---------------------------------------------------------------- C12
FOREIGN = ("notes.txt", "README", ".hidden", "tagger.fst.bak", "backup.tar", "zh_tn_tagger.fst", "data.json", ".lock", "x.lock", ".DS_Store",
           "Thumbs.db", "desktop.ini", "CACHEDIR.TAG", "manifest.json~", ".manifest.json.swp", "manifest.json.tmp", "tagger.fst.tmp",
           "verbalizer.fst.old", ".nfs000000000001", "core", "tmpk3x9", "TAGGER.FST", "manifest", "__pycache__", ".gitkeep")


def c12(c):
    """Files and directories the cache did not create survive anything it does."""
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        fsmode(lab, c, ("ext4",))
        key = ("sim", "A", "v1")
        lab.p_build_fail = c.of("cfg:pbf", (0.0, 0.2), 0.3)
        foreign = {}

        def plant(stream):
            dirs = [q for q, i in files_below(lab, ROOT, (DIR,)) if not any(("/.mine" in q, "/mine" in q))] or [ROOT]
            d = dirs[c.pick(stream, len(dirs))]
            name = FOREIGN[c.pick(stream, len(FOREIGN))]
            fs.makedirs(d)
            if fs.node(d + "/" + name) is not None:
                return
            if c.flag(stream, 0.4):
                sub = d + "/mine{}".format(len(foreign))
                content = "dir {}".format(len(foreign)).encode()
                n = fs.put(sub + "/" + name, content)
                lab.notes.append("foreign " + w.label(sub + "/" + name))
            else:
                content = b"" if c.flag(stream, 0.2) else "file {}".format(len(foreign)).encode()
                n = fs.put(d + "/" + name, content)
                lab.notes.append("foreign " + w.label(d + "/" + name))
            foreign[n.ino] = (n, content, lab.notes[-1])
            w.count("foreign file")

        fs.makedirs(ROOT)
        if c.flag("cfg:pop", 0.6):
            populate(lab, [key], 1 + c.pick("cfg:rounds", 2))
        if c.flag("cfg:halfway", 0.5):
            for _ in range(1 + c.pick("cfg:nhalf", 2)):
                w.faults_on = True
                w.plan = FaultPlan(kill=0.008)
                p = lab.proc()
                lab.spawn(p, lambda p=p: lab.construct(p, *key, force=True, time=0.0))
                lab.run()
                p.kill("exit")
        for _ in range(1 + c.pick("cfg:nplant", 4)):
            plant("pl")
        if c.flag("cfg:racing", 0.3):

            def planter():
                for _ in range(1 + c.pick("pl", 3)):
                    lab.sim.sleep(c.of("pl", (0.00005, 0.0002, 0.001, 0.02)))
                    plant("pl")

            lab.sim.spawn(planter, "planter", None, daemon=True)
        out = []
        for ph in range(1 + c.pick("cfg:phases", 3)):
            w.faults_on = True
            w.plan = FaultPlan(**rates(c, "cfg:f", read=(0, .02), mut=(0, .01, .05), kill=(0, .003), intr=(0, .003), stall=(0, .01),
                                       lock=(0, .03)))
            for i in range(1 + c.pick("cfg:nproc", 2)):
                p = lab.proc(timeout=5.0)
                k = key if c.flag("cfg:same", 0.85) else ("sim", "A", "v2")
                lab.spawn(p, lambda p=p, k=k: lab.construct(p, *k, force=c.flag("cfg:force", 0.5), time=0.0))
            lab.run()
            for p in w.procs:
                p.kill("exit")
            if c.flag("cfg:more", 0.3):
                plant("pl")
        lab.p_build_fail = 0
        if c.flag("cfg:calm", 0.7):
            lab.calm_construct(*key, force=c.flag("cfg:cforce"))
            lab.calm_construct(*key, force=c.flag("cfg:cforce"))
        reach = {i.ino: q for q, i in fs.iter(fs.node(ROOT), ROOT)}
        for ino, (n, content, what) in sorted(foreign.items()):
            if ino not in reach:
                out.append(("deleted-foreign", "{} was deleted".format(what)))
            elif bytes(n.data) != content:
                out.append(("altered-foreign", "{} was altered".format(what)))
        bad_pairs(lab, out)
        return from_lab(lab, bool(foreign), "foreign files", out[:3])


# ---------------------------------------------------------------- C13
def c13(c):
    return (c13_hit, c13_hung, c13_off)[c.pick("cfg:case", 3)](c)


def _keep_entry(lab):
    return lab.fs.snapshot(ROOT)


def c13_hit(c):
    """A hit needs no write, no lock, and works on a read-only disk."""
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        keys = [("sim", "A", "v1")]
        if c.flag("cfg:two", 0.4):
            keys.append(("sim", "B", "v1"))
        populate(lab, keys, 1 + c.pick("cfg:rounds", 2))
        if c.flag("cfg:reboot", 0.3):
            w.power_off()
            lab.reboot()
        kind = c.pick("cfg:disk", 4)
        if kind == 1:
            w.readonly = True
        elif kind == 2:
            w.full = True
        elif kind == 3:
            w.plan = FaultPlan(mut=1.0, lock=1.0)
            w.faults_on = True
        if kind != 3:
            w.plan = FaultPlan(**rates(c, "cfg:f", stall=(0, .02), short=(0, .2)))
            w.faults_on = True
        # leftovers of a crashed writer of the same entry do not matter either
        before = fs.mutations
        snap = fs.snapshot(MOUNT)
        n0 = len(lab.history)
        for i in range(1 + c.pick("cfg:nproc", 3)):
            p = lab.proc()
            for j in range(1 + c.pick("cfg:nthr", 2, 0.3)):
                k = keys[c.pick("cfg:which", len(keys))]
                lab.spawn(p, lambda p=p, k=k: [lab.construct(p, *k) for _ in range(1 + c.pick("cfg:again", 2, 0.3))])
        lab.run()
        out = []
        recs = lab.history[n0:]
        must_ok(out, recs, "hit-failed", "entry stored intact, disk {}".format(("fine", "read-only", "full", "failing writes")[kind]))
        for r in recs:
            if r.builds:
                out.append(("hit-built", r.brief()))
        if fs.mutations != before or fs.snapshot(MOUNT) != snap:
            out.append(("hit-wrote", "a cache hit changed the file system"))
        for p in w.procs:
            if p.name.startswith("fresh"):
                continue
            if p.mut_ops:
                out.append(("hit-wrote", "{} attempted {} modifying operations during hits".format(p.name, p.mut_ops)))
            if p.lock_ops:
                out.append(("hit-locked", "{} took a lock during a hit".format(p.name)))
        bad_pairs(lab, out)
        return from_lab(lab, True, "hit, disk " + ("fine", "read-only", "full", "failing writes")[kind], out[:3])


def c13_hung(c):
    """Hits return promptly while a forced builder of the same entry hangs."""
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        key = ("sim", "A", "v1")
        populate(lab, [key], 1 + c.pick("cfg:rounds", 2))
        # crash leftovers make the forced builder do more work first
        for _ in range(c.pick("cfg:half", 2, 0.3)):
            w.plan = FaultPlan(kill=0.006)
            p = lab.proc()
            lab.spawn(p, lambda p=p: lab.construct(p, *key, force=True, time=0.0))
            lab.run()
            p.kill("exit")
        lab.calm_construct(*key)
        w.faults_on = True
        w.plan = FaultPlan()
        how = c.pick("cfg:how", 2)
        a = lab.proc()
        b = lab.paths(*key)
        bundle = str(b.path)
        stuck = []
        if how == 0:
            lab.spawn(a, lambda: lab.construct(a, *key, force=True, time="hang"), daemon=True)
        else:
            # stuck in the file system while writing: some operation never returns
            at = 1 + c.pick("cfg:stuckat", 60)

            def watch(node, kind, path):
                if node is a and not stuck and kind in ("write", "fsync", "open_w", "mkdir", "read", "stat", "list", "truncate"):
                    node.stuck = getattr(node, "stuck", 0) + 1 if hasattr(node, "stuck") else 1
                    if node.stuck >= at and fs.node(bundle) is not None:
                        stuck.append(kind)
                        lab.sim.event("stuck", kind)
                        w.count("stuck@" + kind)
                        lab.sim.sleep(1e5)

            w.watch = watch
            lab.spawn(a, lambda: lab.construct(a, *key, force=True, time=0.0), daemon=True)
        same = c.flag("cfg:same", 0.3)
        recs = []
        muts = {}
        for i in range(1 + c.pick("cfg:nread", 3)):
            p = a if same else lab.proc()

            def body(p=p, i=i):
                lab.sim.sleep(c.of("d:{}".format(i), (0.1, 1.0, 0.3)))
                recs.append(lab.construct(p, *key))
                muts[p.name] = p.mut_ops

            lab.spawn(p, body)
        lab.sim.max_time = lab.sim.now + 5e4
        lab.run()
        w.watch = None
        out = []
        mine = [r for r in lab.history if not r.force and r.phase == lab.phase - 1]
        must_ok(out, mine, "hit-waited", "a forced builder of the same entry is stuck")
        for r in mine:
            if r.outcome == "ok" and r.t_ret - r.t_inv > 0.5 + (1.0 if same else 0):
                out.append(("hit-waited", "took {:.2f}s: {}".format(r.t_ret - r.t_inv, r.brief())))
        if not same:
            for n, m in sorted(muts.items()):
                if m:
                    out.append(("hit-wrote", "{} made {} modifications".format(n, m)))
        bad_pairs(lab, out)
        return from_lab(lab, how == 0 or bool(stuck), "hit beside stuck builder", out[:3])


def c13_off(c):
    """With caching disabled, no cache file is touched and nothing can fail."""
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        key = ("sim", "A", "v1")
        state = c.pick("cfg:state", 5)
        if state == 1:
            populate(lab, [key])
        elif state == 2:
            fs.put(ROOT, b"a file where the cache directory should be")
        elif state == 3:
            fs.symlink(ROOT, ROOT, None)
        elif state == 4:
            fs.remove_tree(HOME)
        kind = c.pick("cfg:disk", 4)
        if kind == 1:
            w.readonly = True
        elif kind == 2:
            w.full = True
        elif kind == 3:
            w.plan = FaultPlan(mut=1.0, lock=1.0, read=1.0)
        w.faults_on = True
        touched = []
        w.watch = lambda node, k, path: touched.append((k, w.label(path))) if k not in ("build", "sleep") else None
        n0 = len(lab.history)
        hang = state == 1 and c.flag("cfg:hang", 0.3)
        for i in range(1 + c.pick("cfg:nproc", 3)):
            p = lab.proc()
            lab.spawn(p, lambda p=p, f=c.flag("cfg:force", 0.3): lab.construct(p, *key, cache_dir=False, force=f, time=0.0))
        lab.run()
        w.watch = None
        out = []
        recs = lab.history[n0:]
        must_ok(out, recs, "uncached-failed", "caching disabled")
        for r in recs:
            if r.outcome == "ok" and not r.builds:
                out.append(("uncached-loaded", r.brief()))
        if touched:
            out.append(("uncached-touched", "touched {}".format(touched[:4])))
        bad_pairs(lab, out)
        return from_lab(lab, True, "caching disabled", out[:3])


# ---------------------------------------------------------------- C14
def c14(c):
    """No descriptor or lock outlives a constructor."""
    import gc
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        key = ("sim", "A", "v1")
        populate(lab, [key]) if c.flag("cfg:pop", 0.5) else None
        w.faults_on = True
        w.plan = FaultPlan(**rates(c, "cfg:f", read=(.01, 0, .05), mut=(.01, 0, .06), lock=(0, .1), short=(0, .2), intr=(0, .004, .03)))
        lab.p_build_fail = c.of("cfg:pbf", (0.0, 0.4), 0.4)
        p = lab.proc(timeout=c.of("cfg:tmo", (0.5, 0.0, 0.05)))
        rival = None
        busy = c.flag("cfg:busy", 0.25)
        if busy:
            rival = lab.proc()
            rival.faults_on = False
            lab.spawn(rival, lambda: lab.construct(rival, *key, force=True, time=30.0), daemon=True)
        b = lab.paths(*key)
        out = []
        failed = []
        held0 = p.held()
        fds0 = {}

        def hostile():
            kind = c.pick("h", 9, 0.6)
            bundle = str(b.path)
            files = files_below(lab, bundle)
            if kind in (1, 2, 3) and files:
                path, inode = files[c.pick("h", len(files))]
                damage_file(lab, c, "h", path, inode)
                w.count("damage")
            elif kind == 4 and fs.node(bundle) is not None:
                fs.remove_tree(bundle)
                fs.symlink("/simfs/outside", bundle, None)
                w.count("hostile link")
            elif kind == 5 and fs.node(bundle) is not None:
                fs.remove_tree(bundle)
                fs.put(bundle, b"file in the way")
                w.count("hostile file")
            elif kind == 6 and fs.node(str(b.lock_path)) is not None and not busy:
                fs.remove_tree(str(b.lock_path))
                fs.makedirs(str(b.lock_path))
                w.count("hostile lock directory")
            elif kind == 7 and fs.node(bundle) is not None and fs.node(bundle).kind == DIR:
                fs.put(bundle + "/foreign", b"x")
                w.count("hostile extra file")
            elif kind == 8 and files:
                path, inode = files[c.pick("h", len(files))]
                fs.unlink(path, None)
                fs.symlink("/simfs/outside/x", path, None)
                w.count("hostile link")
            return kind

        def unhostile():
            for q, n in files_below(lab, ROOT, (LINK, FIFO)):
                fs.remove_tree(q)
            for q in (str(b.path), str(b.lock_path)):
                n = fs.node(q)
                if n is not None and ((q == str(b.path)) != (n.kind == DIR)):
                    fs.remove_tree(q)

        def body():
            if busy:
                lab.sim.sleep(0.05)
            for i in range(2 + c.pick("cfg:ncon", 5)):
                hostile()
                fds = dict(p.fds)
                r = lab.construct(p, *key, force=c.flag("cfg:force", 0.5), time=0.0)
                if r.outcome == "exc":
                    failed.append(r)
                gc.collect()
                new = [w.label(o.path) for fd, o in p.fds.items() if fds.get(fd) is not o]
                if new:
                    out.append(("leaked-fd", "open after {}: {}".format(r.brief(), new)))
                    return
                locks = [h for h in p.held() if "lock" in h.split(" ")[0] or h.startswith(("flock", "record"))]
                if locks:
                    out.append(("leaked-lock", "held after {}: {}".format(r.brief(), locks)))
                    return
                unhostile()

        lab.spawn(p, body)
        lab.run()
        if rival is not None:
            rival.kill("exit")
        lab.quiet()
        unhostile()
        if not out:
            lab.spawn(p, lambda: lab.construct(p, *key, force=True, calm=True))
            lab.run()
            must_ok(out, [lab.history[-1]], "retry-failed", "retry once everything works again")
        bad_pairs(lab, out)
        return from_lab(lab, bool(failed), "retries", out[:3])
