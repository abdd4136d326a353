"""C15 and C16: the source fingerprint and what is stored under it."""

import hashlib
import os

from lab import HOME, ROOT, FaultPlan
from node import SITE
from outcome import from_lab
from scen import bad_pairs, mk, must_ok, rates
from simcore import SimAbort, SimKilled
from simfs import DIR, FILE, MOUNT

D1 = SITE + "/tn/chinese/data/number/d1.tsv"
D2 = SITE + "/itn/chinese/data/d2.tsv"
CODE = SITE + "/tn/chinese/rules/code.py"


class Site:
    """The installed source tree and every state it was ever in."""

    def __init__(self, lab):
        self.lab = lab
        self.n = 0
        self.states = []  # (event number from which it held, state)
        fs = lab.fs
        for rel in ("tn/__init__.py", "tn/cache.py", "tn/processor.py", "itn/__init__.py", "itn/main.py"):
            fs.put(SITE + "/" + rel, ("# " + rel + "\n").encode())
        fs.put(SITE + "/tn/test/ignored.py", b"t0")
        fs.put(SITE + "/tn/notes.md", b"n0")
        self.write(D1, "d1-0")
        self.write(D2, "d2-0")
        self.write(CODE, "c-0")
        self.note()

    def current(self):
        g = lambda p: (self.lab.fs.get(p) or b"").decode("utf-8", "replace")  # noqa
        return (g(D1), g(D2), g(CODE))

    def write(self, path, text):
        """Atomic replacement, as editors and installers do."""
        tmp = path + ".new~"
        self.lab.fs.put(tmp, text.encode())
        self.lab.fs.rename(tmp, path, None, None)

    def fresh(self, kind):
        self.n += 1
        return "{}-{}".format(kind, self.n)

    def note(self):
        s = self.current()
        if not self.states or self.states[-1][1] != s:
            self.states.append((self.lab.tick(), s))
            self.lab.sim.event("tree", *s)

    def during(self, inv, ret):
        """States that held at some instant of [inv, ret]."""
        out = []
        for i, (at, s) in enumerate(self.states):
            end = self.states[i + 1][0] if i + 1 < len(self.states) else float("inf")
            if at <= ret and end >= inv:
                out.append(s)
        return out

    def set_state(self, s):
        for p, v in zip((D1, D2, CODE), s):
            if (self.lab.fs.get(p) or b"").decode("utf-8", "replace") != v:
                self.write(p, v)
        self.note()


def _data_reader(lab, c, calm=False):

    def data(toy):
        """Reads the rule data the way grammars do: one file, some work, the next."""
        proc = lab.sim.current.node
        with open(D1, encoding="utf-8") as f:
            a = f.read()
        if not calm:
            d = c.of("work:" + toy.rec.task, (0.0, 0.0003, 0.02, 0.2))
            if d:
                lab.sim.sleep(d)
        with open(D2, encoding="utf-8") as f:
            b = f.read()
        return "{}+{}+{}".format(a, b, proc.code_version)

    return data


def _staged(lab, p):
    """Loads the code into p, noting the version it imported."""
    if p.toy is None:
        base_load = lab.load(p)
        code = lab.fs.get(CODE)
        p.code_version = (code or b"").decode()
        p.stage = "loaded"

        class Staged(base_load):

            def _source_fingerprint(self, prefix):
                v = super()._source_fingerprint(prefix)
                if p.stage == "loaded":
                    p.stage = "fingerprinted"
                return v

        p.toy = Staged
    return p.toy


def _src_ok(lab, rec):
    """(state tuple of the served graphs) or None when they are not a pair."""
    if rec.sig[0] != rec.sig[1] or rec.sig[0] is None:
        return None
    parts = rec.sig[0].split("|")
    return tuple(parts[2].split("+")) if len(parts) == 4 else None


def c15(c):
    """Edits at any moment; stored graphs always match their source version."""
    if c.flag("cfg:pipes", 0.06):
        import props_b
        return props_b.c15_pipes(c)
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        lab.real_fp = True
        lab.build_time = (0.0, 0.02, 0.3)
        site = Site(lab)
        w.read_chunk = c.of("cfg:chunk", (1 << 30, 3), 0.2)
        out = []
        edits = [0]
        loaded = []

        def may_edit_code():
            return all(p.dead or getattr(p, "stage", None) in (None, "fingerprinted", "done") for p in loaded)

        def edit(stream):
            kind = c.pick(stream, 7)
            if kind in (0, 1):
                site.write(D1, site.fresh("d1"))
                site.note()
            elif kind in (2, 3):
                site.write(D2, site.fresh("d2"))
                site.note()
            elif kind == 4:
                if not may_edit_code():
                    return
                site.write(CODE, site.fresh("c"))
                site.note()
            elif kind == 5:
                # an upgrade: several files, one after the other
                site.write(D1, site.fresh("d1"))
                site.note()
                if lab.sim.current is not None:
                    lab.sim.sleep(c.of(stream, (0.0001, 0.001, 0.05)))
                site.write(D2, site.fresh("d2"))
                site.note()
                if may_edit_code():
                    site.write(CODE, site.fresh("c"))
                    site.note()
            else:
                fs.put(SITE + "/tn/test/ignored.py", site.fresh("t").encode())
            edits[0] += 1
            w.count("source edit")
            w.fault_log.append((round(lab.sim.now, 6), "editor", "edit", "", "/".join(site.current())))

        for ph in range(1 + c.pick("cfg:phases", 3)):
            w.faults_on = True
            w.plan = FaultPlan(**rates(c, "cfg:f", stall=(.02, 0, .08), kill=(0, .001), short=(0, .1), read=(0, .004)))
            w.plan.stalls = (0.0003, 0.004, 0.06, 0.3)
            editing = c.flag("cfg:edit", 0.85)
            if ph and c.flag("cfg:revert", 0.3):
                site.set_state(site.states[c.pick("cfg:to", len(site.states))][1])
            for i in range(1 + c.pick("cfg:nproc", 3)):
                p = lab.proc()
                p.stage = None
                loaded.append(p)
                again = c.pick("cfg:again", 3, 0.4)
                todo = [c.flag("cfg:force", 0.35) for _ in range(1 + again)]

                def body(p=p, todo=todo, i=i):
                    d = c.of("d:{}".format(i), (0.0, 0.001, 0.05, 0.3), 0.5)
                    if d:
                        lab.sim.sleep(d)
                    _staged(lab, p)
                    if len(todo) > 1:
                        p.stage = "busy"  # imports stay: its code must not be edited any more
                    for force in todo:
                        lab.construct(p, "sim", "A", "-", force=force, data=_data_reader(lab, c))
                    if p.stage != "busy":
                        p.stage = "done"

                lab.spawn(p, body)
            if editing:

                def editor():
                    for _ in range(1 + c.pick("e", 4)):
                        lab.sim.sleep(c.of("e", (0.00002, 0.0001, 0.0003, 0.001, 0.01, 0.1, 0.3)))
                        edit("e")

                lab.sim.spawn(editor, "editor", None, daemon=True)
            lab.run()
            for p in w.procs:
                p.kill("exit")
            loaded.clear()
            if c.flag("cfg:restedit", 0.4):
                edit("r")
        # consistency of what constructors returned
        seen = {s for _, s in site.states}
        for r in lab.history:
            if r.outcome != "ok":
                continue
            got = _src_ok(lab, r)
            if got is None:
                out.append(("mixed", r.brief()))
            elif got not in seen:
                out.append(("inconsistent", "result {} matches no version of the sources: {}".format(got, r.brief())))
            elif got not in site.during(r.inv, r.ret):
                out.append(("stale", "result {} was not current during the call {}".format(got, r.brief())))
        # nothing poisoned: for each version, a fresh process gets exactly it
        w.faults_on = False
        w.read_chunk = 1 << 30
        states = list(dict.fromkeys(s for _, s in site.states))
        for s in states[-6:]:
            site.set_state(s)
            p = lab.proc()

            def body(p=p):
                _staged(lab, p)
                lab.construct(p, "sim", "A", "-", calm=True, data=_data_reader(lab, c, True))

            lab.spawn(p, body)
            lab.run()
            r = lab.history[-1]
            must_ok(out, [r], "failed", "constructor for an unchanging source tree")
            if r.outcome == "ok" and _src_ok(lab, r) != s:
                out.append(("poisoned", "version {} is stored with graphs of {}: {}".format(s, _src_ok(lab, r), r.brief())))
            p.kill("exit")
        return from_lab(lab, edits[0] > 0, "edits {}".format(min(edits[0], 6)), out[:3])


def c15_known(c):
    """Directed: code imported before an upgrade, constructor started after it."""
    with mk(c) as lab:
        lab.real_fp = True
        site = Site(lab)
        lab.w.faults_on = False
        old = lab.proc()

        def first():
            _staged(lab, old)
            lab.sim.sleep(1.0)  # the upgrade happens here
            lab.construct(old, "sim", "A", "-", calm=True, data=_data_reader(lab, c, True))

        def upgrade():
            lab.sim.sleep(0.5)
            site.write(CODE, "c-new")
            site.note()

        lab.spawn(old, first)
        lab.sim.spawn(upgrade, "upgrade", None, daemon=True)
        lab.run()
        old.kill("exit")
        new = lab.proc()

        def second():
            _staged(lab, new)
            lab.construct(new, "sim", "A", "-", calm=True, data=_data_reader(lab, c, True))

        lab.spawn(new, second)
        lab.run()
        r = lab.history[-1]
        out = []
        if r.outcome == "ok" and _src_ok(lab, r) != site.current():
            out.append(("stale-import", "a process that imported {} before an upgrade to {} stored its graphs under the new version".format(
                _src_ok(lab, r), site.current())))
        return from_lab(lab, True, "stale import", out)


# ---------------------------------------------------------------- C16
SUFFIXES = (".py", ".tsv", ".far")


def canonical(tree):
    """The reference meaning of a source tree: its production files by path and content."""
    out = {}
    for rel, data in tree.items():
        parts = rel.split("/")
        if parts[0] not in ("tn", "itn") or len(parts) < 2:
            continue
        if os.path.splitext(parts[-1])[1] not in SUFFIXES or parts[-1] == "_version.py":
            continue
        if "test" in parts[1:] or "__pycache__" in parts[1:]:
            continue
        out[rel] = data
    return out


NAMES = ("a.py", "b.tsv", "c.far", "rules.py", "data.tsv", "tests.py", ".hidden.tsv", "d e.tsv", "\u4e2d.tsv", "main.py", "x.tar.far",
         "a.tsv", "ab.py")
DIRS = ("tn", "itn", "tn/data", "tn/chinese", "tn/chinese/data", "itn/x", "itn/x/y/z", "tn/tests", "tn/data.py", "tn/a")
EXTRA = ("tn/test/t.py", "itn/x/test/t.tsv", "tn/__pycache__/c.py", "tn/_version.py", "README.md", "setup.py", "tn/notes.txt", "runtime/a.py",
         "tn/data.tsv.bak", "tnx/a.py", "test/a.py")


SIZES = (0, 4096, 8192, 65536, 70000, 1 << 18, 1 << 20, (1 << 20) + 9, 3 << 20)  # around usual read and hash sizes


def gen_tree(c):
    tree = {}
    for _ in range(1 + c.pick("t", 7)):
        rel = DIRS[c.pick("t", len(DIRS))] + "/" + NAMES[c.pick("t", len(NAMES))]
        n = c.pick("t", 6)
        body = bytes(c.pick("t", 256) for _ in range(min(n, 4))) + (b"line\n" * (300 if n == 5 else n))
        big = c.pick("cfg:big", len(SIZES), 0.02)
        tree[rel] = body + bytes(SIZES[big])
    for _ in range(c.pick("t", 3)):
        tree[EXTRA[c.pick("t", len(EXTRA))]] = b"extra%d" % c.pick("t", 9)
    return _consistent(tree)


def _consistent(tree):
    """Drops files whose path runs through another file."""
    return {r: d for r, d in tree.items() if not any(o != r and r.startswith(o + "/") for o in tree)}


def encode_path(rel):
    p = rel.encode()
    return len(p).to_bytes(8, "big") + p


def mutate_tree(c, tree):
    """A neighbour of tree, often one a weak fingerprint confuses with it."""
    t = dict(tree)
    rels = sorted(t)
    kind = c.pick("m", 14)
    r = rels[c.pick("m", len(rels))] if rels else None
    r2 = rels[c.pick("m", len(rels))] if rels else None
    if kind == 0:
        return "same", t
    if kind == 1 and r:  # one byte
        d = bytearray(t[r])
        if d:
            at = c.pick("m", len(d))
            d[-1 if len(d) > 4000 and c.pick("m", 2) else at] ^= 1 << c.pick("m", 8)
            t[r] = bytes(d)
        return "byte", t
    if kind == 2 and len(rels) > 1 and r != r2:  # content moves across a file boundary
        i, j = sorted((rels.index(r), rels.index(r2)))
        a, b = rels[i], rels[j]
        k = c.pick("m", len(t[a]) + 1)
        t[a], t[b] = t[a][:k], t[a][k:] + t[b]
        return "boundary", t
    if kind == 3 and len(rels) > 1 and r != r2:
        t[r], t[r2] = t[r2], t[r]
        return "swap contents", t
    if kind == 4 and r:
        new = DIRS[c.pick("m", len(DIRS))] + "/" + NAMES[c.pick("m", len(NAMES))]
        d = t.pop(r)
        t.setdefault(new, d)
        return "rename", _consistent(t)
    if kind == 5 and r:
        del t[r]
        return "remove", t
    if kind == 6:
        t.setdefault(DIRS[c.pick("m", len(DIRS))] + "/" + NAMES[c.pick("m", len(NAMES))], b"")
        return "add empty", _consistent(t)
    if kind == 7 and len(rels) > 1:
        # a file whose content mimics the encoding of the next file
        prod = sorted(canonical(t))
        if len(prod) > 1:
            i = c.pick("m", len(prod) - 1)
            a, b = sorted(prod, key=lambda x: x.split("/"))[i:i + 2]
            t[a] = t[a] + encode_path(b) + t[b]
            del t[b]
        return "mimic length-prefixed path", t
    if kind == 8 and len(rels) > 1:
        prod = sorted(canonical(t), key=lambda x: x.split("/"))
        if len(prod) > 1:
            i = c.pick("m", len(prod) - 1)
            a, b = prod[i:i + 2]
            sep = (b"", b"\0", b"\n", b":")[c.pick("m", 4)]
            t[a] = t[a] + sep + b.encode() + sep + t[b]
            del t[b]
        return "mimic plain path", t
    if kind == 9:
        e = EXTRA[c.pick("m", len(EXTRA))]
        if e in t:
            del t[e]
        else:
            t[e] = b"whatever"
        return "irrelevant file", _consistent(t)
    if kind == 10 and r:  # path split between name and content
        base, ext = os.path.splitext(r)
        return "name/content shift", _consistent(dict({k: v for k, v in t.items() if k != r}, **{
            base[:-1] + ext if len(os.path.basename(base)) > 1 else base + "x" + ext: base[-1:].encode() + t[r]
        }))
    if kind == 11 and r:
        t[r] = t[r].replace(b"\n", b"\r\n") if b"\n" in t[r] else t[r] + b"\n"
        return "line endings", t
    if kind == 12 and r:
        t[r] = t[r] + (b"\0" if c.pick("m", 2) else b" ")
        return "trailing byte", t
    if kind == 13 and r:  # move between packages
        new = ("itn" + r[2:]) if r.startswith("tn/") else ("tn" + r[3:] if r.startswith("itn/") else r)
        d = t.pop(r)
        t[new] = d
        return "other package", _consistent(t)
    return "same", t


def lay(lab, root, tree, c):
    fs = lab.fs
    fs.makedirs(root)
    order = sorted(tree)
    if c.flag("lay", 0.5):
        order.reverse()
    linked = c.pick("cfg:linked", len(order) + 1, 0.12)  # one file is a link to its content elsewhere
    for i, rel in enumerate(order):
        if i + 1 == linked:
            fs.put(root + ".elsewhere", tree[rel])
            fs.makedirs(os.path.dirname(root + "/" + rel))
            fs.symlink(root + ".elsewhere", root + "/" + rel, None)
        else:
            fs.put(root + "/" + rel, tree[rel])
    for d in DIRS[:2]:
        if c.flag("lay", 0.9):
            fs.makedirs(root + "/" + d)


def c16(c):
    """Equal fingerprints exactly for equal trees; any read error is raised."""
    with mk(c) as lab:
        w, fs = lab.w, lab.fs
        ta = gen_tree(c)
        how, tb = mutate_tree(c, ta)
        lay(lab, MOUNT + "/ta", ta, c)
        lab.sim.now += 1000.0 * c.pick("age", 5)
        lay(lab, MOUNT + "/tb", tb, c)
        big = any(len(d) > 4000 for d in ta.values())
        p = lab.proc()
        res = {}

        def fp(tag, root):
            try:
                res[tag] = ("ok", fn(root))
            except (SimKilled, SimAbort):
                raise
            except Exception as e:
                res[tag] = ("exc", "{}: {}".format(type(e).__name__, e))

        def body():
            nonlocal fn
            fn = lab.module(p, "tn.cache").production_source_fingerprint
            w.faults_on = False
            fp("a", MOUNT + "/ta")
            fs.list_salt = c.pick("salt", 5)
            w.read_chunk = c.of("cfg:chunk", (1 << 30, 40000, 65536, 1000000) if big else (1 << 30, 1, 5, 64))
            fp("b", MOUNT + "/tb")
            fs.list_salt = c.pick("salt", 5)
            w.faults_on = True
            w.plan = FaultPlan(**rates(c, "cfg:f", read=(.03, .15, .5), short=(0, .3)))
            for i in range(2):
                before = sum(v for k, v in w.fault_counts.items() if not k.startswith("short"))
                fp("f{}".format(i), MOUNT + "/ta")
                n = sum(v for k, v in w.fault_counts.items() if not k.startswith("short")) - before
                res["n{}".format(i)] = n

        fn = None
        lab.spawn(p, body)
        lab.run()
        out = []
        same = canonical(ta) == canonical(tb)
        a, b = res["a"], res["b"]
        for tag in "ab":
            if res[tag][0] != "ok":
                out.append(("fingerprint-failed", "readable tree: {}".format(res[tag][1])))
        if not out:
            if (a[1] == b[1]) != same:
                diff = {k for k in set(canonical(ta)) | set(canonical(tb)) if canonical(ta).get(k) != canonical(tb).get(k)}
                out.append(("collision" if not same else "unstable",
                            "{} trees got {} fingerprints (mutation: {}; differing files {})".format(
                                "equal" if same else "different", "different" if same else "equal", how, sorted(diff)[:4])))
            for i in range(2):
                r = res["f{}".format(i)]
                if r[0] == "ok" and r[1] != a[1]:
                    out.append(("partial", "{} read errors while fingerprinting were swallowed: wrong fingerprint returned".format(
                        res["n{}".format(i)])))
        return from_lab(lab, True, how, out[:3])
