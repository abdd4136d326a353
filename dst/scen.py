"""Building blocks shared by the cache scenarios."""

import json
import os

from lab import HOME, ROOT, FaultPlan, Lab
from simfs import DIR, FIFO, FILE, LINK, MOUNT

WINDOWS = False  # whether the laboratories made are Windows machines
TRACE = 0  # trace lines kept per run (replay sets it)


def mk(c, **k):
    if WINDOWS:
        k["windows"] = True
    lab = Lab(c, **k)
    lab.sim.trace_limit = TRACE
    lab.circumstances()
    return lab


def rates(c, name, **options):
    """One rate per fault kind, each a logged choice (0 = off)."""
    return {k: c.of("{}:{}".format(name, k), v) for k, v in options.items()}


def fsmode(lab, c, modes=("ext4", "strict", "unordered")):
    lab.fs.mode = c.of("cfg:fs", modes)
    return lab.fs.mode


def populate(lab, keys, rounds=1):
    """Undisturbed constructors that store each entry, made durable."""
    out = []
    for k in keys:
        for i in range(rounds):
            out.append(lab.calm_construct(*k, force=i > 0))
    lab.fs.sync_all()
    lab.w.faults_on = True
    return out


def files_below(lab, path, kinds=(FILE,)):
    n = lab.fs.node(path)
    if n is None:
        return []
    return [(p, i) for p, i in lab.fs.iter(n, path) if i.kind in kinds]


def rewrite(lab, inode, data, durable=True):
    inode.data = bytearray(data)
    if durable:
        inode.synced = bytes(data)
        inode.pending = []
    if not getattr(lab, "bit_rot", False):  # decaying media leave the time stamps alone
        lab.fs._touch(inode)


def damage_bytes(c, stream, data):
    """Some changed version of data (never equal to it)."""
    data = bytes(data)
    kind = c.pick(stream, 6)
    n = len(data)
    if kind == 0 and n:  # flip one bit
        i = c.pick(stream, n)
        out = bytearray(data)
        out[i] ^= 1 << c.pick(stream, 8)
        return "bit flip", bytes(out)
    if kind == 1 and n:
        return "truncated", data[:c.pick(stream, n)]
    if kind == 2:
        return "extended", data + bytes([c.pick(stream, 256)]) * (1 + c.pick(stream, 40))
    if kind == 3 and n:
        a = c.pick(stream, n)
        b = min(n, a + 1 + c.pick(stream, 64))
        out = data[:a] + b"\0" * (b - a) + data[b:]
        return ("zeroed", out) if out != data else ("truncated", data[:a])
    if kind == 4 and n > 1:
        return "emptied", b""
    if n > 8:
        a = c.pick(stream, n - 4)
        out = bytearray(data)
        out[a:a + 4] = bytes((x + 1 + c.pick(stream, 200)) % 256 for x in out[a:a + 4])
        if bytes(out) != data:
            return "overwritten", bytes(out)
    return "extended", data + b"x"


def damage_manifest(c, stream, data):
    """A manifest that is damaged as JSON text or as a record."""
    try:
        m = json.loads(bytes(data).decode("utf-8"))
    except (ValueError, RecursionError):
        return damage_bytes(c, stream, data)
    if not isinstance(m, dict):
        return damage_bytes(c, stream, data)
    kind = c.pick(stream, 15)
    depth = 20000 + 80000 * c.pick(stream, 3)

    def dump():
        return json.dumps(m).encode()

    if kind == 0:
        return "manifest nested lists", b"[" * depth + b"]" * depth
    if kind == 1:
        return "manifest nested objects", b'{"a":' * depth + b"1" + b"}" * depth
    if kind == 2:
        return "manifest not UTF-8", b"\xff\xfe" + bytes(data)
    if kind == 3:
        return "manifest null", b"null"
    if kind == 4:
        return "manifest number", b"1" * (1 + c.pick(stream, 6000))
    if kind == 5:
        return "manifest list", b"[" + bytes(data) + b"]"
    if kind == 6:
        keys = sorted(m)
        if keys:
            m.pop(keys[c.pick(stream, len(keys))])
        return "manifest key removed", dump()
    if kind == 7:
        keys = sorted(m)
        if keys:
            m[keys[c.pick(stream, len(keys))]] = (None, [], {}, -1, "x", True, 1e308)[c.pick(stream, 7)]
        return "manifest value replaced", dump()
    files = m.get("files")
    if isinstance(files, dict) and files:
        name = sorted(files)[c.pick(stream, len(files))]
        if kind in (8, 9, 10) and isinstance(files[name], dict):
            v = (None, -1, True, 1.5, "7", [], 10**30, 2**63, 2**63 - 1, 2**40, float("inf"), float("nan"), 0)[c.pick(stream, 13)]
            files[name]["size"] = v
            return "manifest size {!r}".format(v), dump()
        if kind == 11 and isinstance(files[name], dict):
            files[name]["sha256"] = (None, "", "0" * 64, 5, [])[c.pick(stream, 5)]
            return "manifest checksum replaced", dump()
        if kind == 12:
            files[name] = (None, [], 3, "x")[c.pick(stream, 4)]
            return "manifest file record replaced", dump()
        if kind == 13:
            del files[name]
            return "manifest file record removed", dump()
        if kind == 14:
            files["extra.fst"] = {"size": 1, "sha256": "0" * 64}
            return "manifest file record added", dump()
    return damage_bytes(c, stream, data)


def damage_file(lab, c, stream, path, inode, older=(), others=()):
    """Damages one stored file in place (or removes / exchanges it). Returns what was done."""
    name = os.path.basename(path)
    base = c.pick(stream, 8)
    if base == 0:
        try:
            lab.fs.unlink(path, None)
        except OSError:
            return None
        return "removed " + name
    if base == 1 and others:
        src = others[c.pick(stream, len(others))]
        if bytes(src) != bytes(inode.data):
            rewrite(lab, inode, src)
            return "exchanged " + name
    if base == 2 and older:
        src = older.get(name)
        if src is not None and src != bytes(inode.data):
            rewrite(lab, inode, src)
            return "older " + name
    if name.endswith(".json") and base in (3, 4, 5):
        what, data = damage_manifest(c, stream, inode.data)
    else:
        what, data = damage_bytes(c, stream, inode.data)
    rewrite(lab, inode, data)
    return "{} {}".format(what, name)


def damage_pair(lab, c, stream, manifest, fst, older=(), others=()):
    """Damages a graph file and what the manifest says about it, in one go.  Returns what was done."""
    name = os.path.basename(fst[0])
    try:
        m = json.loads(bytes(manifest[1].data).decode("utf-8"))
        record = m["files"][name]
        record["size"], record["sha256"]
    except (ValueError, KeyError, TypeError, RecursionError):
        return None
    how = c.pick(stream, 3)
    data = bytes(fst[1].data)
    src = (older.get(name) if older else None) or data
    if how == 0 or src == data:
        same = [o for o in others if len(o) == len(data)] or list(others)
        src = same[c.pick(stream, len(same))] if same else data
    if how == 2 or src == data:
        src = damage_bytes(c, stream, data)[1]
    field = c.pick(stream, 6)
    drop = c.flag(stream, 0.5)
    bad = (None, "", [], {}, 0, False, "none", -1)[c.pick(stream, 8)]
    if field == 5:  # the whole record
        if drop:
            del m["files"][name]
        else:
            m["files"][name] = bad
    else:
        if field != 4:
            if drop:
                del record["sha256"]
            else:
                record["sha256"] = bad
        if field >= 3:
            if drop:
                del record["size"]
            else:
                record["size"] = bad
        elif field == 2:
            record["size"] = len(src)
    rewrite(lab, manifest[1], json.dumps(m).encode())
    rewrite(lab, fst[1], src)
    return "disarmed {} ({} of its record)".format(name, ("checksum", "checksum", "checksum, fitting size", "checksum, size", "size",
                                                        "all")[field])


def entry_contents(lab, path):
    """{file name: bytes} of a bundle directory."""
    n = lab.fs.node(path)
    if n is None or n.kind != DIR:
        return {}
    return {k: bytes(v.data) for k, v in n.entries.items() if v.kind == FILE}


def hung(lab):
    return [r for r in lab.history if r.outcome == "hung"]


def bad_pairs(lab, out, recs=None):
    for r in lab.history if recs is None else recs:
        p = lab.pair_problem(r)
        if p:
            out.append(("wrong-pair", "{}: {}".format(r.brief(), p)))
    return out


def escapes(lab, out):
    if lab.w.escapes:
        out.append(("escape", "wrote outside the simulated file system: {}".format(lab.w.escapes[:3])))
    return out


def must_ok(out, recs, cls, what):
    for r in recs:
        if r.outcome != "ok":
            out.append((cls + ":" + (r.exc_type or r.outcome), "{}: {}".format(what, r.brief())))
    return out
