"""The operating-system seam: os/io/fcntl/time/threading/pynini calls of simulated
processes go to the simulator; everything else passes through untouched."""

import _thread
import builtins
import errno
import fcntl
import io
import os
import random
import re
import stat as st_mod
import tempfile
import threading
import time
import uuid  # noqa

import _pynini
import _pywrapfst
import gc
import platform
import socket

import winsim
from simcore import HarnessError, SimAbort, SimKilled, SimLock
from simfs import DIR, FDBASE, FIFO, FILE, LINK, MOUNT, OFD, err

W = None  # the active World (one per run)
REAL = {}

_hex = re.compile(r"[0-9a-f]{32,64}")


class SimProcess:
    """A simulated OS process: descriptor table, pid, death."""

    def __init__(self, world, name, pid):
        self.world = world
        self.name = name
        self.pid = pid
        self.host = "host"
        self.fds = {}
        self.dead = False
        self.why_dead = None
        self.wall_offset = 0.0
        self.env = {}
        self.cwd = MOUNT + "/home"
        self.wander = False
        self.tasks = []
        self.modules = None
        self.new_modules = []
        self.faults_on = True
        self.fs_ops = 0
        self.mut_ops = 0
        self.lock_ops = 0
        self.max_fd = 0
        self.fd_limit = 4096
        self.op_log = None
        self.plan = None

    def alloc(self, ofd):
        fd = FDBASE
        while fd in self.fds:
            fd += 1
        self.fds[fd] = ofd
        return fd

    def get(self, fd):
        o = self.fds.get(fd)
        if o is None:
            raise err(errno.EBADF)
        return o

    def close(self, fd):
        o = self.fds.pop(fd, None)
        if o is None:
            raise err(errno.EBADF)
        # POSIX record locks vanish when any descriptor of the file is closed
        o.inode.plocks.pop(self, None)
        self.drop(o)

    @staticmethod
    def drop(o):
        o.refs -= 1
        if o.refs <= 0 and not o.closed:
            o.closed = True
            o.inode.flocks.pop(o, None)
            if o.inode.winlocks:
                o.inode.winlocks[:] = [x for x in o.inode.winlocks if x[0] is not o]

    def kill(self, why="kill"):
        if self.dead:
            return
        self.dead = True
        self.why_dead = why
        for fd in list(self.fds):
            o = self.fds.pop(fd)
            o.inode.plocks.pop(self, None)
            self.drop(o)
        for t in self.tasks:
            if not t.done and t is not self.world.sim.current and t.pending is None:
                t.pending = SimKilled()

    def held(self):
        """Open descriptors and locks, for leak checks."""
        out = []
        for fd, o in sorted(self.fds.items()):
            out.append("fd {} -> {}".format(fd - FDBASE, self.world.label(o.path)))
            if o in o.inode.flocks:
                out.append("flock on {}".format(self.world.label(o.path)))
            if any(x[0] is o for x in o.inode.winlocks):
                out.append("lock on {}".format(self.world.label(o.path)))
        for n in self.world.fs.inodes.values():
            if self in n.plocks:
                out.append("record lock on #{}".format(n.ino))
        return out


# ---------------------------------------------------------------- fault plan
READ_ERR = {
    "open_r": (errno.EIO, errno.EMFILE, errno.ENFILE, errno.EACCES, errno.ENOMEM),
    "read": (errno.EIO,),
    "stat": (errno.EIO, errno.EACCES),
    "list": (errno.EIO, errno.EMFILE, errno.EACCES),
    "readlink": (errno.EIO,),
}
MUT_ERR = {
    "open_w": (errno.EIO, errno.ENOSPC, errno.EMFILE, errno.EACCES, errno.EDQUOT),
    "write": (errno.EIO, errno.ENOSPC, errno.EDQUOT),
    "fsync": (errno.EIO, errno.ENOSPC),
    "rename": (errno.EIO, errno.EACCES, errno.ENOSPC, errno.EBUSY),
    "unlink": (errno.EIO, errno.EACCES, errno.EBUSY),
    "rmdir": (errno.EIO, errno.EACCES, errno.EBUSY),
    "mkdir": (errno.ENOSPC, errno.EACCES, errno.EIO),
    "truncate": (errno.EIO, errno.EFBIG),
    "chmod": (errno.EPERM,),
}
LOCK_ERR = {"flock": (errno.ENOLCK, errno.EIO)}
KILL_W = {
    "rename": 8.0,
    "unlink": 3.0,
    "rmdir": 3.0,
    "mkdir": 3.0,
    "open_w": 2.0,
    "write": 2.0,
    "fsync": 4.0,
    "truncate": 2.0,
    "flock": 2.0,
    "build": 3.0,
    "sleep": 1.0,
    "read": 0.5,
    "stat": 0.4,
    "open_r": 0.5,
    "list": 1.0,
    "close": 0.7,
}


class FaultPlan:
    """Which faults may hit an operation; every draw is a logged choice."""

    def __init__(self, read=0.0, mut=0.0, lock=0.0, kill=0.0, power=0.0, intr=0.0, stall=0.0, short=0.0, fork=0.0, limits=None,
                 stalls=(0.004, 0.06, 0.3, 1.5), ops=None, errnos=None, only=None, aim=None, stuck=None):
        self.rate = dict(read=read, mut=mut, lock=lock, kill=kill, power=power, intr=intr, stall=stall, short=short, fork=fork)
        self.limits = dict(limits or {})
        self.stalls = stalls
        self.ops = ops  # restrict errno faults to these op kinds
        self.errnos = errnos
        self.only = only  # predicate(node, kind, path)
        self.used = {}
        self.aim = aim  # (fault, op kind, nth): hits the operation after the nth one of that kind, once
        self.stuck = stuck or {}  # op kind -> errno: every such operation fails
        self.aim_stuck = None  # op kind that fails for good once the aimed fault has struck
        self._seen = 0
        self._armed = False
        self._cache = {}

    def aimed(self, kind):
        """The aimed fault when this operation is its target."""
        if self._armed and kind not in ("close", "unlock"):
            f, self.aim, self._armed = self.aim[0], None, False
            if self.aim_stuck:
                self.stuck = dict(self.stuck)
                self.stuck[self.aim_stuck] = errno.EIO
            return f if isinstance(f, tuple) else (f, None)
        if kind == self.aim[1]:
            self._seen += 1
            self._armed = self._seen == self.aim[2]
        return None

    def table(self, kind):
        t = self._cache.get(kind)
        if t is not None:
            return t
        opts, w = [None], [0.0]
        r = self.rate
        errs = ()
        p = 0.0
        ok = self.ops is None or kind in self.ops
        if ok and kind in READ_ERR:
            errs, p, cls = READ_ERR[kind], r["read"], "read"
        elif ok and kind in MUT_ERR:
            errs, p, cls = MUT_ERR[kind], r["mut"], "mut"
        elif ok and kind in LOCK_ERR:
            errs, p, cls = LOCK_ERR[kind], r["lock"], "lock"
        if self.errnos is not None:
            errs = tuple(e for e in errs if e in self.errnos)
        if errs and p > 0:
            for e in errs:
                opts.append((cls, e))
                w.append(p / len(errs))
        if kind in ("read", "write") and r["short"] > 0:
            opts.append(("short", None))
            w.append(r["short"])
        kw = KILL_W.get(kind, 0.3)
        for k in ("kill", "power", "intr"):
            if k == "intr" and kind in ("close", "unlock"):
                continue  # an interrupt in the very step that releases: no Python code can prevent that
            if r[k] > 0:
                opts.append((k, None))
                w.append(min(0.4, r[k] * (kw if k != "intr" else 1.0)))
        if r["stall"] > 0:
            for s in self.stalls:
                opts.append(("stall", s))
                w.append(r["stall"] / len(self.stalls))
        if r["fork"] > 0 and kind not in ("close", "unlock"):
            opts.append(("fork", None))
            w.append(r["fork"])
        w[0] = max(0.0, 1.0 - sum(w))
        t = self._cache[kind] = (opts, w)
        return t


class World:
    """Everything one run owns.  Installed as the module global W while it runs."""

    def __init__(self, sim, fs, choices):
        self.sim = sim
        self.fs = fs
        self.c = choices
        self.procs = []
        self.pids = None  # process numbers, when they repeat (containers, reboots)
        self.hosts = None  # prefix of host names, when every process has its own (containers on one volume)
        self.plan = FaultPlan()
        self.faults_on = True
        self.readonly = False
        self.full = False
        self.fault_counts = {}
        self.fault_log = []
        self.powered_off = False
        self.labels = {}
        self.label_cache = {}
        self.read_chunk = 1 << 30
        self.write_chunk = 1 << 30
        self.escapes = []
        self.watch = None  # callback(node, kind, path)
        self.tmp_seq = 0
        self.rand = random.Random("uuid:{}".format(self.c.seed))
        self.threads = True
        self.locale_encoding = "utf-8"
        self.ops = 0
        self.op_kinds = {}
        self.driver = SimProcess(self, "driver", 999)
        self.on_open = None
        self.on_read = None
        self.on_list = None
        self.on_lock = None
        self.windows = False
        self.foreign = []  # handles of other programs (Windows)
        self.edited = {}  # {path below the repository: source text} of rule code changed in this world

    def touched_open(self, node, ofd):
        if self.on_open is not None:
            self.on_open(node, ofd)

    def touched_read(self, node, ofd):
        if self.on_read is not None:
            self.on_read(node, ofd)

    def listed(self, node, inode):
        if self.on_list is not None:
            self.on_list(node, inode)

    def locked(self, node, ofd):
        if self.on_lock is not None:
            self.on_lock(node, ofd)

    def process(self, name):
        n = len(self.procs)
        p = SimProcess(self, name, self.pids[n % len(self.pids)] if self.pids else 1000 + n)
        if self.hosts:
            p.host = "{}{}".format(self.hosts, n)
        self.procs.append(p)
        return p

    def fork(self, node):
        """Another thread of this process forks: the child shares every open
        description, runs none of the code under test and stays."""
        if self.windows:
            return None
        child = self.process(node.name + "-child")
        child.fds = dict(node.fds)
        for o in child.fds.values():
            o.refs += 1
        return child

    def label(self, path):
        try:
            v = self.label_cache.get(path)
            if v is not None:
                return v
        except TypeError:
            pass
        v = self._label(path)
        try:
            self.label_cache[path] = v
        except TypeError:
            pass
        return v

    def _label(self, path):
        try:
            p = os.fsdecode(path) if not isinstance(path, int) else "fd"
        except Exception:
            return "?"
        if p.startswith(MOUNT):
            p = p[len(MOUNT):]

        def sub(m):
            s = m.group(0)
            v = self.labels.get(s)
            if v is None:
                v = self.labels[s] = "h{}".format(len(self.labels))
            return v

        return _hex.sub(sub, p)

    def count(self, what):
        self.fault_counts[what] = self.fault_counts.get(what, 0) + 1

    def power_off(self):
        self.powered_off = True
        for p in self.procs:
            p.kill("power")

    # -- the heart: every simulated operation passes here before its effect --
    def op(self, kind, path, mutating=False, growth=False, faultable=True):
        sim = self.sim
        t = sim.current
        if t is None:
            return None
        node = t.node
        if sim.aborting:
            raise SimAbort()
        if node is not None and node.dead:
            raise SimKilled()
        sim.yield_point()
        t.ops += 1
        self.ops += 1
        self.op_kinds[kind] = self.op_kinds.get(kind, 0) + 1
        lab = self.label(path)
        sim.event(t.name, kind, lab)
        if node is None:
            return None
        node.fs_ops += 1
        if mutating:
            node.mut_ops += 1
        if kind == "flock":
            node.lock_ops += 1
        if node.op_log is not None:
            node.op_log.append((sim.steps, kind, lab, mutating))
        if self.watch is not None:
            self.watch(node, kind, path)
        short = None
        plan = node.plan or self.plan
        if self.faults_on and node.faults_on and faultable and plan is not None:
            if plan.aim is not None:
                f = plan.aimed(kind)
                if f is not None:
                    short = self._fire(t, node, f, kind, lab, path)
            if kind in plan.stuck:
                self._fire(t, node, ("stuck", plan.stuck[kind]), kind, lab, path)
            opts, w = plan.table(kind)
            if len(opts) > 1 and (plan.only is None or plan.only(node, kind, path)):
                f = opts[self.c.weighted("f:" + t.name, w)]
                if f is not None:
                    lim = plan.limits.get(f[0])
                    used = plan.used.get(f[0], 0)
                    if lim is None or used < lim:
                        plan.used[f[0]] = used + 1
                        short = self._fire(t, node, f, kind, lab, path)
        if mutating and self.readonly:
            self.count("EROFS")
            raise err(errno.EROFS, path)
        if growth and self.full:
            self.count("ENOSPC(full)")
            raise err(errno.ENOSPC, path)
        return short

    def _fire(self, t, node, f, kind, lab, path):
        what, arg = f
        sim = self.sim
        name = what if what in ("kill", "power", "intr", "stall", "short", "fork") else errno.errorcode[arg]
        self.count("{}@{}".format(name, kind) if what not in ("stall",) else "stall")
        sim.event("fault", t.name, name, arg if what == "stall" else "", kind, lab)
        self.fault_log.append((round(sim.now, 6), t.name, name if what != "stall" else "stall {}s".format(arg), kind, lab))
        if what == "kill":
            node.kill("kill@{} {}".format(kind, lab))
            raise SimKilled()
        if what == "power":
            self.power_off()
            raise SimKilled()
        if what == "intr":
            raise KeyboardInterrupt("injected")
        if what == "stall":
            sim.sleep(arg)
            return None
        if what == "short":
            return "short"
        if what == "fork":
            self.fork(node)
            return None
        t.info["faults"] = t.info.get("faults", 0) + 1
        t.info.setdefault("fault_list", []).append((name, kind, lab))
        raise err(arg, path if not isinstance(path, int) else None)


# ---------------------------------------------------------------- dispatch
def _cur():
    """(world, process) when called from a simulated task or the driver."""
    w = W
    if w is None:
        return None, None
    t = w.sim.current
    if t is None:
        return w, w.driver
    return w, (t.node if t.node is not None else w.driver)


def _in_task():
    return W is not None and W.sim.current is not None and W.sim.current.node is not None


def _isfd(x):
    return isinstance(x, int) and not isinstance(x, bool)


def _vpath(path, dir_fd=None):
    """The virtual form of path (str), or None when it is a real path."""
    if W is None:
        return None
    if _isfd(path):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p.startswith("/"):
        while p.startswith("//"):
            p = p[1:]
        if p == MOUNT or p.startswith(MOUNT + "/"):
            return p
        return None
    if dir_fd is not None:
        return p if dir_fd >= FDBASE else None
    if _in_task():
        return p
    return None


def _start(node, p, dir_fd):
    if p.startswith("/"):
        return None
    if dir_fd is not None:
        o = node.get(dir_fd)
        if o.inode.kind != DIR:
            raise err(errno.ENOTDIR, p)
        return o.inode
    n = W.fs.node(node.cwd, follow=True)
    if n is None:
        raise err(errno.ENOENT, p)
    return n


def _full(node, p, dir_fd):
    """Best-effort absolute virtual path for labels."""
    if p.startswith("/"):
        return p
    if dir_fd is not None:
        o = node.fds.get(dir_fd)
        return (str(o.path) if o is not None else "?") + "/" + p
    return node.cwd + "/" + p


def _deny_real_write(path):
    if _in_task():
        try:
            s = os.fsdecode(path) if not _isfd(path) else "fd"
        except Exception:
            s = "?"
        if s in ("/dev/null", "/dev/stderr", "/dev/stdout"):
            return
        W.escapes.append(s)
        W.sim.event("escape", s)
        raise PermissionError(errno.EACCES, "simulated process may not write outside the simulation", s)


_MUT_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC


def s_open(path, flags, mode=0o777, *, dir_fd=None):
    p = _vpath(path, dir_fd)
    if p is None:
        if flags & _MUT_FLAGS:
            _deny_real_write(path)
        return REAL["open"](path, flags, mode, dir_fd=dir_fd)
    w, node = _cur()
    full = _full(node, p, dir_fd)
    mut = bool(flags & (os.O_CREAT | os.O_TRUNC)) or (flags & os.O_ACCMODE) != os.O_RDONLY
    w.op("open_w" if mut else "open_r", full, mutating=mut, growth=False)
    if "\0" in p:
        raise ValueError("embedded null byte")
    if w.full and flags & os.O_CREAT and w.fs.node(full, follow=True) is None and w.sim.current is not None:
        w.count("ENOSPC(full)")
        raise err(errno.ENOSPC, path)
    if len(node.fds) >= node.fd_limit:
        raise err(errno.EMFILE, path)
    if w.windows:
        winsim.check_open(w, node, p, _start(node, p, dir_fd), path)
    ofd = w.fs.open(p, flags, mode & ~0o022, _start(node, p, dir_fd), node)
    ofd.path = full
    ofd.linked = w.fs.followed > 0 or dir_fd is not None and not p.startswith("/") and node.fds[dir_fd].linked
    n = ofd.inode
    if n.kind == FIFO and not flags & getattr(os, "O_PATH", 0):
        acc = flags & os.O_ACCMODE
        if acc == os.O_RDONLY and not flags & os.O_NONBLOCK:
            w.sim.block(lambda: False, "open of FIFO {}".format(w.label(full)))
        if acc == os.O_WRONLY:
            if flags & os.O_NONBLOCK:
                raise err(errno.ENXIO, path)
            w.sim.block(lambda: False, "open of FIFO {}".format(w.label(full)))
    fd = node.alloc(ofd)
    w.touched_open(node, ofd)
    return fd


def s_close(fd):
    if not _isfd(fd) or fd < FDBASE:
        return REAL["close"](fd)
    w, node = _cur()
    if w is None:
        raise err(errno.EBADF)
    w.op("close", node.fds[fd].path if fd in node.fds else "fd?", faultable=_kill_only(w, node))
    node.close(fd)


def _kill_only(w, node):
    # close is never failed; kills/stalls may hit it (its table holds nothing else)
    return True


def _io(fd):
    w, node = _cur()
    return w, node, node.get(fd)


def s_read(fd, n):
    if not _isfd(fd) or fd < FDBASE:
        return REAL["read"](fd, n)
    w, node, o = _io(fd)
    short = w.op("read", o.path)
    if n < 0:
        raise err(errno.EINVAL)
    if o.inode.kind == FIFO and not o.flags & os.O_NONBLOCK:
        w.sim.block(lambda: False, "read of FIFO")
    if short and n > 1:
        n = 1 + w.c.pick("short", n - 1)
    if o.inode.winlocks:
        winsim.check_io(o, o.pos, o.pos + n)
    w.touched_read(node, o)
    return w.fs.read(o, n)


def s_pread(fd, n, off):
    if fd < FDBASE:
        return REAL["pread"](fd, n, off)
    w, node, o = _io(fd)
    w.op("read", o.path)
    w.touched_read(node, o)
    return w.fs.read(o, n, off)


def s_readv(fd, bufs):
    if fd < FDBASE:
        return REAL["readv"](fd, bufs)
    total = 0
    for b in bufs:
        d = s_read(fd, len(b))
        b[:len(d)] = d
        total += len(d)
        if len(d) < len(b):
            break
    return total


def _do_write(w, node, o, data, pos=None):
    data = bytes(data)
    short = w.op("write", o.path, mutating=True, growth=True)
    if short and len(data) > 1:
        data = data[:1 + w.c.pick("short", len(data) - 1)]
    if o.inode.winlocks:
        at = o.pos if pos is None else pos
        winsim.check_io(o, at, at + len(data))
    return w.fs.write(o, data, pos)


def s_write(fd, data):
    if not _isfd(fd) or fd < FDBASE:
        return REAL["write"](fd, data)
    w, node, o = _io(fd)
    return _do_write(w, node, o, data)


def s_pwrite(fd, data, off):
    if fd < FDBASE:
        return REAL["pwrite"](fd, data, off)
    w, node, o = _io(fd)
    return _do_write(w, node, o, data, off)


def s_writev(fd, bufs):
    if fd < FDBASE:
        return REAL["writev"](fd, bufs)
    return s_write(fd, b"".join(bytes(b) for b in bufs))


def s_lseek(fd, pos, how):
    if fd < FDBASE:
        return REAL["lseek"](fd, pos, how)
    w, node, o = _io(fd)
    if w.sim.current is not None:
        w.sim.check_alive(w.sim.current)
    size = len(o.inode.data) if o.inode.kind == FILE else 0
    new = pos if how == os.SEEK_SET else (o.pos + pos if how == os.SEEK_CUR else size + pos)
    if new < 0:
        raise err(errno.EINVAL)
    o.pos = new
    return new


def s_fsync(fd):
    if not _isfd(fd):
        fd = fd.fileno()
    if fd < FDBASE:
        return REAL["fsync"](fd)
    w, node, o = _io(fd)
    w.op("fsync", o.path, mutating=True)
    if w.windows and not o.writable:
        raise err(errno.EBADF)
    w.fs.fsync(o.inode)


def s_ftruncate(fd, size):
    if fd < FDBASE:
        return REAL["ftruncate"](fd, size)
    w, node, o = _io(fd)
    w.op("truncate", o.path, mutating=True)
    if not o.writable:
        raise err(errno.EINVAL)
    if o.inode.winlocks:
        winsim.check_io(o, size, 1 << 62)
    w.fs.truncate(o.inode, size)


def s_truncate(path, length):
    if _isfd(path):
        return s_ftruncate(path, length)
    p = _vpath(path)
    if p is None:
        _deny_real_write(path)
        return REAL["truncate"](path, length)
    w, node = _cur()
    w.op("truncate", _full(node, p, None), mutating=True)
    n = w.fs.walk(p, _start(node, p, None))[2]
    if n is None:
        raise err(errno.ENOENT, path)
    w.fs.truncate(n, length)


def s_fstat(fd):
    if not _isfd(fd) or fd < FDBASE:
        return REAL["fstat"](fd)
    w, node, o = _io(fd)
    w.op("stat", o.path)
    return w.fs.stat(o.inode)


def _stat(path, dir_fd, follow, real):
    p = _vpath(path, dir_fd)
    if p is None:
        return real()
    w, node = _cur()
    w.op("stat", _full(node, p, dir_fd))
    if "\0" in p:
        raise ValueError("embedded null byte")
    n = w.fs.walk(p, _start(node, p, dir_fd), follow=follow)[2]
    if n is None:
        raise err(errno.ENOENT, path)
    return winsim.stat(w.fs.stat(n), n) if w.windows else w.fs.stat(n)


def s_stat(path, *, dir_fd=None, follow_symlinks=True):
    if _isfd(path):
        return s_fstat(path)
    return _stat(path, dir_fd, follow_symlinks, lambda: REAL["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks))


def s_lstat(path, *, dir_fd=None):
    return _stat(path, dir_fd, False, lambda: REAL["lstat"](path, dir_fd=dir_fd))


def s_access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    p = _vpath(path, dir_fd)
    if p is None:
        return REAL["access"](path, mode, dir_fd=dir_fd, effective_ids=effective_ids, follow_symlinks=follow_symlinks)
    w, node = _cur()
    try:
        w.op("stat", _full(node, p, dir_fd))
        n = w.fs.walk(p, _start(node, p, dir_fd), follow=follow_symlinks)[2]
    except OSError:
        return False
    if n is None:
        return False
    return not (w.readonly and mode & os.W_OK)


def s_mkdir(path, mode=0o777, *, dir_fd=None):
    p = _vpath(path, dir_fd)
    if p is None:
        _deny_real_write(path)
        return REAL["mkdir"](path, mode, dir_fd=dir_fd)
    w, node = _cur()
    full = _full(node, p, dir_fd)
    _vfs_exist_first(w, node, p, dir_fd, path)
    w.op("mkdir", full, mutating=False)
    st = _start(node, p, dir_fd)
    if w.sim.current is not None and w.sim.current.node is not None:
        # an existing name is reported before a full or read-only disk is
        try:
            existing = w.fs.walk(p, st, follow=False)[2]
        except OSError:
            existing = None
        if existing is None:
            if w.readonly:
                w.count("EROFS")
                raise err(errno.EROFS, path)
            if w.full:
                w.count("ENOSPC(full)")
                raise err(errno.ENOSPC, path)
    before = w.fs.mutations
    w.fs.mkdir(p, mode & ~0o022, st)
    if w.fs.mutations != before and w.sim.current is not None and w.sim.current.node is not None:
        w.sim.current.node.mut_ops += 1


def _vfs_exist_first(w, node, p, dir_fd, path):
    return None


def _path_op(kind, path, dir_fd, fn, real):
    p = _vpath(path, dir_fd)
    if p is None:
        _deny_real_write(path)
        return real()
    w, node = _cur()
    w.op(kind, _full(node, p, dir_fd), mutating=True)
    if w.windows and kind == "unlink":
        winsim.check_unlink(w, p, _start(node, p, dir_fd))
    return fn(w, node, p, _start(node, p, dir_fd))


def s_rmdir(path, *, dir_fd=None):
    return _path_op("rmdir", path, dir_fd, lambda w, n, p, s: w.fs.rmdir(p, s), lambda: REAL["rmdir"](path, dir_fd=dir_fd))


def s_unlink(path, *, dir_fd=None):
    return _path_op("unlink", path, dir_fd, lambda w, n, p, s: w.fs.unlink(p, s), lambda: REAL["unlink"](path, dir_fd=dir_fd))


def s_replace(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    return s_rename(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd, replace=True)


def s_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None, replace=False):
    a, b = _vpath(src, src_dir_fd), _vpath(dst, dst_dir_fd)
    if a is None and b is None:
        _deny_real_write(src)
        return REAL["rename"](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
    if a is None or b is None:
        raise err(errno.EXDEV, src, dst)
    w, node = _cur()
    w.op("rename", _full(node, a, src_dir_fd) + " -> " + os.path.basename(b), mutating=True)
    if w.windows:
        winsim.check_rename(w, a, b, _start(node, a, src_dir_fd), replace)
    w.fs.rename(a, b, _start(node, a, src_dir_fd), lambda: _start(node, b, dst_dir_fd))


def s_link(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
    a, b = _vpath(src, src_dir_fd), _vpath(dst, dst_dir_fd)
    if a is None and b is None:
        _deny_real_write(dst)
        return REAL["link"](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd, follow_symlinks=follow_symlinks)
    if a is None or b is None:
        raise err(errno.EXDEV, src, dst)
    w, node = _cur()
    w.op("open_w", _full(node, b, dst_dir_fd), mutating=True)
    w.fs.link(a, b, _start(node, a, src_dir_fd), lambda: _start(node, b, dst_dir_fd), follow_symlinks)


def s_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    p = _vpath(dst, dir_fd)
    if p is None:
        _deny_real_write(dst)
        return REAL["symlink"](src, dst, target_is_directory, dir_fd=dir_fd)
    w, node = _cur()
    w.op("open_w", _full(node, p, dir_fd), mutating=True)
    w.fs.symlink(os.fspath(src), p, _start(node, p, dir_fd))


def s_mkfifo(path, mode=0o666, *, dir_fd=None):
    p = _vpath(path, dir_fd)
    if p is None:
        _deny_real_write(path)
        return REAL["mkfifo"](path, mode, dir_fd=dir_fd)
    w, node = _cur()
    w.op("open_w", _full(node, p, dir_fd), mutating=True)
    w.fs.mknod(p, FIFO, _start(node, p, dir_fd), mode)


def s_readlink(path, *, dir_fd=None):
    p = _vpath(path, dir_fd)
    if p is None:
        return REAL["readlink"](path, dir_fd=dir_fd)
    w, node = _cur()
    w.op("readlink", _full(node, p, dir_fd))
    n = w.fs.walk(p, _start(node, p, dir_fd), follow=False)[2]
    if n is None:
        raise err(errno.ENOENT, path)
    if n.kind != LINK:
        raise err(errno.EINVAL, path)
    return os.fsencode(n.target) if isinstance(path, bytes) else n.target


def _dir_inode(path):
    """(world, node, inode, display) for listdir/scandir, or None."""
    if _isfd(path):
        if path < FDBASE:
            return None
        w, node, o = _io(path)
        w.op("list", o.path)
        if o.inode.kind != DIR:
            raise err(errno.ENOTDIR, path)
        w.listed(node, o.inode)
        return w, node, o.inode, path
    p = _vpath(path)
    if p is None:
        return None
    w, node = _cur()
    w.op("list", _full(node, p, None))
    n = w.fs.walk(p, _start(node, p, None))[2]
    if n is None:
        raise err(errno.ENOENT, path)
    if n.kind != DIR:
        raise err(errno.ENOTDIR, path)
    w.listed(node, n)
    return w, node, n, path


def s_listdir(path=None):
    if path is None:
        if not _in_task():
            return REAL["listdir"]()
        path = "."
    r = _dir_inode(path)
    if r is None:
        return REAL["listdir"](path)
    w, node, n, _ = r
    names = w.fs.names(n)
    return [os.fsencode(x) for x in names] if isinstance(path, bytes) else names


class SimDirEntry:
    __slots__ = ("name", "path", "_ino", "_kind", "_dirfd", "_junction")

    def __init__(self, name, path, inode, dirfd):
        self.name = name
        self.path = path
        self._ino = inode.ino
        self._kind = inode.kind
        self._junction = inode.junction
        self._dirfd = dirfd

    def __fspath__(self):
        return self.path

    def inode(self):
        return self._ino

    def stat(self, *, follow_symlinks=True):
        if self._dirfd is not None:
            return s_stat(self.name, dir_fd=self._dirfd, follow_symlinks=follow_symlinks)
        return s_stat(self.path, follow_symlinks=follow_symlinks)

    def _is(self, want, follow):
        if self._kind == LINK and (follow or self._junction):
            try:
                st = self.stat()
            except FileNotFoundError:
                return False
            return st_mod.S_ISDIR(st.st_mode) if want == DIR else st_mod.S_ISREG(st.st_mode)
        return self._kind == want

    def is_dir(self, *, follow_symlinks=True):
        return self._is(DIR, follow_symlinks)

    def is_file(self, *, follow_symlinks=True):
        return self._is(FILE, follow_symlinks)

    def is_symlink(self):
        return self._kind == LINK and not self._junction

    def is_junction(self):
        return self._junction

    def __repr__(self):
        return "<DirEntry {!r}>".format(self.name)


class SimScan:

    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        self._it = iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def s_scandir(path=None):
    if path is None:
        if not _in_task():
            return REAL["scandir"]()
        path = "."
    r = _dir_inode(path)
    if r is None:
        return REAL["scandir"](path)
    w, node, n, disp = r
    if _isfd(disp):
        return SimScan([SimDirEntry(x, x, n.entries[x], disp) for x in w.fs.names(n)])
    base = os.fspath(disp)
    b = isinstance(base, bytes)
    out = []
    for x in w.fs.names(n):
        nm = os.fsencode(x) if b else x
        out.append(SimDirEntry(nm, os.path.join(base, nm), n.entries[x], None))
    return SimScan(out)


def _inode_of(path, follow=True, dir_fd=None):
    if _isfd(path):
        return _io(path)[2].inode
    w, node = _cur()
    p = _vpath(path, dir_fd)
    n = w.fs.walk(p, _start(node, p, dir_fd), follow=follow)[2]
    if n is None:
        raise err(errno.ENOENT, path)
    return n


def s_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    if (_isfd(path) and path < FDBASE) or (not _isfd(path) and _vpath(path, dir_fd) is None):
        _deny_real_write(path)
        return REAL["chmod"](path, mode, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    w, node = _cur()
    w.op("chmod", path, mutating=True)
    n = _inode_of(path, follow_symlinks, dir_fd)
    n.mode = mode & 0o7777
    n.ctime = w.fs.clock()
    w.fs._mut("chmod", n)


def s_fchmod(fd, mode):
    if fd < FDBASE:
        return REAL["fchmod"](fd, mode)
    return s_chmod(fd, mode)


def s_chown(path, uid, gid, *, dir_fd=None, follow_symlinks=True):
    if (_isfd(path) and path < FDBASE) or (not _isfd(path) and _vpath(path, dir_fd) is None):
        _deny_real_write(path)
        return REAL["chown"](path, uid, gid, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    W.op("chmod", path, mutating=True)
    _inode_of(path, follow_symlinks, dir_fd)


def s_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    if (_isfd(path) and path < FDBASE) or (not _isfd(path) and _vpath(path, dir_fd) is None):
        _deny_real_write(path)
        kw = {} if ns is None else {"ns": ns}
        if times is not None or ns is None:
            return REAL["utime"](path, times, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        return REAL["utime"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks, **kw)
    w, node = _cur()
    w.op("chmod", path, mutating=True)
    n = _inode_of(path, follow_symlinks, dir_fd)
    if ns is not None:
        n.mtime = ns[1] / 1e9
    elif times is not None:
        n.mtime = float(times[1])
    else:
        n.mtime = w.fs.clock()
    w.fs._mut("utime", n)


def s_dup(fd):
    if fd < FDBASE:
        return REAL["dup"](fd)
    w, node, o = _io(fd)
    o.refs += 1
    return node.alloc(o)


def s_dup2(fd, fd2, inheritable=True):
    if fd < FDBASE and fd2 < FDBASE:
        return REAL["dup2"](fd, fd2, inheritable)
    w, node, o = _io(fd)
    if fd2 in node.fds:
        node.close(fd2)
    o.refs += 1
    node.fds[fd2] = o
    return fd2


def _simple_fd(name, result):

    def f(fd, *a):
        if not _isfd(fd) or fd < FDBASE:
            return REAL[name](fd, *a)
        _io(fd)
        return result

    f.__name__ = name
    return f


def s_statvfs(path):
    if (_isfd(path) and path < FDBASE) or (not _isfd(path) and _vpath(path) is None):
        return REAL["statvfs"](path)
    w, _ = _cur()
    free = 0 if w.full else 1 << 30
    return os.statvfs_result((4096, 4096, 1 << 31, free, free, 1 << 20, 1 << 19, 1 << 19, 1 if w.readonly else 0, 255))


def s_sync():
    if _in_task():
        W.op("fsync", MOUNT, mutating=True)
        W.fs.sync_all()
        return
    return REAL["sync"]()


def s_sendfile(out_fd, in_fd, offset, count, *a, **k):
    if out_fd < FDBASE and in_fd < FDBASE:
        return REAL["sendfile"](out_fd, in_fd, offset, count, *a, **k)
    raise err(errno.EINVAL)


def s_copy_file_range(src, dst, count, *a, **k):
    if src < FDBASE and dst < FDBASE:
        return REAL["copy_file_range"](src, dst, count, *a, **k)
    raise err(errno.EXDEV)


def s_posix_fallocate(fd, off, n):
    if fd < FDBASE:
        return REAL["posix_fallocate"](fd, off, n)
    w, node, o = _io(fd)
    w.op("write", o.path, mutating=True, growth=True)
    if len(o.inode.data) < off + n:
        w.fs.truncate(o.inode, off + n)


def s_getpid():
    if _in_task():
        return W.sim.current.node.pid
    return REAL["getpid"]()


def s_getcwd():
    if _in_task():
        return W.sim.current.node.cwd
    return REAL["getcwd"]()


def s_chdir(path):
    p = _vpath(path)
    if p is None:
        return REAL["chdir"](path)
    w, node = _cur()
    n = w.fs.walk(p, _start(node, p, None))[2]
    if n is None:
        raise err(errno.ENOENT, path)
    node.cwd = _full(node, p, None)


def s_urandom(n):
    if _in_task():
        return W.rand.randbytes(n)
    return REAL["urandom"](n)


def s_getrandom(n, flags=0):
    if _in_task():
        return W.rand.randbytes(n)
    return REAL["getrandom"](n, flags)


def s_uname():
    if _in_task():
        u = REAL["uname"]()
        return os.uname_result((u.sysname, W.sim.current.node.host, u.release, u.version, u.machine))
    return REAL["uname"]()


def s_gethostname():
    return W.sim.current.node.host if _in_task() else REAL["gethostname"]()


def s_platform_node():
    return W.sim.current.node.host if _in_task() else REAL["platform.node"]()


def s_kill(pid, sig):
    if _in_task():
        for p in W.procs:
            if p.pid == pid and not p.dead:
                if sig == 0:
                    return None
                raise HarnessError("os.kill of a simulated process is not modelled")
        raise err(errno.ESRCH)
    return REAL["kill"](pid, sig)


def s__exit(code):
    if _in_task():
        W.sim.current.node.kill("_exit")
        raise SimKilled()
    return REAL["_exit"](code)


# ---------------------------------------------------------------- locks
def s_flock(fd, op):
    if not _isfd(fd):
        fd = fd.fileno()
    if fd < FDBASE:
        return REAL["flock"](fd, op)
    w, node, o = _io(fd)
    n = o.inode
    if op & fcntl.LOCK_UN:
        w.op("unlock", o.path)
        n.flocks.pop(o, None)
        return
    w.op("flock", o.path)
    want = "ex" if op & fcntl.LOCK_EX else "sh"

    def free():
        return not any(k is not o and (v == "ex" or want == "ex") for k, v in n.flocks.items())

    # converting a lock drops it first (flock(2))
    if not free():
        if n.flocks.get(o) not in (None, want):
            n.flocks.pop(o, None)
        if op & fcntl.LOCK_NB:
            raise err(errno.EWOULDBLOCK)
        w.sim.block(free, "flock {}".format(w.label(o.path)))
        node.get(fd)
    n.flocks[o] = want
    w.locked(node, o)


def s_lockf(fd, cmd, len=0, start=0, whence=0):
    if not _isfd(fd):
        fd = fd.fileno()
    if fd < FDBASE:
        return REAL["lockf"](fd, cmd, len, start, whence)
    w, node, o = _io(fd)
    n = o.inode
    if cmd & fcntl.LOCK_UN:
        w.op("unlock", o.path)
        n.plocks.pop(node, None)
        return
    w.op("flock", o.path)
    want = "ex" if cmd & fcntl.LOCK_EX else "sh"
    if want == "ex" and not o.writable:
        raise err(errno.EBADF)

    def free():
        return not any(k is not node and (v == "ex" or want == "ex") for k, v in n.plocks.items())

    if not free():
        if cmd & fcntl.LOCK_NB:
            raise err(errno.EAGAIN)
        w.sim.block(free, "lockf {}".format(w.label(o.path)))
    n.plocks[node] = want
    w.locked(node, o)


def s_fcntl(fd, cmd, arg=0):
    if not _isfd(fd):
        fd = fd.fileno()
    if fd < FDBASE:
        return REAL["fcntl"](fd, cmd, arg)
    w, node, o = _io(fd)
    if cmd == fcntl.F_GETFL:
        return o.flags
    if cmd == fcntl.F_SETFL:
        keep = os.O_ACCMODE | os.O_DIRECTORY
        o.flags = (o.flags & keep) | (arg & ~keep)
        return 0
    if cmd in (fcntl.F_GETFD, fcntl.F_SETFD):
        return 1 if cmd == fcntl.F_GETFD else 0
    if cmd in (fcntl.F_DUPFD, fcntl.F_DUPFD_CLOEXEC):
        return s_dup(fd)
    raise HarnessError("fcntl command {} is not modelled".format(cmd))


# ---------------------------------------------------------------- time
def s_time():
    if W is not None and W.sim.current is not None:
        return W.sim.wall(W.sim.current.node)
    return REAL["time"]()


def s_time_ns():
    if W is not None and W.sim.current is not None:
        return int(W.sim.wall(W.sim.current.node) * 1e9)
    return REAL["time_ns"]()


def s_monotonic():
    if W is not None and W.sim.current is not None:
        W.sim.now += 1e-6
        return W.sim.now
    return REAL["monotonic"]()


def s_monotonic_ns():
    if W is not None and W.sim.current is not None:
        return int(s_monotonic() * 1e9)
    return REAL["monotonic_ns"]()


def s_perf_counter():
    if W is not None and W.sim.current is not None:
        return s_monotonic()
    return REAL["perf_counter"]()


def s_sleep(secs):
    if W is not None and W.sim.current is not None:
        if secs < 0:
            raise ValueError("sleep length must be non-negative")
        w = W
        w.op("sleep", "", faultable=True)
        w.sim.sleep(secs)
        return
    return REAL["sleep"](secs)


# ---------------------------------------------------------------- io
class SimRaw(io.RawIOBase):

    def __init__(self, world, node, fd, mode, closefd, name):
        self._w = world
        self._n = node
        self._fd = fd
        self._closefd = closefd
        self._r = "r" in mode or "+" in mode
        self._wr = any(c in mode for c in "wax+")
        self.name = name
        self.mode = mode

    def readable(self):
        return self._r

    def writable(self):
        return self._wr

    def seekable(self):
        o = self._n.fds.get(self._fd)
        return o is not None and o.inode.kind == FILE

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        n = min(len(b), self._w.read_chunk)
        d = s_read(self._fd, n)
        b[:len(d)] = d
        return len(d)

    def readall(self):
        out = bytearray()
        while True:
            d = s_read(self._fd, min(1 << 20, self._w.read_chunk))
            if not d:
                return bytes(out)
            out += d

    def write(self, b):
        if not self._wr:
            raise io.UnsupportedOperation("not writable")
        d = bytes(b)[:self._w.write_chunk]
        return s_write(self._fd, d)

    def seek(self, pos, whence=0):
        return s_lseek(self._fd, pos, whence)

    def tell(self):
        return s_lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        s_ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._closefd and self._fd in self._n.fds:
                    self._n.close(self._fd)


def s_io_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    virtual = False
    if W is not None:
        if _isfd(file):
            virtual = file >= FDBASE
        elif _vpath(file) is not None:
            virtual = True
        elif opener is not None and _in_task():
            virtual = True
    if not virtual:
        if W is not None and not _isfd(file) and any(c in mode for c in "wax+"):
            _deny_real_write(file)
        return REAL["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    w, node = _cur()
    modes = set(mode)
    if modes - set("axrwb+tU") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    binary = "b" in modes
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if sum(c in modes for c in "rwax") != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    base = "".join(c for c in mode if c in "rwax+")
    if _isfd(file):
        fd = file
        node.get(fd)
    else:
        if not closefd:
            raise ValueError("Cannot use closefd=False with file name")
        flags = os.O_CLOEXEC
        if "+" in modes:
            flags |= os.O_RDWR
        elif "r" in modes:
            flags |= os.O_RDONLY
        else:
            flags |= os.O_WRONLY
        if "w" in modes:
            flags |= os.O_CREAT | os.O_TRUNC
        elif "x" in modes:
            flags |= os.O_CREAT | os.O_EXCL
        elif "a" in modes:
            flags |= os.O_CREAT | os.O_APPEND
        if opener is not None:
            fd = opener(file, flags)
            if fd < FDBASE:
                return REAL["io.open"](fd, mode, buffering, encoding, errors, newline, True)
        else:
            fd = s_open(file, flags, 0o666)
        o = node.get(fd)
        if o.inode.kind == DIR:
            node.close(fd)
            raise err(errno.EISDIR, file)
        if "a" in modes and o.inode.kind == FILE:
            o.pos = len(o.inode.data)
    raw = SimRaw(w, node, fd, base, closefd, file)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line_buffering = buffering == 1
        size = io.DEFAULT_BUFFER_SIZE if buffering < 2 else buffering
        if "+" in modes:
            buf = io.BufferedRandom(raw, size)
        elif "r" in modes:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, w.locale_encoding if encoding in (None, "locale") else encoding, errors, newline, line_buffering)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


# ---------------------------------------------------------------- pynini
FstIOError = _pywrapfst.FstIOError


def _fst_write(self, source=None, *a, **k):
    path = source if source is not None else k.get("source")
    p = None
    if path is not None:
        try:
            p = _vpath(path)
        except Exception:
            p = None
    if p is None:
        if path is not None and W is not None:
            _deny_real_write(path)
        return REAL["fst.write"](self, source, *a, **k) if source is not None else REAL["fst.write"](self, *a, **k)
    data = self.write_to_string()
    w, node = _cur()
    try:
        fd = s_open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
    except OSError as e:
        raise FstIOError("Write failed: {}".format(p)) from e
    try:
        chunk = max(1, min(w.write_chunk, max(256, len(data) // 4 + 1)))
        off = 0
        while off < len(data):
            off += s_write(fd, data[off:off + chunk])
    except OSError as e:
        node.close(fd)
        raise FstIOError("Write failed: {}".format(p)) from e
    except BaseException:
        if fd in node.fds:
            node.close(fd)
        raise
    s_close(fd)


def _read_all(p):
    fd = s_open(p, os.O_RDONLY)
    w, node = _cur()
    out = bytearray()
    try:
        while True:
            d = s_read(fd, min(1 << 20, w.read_chunk))
            if not d:
                break
            out += d
    except BaseException:
        if fd in node.fds:
            node.close(fd)
        raise
    s_close(fd)
    return bytes(out)


def _make_fst_read(real):

    def read(source, *a, **k):
        p = None
        try:
            p = _vpath(source)
        except Exception:
            p = None
        if p is None:
            return real(source, *a, **k)
        try:
            data = _read_all(p)
        except OSError as e:
            raise FstIOError("Read failed: {}".format(p)) from e
        return _pynini.Fst.read_from_string(data)

    return read


# ---------------------------------------------------------------- threading
def s_Lock(*a):
    if _in_task():
        return SimLock(W.sim)
    return REAL["Lock"]()


def s_RLock(*a):
    if _in_task():
        return SimLock(W.sim, True)
    return REAL["RLock"]()


def s_start_new_thread(fn, args=(), kwargs=None):
    if not _in_task():
        return REAL["start_new_thread"](fn, args, kwargs or {})
    node = W.sim.current.node
    t = W.sim.spawn(lambda: fn(*args, **(kwargs or {})), name="{}/thr{}".format(node.name, len(node.tasks)), node=node)
    return 10_000 + t.index


def s_set_sentinel():
    if _in_task():
        t = W.sim.current
        t.sentinel = SimLock(W.sim)
        return t.sentinel
    return REAL["_set_sentinel"]()


class _Names:
    """tempfile's candidate names, deterministic per run."""

    def __iter__(self):
        return self

    def __next__(self):
        if W is not None:
            W.tmp_seq += 1
            return "s{:07d}".format(W.tmp_seq)
        return "r" + os.urandom(6).hex()


OS_PATCH = {
    "open": s_open, "close": s_close, "read": s_read, "pread": s_pread, "readv": s_readv, "write": s_write,
    "pwrite": s_pwrite, "writev": s_writev, "lseek": s_lseek, "fsync": s_fsync, "fdatasync": s_fsync,
    "ftruncate": s_ftruncate, "truncate": s_truncate, "fstat": s_fstat, "stat": s_stat, "lstat": s_lstat,
    "access": s_access, "mkdir": s_mkdir, "rmdir": s_rmdir, "unlink": s_unlink, "remove": s_unlink,
    "rename": s_rename, "replace": s_replace, "link": s_link, "symlink": s_symlink, "mkfifo": s_mkfifo,
    "readlink": s_readlink, "listdir": s_listdir, "scandir": s_scandir, "chmod": s_chmod, "fchmod": s_fchmod,
    "chown": s_chown, "lchown": s_chown, "utime": s_utime, "dup": s_dup, "dup2": s_dup2, "statvfs": s_statvfs,
    "sync": s_sync, "sendfile": s_sendfile, "copy_file_range": s_copy_file_range,
    "posix_fallocate": s_posix_fallocate, "getpid": s_getpid, "uname": s_uname, "getcwd": s_getcwd, "chdir": s_chdir,
    "urandom": s_urandom, "getrandom": s_getrandom, "kill": s_kill, "_exit": s__exit,
    "isatty": _simple_fd("isatty", False), "get_inheritable": _simple_fd("get_inheritable", False),
    "set_inheritable": _simple_fd("set_inheritable", None), "posix_fadvise": _simple_fd("posix_fadvise", None),
    "fchown": _simple_fd("fchown", None), "fstatvfs": s_statvfs, "get_blocking": _simple_fd("get_blocking", True),
}


def ext_dict(cls):
    return gc.get_referents(cls.__dict__)[0]


_installed = False


def install():
    """Patches the seams once per interpreter; inert while W is None."""
    global _installed
    if _installed:
        return
    _installed = True
    for name, fn in OS_PATCH.items():
        if not hasattr(os, name):
            continue
        real = getattr(os, name)
        REAL[name] = real
        for s in (os.supports_fd, os.supports_dir_fd, os.supports_follow_symlinks, os.supports_effective_ids):
            if real in s:
                s.add(fn)
        setattr(os, name, fn)
    REAL["io.open"] = io.open
    io.open = s_io_open
    builtins.open = s_io_open
    for name, fn in (("flock", s_flock), ("lockf", s_lockf), ("fcntl", s_fcntl)):
        REAL[name] = getattr(fcntl, name)
        setattr(fcntl, name, fn)
    for name, fn in (("time", s_time), ("time_ns", s_time_ns), ("monotonic", s_monotonic), ("monotonic_ns", s_monotonic_ns),
                     ("perf_counter", s_perf_counter), ("sleep", s_sleep)):
        REAL[name] = getattr(time, name)
        setattr(time, name, fn)
    random._urandom = s_urandom
    REAL["gethostname"], REAL["platform.node"] = socket.gethostname, platform.node
    socket.gethostname, platform.node = s_gethostname, s_platform_node
    REAL["Lock"] = threading.Lock
    REAL["RLock"] = threading.RLock
    REAL["start_new_thread"] = threading._start_new_thread
    REAL["_set_sentinel"] = threading._set_sentinel
    REAL["get_ident"] = threading.get_ident
    threading.Lock = s_Lock
    threading.RLock = s_RLock
    threading._allocate_lock = s_Lock
    threading._start_new_thread = s_start_new_thread
    threading._set_sentinel = s_set_sentinel
    threading._time = s_monotonic
    tempfile._name_sequence = _Names()
    d = ext_dict(_pywrapfst.Fst)
    REAL["fst.write"] = d["write"]
    d["write"] = _fst_write
    import ctypes
    ctypes.pythonapi.PyType_Modified(ctypes.py_object(_pywrapfst.Fst))
    rd = _pynini.Fst.read
    REAL["fst.read"] = rd
    d2 = ext_dict(_pynini.Fst)
    if "read" in d2:
        d2["read"] = staticmethod(_make_fst_read(rd))
        ctypes.pythonapi.PyType_Modified(ctypes.py_object(_pynini.Fst))
    else:
        d["read"] = staticmethod(_make_fst_read(rd))
        ctypes.pythonapi.PyType_Modified(ctypes.py_object(_pywrapfst.Fst))


def activate(world):
    global W
    install()
    W = world


def deactivate():
    global W
    W = None
