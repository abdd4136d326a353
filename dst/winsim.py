"""What differs on Windows: the operating system module the code under test sees,
its locking module and its rules for open, locked and linked files.

Paths keep their POSIX spelling.  Everything else follows the documentation of the
C runtime and of Win32 (sharing modes of _wopen, MoveFileEx, LockFile, _commit)."""

import errno
import opcode
import os
import stat as st_mod
import sys
import types

from simfs import DIR, FDBASE, FILE, LINK, err

O_BINARY, O_TEXT, O_NOINHERIT = 0x8000, 0x4000, 0x80
REPARSE, DIRECTORY, ARCHIVE = 0x400, 0x10, 0x20
ABSENT = frozenset("""O_DIRECTORY O_NOFOLLOW O_CLOEXEC O_NONBLOCK O_PATH O_SYNC O_DSYNC O_NOCTTY O_ASYNC O_DIRECT O_LARGEFILE O_TMPFILE
    fork forkpty fchdir fchmod fchown fdatasync sync chown lchown getuid geteuid getgid getegid getgroups getpgid getsid setsid uname sysconf
    pread preadv pwrite pwritev readv writev posix_fallocate posix_fadvise mkfifo mknod statvfs fstatvfs sendfile copy_file_range lockf
    F_LOCK F_ULOCK F_TLOCK nice getloadavg register_at_fork sched_getaffinity wait confstr pathconf""".split())
_LOAD_ATTR = opcode.opmap["LOAD_ATTR"]
_DIR_FD = ("open", "stat", "mkdir", "rmdir", "unlink", "remove", "readlink", "symlink", "access", "chmod", "utime", "lstat")


class WinOS(types.ModuleType):
    """The module os as the code under test sees it."""

    name = "nt"
    supports_dir_fd = frozenset()
    supports_fd = frozenset()
    O_BINARY, O_TEXT, O_NOINHERIT = O_BINARY, O_TEXT, O_NOINHERIT

    def __init__(self):
        super().__init__("os")

    def __getattr__(self, name):
        if name in ABSENT:
            # Which names the module has there is a static question, not decided here: code that
            # asks is told, code that just uses a name gets something that does no more than that.
            f = sys._getframe(1)
            if f.f_code.co_code[f.f_lasti] == _LOAD_ATTR:
                import osseam
                W = osseam.W
                if W is not None:
                    W.count("POSIX-only name used: os." + name)
                return 0 if name.startswith("O_") else getattr(os, name)
            raise AttributeError("module 'os' has no attribute {!r}".format(name))
        real = getattr(os, name)
        if name in _DIR_FD:
            return _no_dir_fd(name)
        if name in ("listdir", "scandir"):
            return _no_fd(name)
        if name in ("rename", "replace", "link"):
            return _no_dir_fds(name)
        return real


def _no_dir_fd(name):

    def f(path, *a, dir_fd=None, **k):
        if dir_fd is not None:
            raise NotImplementedError("dir_fd unavailable on this platform")
        if name == "open":
            a = (a[0] & ~(O_BINARY | O_TEXT | O_NOINHERIT), ) + a[1:] if a else a
            if "flags" in k:
                k["flags"] &= ~(O_BINARY | O_TEXT | O_NOINHERIT)
        return getattr(os, name)(path, *a, **k)

    return f


def _no_dir_fds(name):

    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None, **k):
        if src_dir_fd is not None or dst_dir_fd is not None:
            raise NotImplementedError("src_dir_fd and dst_dir_fd unavailable on this platform")
        return getattr(os, name)(src, dst, **k)

    return f


def _no_fd(name):

    def f(path="."):
        if isinstance(path, int):
            raise TypeError("path should be string, bytes, os.PathLike or None, not int")
        return getattr(os, name)(path)

    return f


class WinSys(types.ModuleType):
    platform = "win32"

    def __init__(self):
        super().__init__("sys")

    def __getattr__(self, name):
        return getattr(sys, name)


WIN_OS, WIN_SYS = WinOS(), WinSys()


class Msvcrt(types.ModuleType):
    LK_UNLCK, LK_LOCK, LK_NBLCK, LK_RLCK, LK_NBRLCK = 0, 1, 2, 3, 4

    def __init__(self):
        super().__init__("msvcrt")

    def locking(self, fd, mode, nbytes):
        import osseam
        w, node, o = osseam._io(fd)
        held = o.inode.winlocks
        start, end = o.pos, o.pos + nbytes
        if mode == self.LK_UNLCK:
            w.op("unlock", o.path)
            if (o, start, end) not in held:
                raise err(errno.EACCES)
            held.remove((o, start, end))
            return
        w.op("flock", o.path)

        def free():
            return not any(a < end and start < b for k, a, b in held)

        if not free() and mode in (self.LK_LOCK, self.LK_RLCK):
            for _ in range(9):
                w.sim.sleep(1.0)
                if free():
                    break
            else:
                raise err(errno.EDEADLK)
        if not free():
            raise err(errno.EACCES)
        held.append((o, start, end))
        w.locked(node, o)

    def get_osfhandle(self, fd):
        return fd

    def open_osfhandle(self, handle, flags):
        return handle


MSVCRT = Msvcrt()


# ---------------------------------------------------------------- rules
def handles(w):
    for p in w.procs:
        yield from p.fds.values()
    yield from w.driver.fds.values()
    yield from w.foreign


def in_use(w, inode):
    """Whether a rename or removal of inode fails: it or something below it is open without leave to delete."""
    for o in handles(w):
        n = o.inode
        while True:
            if n is inode:
                return True
            if n.parent is None or n.parent is n:
                break
            n = n.parent
    return False


def check_open(w, node, p, start, path):
    n = w.fs.walk(p, start)[2]
    if n is not None and n.kind == DIR:
        raise err(errno.EACCES, path)


def check_io(o, start, end):
    for k, a, b in o.inode.winlocks:
        if k is not o and a < end and start < b:
            raise err(errno.EACCES)


def check_unlink(w, p, start):
    n = w.fs.walk(p, start, follow=False)[2]
    if n is not None and n.kind != LINK and (n.kind == DIR or in_use(w, n)):
        raise err(errno.EACCES, p)


def check_rename(w, src, dst, start, replace):
    a = w.fs.walk(src, start, follow=False, final=False)[2]
    b = w.fs.walk(dst, start, follow=False, final=False)[2]
    if a is None or a is b:
        return
    if b is not None:
        if not replace:
            raise err(errno.EEXIST, src, dst)
        if b.kind == DIR or in_use(w, b):
            raise err(errno.EACCES, src, dst)
    if in_use(w, a):
        w.count("sharing violation")
        raise err(errno.EACCES, src, dst)


class Foreign:
    """A handle of another program."""

    def __init__(self, inode):
        self.inode = inode


class WinStat:
    """A stat result of a reparse point."""

    def __init__(self, st, junction):
        self._st = st
        self.st_file_attributes = REPARSE | (DIRECTORY if junction else ARCHIVE)
        self.st_reparse_tag = 0xA0000003 if junction else 0xA000000C
        self.st_mode = st_mod.S_IFDIR | 0o777 if junction else st.st_mode

    def __getattr__(self, name):
        return getattr(self._st, name)

    def __getitem__(self, i):
        return self.st_mode if i == 0 else self._st[i]


def stat(st, inode):
    if inode.kind != LINK:
        return st
    # posixpath stands in for ntpath here; resolving paths has to see junctions as links
    junction = inode.junction and sys._getframe(3).f_code.co_name != "_joinrealpath"
    return WinStat(st, junction)


class Modules:
    """While the code under test is imported and runs."""

    def __init__(self):
        self.saved = {}

    def install(self):
        self.saved = {k: sys.modules.get(k) for k in ("msvcrt", "fcntl")}
        sys.modules["msvcrt"] = MSVCRT
        sys.modules["fcntl"] = None

    def uninstall(self):
        for k, v in self.saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


class importing:
    """Around the execution of a module of the code under test."""

    def __enter__(self):
        self.saved = sys.modules["os"], sys.modules["sys"]
        sys.modules["os"], sys.modules["sys"] = WIN_OS, WIN_SYS

    def __exit__(self, *a):
        sys.modules["os"], sys.modules["sys"] = self.saved
