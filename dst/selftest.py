"""Checks the machinery itself: the simulated file system against a real one, and determinism.

selftest.py [SECONDS] [SEED]
"""

import errno
import fcntl
import os
import random
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import scen  # noqa: E402
from lab import HOME  # noqa: E402
from simcore import Choices  # noqa: E402

NAMES = ["a", "b", "c", "d", "loop", "."]  # no "..": the real side must stay inside its scratch directory


def gen(r, n):
    """n symbolic operations: (name, args)."""
    ops = []

    def path():
        k = r.choice((1, 1, 2, 2, 3))
        p = "/".join(r.choice(NAMES[:5] if r.random() < .9 else NAMES) for _ in range(k))
        return p

    for _ in range(n):
        k = r.random()
        slot = r.randrange(5)
        dslot = r.randrange(5) if r.random() < .35 else None
        if k < .24:
            fl = r.choice((os.O_RDONLY, os.O_WRONLY, os.O_RDWR))
            for f, p in ((os.O_CREAT, .5), (os.O_EXCL, .2), (os.O_TRUNC, .15), (os.O_NOFOLLOW, .3), (os.O_DIRECTORY, .25),
                         (os.O_APPEND, .1), (os.O_NONBLOCK, 1.0), (os.O_CLOEXEC, .5)):
                if r.random() < p:
                    fl |= f
            if fl & os.O_DIRECTORY and fl & os.O_CREAT:
                fl &= ~os.O_CREAT  # kernel-version dependent
            ops.append(("open", slot, path(), fl, dslot))
        elif k < .30:
            ops.append(("close", slot))
        elif k < .36:
            ops.append(("read", slot, r.choice((0, 1, 5, 100))))
        elif k < .44:
            ops.append(("write", slot, bytes([r.randrange(256)]) * r.choice((1, 3, 20))))
        elif k < .47:
            ops.append(("lseek", slot, r.choice((0, 2, 30, -1)), r.choice((0, 1, 2))))
        elif k < .49:
            ops.append(("ftruncate", slot, r.choice((0, 2, 25))))
        elif k < .50:
            ops.append(("fsync", slot))
        elif k < .58:
            ops.append(("mkdir", path() + ("/" if r.random() < .1 else ""), dslot))
        elif k < .62:
            ops.append(("rmdir", path(), dslot))
        elif k < .67:
            ops.append(("unlink", path(), dslot))
        elif k < .76:
            ops.append((r.choice(("rename", "replace")), path(), path(), dslot, r.randrange(5) if r.random() < .3 else None))
        elif k < .79:
            ops.append(("link", path(), path(), dslot, None))
        elif k < .84:
            ops.append(("symlink", r.choice((path(), path(), "loop", ".")), path(), dslot))
        elif k < .85:
            ops.append(("mkfifo", path(), dslot))
        elif k < .90:
            ops.append(("stat", path() + ("/" if r.random() < .1 else ""), dslot, r.random() < .5))
        elif k < .92:
            ops.append(("fstat", slot))
        elif k < .94:
            ops.append(("listdir", slot if r.random() < .5 else path()))
        elif k < .95:
            ops.append(("scandir", slot if r.random() < .5 else path()))
        elif k < .96:
            ops.append(("readlink", path(), dslot))
        else:
            ops.append(("flock", slot, r.choice((fcntl.LOCK_EX, fcntl.LOCK_SH, fcntl.LOCK_UN)) | fcntl.LOCK_NB))
    return ops


def st(s):
    kind = s.st_mode & 0o170000
    return (kind, s.st_nlink if kind != 0o040000 else None, s.st_size if kind != 0o040000 else None)


def execute(ops, root):
    fds = {}
    out = []

    def at(p, d):
        if d is None or d not in fds:
            return root + "/" + p, None
        return p, fds[d]

    for op in ops:
        k = op[0]
        try:
            if k == "open":
                p, d = at(op[2], op[4])
                fd = os.open(p, op[3], 0o644, dir_fd=d)
                if (os.fstat(fd).st_mode & 0o170000) == 0o010000 and op[3] & os.O_ACCMODE:
                    os.close(fd)
                    raise OSError(errno.ENXIO, "FIFO writers are not modelled")
                if op[1] in fds:
                    os.close(fds[op[1]])
                fds[op[1]] = fd
                res = "fd"
            elif k in ("close", "read", "write", "lseek", "ftruncate", "fsync", "fstat", "flock"):
                if op[1] not in fds:
                    res = "no slot"
                elif k == "close":
                    res = os.close(fds.pop(op[1]))
                elif k == "fstat":
                    res = st(os.fstat(fds[op[1]]))
                elif k == "flock":
                    res = fcntl.flock(fds[op[1]], op[2])
                else:
                    if k in ("read", "write", "lseek", "ftruncate", "fsync") and (os.fstat(fds[op[1]]).st_mode & 0o170000) == 0o010000:
                        res = "fifo"  # data flow through FIFOs is not modelled
                    elif k == "lseek" and (os.fstat(fds[op[1]]).st_mode & 0o170000) == 0o040000:
                        res = "dir"
                    else:
                        res = getattr(os, k)(fds[op[1]], *op[2:])
            elif k in ("mkdir", "rmdir", "unlink", "readlink", "mkfifo"):
                p, d = at(op[1], op[2])
                res = getattr(os, k)(p, dir_fd=d)
            elif k in ("rename", "replace"):
                p, d = at(op[1], op[3])
                q, e = at(op[2], op[4])
                res = getattr(os, k)(p, q, src_dir_fd=d, dst_dir_fd=e)
            elif k == "link":
                p, d = at(op[1], op[3])
                res = os.link(p, root + "/" + op[2], src_dir_fd=d, follow_symlinks=False) if d is not None else \
                    os.link(p, root + "/" + op[2], follow_symlinks=False)
            elif k == "symlink":
                p, d = at(op[2], op[3])
                res = os.symlink(op[1], p, dir_fd=d)
            elif k == "stat":
                p, d = at(op[1], op[2])
                res = st(os.stat(p, dir_fd=d, follow_symlinks=op[3]))
            elif k == "listdir":
                a = fds.get(op[1]) if isinstance(op[1], int) else root + "/" + op[1]
                res = "no slot" if a is None else sorted(os.listdir(a))
            elif k == "scandir":
                a = fds.get(op[1]) if isinstance(op[1], int) else root + "/" + op[1]
                if a is None:
                    res = "no slot"
                else:
                    with os.scandir(a) as it:
                        res = sorted((e.name, e.is_dir(follow_symlinks=False), e.is_symlink(), e.is_file(follow_symlinks=False)) for e in it)
        except OSError as e:
            res = "errno " + errno.errorcode.get(e.errno, str(e.errno))
        except ValueError as e:
            res = "ValueError"
        out.append(res)
    for fd in fds.values():
        os.close(fd)
    tree = []
    todo = [""]
    while todo:
        d = todo.pop()
        for n in sorted(os.listdir(root + d)):
            p = d + "/" + n
            s = os.lstat(root + p)
            m = s.st_mode & 0o170000
            if m == 0o040000:
                tree.append((p, "dir"))
                todo.append(p)
            elif m == 0o120000:
                tree.append((p, "link", os.readlink(root + p)))
            elif m == 0o010000:
                tree.append((p, "fifo"))
            else:
                fd = os.open(root + p, os.O_RDONLY)
                tree.append((p, "file", os.read(fd, 1 << 16), s.st_nlink))
                os.close(fd)
    return out, sorted(tree)


def differential(seed, n=60):
    ops = gen(random.Random(seed), n)
    if any(".." in a for op in ops for a in op if isinstance(a, str)):
        raise AssertionError("a path of this test could leave its scratch directory")
    real_root = tempfile.mkdtemp(prefix="dstself-")
    try:
        real = execute(ops, real_root)
    finally:
        shutil.rmtree(real_root)
    box = []
    with scen.mk(Choices("self:{}".format(seed)), strategy=0) as lab:
        lab.w.faults_on = False
        p = lab.proc()
        lab.fs.makedirs(HOME + "/x")
        lab.spawn(p, lambda: box.append(execute(ops, HOME + "/x")))
        lab.run()
    sim = box[0]
    for i, op in enumerate(ops):
        if real[0][i] != sim[0][i]:
            return "seed {} op {} {}: kernel {!r}, simulated {!r}\n   before: {}".format(seed, i, op, real[0][i], sim[0][i],
                                                                              list(zip(ops, real[0]))[max(0, i - 8):i])
    if real[1] != sim[1]:
        return "seed {}: trees differ: {}".format(seed, sorted(set(map(repr, real[1])) ^ set(map(repr, sim[1])))[:6])
    return None


def main():
    seconds = float(sys.argv[1]) if len(sys.argv) > 1 else 10
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    t0 = time.time()
    n = bad = 0
    while time.time() - t0 < seconds:
        r = differential(seed * 1000003 + n)
        n += 1
        if r:
            bad += 1
            if bad < 6:
                print("DIFF", r)
    print("simulated file system: {} random histories of 60 calls compared with the kernel's, {} differ".format(n, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
