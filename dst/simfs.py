"""In-memory POSIX file system with a durable image and power-loss semantics.

No scheduling and no faults here: pure state.  The os seam (osseam.py) adds
yield points, faults and per-process descriptor tables on top.
"""

import errno
import os
import stat as st_mod

MOUNT = "/simfs"
FDBASE = 1_000_000
_MAXLINK = 40

FILE, DIR, LINK, FIFO = "file", "dir", "link", "fifo"


def err(code, path=None, path2=None):
    if path2 is not None:
        return OSError(code, os.strerror(code), path, None, path2)
    if path is not None:
        return OSError(code, os.strerror(code), path)
    return OSError(code, os.strerror(code))


class Inode:
    __slots__ = ("ino", "kind", "data", "entries", "target", "mode", "nlink", "mtime", "ctime", "parent", "flocks", "plocks",
                 "synced", "pending", "born", "opens", "reads", "winlocks", "junction")

    def __init__(self, ino, kind, now, mode=0o644):
        self.ino = ino
        self.kind = kind
        self.data = bytearray() if kind == FILE else None
        self.entries = {} if kind == DIR else None
        self.target = None
        self.mode = mode
        self.nlink = 1
        self.mtime = self.ctime = now
        self.parent = None
        self.flocks = {}
        self.plocks = {}
        self.synced = b""  # contents as of the last fsync (files)
        self.pending = []  # unsynced ("w", off, bytes) / ("t", size)
        self.born = now
        self.winlocks = []  # (open file, start, end): mandatory locks of Windows
        self.junction = False  # a link that stands for a directory of its own (Windows)
        self.opens = 0
        self.reads = 0


class OFD:
    """Open file description."""
    __slots__ = ("inode", "flags", "pos", "refs", "path", "closed", "appending", "dirpath", "owner", "linked")

    def __init__(self, inode, flags, path, owner):
        self.inode = inode
        self.flags = flags
        self.pos = 0
        self.refs = 1
        self.path = path
        self.closed = False
        self.linked = False  # reached through a symbolic link
        self.owner = owner

    @property
    def readable(self):
        return (self.flags & os.O_ACCMODE) in (os.O_RDONLY, os.O_RDWR) and not self.flags & getattr(os, "O_PATH", 0)

    @property
    def writable(self):
        return (self.flags & os.O_ACCMODE) in (os.O_WRONLY, os.O_RDWR)


def _norm(path):
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    return path


class SimFS:

    def __init__(self, clock, dev=77):
        self.clock = clock
        self.dev = dev
        self.next_ino = 100
        self.inodes = {}
        self.root = self._new(DIR, 0o755)
        self.root.parent = self.root
        self.journal = []  # metadata ops since the durable base
        self.committed = 0
        self.mode = "ext4"  # ext4 | strict | unordered
        self.base = {self.root.ino: {}}  # durable directory structure
        self.base_kind = {self.root.ino: self.root}
        self.mutations = 0
        self.on_mutation = None
        self.list_salt = 0
        self.ever_lost = 0

    # ---- helpers -------------------------------------------------------
    def _new(self, kind, mode):
        self.next_ino += 1
        n = Inode(self.next_ino, kind, self.clock(), mode)
        self.inodes[n.ino] = n
        return n

    def _mut(self, kind, inode, name=None, parent=None):
        self.mutations += 1
        if self.on_mutation is not None:
            self.on_mutation(kind, inode, name, parent)

    def _touch(self, inode):
        inode.mtime = inode.ctime = self.clock()

    @staticmethod
    def parts(path):
        return [p for p in path.split("/") if p]

    def rel(self, path):
        """'/simfs/a/b' -> ['a','b']"""
        p = _norm(path)
        if p == MOUNT or p.startswith(MOUNT + "/"):
            return p[len(MOUNT):]
        raise err(errno.ENOENT, path)

    def walk(self, path, start=None, follow=True, final=True):
        """Resolves to (parent, name, inode|None).  path: virtual string."""
        orig = path
        self.followed = 0
        path = _norm(path)
        if path == "":
            raise err(errno.ENOENT, orig)
        if path.startswith("/"):
            cur = self.root
            comps = self.parts(self.rel(path))
        else:
            if start is None:
                raise err(errno.ENOENT, orig)
            cur = start
            comps = self.parts(path)
        trailing = path.endswith("/") and bool(comps)
        links = 0
        if cur.kind != DIR:
            raise err(errno.ENOTDIR, orig)
        i = 0
        parent, name, node = cur.parent or cur, ".", cur
        if not comps:
            return parent, ".", cur
        while i < len(comps):
            c = comps[i]
            last = i == len(comps) - 1
            if cur.kind != DIR:
                raise err(errno.ENOTDIR, orig)
            if c == ".":
                parent, name, node = cur.parent, ".", cur
                i += 1
                continue
            if c == "..":
                cur = cur.parent or self.root
                parent, name, node = cur.parent, "..", cur
                i += 1
                continue
            if len(c.encode("utf-8", "surrogateescape")) > 255:
                raise err(errno.ENAMETOOLONG, orig)
            child = cur.entries.get(c)
            if child is not None and child.kind == LINK and (not last or follow or (trailing and final)):
                links += 1
                self.followed = links
                if links > _MAXLINK:
                    raise err(errno.ELOOP, orig)
                t = child.target
                rest = comps[i + 1:]
                if t.startswith("/"):
                    try:
                        tc = self.parts(self.rel(t))
                    except OSError:
                        raise err(errno.ENOENT, orig)
                    cur = self.root
                else:
                    tc = self.parts(t)
                comps = tc + rest
                i = 0
                parent, name, node = cur.parent, ".", cur
                if not comps:
                    return parent, ".", cur
                continue
            if last:
                if trailing and final and child is not None and child.kind != DIR:
                    raise err(errno.ENOTDIR, orig)
                return cur, c, child
            if child is None:
                raise err(errno.ENOENT, orig)
            cur = child
            i += 1
        return parent, name, node

    def path_of(self, inode):
        """A current path of a directory or file inode (search), or None."""
        for p, n in self.iter():
            if n is inode:
                return p
        return None

    def iter(self, inode=None, prefix=MOUNT):
        inode = self.root if inode is None else inode
        yield prefix, inode
        if inode.kind == DIR:
            for k in sorted(inode.entries):
                yield from self.iter(inode.entries[k], prefix + "/" + k)

    # ---- metadata ------------------------------------------------------
    def log(self, *op):
        self.journal.append(op)

    def open(self, path, flags, mode, start, owner):
        creat = flags & os.O_CREAT
        excl = flags & os.O_EXCL
        nofollow = flags & os.O_NOFOLLOW
        parent, name, node = self.walk(path, start, follow=not (nofollow or (creat and excl)))
        if node is None:
            if not creat:
                raise err(errno.ENOENT, path)
            if _norm(path).endswith("/"):
                raise err(errno.EISDIR, path)
            if flags & os.O_DIRECTORY:
                raise err(errno.EINVAL, path)
            if parent.nlink == 0:
                raise err(errno.ENOENT, path)
            node = self._new(FILE, mode & 0o777)
            node.parent = parent
            parent.entries[name] = node
            self._touch(parent)
            self.log("link", parent.ino, name, node.ino)
            self._mut("create", node, name, parent)
            return OFD(node, flags, path, owner)
        if creat and excl:
            raise err(errno.EEXIST, path)
        if node.kind == LINK:
            if flags & getattr(os, "O_PATH", 0):
                return OFD(node, flags, path, owner)
            raise err(errno.ELOOP, path) if not flags & os.O_DIRECTORY else err(errno.ENOTDIR, path)
        if flags & os.O_DIRECTORY and node.kind != DIR:
            raise err(errno.ENOTDIR, path)
        acc = flags & os.O_ACCMODE
        if node.kind == DIR and (acc != os.O_RDONLY or creat or flags & os.O_TRUNC):
            raise err(errno.EISDIR, path)
        if node.kind == FILE and flags & os.O_TRUNC:
            self.truncate(node, 0)
        node.opens += 1
        return OFD(node, flags, path, owner)

    def read(self, ofd, n, pos=None):
        node = ofd.inode
        if node.kind == DIR:
            raise err(errno.EISDIR)
        if not ofd.readable:
            raise err(errno.EBADF)
        if node.kind != FILE:
            return b""
        p = ofd.pos if pos is None else pos
        data = bytes(node.data[p:p + n])
        node.reads += 1
        if pos is None:
            ofd.pos += len(data)
        return data

    def write(self, ofd, data, pos=None):
        node = ofd.inode
        if not ofd.writable:
            raise err(errno.EBADF)
        data = bytes(data)
        if node.kind != FILE:
            return len(data)
        if ofd.flags & os.O_APPEND:
            ofd.pos = len(node.data)
        p = ofd.pos if pos is None else pos
        if not data:
            return 0
        if p > len(node.data):
            node.data.extend(b"\0" * (p - len(node.data)))
        node.data[p:p + len(data)] = data
        node.pending.append(("w", p, data))
        self._touch(node)
        if pos is None:
            ofd.pos = p + len(data)
        self._mut("write", node)
        return len(data)

    def truncate(self, node, size):
        if node.kind != FILE:
            raise err(errno.EINVAL)
        cur = len(node.data)
        if size < cur:
            del node.data[size:]
        else:
            node.data.extend(b"\0" * (size - cur))
        node.pending.append(("t", size))
        self._touch(node)
        self._mut("truncate", node)

    def fsync(self, node):
        if node.kind == FILE:
            node.synced = bytes(node.data)
            node.pending = []
        if self.mode == "ext4":
            self.committed = len(self.journal)
        elif node.kind == DIR:
            last = 0
            for i in range(len(self.journal) - 1, self.committed - 1, -1):
                if node.ino in self._dirs_of(self.journal[i]):
                    last = i + 1
                    break
            self.committed = max(self.committed, last)

    def sync_all(self):
        for n in self.inodes.values():
            if n.kind == FILE:
                n.synced = bytes(n.data)
                n.pending = []
        self.committed = len(self.journal)
        self._rebase()

    @staticmethod
    def _dirs_of(op):
        if op[0] == "rename":
            return (op[1], op[3])
        return (op[1],)

    def mkdir(self, path, mode, start):
        parent, name, node = self.walk(path, start, follow=False, final=False)
        if node is not None:
            raise err(errno.EEXIST, path)
        if name in (".", ".."):
            raise err(errno.EEXIST, path)
        if parent.nlink == 0:
            raise err(errno.ENOENT, path)
        d = self._new(DIR, mode & 0o777)
        d.parent = parent
        parent.entries[name] = d
        self._touch(parent)
        self.log("link", parent.ino, name, d.ino)
        self._mut("mkdir", d, name, parent)
        return d

    def mknod(self, path, kind, start, mode=0o644):
        parent, name, node = self.walk(path, start, follow=False, final=False)
        if node is not None:
            raise err(errno.EEXIST, path)
        self._new_name(parent, path)
        d = self._new(kind, mode)
        d.parent = parent
        parent.entries[name] = d
        self._touch(parent)
        self.log("link", parent.ino, name, d.ino)
        self._mut("create", d, name, parent)
        return d

    def _new_name(self, parent, path):
        """Checks shared by calls that create a non-directory name."""
        if _norm(path).endswith("/") or parent.nlink == 0:
            raise err(errno.ENOENT, path)

    def symlink(self, target, path, start):
        parent, name, node = self.walk(path, start, follow=False, final=False)
        if node is not None:
            raise err(errno.EEXIST, target, path)
        self._new_name(parent, path)
        d = self._new(LINK, 0o777)
        d.target = _norm(target)
        d.parent = parent
        parent.entries[name] = d
        self._touch(parent)
        self.log("link", parent.ino, name, d.ino)
        self._mut("symlink", d, name, parent)
        return d

    def link(self, src, dst, sstart, dstart, follow=False):
        _, _, node = self.walk(src, sstart, follow=follow)
        if node is None:
            raise err(errno.ENOENT, src, dst)
        if callable(dstart):
            dstart = dstart()
        parent, name, old = self.walk(dst, dstart, follow=False)
        if old is not None:
            raise err(errno.EEXIST, src, dst)
        self._new_name(parent, dst)
        if node.kind == DIR:
            raise err(errno.EPERM, src, dst)
        node.nlink += 1
        parent.entries[name] = node
        self._touch(parent)
        self.log("link", parent.ino, name, node.ino)
        self._mut("link", node, name, parent)

    def unlink(self, path, start):
        parent, name, node = self.walk(path, start, follow=False)
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind == DIR:
            raise err(errno.EISDIR, path)
        del parent.entries[name]
        node.nlink -= 1
        self._touch(parent)
        self.log("unlink", parent.ino, name, node.ino)
        self._mut("unlink", node, name, parent)

    def rmdir(self, path, start):
        parent, name, node = self.walk(path, start, follow=False)
        if node is None:
            raise err(errno.ENOENT, path)
        if name == ".":
            raise err(errno.EINVAL, path)
        if node.kind != DIR:
            raise err(errno.ENOTDIR, path)
        if node.entries:
            raise err(errno.ENOTEMPTY, path)
        if node is self.root:
            raise err(errno.EBUSY, path)
        del parent.entries[name]
        node.nlink = 0
        self._touch(parent)
        self.log("unlink", parent.ino, name, node.ino)
        self._mut("rmdir", node, name, parent)

    def rename(self, src, dst, sstart, dstart):
        sp, sn, node = self.walk(src, sstart, follow=False, final=False)
        if callable(dstart):
            dstart = dstart()
        dp, dn, old = self.walk(dst, dstart, follow=False, final=False)
        if sn in (".", "..") or dn in (".", ".."):
            raise err(errno.EBUSY, src, dst)
        if node is None:
            raise err(errno.ENOENT, src, dst)
        if node.kind != DIR and (_norm(src).endswith("/") or _norm(dst).endswith("/")):
            raise err(errno.ENOTDIR, src, dst)
        if node.kind == DIR:
            p = dp
            while True:
                if p is node:
                    raise err(errno.EINVAL, src, dst)
                if p is self.root or p.parent is None or p.parent is p:
                    break
                p = p.parent
        if old is not None and old.kind == DIR:
            p = sp
            while True:
                if p is old:
                    raise err(errno.ENOTEMPTY, src, dst)
                if p is self.root or p.parent is None or p.parent is p:
                    break
                p = p.parent
        if old is node:
            return
        if dp.nlink == 0:
            raise err(errno.ENOENT, src, dst)
        if old is not None:
            if node.kind == DIR:
                if old.kind != DIR:
                    raise err(errno.ENOTDIR, src, dst)
                if old.entries:
                    raise err(errno.ENOTEMPTY, src, dst)
                old.nlink = 0
            else:
                if old.kind == DIR:
                    raise err(errno.EISDIR, src, dst)
                old.nlink -= 1
        del sp.entries[sn]
        dp.entries[dn] = node
        node.parent = dp
        self._touch(sp)
        self._touch(dp)
        self.log("rename", sp.ino, sn, dp.ino, dn, node.ino)
        self._mut("rename", node, dn, dp)

    def stat(self, node):
        kind = {FILE: st_mod.S_IFREG, DIR: st_mod.S_IFDIR, LINK: st_mod.S_IFLNK, FIFO: st_mod.S_IFIFO}[node.kind]
        if node.kind == FILE:
            size = len(node.data)
        elif node.kind == LINK:
            size = len(node.target.encode("utf-8", "surrogateescape"))
        elif node.kind == DIR:
            size = 4096
        else:
            size = 0
        nlink = node.nlink if node.kind != DIR else (0 if node.nlink == 0 else 2)
        ns = int(node.mtime * 1e9)
        cns = int(node.ctime * 1e9)
        mode = kind | node.mode
        return os.stat_result((mode, node.ino, self.dev, nlink, 0, 0, size, int(node.mtime), int(node.mtime), int(node.ctime)), {
            "st_atime": node.mtime,
            "st_mtime": node.mtime,
            "st_ctime": node.ctime,
            "st_atime_ns": ns,
            "st_mtime_ns": ns,
            "st_ctime_ns": cns,
            "st_blksize": 4096,
            "st_blocks": (size + 511) // 512,
            "st_rdev": 0,
        })

    def names(self, node):
        if node.kind != DIR:
            raise err(errno.ENOTDIR)
        out = sorted(node.entries)
        if self.list_salt:
            import hashlib
            out.sort(key=lambda n: hashlib.md5("{}:{}".format(self.list_salt, n).encode("utf-8", "surrogateescape")).digest())
        return out

    # ---- durability ----------------------------------------------------
    def _rebase(self):
        """Folds the committed journal prefix into the durable base."""
        for op in self.journal[:self.committed]:
            self._apply(self.base, op)
        del self.journal[:self.committed]
        self.committed = 0

    def _apply(self, base, op):
        if op[0] == "link":
            _, d, name, ino = op
            if d not in base or name in base[d]:
                return False
            base[d][name] = ino
            n = self.inodes[ino]
            if n.kind == DIR:
                base.setdefault(ino, {})
            return True
        if op[0] == "unlink":
            _, d, name, ino = op
            if d not in base or base[d].get(name) != ino:
                return False
            if self.inodes[ino].kind == DIR and base.get(ino):
                return False
            del base[d][name]
            return True
        _, sd, sn, dd, dn, ino = op
        if sd not in base or dd not in base or base[sd].get(sn) != ino:
            return False
        old = base[dd].get(dn)
        if old is not None and self.inodes[old].kind == DIR and base.get(old):
            return False
        del base[sd][sn]
        base[dd][dn] = ino
        return True

    def power_loss(self, c, stream="power"):
        """Everything volatile is gone; returns a description of what was lost."""
        self._rebase()
        n = len(self.journal)
        lost = []
        # 1: names kept, data zeroed; 2: names kept, data gone; 3: names kept, last write torn
        profile = c.pick(stream + ":profile", 4, 0.45)
        if profile:
            keep = self.journal
        elif self.mode == "unordered":
            # choice 0 = kept
            keep = [op for op in self.journal if not (c.pick(stream, 2, 0.4))]
        else:
            # choice 0 = everything kept; otherwise lose that many trailing ops
            drop = c.pick(stream, n + 1, 0.7) if n else 0
            keep = self.journal[:n - drop]
        if len(keep) != n:
            lost.append("{} of {} metadata operations".format(n - len(keep), n))
        for op in keep:
            self._apply(self.base, op)
        # rebuild tree
        seen = set()

        def build(ino, parent):
            node = self.inodes[ino]
            node.parent = parent
            if node.kind == DIR:
                node.entries = {}
                node.nlink = 1
                for name, child in self.base.get(ino, {}).items():
                    node.entries[name] = build(child, node)
            else:
                if ino in seen:
                    node.nlink += 1
                else:
                    node.nlink = 1
                    seen.add(ino)
                    if node.kind == FILE:
                        self._lose_data(node, c, stream, lost, profile)
            node.flocks = {}
            node.plocks = {}
            node.winlocks = []
            return node

        root = build(self.root.ino, None)
        root.parent = root
        self.root = root
        # drop unreachable
        reach = {}
        dirs = {}

        def collect(node):
            reach[node.ino] = node
            if node.kind == DIR:
                dirs[node.ino] = {k: v.ino for k, v in node.entries.items()}
                for v in node.entries.values():
                    collect(v)

        collect(root)
        self.base = dirs
        self.inodes = reach
        self.journal = []
        self.committed = 0
        self.ever_lost += bool(lost)
        return lost

    def _lose_data(self, node, c, stream, lost, profile=0):
        if not node.pending:
            node.synced = bytes(node.data)
            return
        # 0 all reached the disk; 1 none; 2 prefix with torn last write; 3 size without data
        k = (0, 3, 1, 2)[profile] if profile else c.pick(stream, 4, 0.75)
        if k == 0:
            pass
        elif k == 1:
            node.data = bytearray(node.synced)
        elif k == 3:
            size = len(node.data)
            data = bytearray(size)
            data[:min(size, len(node.synced))] = node.synced[:size]
            node.data = data
        else:
            m = c.pick(stream, len(node.pending) + 1)
            data = bytearray(node.synced)
            ops = node.pending[:m]
            for i, op in enumerate(ops):
                if op[0] == "t":
                    if op[1] < len(data):
                        del data[op[1]:]
                    else:
                        data.extend(b"\0" * (op[1] - len(data)))
                else:
                    _, p, b = op
                    if i == len(ops) - 1:
                        b = b[:max(0, len(b) - c.pick(stream, 1 + min(len(b), 4096)))]
                    if p > len(data):
                        data.extend(b"\0" * (p - len(data)))
                    data[p:p + len(b)] = b
            node.data = data
        if k:
            lost.append("unsynced data of file #{} (kind {})".format(node.ino, k))
        node.synced = bytes(node.data)
        node.pending = []

    # ---- driver-side conveniences (no faults, no yields) ----------------
    def node(self, path, follow=False):
        try:
            return self.walk(path, None, follow=follow)[2]
        except OSError:
            return None

    def makedirs(self, path, mode=0o755):
        cur = MOUNT
        for c in self.parts(self.rel(path)):
            cur = cur + "/" + c
            if self.node(cur, follow=True) is None:
                self.mkdir(cur, mode, None)

    def put(self, path, data, sync=True):
        self.makedirs(os.path.dirname(path))
        n = self.node(path)
        if n is None:
            n = self.mknod(path, FILE, None)
        n.data = bytearray(data)
        n.pending.append(("t", 0))
        n.pending.append(("w", 0, bytes(data)))
        self._touch(n)
        if sync:
            n.synced = bytes(data)
            n.pending = []
        return n

    def get(self, path):
        n = self.node(path, follow=True)
        return bytes(n.data) if n is not None and n.kind == FILE else None

    def remove_tree(self, path):
        n = self.node(path)
        if n is None:
            return
        if n.kind == DIR:
            for k in list(n.entries):
                self.remove_tree(path + "/" + k)
            self.rmdir(path, None)
        else:
            self.unlink(path, None)

    def snapshot(self, path):
        """{relative path: (kind, content)} below path (not following links)."""
        n = self.node(path)
        out = {}
        if n is None:
            return out
        for p, node in self.iter(n, ""):
            if node.kind == FILE:
                out[p] = (FILE, bytes(node.data))
            elif node.kind == LINK:
                out[p] = (LINK, node.target)
            else:
                out[p] = (node.kind, None)
        return out
