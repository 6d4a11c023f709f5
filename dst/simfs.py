"""In-memory file system behind os.*, io.open and builtins.open.

Each simulated process (node) sees it through numbered system calls.  Every
call is a point where another node may run, a fault may be returned, the
process may be killed, the machine may lose power, or a signal may be
delivered.  File data and directory changes are volatile until synced; a power
loss keeps the synced state plus an arbitrary part of the rest.
"""

import builtins
import errno
import io
import os
import random
import stat as _stat
import sys

from . import sched

ROOTS = ("/srv/sim", "/tmp", "/var/tmp")  # seen only by simulated processes
REAL = {}
FDBASE = 100000
WORLD = None


class SimKill(BaseException):
    """The process is gone; nothing it does from here has any effect."""


class Inode:
    __slots__ = ("kind", "ino", "dev", "data", "mode", "nlink", "durable", "pending", "entries", "target", "mtime", "locked", "touched")

    def __init__(self, kind, ino, dev, mode):
        self.kind, self.ino, self.dev, self.mode = kind, ino, dev, mode
        self.data = bytearray()
        self.nlink = 0
        self.durable = b""
        self.pending = []
        self.entries = {}
        self.target = None
        self.mtime = 0
        self.locked = None
        self.touched = 0


class Disk:
    """Two devices: the work tree, and the temporary directory."""

    def __init__(self, seed=0):
        self.seed = seed
        self.ino = 10
        self.roots = {}
        for k, r in enumerate(ROOTS):
            d = self.new("d", 0o755, dev=50 if k == 0 else 51)
            d.nlink = 2
            self.roots[r] = d
        self.journal = []  # directory changes not known to be durable, in order
        self.clock = 1_700_000_000
        self.free = None  # bytes left, None = plenty
        self.on_change = None

    def new(self, kind, mode, dev=50):
        self.ino += 1
        return Inode(kind, self.ino, dev, mode)

    # -- setup by the harness, durable at once --------------------------------
    def put(self, path, data, mode=0o644, mtime=None):
        d, name, node, _ = self.walk(path)
        if node is None or node.kind != "f":
            node = self.new("f", mode, d.dev)
            node.nlink = 1
            d.entries[name] = node
        node.data = bytearray(data)
        node.durable = bytes(data)
        node.pending = []
        node.mtime = mtime if mtime is not None else self.tick()
        return node

    def mkdirs(self, path):
        cur = ""
        for part in path.strip("/").split("/"):
            cur += "/" + part
            if cur in self.roots or any(r.startswith(cur + "/") for r in self.roots):
                continue
            d, name, node, _ = self.walk(cur)
            if node is None:
                n = self.new("d", 0o755, d.dev)
                n.nlink = 2
                d.entries[name] = n

    def symlink(self, target, path):
        d, name, node, _ = self.walk(path, follow=False)
        n = self.new("l", 0o777, d.dev)
        n.target = target
        n.nlink = 1
        d.entries[name] = n

    def get(self, path):
        """Content as any reader sees it now; None if absent."""
        try:
            _, _, node, _ = self.walk(path)
        except OSError:
            return None
        if node is None or node.kind != "f":
            return None
        return bytes(node.data)

    def node(self, path, follow=True):
        try:
            return self.walk(path, follow)[2]
        except OSError:
            return None

    def names(self, path):
        n = self.node(path)
        return sorted(n.entries) if n is not None and n.kind == "d" else []

    def remove(self, path):
        d, name, node, _ = self.walk(path, follow=False)
        if node is not None:
            del d.entries[name]

    def tick(self):
        self.clock += 1
        return self.clock

    # -- path lookup -----------------------------------------------------------
    def walk(self, path, follow=True, depth=0):
        """-> (parent inode, last name, inode or None, absolute path)."""
        if depth > 20:
            raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), path)
        path = norm(path)
        root = None
        for r in ROOTS:
            if path == r or path.startswith(r + "/"):
                root = r
        if root is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        cur = self.roots[root]
        if path == root:
            return None, "", cur, path
        parts = path[len(root) + 1:].split("/")
        at = root
        for i, part in enumerate(parts):
            last = i == len(parts) - 1
            if cur.kind != "d":
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
            nxt = cur.entries.get(part)
            if nxt is not None and nxt.kind == "l" and (follow or not last):
                t = nxt.target if nxt.target.startswith("/") else at + "/" + nxt.target
                rest = "/".join(parts[i + 1:])
                return self.walk(t + ("/" + rest if rest else ""), follow, depth + 1)
            if last:
                return cur, part, nxt, path
            if nxt is None:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            at += "/" + part
            cur = nxt
        raise AssertionError

    # -- power loss --------------------------------------------------------------
    def dir_change(self, op):
        self.journal.append(op)

    def sync_dirs(self, upto=None):
        """Directory changes become durable, up to and including one creation."""
        if upto is None:
            self.journal.clear()
            return
        for i, op in enumerate(self.journal):
            if op[0] == "link" and op[3] is upto:
                del self.journal[: i + 1]
                return

    def sync_file(self, node):
        node.durable = bytes(node.data)
        node.pending = []
        self.sync_dirs(node)

    def power_loss(self, rng):
        """Replace the volatile state by one the medium may hold; describe it."""
        keep = rng.randint(0, len(self.journal))
        if rng.random() < 0.35:
            keep = rng.choice([0, len(self.journal)])
        undone = self.journal[keep:]
        for op in reversed(undone):
            if op[0] == "link":  # (link, dir, name, inode, previous)
                _, d, name, _, prev = op
                if prev is None:
                    d.entries.pop(name, None)
                else:
                    d.entries[name] = prev
            elif op[0] == "unlink":
                _, d, name, prev = op
                d.entries[name] = prev
            elif op[0] == "rename":
                _, sd, sn, dd, dn, node, prev = op
                if prev is None:
                    dd.entries.pop(dn, None)
                else:
                    dd.entries[dn] = prev
                sd.entries[sn] = node
        self.journal = []
        seen = set()
        torn = 0

        def visit(n):
            nonlocal torn
            if id(n) in seen:
                return
            seen.add(id(n))
            for k in sorted(n.entries):
                visit(n.entries[k])
            if n.kind == "f" and n.pending:
                torn += 1
                n.data = bytearray(_survive(n.durable, n.pending, rng))
                n.durable = bytes(n.data)
                n.pending = []
        for r in ROOTS:
            visit(self.roots[r])
        return f"{len(undone)} of {keep + len(undone)} directory changes lost, {torn} files with unsynced data"


def _survive(durable, pending, rng):
    """Unsynced operations on one file: any prefix, the next one perhaps torn."""
    style = rng.random()
    if style < 0.15:
        return durable
    data = bytearray(durable)
    if style < 0.35:  # sizes reached the medium, the data did not
        for op in pending:
            _apply(data, op if op[0] == "t" else ("w", op[1], b"\0" * len(op[2])))
        return data
    k = len(pending) if style < 0.5 else rng.randint(0, len(pending))
    for op in pending[:k]:
        _apply(data, op)
    if k < len(pending) and pending[k][0] == "w" and rng.random() < 0.7:
        _, off, b = pending[k]
        _apply(data, ("w", off, b[: rng.randint(0, len(b))]))
    return data


def _apply(data, op):
    if op[0] == "t":
        n = op[1]
        if n < len(data):
            del data[n:]
        else:
            data.extend(b"\0" * (n - len(data)))
    else:
        _, off, b = op
        if off > len(data):
            data.extend(b"\0" * (off - len(data)))
        data[off : off + len(b)] = b


def norm(path):
    out = []
    for p in path.split("/"):
        if p in ("", "."):
            continue
        if p == "..":
            if out:
                out.pop()
            continue
        out.append(p)
    return "/" + "/".join(out)


# -- one simulated process --------------------------------------------------------

class OpenFile:
    __slots__ = ("node", "flags", "pos", "path", "refs")

    def __init__(self, node, flags, path):
        self.node, self.flags, self.pos, self.path = node, flags, 0, path
        self.refs = 1


class Proc:
    """Per-node state: descriptor table, working directory, fault plan."""

    def __init__(self, world, idx, spec):
        self.world = world
        self.disk = world.disk
        self.idx = idx
        self.cwd = spec.get("cwd", "/srv/sim/repo")
        self.pid = spec.get("pid", 4000 + idx)
        self.argv = spec.get("argv", ["generate"])
        self.fds = {}
        self.n = 0  # system calls made
        self.dead = False
        self.faults = {int(k): v for k, v in spec.get("faults", {}).items()}
        self.sticky = None
        self.chunk = spec.get("chunk")  # max bytes per read/write
        self.chunk_seed = spec.get("chunk_seed", 0)
        self.order = spec.get("order", 0)  # directory listing order
        self.enc = spec.get("enc", "utf-8")  # the locale's text encoding
        self.fired = []
        self.fired_at = []
        self.scans = []  # (directory, [names]) as returned by listings
        self.calls = []
        self.intr = None
        self.umask = 0o022

    # every system call comes through here
    def enter(self, name, arg=""):
        w = self.world
        if self.dead:
            raise SimKill
        k = self.n
        self.n += 1
        self.calls.append(name)
        w.log.add("sys", self.idx, k, name, arg)
        if self.n > 40000:
            w.sim.fail("no-progress", f"process {self.idx} made more than 40000 system calls")
            raise sched.SimAbort
        w.before(self, k, name)
        if self.dead:
            raise SimKill
        f = self.faults.get(k)
        if f is None and self.sticky is not None and name in self.sticky[1]:
            f = {"kind": "errno", "errno": self.sticky[0]}
        if f is None:
            return None
        kind = f["kind"]
        if kind in ("errno", "sticky"):
            e = getattr(errno, f["errno"]) if isinstance(f["errno"], str) else f["errno"]
            if not legal_error(name, e):
                return None
            self.fired.append(f"{errno.errorcode[e]}:{name}")
            self.fired_at.append(k)
            w.log.add("fault", self.idx, k, name, errno.errorcode[e])
            if kind == "sticky":
                self.sticky = (e, (name,) if e != errno.ENOSPC else ("write", "fsync", "ftruncate"))
            raise OSError(e, os.strerror(e), arg if isinstance(arg, str) and arg.startswith("/") else None)
        return f

    def leave(self, k):
        """A signal that arrived during the call is handled as it returns."""
        self.world.after(self, k)

    def die(self):
        self.dead = True
        # the kernel closes descriptors and drops locks; buffers in user space are lost
        for of in self.fds.values():
            if of.node.locked is not None and of.node.locked[0] is of:
                self.world.unlock(of.node)
        self.fds.clear()

    def path(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            p = self.cwd + "/" + p
        return norm(p)


# which errors a call can really return
_ERRS = {
    "open": ("EACCES", "EMFILE", "ENFILE", "EIO", "ENOSPC", "EROFS", "EPERM"),
    "opendir": ("EACCES", "EMFILE", "ENFILE", "EIO"),
    "read": ("EIO",),
    "write": ("ENOSPC", "EIO", "EDQUOT", "EFBIG"),
    "fsync": ("EIO", "ENOSPC", "EDQUOT"),
    "ftruncate": ("EIO", "EPERM"),
    "close": ("EIO", "ENOSPC", "EDQUOT"),
    "closedir": (),  # nothing to write back
    "rename": ("EACCES", "EIO", "ENOSPC", "EROFS", "EPERM"),
    "unlink": ("EACCES", "EIO", "EROFS", "EPERM"),
    "scandir": ("EACCES", "EIO", "EMFILE"),
    "readdir": ("EIO",),
    "stat": ("EACCES", "EIO"),
    "fstat": ("EIO",),
    "chmod": ("EPERM", "EROFS", "EIO"),
    "mkdir": ("EACCES", "ENOSPC", "EROFS"),
    "rmdir": ("EACCES", "EIO", "EROFS", "EBUSY"),
    "link": ("EPERM", "EACCES", "EIO"),
    "symlink": ("EPERM", "EACCES", "EIO"),
    "utime": ("EPERM", "EROFS"),
    "readlink": ("EACCES", "EIO"),
}


def legal_error(name, e):
    return errno.errorcode[e] in _ERRS.get(name, ())


def errors_of(name):
    return _ERRS.get(name, ())


def me():
    """The simulated process on this thread, if any."""
    w = WORLD
    if w is None:
        return None
    th = sched.me()
    return getattr(th, "proc", None) if th is not None else None


def mine(path, dir_fd=None):
    """The process, when `path` belongs to the simulated file system."""
    p = me()
    if p is None:
        return None, None
    if isinstance(path, int):
        return (p, path) if path >= FDBASE else (None, None)
    if dir_fd is not None:
        path = os.fsdecode(path)
        if not path.startswith("/"):
            if dir_fd < FDBASE:
                return None, None
            of = _of(p, dir_fd)
            if of.node.kind != "d":
                raise _err(errno.ENOTDIR, path)
            path = of.path + "/" + path
    try:
        full = p.path(path)
    except TypeError:
        return None, None
    for r in ROOTS:
        if full == r or full.startswith(r + "/"):
            return p, full
    return None, None


def _deny(p, what, path):
    p.world.outside.append(f"{what} {path}")
    raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), str(path))


def _err(e, path=None):
    return OSError(e, os.strerror(e), path)


# -- system calls -------------------------------------------------------------------

def sys_open(path, flags, mode=0o777, *, dir_fd=None):
    p, full = mine(path, dir_fd)
    if p is None:
        if me() is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and str(path) != os.devnull:
            _deny(me(), "open for writing", path)
        return REAL["open_fd"](path, flags, mode, dir_fd=dir_fd)
    k = p.n
    d = p.disk
    try:
        there = d.walk(full, follow=not (flags & os.O_NOFOLLOW))[2]
    except OSError:
        there = None
    p.enter("opendir" if there is not None and there.kind == "d" else "open", full)
    parent, name, node, where = d.walk(full, follow=not (flags & os.O_NOFOLLOW))
    acc = flags & os.O_ACCMODE
    if node is None:
        if not flags & os.O_CREAT:
            raise _err(errno.ENOENT, full)
        node = d.new("f", mode & ~p.umask, parent.dev)
        node.nlink = 1
        node.mtime = d.tick()
        parent.entries[name] = node
        d.dir_change(("link", parent, name, node, None))
    else:
        if flags & os.O_CREAT and flags & os.O_EXCL:
            raise _err(errno.EEXIST, full)
        if node.kind == "l":
            raise _err(errno.ELOOP, full)
        if node.kind == "d" and acc != os.O_RDONLY:
            raise _err(errno.EISDIR, full)
        if flags & getattr(os, "O_DIRECTORY", 0) and node.kind != "d":
            raise _err(errno.ENOTDIR, full)
        if flags & os.O_TRUNC and node.kind == "f" and acc != os.O_RDONLY:
            if node.data:
                node.data = bytearray()
                node.pending.append(("t", 0))
                node.mtime = d.tick()
    fd = FDBASE + p.idx * 1000
    while fd in p.fds:
        fd += 1
    p.fds[fd] = OpenFile(node, flags, where)
    p.world.changed(p)
    p.leave(k)
    return fd


def _of(p, fd):
    of = p.fds.get(fd)
    if of is None:
        if p.dead:
            raise SimKill
        raise _err(errno.EBADF)
    return of


def sys_close(fd):
    p = mine(fd)[0] if isinstance(fd, int) else None
    if p is None:
        return REAL["close"](fd)
    k = p.n
    try:
        of = _of(p, fd)
        p.enter("closedir" if of.node.kind == "d" else "close", of.path)
    finally:
        of = p.fds.pop(fd, None)  # the descriptor is gone even if close fails
        if of is not None:
            of.refs -= 1
            if of.refs == 0 and of.node.locked is not None and of.node.locked[0] is of:
                p.world.unlock(of.node)
    p.leave(k)


def _limit(p, n, k):
    if p.chunk and n > 1:
        return min(n, random.Random(p.chunk_seed * 1000003 + k).randint(1, p.chunk))
    return n


def sys_read(fd, n):
    p, _ = mine(fd)
    if p is None:
        return REAL["read"](fd, n)
    of = _of(p, fd)
    k = p.n
    f = p.enter("read", of.path)
    if of.node.kind == "d":
        raise _err(errno.EISDIR)
    if of.flags & os.O_ACCMODE == os.O_WRONLY:
        raise _err(errno.EBADF)
    n = _limit(p, n, k)
    if f and f["kind"] == "short" and n > 1:
        n = max(1, min(n, f.get("n", 1)))
        p.fired.append("short:read")
    b = bytes(of.node.data[of.pos : of.pos + n])
    of.pos += len(b)
    p.leave(k)
    return b


def sys_write(fd, b):
    p, _ = mine(fd)
    if p is None:
        return REAL["write"](fd, b)
    of = _of(p, fd)
    b = bytes(b)
    k = p.n
    f = p.enter("write", of.path)
    if of.flags & os.O_ACCMODE == os.O_RDONLY:
        raise _err(errno.EBADF)
    n = _limit(p, len(b), k)
    if f and f["kind"] == "short" and n > 1:
        n = max(1, min(n - 1, f.get("n", 1)))
        p.fired.append("short:write")
    elif f and f["kind"] == "torn-kill":
        n = min(n, f.get("n", 0))
    d = p.disk
    if d.free is not None:
        if d.free <= 0 and n:
            p.fired.append("ENOSPC:write")
            p.fired_at.append(k)
            raise _err(errno.ENOSPC)
        n = min(n, d.free)
        d.free -= n
    if of.flags & os.O_APPEND:
        of.pos = len(of.node.data)
    op = ("w", of.pos, b[:n])
    _apply(of.node.data, op)
    of.node.pending.append(op)
    of.node.mtime = d.tick()
    of.node.touched += 1
    of.pos += n
    p.world.changed(p)
    if f and f["kind"] == "torn-kill":
        p.fired.append("kill:mid-write")
        p.world.kill(p)
        raise SimKill
    p.leave(k)
    return n


def sys_lseek(fd, off, how):
    p, _ = mine(fd)
    if p is None:
        return REAL["lseek"](fd, off, how)
    of = _of(p, fd)
    base = {0: 0, 1: of.pos, 2: len(of.node.data)}[how]
    of.pos = max(0, base + off)
    return of.pos


def sys_fsync(fd):
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    p, _ = mine(fd)
    if p is None:
        return REAL["fsync"](fd)
    of = _of(p, fd)
    k = p.n
    p.enter("fsync", of.path)
    if of.node.kind == "d":
        p.disk.sync_dirs()
    else:
        p.disk.sync_file(of.node)
    p.leave(k)


def sys_sync():
    p = me()
    if p is None:
        return REAL["sync"]()
    p.enter("sync")
    p.disk.sync_dirs()
    seen = set()

    def visit(n):
        if id(n) not in seen:
            seen.add(id(n))
            if n.kind == "f":
                n.durable, n.pending = bytes(n.data), []
            for c in n.entries.values():
                visit(c)
    for r in ROOTS:
        visit(p.disk.roots[r])


def sys_ftruncate(fd, n):
    p, _ = mine(fd)
    if p is None:
        return REAL["ftruncate"](fd, n)
    of = _of(p, fd)
    k = p.n
    p.enter("ftruncate", of.path)
    op = ("t", n)
    _apply(of.node.data, op)
    of.node.pending.append(op)
    of.node.mtime = p.disk.tick()
    p.world.changed(p)
    p.leave(k)


def sys_truncate(path, n):
    if isinstance(path, int):
        return sys_ftruncate(path, n)
    fd = sys_open(path, os.O_WRONLY)
    try:
        sys_ftruncate(fd, n)
    finally:
        sys_close(fd)


def _statres(n, size=None):
    mode = {"f": _stat.S_IFREG, "d": _stat.S_IFDIR, "l": _stat.S_IFLNK}[n.kind] | n.mode
    ns = n.mtime * 10**9
    sz = len(n.data) if n.kind == "f" else len(n.target) if n.kind == "l" else 4096
    extra = {"st_atime": float(n.mtime), "st_mtime": float(n.mtime), "st_ctime": float(n.mtime), "st_atime_ns": ns, "st_mtime_ns": ns, "st_ctime_ns": ns,
             "st_blksize": 4096, "st_blocks": (sz + 511) // 512}
    return os.stat_result((mode, n.ino, n.dev, n.nlink, 1000, 1000, sz, n.mtime, n.mtime, n.mtime), extra)


def sys_stat(path, *, dir_fd=None, follow_symlinks=True):
    p, full = mine(path, dir_fd)
    if p is None:
        return REAL["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    k = p.n
    if isinstance(full, int):
        of = _of(p, full)
        p.enter("fstat", of.path)
        p.leave(k)
        return _statres(of.node)
    p.enter("stat", full)
    n = p.disk.walk(full, follow_symlinks)[2]
    if n is None:
        raise _err(errno.ENOENT, full)
    p.leave(k)
    return _statres(n)


def sys_lstat(path, *, dir_fd=None):
    return sys_stat(path, dir_fd=dir_fd, follow_symlinks=False)


def sys_fstat(fd):
    return sys_stat(fd)


def sys_access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    p, full = mine(path, dir_fd)
    if p is None:
        return REAL["access"](path, mode)
    p.enter("access", full)
    return p.disk.node(full) is not None


class SimDirEntry:
    __slots__ = ("name", "path", "_node", "_proc", "_full")

    def __init__(self, proc, base, full, name, node):
        self.name = name
        self.path = os.path.join(base, name)
        self._node, self._proc, self._full = node, proc, full + "/" + name

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return f"<DirEntry {self.name!r}>"

    def inode(self):
        return self._node.ino

    def stat(self, *, follow_symlinks=True):
        return sys_stat(self._full, follow_symlinks=follow_symlinks)

    def _kind(self, follow):
        n = self._node
        if n.kind == "l" and follow:
            n = self._proc.disk.node(self._full)
        return n.kind if n is not None else None

    def is_dir(self, *, follow_symlinks=True):
        return self._kind(follow_symlinks) == "d"

    def is_file(self, *, follow_symlinks=True):
        return self._kind(follow_symlinks) == "f"

    def is_symlink(self):
        return self._node.kind == "l"

    def is_junction(self):
        return False


class SimScandir:
    def __init__(self, items, proc, full):
        self._it = iter(items)
        self._proc, self._full = proc, full
        self._got = []
        self._closed = False

    def __iter__(self):
        return self

    def __next__(self):
        if self._closed:
            raise StopIteration
        p = self._proc
        if len(self._got) % 3 == 0:
            k = p.n
            try:
                p.enter("readdir", self._full)
                p.leave(k)
            except BaseException:
                self._closed = True  # an incomplete listing is not a listing
                raise
        try:
            e = next(self._it)
        except StopIteration:
            self._closed = True
            p.scans.append((self._full, list(self._got)))
            raise
        self._got.append(e.name)
        return e

    def close(self):
        self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _listing(p, full):
    _, _, node, _ = p.disk.walk(full)
    if node is None:
        raise _err(errno.ENOENT, full)
    if node.kind != "d":
        raise _err(errno.ENOTDIR, full)
    names = sorted(node.entries)
    if p.order == 1:
        names.reverse()
    elif p.order > 1:
        random.Random(p.order).shuffle(names)
    return node, names


def sys_scandir(path="."):
    p, full = mine(path)
    if p is None:
        return REAL["scandir"](path)
    if isinstance(full, int):
        full = _of(p, full).path
    k = p.n
    p.enter("scandir", full)
    node, names = _listing(p, full)
    base = "" if isinstance(path, int) else os.fspath(path)
    p.leave(k)
    return SimScandir([SimDirEntry(p, base, full, n, node.entries[n]) for n in names], p, full)


def sys_listdir(path="."):
    p, full = mine(path)
    if p is None:
        return REAL["listdir"](path)
    if isinstance(full, int):
        full = _of(p, full).path
    k = p.n
    p.enter("scandir", full)
    node, names = _listing(p, full)
    p.scans.append((full, list(names)))
    p.leave(k)
    return names


def sys_mkdir(path, mode=0o777, *, dir_fd=None):
    p, full = mine(path, dir_fd)
    if p is None:
        if me() is not None:
            _deny(me(), "mkdir", path)
        return REAL["mkdir"](path, mode, dir_fd=dir_fd)
    k = p.n
    p.enter("mkdir", full)
    parent, name, node, _ = p.disk.walk(full)
    if node is not None:
        raise _err(errno.EEXIST, full)
    n = p.disk.new("d", mode & ~p.umask, parent.dev)
    n.nlink = 2
    parent.entries[name] = n
    p.disk.dir_change(("link", parent, name, n, None))
    p.leave(k)


def sys_unlink(path, *, dir_fd=None):
    p, full = mine(path, dir_fd)
    if p is None:
        if me() is not None:
            _deny(me(), "unlink", path)
        return REAL["unlink"](path, dir_fd=dir_fd)
    k = p.n
    p.enter("unlink", full)
    parent, name, node, _ = p.disk.walk(full, follow=False)
    if node is None:
        raise _err(errno.ENOENT, full)
    if node.kind == "d":
        raise _err(errno.EISDIR, full)
    del parent.entries[name]
    node.nlink -= 1
    p.disk.dir_change(("unlink", parent, name, node))
    p.world.changed(p)
    p.leave(k)


def sys_rmdir(path, *, dir_fd=None):
    p, full = mine(path, dir_fd)
    if p is None:
        if me() is not None:
            _deny(me(), "rmdir", path)
        return REAL["rmdir"](path, dir_fd=dir_fd)
    k = p.n
    p.enter("unlink", full)
    parent, name, node, _ = p.disk.walk(full, follow=False)
    if node is None:
        raise _err(errno.ENOENT, full)
    if node.kind != "d":
        raise _err(errno.ENOTDIR, full)
    if node.entries:
        raise _err(errno.ENOTEMPTY, full)
    del parent.entries[name]
    p.disk.dir_change(("unlink", parent, name, node))
    p.leave(k)


def sys_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    p, a = mine(src, src_dir_fd)
    q, b = mine(dst, dst_dir_fd)
    if p is None or q is None:
        if me() is not None:
            _deny(me(), "rename", f"{src} -> {dst}")
        return REAL["rename"](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
    k = p.n
    p.enter("rename", b)
    sd, sn, node, _ = p.disk.walk(a, follow=False)
    dd, dn, old, _ = p.disk.walk(b, follow=False)
    if node is None:
        raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), a, None, b)
    if sd.dev != dd.dev:
        p.fired.append("EXDEV:rename")
        raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), a, None, b)
    if old is not None and old.kind == "d" and node.kind != "d":
        raise OSError(errno.EISDIR, os.strerror(errno.EISDIR), a, None, b)
    if old is node:
        return
    del sd.entries[sn]
    dd.entries[dn] = node
    if old is not None:
        old.nlink -= 1
    p.disk.dir_change(("rename", sd, sn, dd, dn, node, old))
    p.world.changed(p)
    p.leave(k)


def sys_link(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
    p, a = mine(src, src_dir_fd)
    q, b = mine(dst, dst_dir_fd)
    if p is None or q is None:
        if me() is not None:
            _deny(me(), "link", f"{src} -> {dst}")
        return REAL["link"](src, dst)
    k = p.n
    p.enter("link", b)
    _, _, node, _ = p.disk.walk(a, follow=False)
    dd, dn, old, _ = p.disk.walk(b, follow=False)
    if node is None:
        raise _err(errno.ENOENT, a)
    if old is not None:
        raise _err(errno.EEXIST, b)
    if node.dev != dd.dev:
        raise _err(errno.EXDEV, b)
    dd.entries[dn] = node
    node.nlink += 1
    p.disk.dir_change(("link", dd, dn, node, None))
    p.world.changed(p)
    p.leave(k)


def sys_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    p, b = mine(dst, dir_fd)
    if p is None:
        if me() is not None:
            _deny(me(), "symlink", dst)
        return REAL["symlink"](src, dst)
    k = p.n
    p.enter("symlink", b)
    dd, dn, old, _ = p.disk.walk(b, follow=False)
    if old is not None:
        raise _err(errno.EEXIST, b)
    n = p.disk.new("l", 0o777, dd.dev)
    n.target = os.fspath(src)
    n.nlink = 1
    dd.entries[dn] = n
    p.disk.dir_change(("link", dd, dn, n, None))
    p.world.changed(p)
    p.leave(k)


def sys_readlink(path, *, dir_fd=None):
    p, full = mine(path, dir_fd)
    if p is None:
        return REAL["readlink"](path, dir_fd=dir_fd)
    p.enter("readlink", full)
    n = p.disk.walk(full, follow=False)[2]
    if n is None:
        raise _err(errno.ENOENT, full)
    if n.kind != "l":
        raise _err(errno.EINVAL, full)
    return n.target


def sys_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    p, full = mine(path, dir_fd)
    if p is None:
        if me() is not None:
            _deny(me(), "chmod", path)
        return REAL["chmod"](path, mode)
    k = p.n
    if isinstance(full, int):
        of = _of(p, full)
        p.enter("chmod", of.path)
        n = of.node
    else:
        p.enter("chmod", full)
        n = p.disk.walk(full, follow_symlinks)[2]
        if n is None:
            raise _err(errno.ENOENT, full)
    n.mode = mode & 0o7777
    p.leave(k)


def sys_utime(path, *a, **kw):
    p, full = mine(path, kw.get("dir_fd"))
    if p is None:
        if me() is not None:
            _deny(me(), "utime", path)
        return REAL["utime"](path, *a, **kw)
    p.enter("utime", full if isinstance(full, str) else "")
    if isinstance(full, str) and p.disk.node(full) is None:
        raise _err(errno.ENOENT, full)


def sys_chown(path, uid, gid, **kw):
    p, full = mine(path, kw.get("dir_fd"))
    if p is None:
        if me() is not None:
            _deny(me(), "chown", path)
        return REAL["chown"](path, uid, gid, **kw)
    p.enter("chown")


def sys_lchown(path, uid, gid):
    sys_chown(path, uid, gid, follow_symlinks=False)


def sys_listxattr(path=None, *, follow_symlinks=True):
    p, _ = mine(path) if path is not None else (None, None)
    if p is None:
        return REAL["listxattr"](path, follow_symlinks=follow_symlinks)
    return []


def sys_getcwd():
    p = me()
    return p.cwd if p is not None else REAL["getcwd"]()


def sys_chdir(path):
    p, full = mine(path)
    if p is None:
        if me() is not None:
            _deny(me(), "chdir", path)
        return REAL["chdir"](path)
    if isinstance(full, int):
        full = _of(p, full).path
    p.enter("chdir", full)
    n = p.disk.walk(full)[2]
    if n is None or n.kind != "d":
        raise _err(errno.ENOENT, full)
    p.cwd = full


def sys_getpid():
    p = me()
    return p.pid if p is not None else REAL["getpid"]()


def sys_umask(m):
    p = me()
    if p is None:
        return REAL["umask"](m)
    old, p.umask = p.umask, m
    return old


def sys_isatty(fd):
    p, _ = mine(fd)
    return False if p is not None else REAL["isatty"](fd)


def sys_dup(fd):
    p, _ = mine(fd)
    if p is None:
        return REAL["dup"](fd)
    of = _of(p, fd)
    of.refs += 1
    n = FDBASE + p.idx * 1000
    while n in p.fds:
        n += 1
    p.fds[n] = of
    return n


def sys_urandom(n):
    p = me()
    if p is None:
        return REAL["urandom"](n)
    return p.world.rng.randbytes(n)


def sys_sendfile(out_fd, in_fd, offset, count, *a, **k):
    p, _ = mine(out_fd)
    q, _ = mine(in_fd)
    if p is None and q is None:
        return REAL["sendfile"](out_fd, in_fd, offset, count, *a, **k)
    raise _err(errno.ENOSYS)


def sys_pread(fd, n, off):
    p, _ = mine(fd)
    if p is None:
        return REAL["pread"](fd, n, off)
    of = _of(p, fd)
    pos = of.pos
    of.pos = off
    try:
        return sys_read(fd, n)
    finally:
        of.pos = pos


def sys_pwrite(fd, b, off):
    p, _ = mine(fd)
    if p is None:
        return REAL["pwrite"](fd, b, off)
    of = _of(p, fd)
    pos = of.pos
    of.pos = off
    try:
        return sys_write(fd, b)
    finally:
        of.pos = pos


def sys_readv(fd, buffers):
    p, _ = mine(fd)
    if p is None:
        return REAL["readv"](fd, buffers)
    b = sys_read(fd, sum(len(v) for v in buffers))
    at = 0
    for v in buffers:
        part = b[at : at + len(v)]
        v[: len(part)] = part
        at += len(part)
    return len(b)


def sys_writev(fd, buffers):
    p, _ = mine(fd)
    if p is None:
        return REAL["writev"](fd, buffers)
    return sys_write(fd, b"".join(bytes(b) for b in buffers))


def sys_copy_file_range(src, dst, count, offset_src=None, offset_dst=None):
    p, _ = mine(dst)
    q, _ = mine(src)
    if p is None and q is None:
        return REAL["copy_file_range"](src, dst, count, offset_src, offset_dst)
    raise _err(errno.ENOSYS)


def sys_posix_fallocate(fd, off, n):
    p, _ = mine(fd)
    if p is None:
        return REAL["posix_fallocate"](fd, off, n)
    size = len(_of(p, fd).node.data)
    if off + n > size:
        sys_ftruncate(fd, off + n)


def sys_posix_fadvise(fd, *a):
    if mine(fd)[0] is None:
        return REAL["posix_fadvise"](fd, *a)


def sys_get_inheritable(fd):
    return False if mine(fd)[0] is not None else REAL["get_inheritable"](fd)


def sys_set_inheritable(fd, on):
    if mine(fd)[0] is None:
        REAL["set_inheritable"](fd, on)


def sys_statvfs(path):
    p, _ = mine(path)
    if p is None:
        return REAL["statvfs"](path)
    free = p.disk.free if p.disk.free is not None else 1 << 36
    return os.statvfs_result((4096, 4096, 1 << 24, free // 4096, free // 4096, 1 << 20, 1 << 19, 1 << 19, 0, 255))


def sys_mknod(path, *a, dir_fd=None, **kw):
    p = me()
    if p is None:
        return REAL["mknod"](path, *a, dir_fd=dir_fd, **kw)
    _deny(p, "mknod", path)


def sys_mkfifo(path, *a, dir_fd=None, **kw):
    p = me()
    if p is None:
        return REAL["mkfifo"](path, *a, dir_fd=dir_fd, **kw)
    _deny(p, "mkfifo", path)


def sys_dup2(fd, fd2, inheritable=True):
    p = me()
    if p is None:
        return REAL["dup2"](fd, fd2, inheritable)
    _deny(p, "dup2", fd2)


def sys_flock(fd, op):
    import fcntl

    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    p, _ = mine(fd)
    if p is None:
        return REAL["flock"](fd, op)
    of = _of(p, fd)
    k = p.n
    p.enter("flock", of.path)
    if op & fcntl.LOCK_UN:
        if of.node.locked is not None and of.node.locked[0] is of:
            p.world.unlock(of.node)
        return
    while of.node.locked is not None and of.node.locked[0] is not of:
        if op & fcntl.LOCK_NB:
            raise _err(errno.EWOULDBLOCK)
        p.world.sim.block(sched.me(), of.node, None)
        if p.dead:
            raise SimKill
    of.node.locked = (of,)
    p.leave(k)


def sys_encoding(*a):
    p = me()
    return p.enc if p is not None else REAL["getencoding"]()


def sys_lockf(fd, cmd, *a):
    return sys_flock(fd, cmd)


# -- file objects -----------------------------------------------------------------

class SimRaw(io.RawIOBase):
    """What io.FileIO is on a real descriptor."""

    def __init__(self, fd, mode, name, closefd=True):
        self._fd = fd
        self._flags = mode
        self.name = name
        self._closefd = closefd
        self._proc = me()

    @property
    def mode(self):
        return self._flags

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return "r" in self._flags or "+" in self._flags

    def writable(self):
        return any(c in self._flags for c in "wax+")

    def seekable(self):
        return True

    def readinto(self, b):
        if not self.readable():
            raise io.UnsupportedOperation("not readable")
        d = sys_read(self._fd, len(b))
        b[: len(d)] = d
        return len(d)

    def readall(self):
        out = bytearray()
        while True:
            d = sys_read(self._fd, 65536)
            if not d:
                return bytes(out)
            out += d

    def write(self, b):
        if not self.writable():
            raise io.UnsupportedOperation("not writable")
        return sys_write(self._fd, b)

    def seek(self, off, how=0):
        return sys_lseek(self._fd, off, how)

    def tell(self):
        return sys_lseek(self._fd, 0, 1)

    def truncate(self, n=None):
        if n is None:
            n = self.tell()
        sys_ftruncate(self._fd, n)
        return n

    def isatty(self):
        return False

    def close(self):
        if self.closed:
            return
        try:
            if self._closefd and self._proc is me() and self._proc is not None and not self._proc.dead:
                sys_close(self._fd)
        finally:
            super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if me() is None:
        return REAL["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        file = os.fspath(file)
    p, full = mine(file)
    if p is None:
        if opener is None and any(c in mode for c in "wax+") and str(file) != os.devnull and not isinstance(file, int):
            _deny(me(), "open for writing", file)
        return REAL["io.open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = set(mode)
    if m - set("axrwb+t") or len(mode) > len(m):
        raise ValueError(f"invalid mode: {mode!r}")
    if sum(c in m for c in "axrw") != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    binary = "b" in m
    if binary and "t" in m:
        raise ValueError("can't have text and binary mode at once")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if not binary and encoding in (None, "locale"):
        encoding = p.enc
    if binary and newline is not None:
        raise ValueError("binary mode doesn't take a newline argument")
    plus = "+" in m
    c = next(x for x in "axrw" if x in m)
    if isinstance(file, int):
        fd = file
        _of(p, fd)
    else:
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL,
                 "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND}[c]
        if plus:
            flags = (flags & ~os.O_ACCMODE) | os.O_RDWR
        flags |= os.O_CLOEXEC
        if opener is not None:
            fd = opener(file, flags)
        else:
            fd = sys_open(file, flags, 0o666)
        if fd < FDBASE:  # the opener chose a real file
            return REAL["io.open"](fd, mode, buffering, encoding, errors, newline, closefd)
        if _of(p, fd).node.kind == "d":
            sys_close(fd)
            raise _err(errno.EISDIR, str(file))
    if c == "a":
        sys_lseek(fd, 0, 2)
    raw = SimRaw(fd, c + "b" + ("+" if plus else ""), file, closefd)
    result = raw
    try:
        line = buffering == 1 and not binary
        if buffering == 1 or buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        if plus:
            buf = io.BufferedRandom(raw, buffering)
        elif c == "r":
            buf = io.BufferedReader(raw, buffering)
        else:
            buf = io.BufferedWriter(raw, buffering)
        result = buf
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line)
        result = text
        text.mode = mode
        return text
    except BaseException:
        result.close()
        raise


PATCH = {
    "open": sys_open, "close": sys_close, "read": sys_read, "write": sys_write, "lseek": sys_lseek, "fsync": sys_fsync, "fdatasync": sys_fsync,
    "sync": sys_sync, "ftruncate": sys_ftruncate, "truncate": sys_truncate, "stat": sys_stat, "lstat": sys_lstat, "fstat": sys_fstat, "access": sys_access,
    "scandir": sys_scandir, "listdir": sys_listdir, "mkdir": sys_mkdir, "unlink": sys_unlink, "remove": sys_unlink, "rmdir": sys_rmdir, "rename": sys_rename,
    "replace": sys_rename, "link": sys_link, "symlink": sys_symlink, "readlink": sys_readlink, "chmod": sys_chmod, "fchmod": sys_chmod, "utime": sys_utime,
    "chown": sys_chown, "listxattr": sys_listxattr, "getcwd": sys_getcwd, "chdir": sys_chdir, "getpid": sys_getpid, "umask": sys_umask, "isatty": sys_isatty,
    "readv": sys_readv, "writev": sys_writev, "copy_file_range": sys_copy_file_range, "posix_fallocate": sys_posix_fallocate,
    "posix_fadvise": sys_posix_fadvise, "get_inheritable": sys_get_inheritable, "set_inheritable": sys_set_inheritable, "statvfs": sys_statvfs, "fstatvfs": sys_statvfs,
    "mknod": sys_mknod, "mkfifo": sys_mkfifo, "dup2": sys_dup2, "fchown": sys_chown, "lchown": sys_lchown, "fchdir": sys_chdir,
    "dup": sys_dup, "urandom": sys_urandom, "sendfile": sys_sendfile, "pread": sys_pread, "pwrite": sys_pwrite,
}


def install():
    import fcntl
    import locale
    import shutil

    for n, f in PATCH.items():
        REAL[n if n != "open" else "open_fd"] = getattr(os, n)
    REAL["io.open"] = io.open
    REAL["flock"] = fcntl.flock
    for n, f in PATCH.items():
        for can in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks, os.supports_effective_ids):
            if getattr(os, n) in can:
                can.add(f)
    for n, f in PATCH.items():
        setattr(os, n, f)
    io.open = sim_open
    builtins.open = sim_open
    fcntl.flock = sys_flock
    fcntl.lockf = sys_lockf
    REAL["getencoding"] = locale.getencoding
    locale.getpreferredencoding = locale.getencoding = sys_encoding
    shutil._USE_CP_SENDFILE = False
    sys.addaudithook(_guard)


_GUARD = {"subprocess.Popen", "os.system", "os.fork", "os.exec", "os.posix_spawn", "os.kill", "os.killpg", "socket.__new__", "shutil.rmtree",
          "os.forkpty", "os.setxattr", "os.removexattr"}


def _guard(name, args):
    """Nothing a simulated process does may reach the real machine."""
    if WORLD is None:
        return
    if name in _GUARD and me() is not None:
        if name == "shutil.rmtree":
            return  # works through the patched calls
        me().world.outside.append(name)
        raise PermissionError(errno.EPERM, os.strerror(errno.EPERM), name)
    if name == "open" and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and str(args[0]) != os.devnull:
        if me() is not None:
            me().world.outside.append(f"open {args[0]}")
            raise PermissionError(errno.EPERM, os.strerror(errno.EPERM), str(args[0]))
