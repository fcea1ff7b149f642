"""In-memory file system with a page cache, a journal, crashes and disk faults.

Only paths of the simulated world live here: relative paths, anything below
VROOT, and unix-socket rendezvous files.  Other absolute paths can be read from
the real file system (the sources, /etc/hostname) but never written.

Crash semantics
  process kill: everything handed to the (simulated) kernel survives, user-space
                buffers are lost;
  power loss:   only what was fsync()ed is certain; of the remaining writes to a
                file a random prefix (last one torn) survives, of the remaining
                name-space operations a random prefix survives.
"""

import builtins
import errno
import functools
import io
import os
import random
import stat as _stat
import sys

from .kernel import ref, HarnessError

VROOT = "/simroot"
SOCK_PREFIX = "/tmp/ipi_"

_real = {
    n: getattr(os, n)
    for n in (
        "stat",
        "lstat",
        "rename",
        "replace",
        "remove",
        "unlink",
        "listdir",
        "mkdir",
        "rmdir",
        "fsync",
        "fdatasync",
        "getcwd",
        "open",
        "close",
        "write",
        "access",
        "scandir",
        "link",
        "truncate",
        "ftruncate",
        "fstat",
        "utime",
        "chmod",
    )
    if hasattr(os, n)
}
_real_open = builtins.open
_real_io_open = io.open


def is_virtual(path):
    if ref.k is None:
        return False
    if isinstance(path, int):
        return path in ref.k.fs.fds
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    try:
        path = os.fspath(path)
    except TypeError:
        return False
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith("/"):
        return True
    return (
        path == VROOT or path.startswith(VROOT + "/") or path.startswith(SOCK_PREFIX)
    )


def norm(path):
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    path = os.fspath(path)
    if not path.startswith("/"):
        path = VROOT + "/" + path
    return os.path.normpath(path)


def _err(e, path=None):
    return OSError(e, os.strerror(e), path)


def _uninterruptible(f):
    """System calls on regular files are not interrupted by signals."""

    @functools.wraps(f)
    def g(self, *a, **kw):
        k = ref.k
        if k is None or k.cur is not k.main:
            return f(self, *a, **kw)
        k.nosig += 1
        try:
            return f(self, *a, **kw)
        finally:
            k.nosig -= 1

    return g


class Inode:
    __slots__ = ("data", "durable", "pending", "kind", "ino")

    def __init__(self, ino, kind="f"):
        self.ino = ino
        self.kind = kind
        self.data = bytearray()
        self.durable = b""
        self.pending = []  # ("w", off, bytes) or ("t", size)


class SimFS:
    def __init__(self, k, image=None, seed=0):
        self.k = k
        self.rng = random.Random("fs-%s" % seed)
        self.inodes = {}
        self.names = {}  # path -> Inode
        self.durable_names = {}  # path -> ino, at the last journal commit
        self.journal = []  # name-space operations since
        self.next_ino = 1
        self.fds = {}  # fake fd -> SimRaw
        self.next_fd = 1_000_000
        self.dirs = {VROOT}
        self.ops = 0  # mutating operations so far
        self.faults = []  # list of dicts, see fault()
        self.watch = None  # called after every mutating operation
        self.oplog = []
        self.log_paths = False
        for p, data in (image or {}).items():
            ino = self._new_inode()
            ino.data = bytearray(data)
            ino.durable = bytes(data)
            self.names[norm(p)] = ino
            self.durable_names[norm(p)] = ino

    def _new_inode(self, kind="f"):
        i = Inode(self.next_ino, kind)
        self.next_ino += 1
        self.inodes[i.ino] = i
        return i

    def put(self, path, data):
        """A file that appears from outside (durable, no faults)."""
        ino = self._new_inode()
        ino.data = bytearray(data)
        ino.durable = bytes(data)
        self.names[norm(path)] = ino
        self.durable_names[norm(path)] = ino

    # ---------------------------------------------------------------- faults
    def _op(self, what, path, size=0):
        """Every mutating operation passes here first; may raise or truncate.

        Returns the number of bytes allowed to be written (short writes)."""
        k = self.k
        k.point("fs-" + what)
        self.ops += 1
        self.oplog.append((what, os.path.basename(path), size))
        for f in self.faults:
            if f.get("done"):
                continue
            if f["op"] != what and f["op"] != "any":
                continue
            if f.get("path") and f["path"] not in path:
                continue
            f["seen"] = f.get("seen", 0) + 1
            if f["seen"] <= f.get("skip", 0):
                continue
            if f.get("times", 1) > 0:
                f["times"] = f.get("times", 1) - 1
                if f["times"] == 0:
                    f["done"] = True
            kind = f["kind"]
            k.count("fs_fault_" + kind)
            k.log("fs-fault", kind, what, path)
            if kind == "crash":
                # killed in the middle of the operation: a part is written
                return ("crash", f)
            if kind == "slow":
                k.sleep(f.get("seconds", 1.0))
                continue
            if kind == "short" and size > 1:
                return ("short", max(1, int(size * f.get("frac", 0.5))))
            if kind == "enospc":
                if what == "write" and size > 1 and f.get("frac", 0) > 0 and not f.get("torn"):
                    f["torn"] = True
                    f["done"] = False
                    f["times"] = max(1, f.get("times", 1))
                    return ("short", max(1, int(size * f["frac"])))
                raise _err(errno.ENOSPC)
            if kind == "eio":
                raise _err(errno.EIO)
        return None

    # ------------------------------------------------------------- name space
    def _commit(self):
        self.durable_names = dict(self.names)
        self.journal = []

    def _meta(self, op):
        self.journal.append(op)

    def exists_any(self, path):
        return norm(path) in self.names or norm(path) in self.dirs

    def make_socket(self, path):
        i = self._new_inode("s")
        self.names[norm(path)] = i
        self._meta(("link", norm(path), i))

    def _check_parent(self, path):
        d = os.path.dirname(path)
        if d not in self.dirs and d != "/tmp" and d != "/":
            raise FileNotFoundError(
                errno.ENOENT, "No such file or directory", path
            )

    @_uninterruptible
    def rename(self, a, b):
        a, b = norm(a), norm(b)
        r = self._op("rename", b)
        if a not in self.names:
            if a in self.dirs:
                raise HarnessError("directory rename not simulated")
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)
        self._check_parent(b)
        if r and r[0] == "crash":
            if r[1].get("frac", 0.5) > 0.5:
                self.names[b] = self.names.pop(a)
                self._meta(("rename", a, b))
            self.k.crash("killed in rename")
        self.names[b] = self.names.pop(a)
        self._meta(("rename", a, b))
        if self.watch:
            self.watch("rename", b)

    @_uninterruptible
    def unlink(self, p):
        p = norm(p)
        r = self._op("unlink", p)
        if r and r[0] == "crash":
            self.k.crash("killed in unlink")
        if p not in self.names:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        ino = self.names.pop(p)
        if ino.kind == "s":
            self.k.net.names.pop(p, None)
        self._meta(("unlink", p))
        if self.watch:
            self.watch("unlink", p)

    def stat(self, p):
        self.k.point("fs-stat")
        n = norm(p)
        if n in self.names:
            i = self.names[n]
            mode = _stat.S_IFREG if i.kind == "f" else _stat.S_IFSOCK
            return os.stat_result(
                (mode | 0o644, i.ino, 1, 1, 0, 0, len(i.data), 0, 0, 0)
            )
        if n in self.dirs:
            return os.stat_result((_stat.S_IFDIR | 0o755, 0, 1, 1, 0, 0, 0, 0, 0, 0))
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)

    def listdir(self, p="."):
        n = norm(p)
        if n not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        pre = n + "/"
        out = []
        for q in list(self.names) + sorted(self.dirs):
            if q.startswith(pre) and "/" not in q[len(pre) :]:
                out.append(q[len(pre) :])
        return out

    # -------------------------------------------------------------------- open
    def open(
        self,
        file,
        mode="r",
        buffering=-1,
        encoding=None,
        errors=None,
        newline=None,
        closefd=True,
        opener=None,
    ):
        if isinstance(file, int):
            raw0 = self.fds[file]
            raw = raw0
        else:
            raw = SimRaw(self, norm(file), mode)
        binary = "b" in mode
        reading = "r" in mode or "+" in mode
        writing = any(c in mode for c in "wax+")
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if reading and writing:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        txt = io.TextIOWrapper(
            buf,
            encoding or "utf-8",
            errors,
            newline,
            line_buffering=(buffering == 1),
        )
        try:
            txt.mode = mode
        except AttributeError:
            pass
        return txt

    @_uninterruptible
    def fsync(self, fd):
        raw = self.fds.get(fd)
        if raw is None:
            raise _err(errno.EBADF)
        r = self._op("fsync", raw.path)
        if r and r[0] == "crash":
            self.k.crash("killed in fsync")
        i = raw.inode
        if i is not None:
            i.durable = bytes(i.data)
            i.pending = []
        self._commit()
        self.k.count("fs_fsync")
        if self.watch:
            self.watch("fsync", raw.path)

    # -------------------------------------------------------------- crash images
    def image_kill(self):
        return {p: bytes(i.data) for p, i in self.names.items() if i.kind == "f"}

    def image_powerloss(self, rng):
        """One possible disk content after power loss."""
        names = dict(self.durable_names)
        n = rng.randrange(len(self.journal) + 1)
        for op in self.journal[:n]:
            if op[0] == "link":
                names[op[1]] = op[2]
            elif op[0] == "rename":
                if op[1] in names:
                    names[op[2]] = names.pop(op[1])
            elif op[0] == "unlink":
                names.pop(op[1], None)
        out = {}
        for p, i in names.items():
            if i.kind != "f":
                continue
            data = bytearray(i.durable)
            m = rng.randrange(len(i.pending) + 1)
            for j, op in enumerate(i.pending[:m]):
                if op[0] == "t":
                    if len(data) > op[1]:
                        del data[op[1] :]
                    else:
                        data.extend(b"\0" * (op[1] - len(data)))
                else:
                    _, off, b = op
                    if j == m - 1 and rng.random() < 0.5 and len(b) > 1:
                        b = b[: rng.randrange(1, len(b))]
                    if len(data) < off:
                        data.extend(b"\0" * (off - len(data)))
                    data[off : off + len(b)] = b
            out[p] = bytes(data)
        return out


class SimRaw(io.RawIOBase):
    @_uninterruptible
    def __init__(self, fs, path, mode):
        super().__init__()
        self.fs = fs
        self.path = path
        self.name = os.path.relpath(path, VROOT) if path.startswith(VROOT) else path
        self.mode = mode
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        self._append = "a" in mode
        self.pos = 0
        n = path
        if n in fs.dirs:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        ino = fs.names.get(n)
        if "x" in mode and ino is not None:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        if ino is None:
            if "r" in mode:
                raise FileNotFoundError(
                    errno.ENOENT, "No such file or directory", path
                )
            fs._check_parent(n)
            r = fs._op("create", n)
            if r and r[0] == "crash":
                fs.k.crash("killed in create")
            ino = fs._new_inode()
            fs.names[n] = ino
            fs._meta(("link", n, ino))
            if fs.watch:
                fs.watch("create", n)
        elif "w" in mode:
            r = fs._op("truncate", n)
            if r and r[0] == "crash":
                if r[1].get("frac", 0.5) > 0.3:
                    del ino.data[:]
                    ino.pending.append(("t", 0))
                fs.k.crash("killed in truncate")
            del ino.data[:]
            ino.pending.append(("t", 0))
            if fs.watch:
                fs.watch("truncate", n)
        else:
            fs.k.point("fs-open")
        self.inode = ino
        self._fd = fs.next_fd
        fs.next_fd += 1
        fs.fds[self._fd] = self
        if self._append:
            self.pos = len(ino.data)

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    @_uninterruptible
    def readinto(self, b):
        self.fs.k.point("fs-read")
        d = self.inode.data[self.pos : self.pos + len(b)]
        b[: len(d)] = d
        self.pos += len(d)
        return len(d)

    @_uninterruptible
    def write(self, b):
        b = bytes(b)
        fs = self.fs
        r = fs._op("write", self.path, len(b))
        crash = None
        if r:
            if r[0] == "short":
                b = b[: r[1]]
            elif r[0] == "crash":
                crash = r[1]
                b = b[: int(len(b) * crash.get("frac", 0.5))]
        if self._append:
            self.pos = len(self.inode.data)
        d = self.inode.data
        if len(d) < self.pos:
            d.extend(b"\0" * (self.pos - len(d)))
        d[self.pos : self.pos + len(b)] = b
        self.inode.pending.append(("w", self.pos, b))
        self.pos += len(b)
        if crash is not None:
            fs.k.crash("killed in write")
        if fs.watch:
            fs.watch("write", self.path)
        return len(b)

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = off
        elif whence == 1:
            self.pos += off
        else:
            self.pos = len(self.inode.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        d = self.inode.data
        if len(d) > size:
            del d[size:]
        else:
            d.extend(b"\0" * (size - len(d)))
        self.inode.pending.append(("t", size))
        return size

    def close(self):
        if not self.closed:
            super().close()
            self.fs.fds.pop(self._fd, None)


class _DirFd:
    path = VROOT
    inode = None


# ------------------------------------------------------------------------ patches
def _popen(file, mode="r", *a, **kw):
    if ref.k is not None and is_virtual(file):
        return ref.k.fs.open(file, mode, *a, **kw)
    if (
        ref.k is not None
        and any(c in mode for c in "wax+")
        and file not in ("/dev/null",)
        and not isinstance(file, int)
    ):
        raise HarnessError("write outside the simulated file system: %r" % (file,))
    return _real_open(file, mode, *a, **kw)


def _wrap1(name, meth):
    orig = _real[name]

    def f(path, *a, **kw):
        if ref.k is not None and is_virtual(path):
            return meth(ref.k.fs, path)
        if ref.k is not None and name in ("remove", "unlink", "rmdir", "mkdir"):
            raise HarnessError("%s outside the simulated file system: %r" % (name, path))
        return orig(path, *a, **kw)

    f.__name__ = name
    return f


def _wrap_rename(name):
    orig = _real[name]

    def f(a, b, **kw):
        if ref.k is not None:
            if is_virtual(a) and is_virtual(b):
                return ref.k.fs.rename(a, b)
            raise HarnessError("rename outside the simulated file system")
        return orig(a, b, **kw)

    return f


def _fd_of(x):
    return x if isinstance(x, int) else x.fileno()


def _fsync(fd):
    if ref.k is None:
        return _real["fsync"](fd)
    return ref.k.fs.fsync(_fd_of(fd))


def _getcwd():
    return _real["getcwd"]() if ref.k is None else VROOT


def _listdir(path="."):
    if ref.k is not None and is_virtual(path):
        return ref.k.fs.listdir(path)
    return _real["listdir"](path)


def _mkdir(fs, p):
    n = norm(p)
    if n in fs.dirs or n in fs.names:
        raise FileExistsError(errno.EEXIST, "File exists", p)
    fs.dirs.add(n)


def _os_open(path, flags, mode=0o777, **kw):
    if ref.k is None or not is_virtual(path):
        return _real["open"](path, flags, mode, **kw)
    fs = ref.k.fs
    n = norm(path)
    if n in fs.dirs:
        fd = fs.next_fd
        fs.next_fd += 1
        fs.fds[fd] = _DirFd()
        return fd
    if flags & os.O_RDWR:
        m = "r+"
    elif flags & os.O_WRONLY:
        m = "r+"
    else:
        m = "r"
    if n not in fs.names and flags & os.O_CREAT:
        m = "w+"
    elif flags & os.O_CREAT and flags & os.O_EXCL:
        raise FileExistsError(errno.EEXIST, "File exists", path)
    elif flags & os.O_TRUNC:
        m = "w+"
    raw = SimRaw(fs, n, m)
    if flags & os.O_APPEND:
        raw._append = True
    return raw._fd


def _os_close(fd):
    if ref.k is not None and fd in ref.k.fs.fds:
        f = ref.k.fs.fds.pop(fd)
        if isinstance(f, SimRaw):
            f.close()
        return
    if ref.k is not None and fd in ref.k.cur.proc.fds:
        from . import net

        return net.sim_close_fd(fd)
    return _real["close"](fd)


def _os_write(fd, data):
    if ref.k is not None and fd in ref.k.fs.fds:
        return ref.k.fs.fds[fd].write(data)
    return _real["write"](fd, data)


def _os_fstat(fd):
    if ref.k is not None and fd in ref.k.fs.fds:
        return ref.k.fs.stat(ref.k.fs.fds[fd].path)
    return _real["fstat"](fd)


def _access(path, mode, **kw):
    if ref.k is not None and is_virtual(path):
        return ref.k.fs.exists_any(path)
    return _real["access"](path, mode, **kw)


def install():
    builtins.open = _popen
    io.open = _popen
    os.stat = _wrap1("stat", lambda fs, p: fs.stat(p))
    os.lstat = _wrap1("lstat", lambda fs, p: fs.stat(p))
    os.remove = _wrap1("remove", lambda fs, p: fs.unlink(p))
    os.unlink = _wrap1("unlink", lambda fs, p: fs.unlink(p))
    os.mkdir = _wrap1("mkdir", _mkdir)
    os.rename = _wrap_rename("rename")
    os.replace = _wrap_rename("replace")
    os.fsync = _fsync
    os.fdatasync = _fsync
    os.getcwd = _getcwd
    os.listdir = _listdir
    os.open = _os_open
    os.close = _os_close
    os.write = _os_write
    os.fstat = _os_fstat
    os.access = _access
