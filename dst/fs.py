"""Simulated disk: an in-memory file system behind Python's own buffering layers, with fault injection.

Real code: io.BufferedReader/Writer/Random, io.TextIOWrapper, codecs.  Stub: the raw device and the directory tree.
Crash model: the process dies; everything the kernel accepted (raw writes) survives, user-space buffers are lost."""
import errno
import io
import os
import posixpath
import stat as statmod
import sys

from .core import Invalid, ProcessKilled

REAL = {}          # real functions, captured before patching

ERR = {"eio": errno.EIO, "enospc": errno.ENOSPC, "eacces": errno.EACCES, "emfile": errno.EMFILE,
       "eintr": errno.EINTR, "enomem": errno.ENOMEM, "erofs": errno.EROFS}

KINDS = set(ERR) | {"short", "part", "crash"}
CATS = {"any", "open", "read", "write", "close", "seek", "stat", "remove", "rename", "mkdir", "rmdir", "rmtree", "listdir",
        "trunc", "proc", "fsync"}


class Inode:
    __slots__ = ("data", "ino", "nlink", "mode")

    def __init__(self, ino, data=b""):
        self.data = bytearray(data)
        self.ino = ino
        self.nlink = 1
        self.mode = 0o644


class SimFS:
    def __init__(self, world, faults=(), bufsize=8192, capacity=None, cwd="/sim/work"):
        self.w = world
        world.fs = self
        self.files = {}
        self.dirs = {"/", "/sim", "/sim/work", "/sim/out", "/tmp", "/var", "/var/tmp", "/dev"}
        self.cwd = cwd
        self.bufsize = bufsize
        self.capacity = capacity
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            if f["kind"] not in KINDS or f["cat"] not in CATS:
                raise Invalid("fault")
        self.phase = "-"
        self.count = {}
        self.epoch = 0
        self.dead = False
        self.nino = 0
        self.fds = {}
        self.nfd = 1000
        self.tmpn = 0
        self.pending = {}      # inode -> errno to raise at the next write (after a partial one)
        self.open_handles = 0

    # -- phases, crash
    def set_phase(self, name):
        self.phase = name
        self.w.ev("phase", name)

    def reboot(self):
        """A new process: handles of the old one are dead for ever, the disk stays."""
        self.epoch += 1
        self.dead = False
        self.fds = {}
        self.pending = {}
        self.w.ev("reboot")

    def kill(self):
        self.dead = True
        self.w.fire("crash")
        self.w.ev("crash", self.phase)
        raise ProcessKilled()

    # -- every simulated system call passes here
    def op(self, cat, path, n=0, epoch=None):
        if self.dead or (epoch is not None and epoch != self.epoch):
            raise ProcessKilled()
        self.w.sched.point(cat)
        k = (self.phase, cat)
        a = (self.phase, "any")
        i = self.count[k] = self.count.get(k, 0) + 1
        j = self.count[a] = self.count.get(a, 0) + 1
        self.w.ev(cat, path, n)
        for f in self.faults:
            if f.get("ph", "*") not in ("*", self.phase):
                continue
            if f["cat"] == "any":
                idx = j
            elif f["cat"] == cat:
                idx = i
            else:
                continue
            c = f.get("count", 1)
            if f["kind"] in ("eintr", "short") and c < 0:
                c = 3          # interruptions end: the buffering layer retries for as long as they last
            if idx < f["at"] or (c >= 0 and idx >= f["at"] + c):
                continue
            if f.get("path") and not path.endswith(f["path"]):
                continue
            kind = f["kind"]
            if kind == "crash":
                if f.get("arg", 0) == 0 or cat not in ("write", "open", "close", "remove", "rename", "trunc"):
                    self.kill()
                return f
            if kind in ("short", "part"):
                if cat in ("read", "write") and n > 1:
                    return f
                if kind == "short" or cat != "write":
                    continue
                kind = "enospc"
            if cat == "stat" or kind == "eintr" and cat not in ("read", "write"):
                # os.path.exists() takes every error for "no": whether code asks first is its own affair
                continue
            self.w.fire(cat + ":" + kind)
            self.w.ev("fault", cat, kind)
            raise OSError(ERR[kind], os.strerror(ERR[kind]), path)
        return None

    def after(self, f):
        """Crash right after the operation took effect."""
        if f is not None and f["kind"] == "crash":
            self.kill()

    # -- names
    def norm(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if "\0" in p:
            raise ValueError("embedded null byte")
        return posixpath.normpath(posixpath.join(self.cwd, p))

    def used(self):
        return sum(len(i.data) for i in self.files.values())

    def _parent(self, p, orig):
        d = posixpath.dirname(p)
        if d not in self.dirs:
            if d in self.files:
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), orig)
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), orig)

    # -- harness-side access (not a system call, no faults)
    def peek(self, p):
        i = self.files.get(self.norm(p))
        return None if i is None else bytes(i.data)

    def poke(self, p, data):
        p = self.norm(p)
        self.nino += 1
        self.files[p] = Inode(self.nino, data)

    def exists(self, p):
        return self.norm(p) in self.files

    def snapshot(self):
        return {p: bytes(i.data) for p, i in self.files.items()}

    def restore(self, snap):
        self.files = {}
        for p, d in sorted(snap.items()):
            self.poke(p, d)

    # -- system calls
    def sys_open(self, p, flags, mode=0o666):
        orig = p
        p = self.norm(p)
        acc = flags & (os.O_WRONLY | os.O_RDWR)
        f = self.op("open", p, 1 if acc else 0)
        if p in self.dirs:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), orig)
        self._parent(p, orig)
        node = self.files.get(p)
        if node is None:
            if not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), orig)
            self.nino += 1
            node = self.files[p] = Inode(self.nino)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), orig)
            if flags & os.O_TRUNC and acc:
                del node.data[:]
        self.after(f)
        return SimRaw(self, node, p, acc != os.O_WRONLY, bool(acc), bool(flags & os.O_APPEND), orig)

    def remove(self, p):
        orig = p
        p = self.norm(p)
        f = self.op("remove", p)
        if p in self.dirs:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), orig)
        node = self.files.pop(p, None)
        if node is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), orig)
        self.after(f)

    def rename(self, a, b, **kw):
        oa = a
        a, b = self.norm(a), self.norm(b)
        f = self.op("rename", a + "->" + b)
        if a in self.dirs:
            if b in self.files or (b in self.dirs and self.children(b)):
                raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), oa)
            self.dirs = {b + d[len(a):] if d == a or d.startswith(a + "/") else d for d in self.dirs}
            self.files = {b + q[len(a):] if q.startswith(a + "/") else q: i for q, i in self.files.items()}
        else:
            if a not in self.files:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), oa)
            self._parent(b, oa)
            self.files[b] = self.files.pop(a)
        self.after(f)

    def mkdir(self, p, mode=0o777, **kw):
        orig = p
        p = self.norm(p)
        self.op("mkdir", p)
        if p in self.dirs or p in self.files:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), orig)
        self._parent(p, orig)
        self.dirs.add(p)

    def children(self, p):
        pre = p.rstrip("/") + "/"
        names = set()
        for q in list(self.files) + list(self.dirs):
            if q.startswith(pre) and q != p and q != "/":
                names.add(q[len(pre):].split("/")[0])
        return sorted(names)

    def rmdir(self, p, **kw):
        orig = p
        p = self.norm(p)
        self.op("rmdir", p)
        if p not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), orig)
        if self.children(p):
            raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), orig)
        self.dirs.discard(p)

    def rmtree(self, p):
        p = self.norm(p)
        self.op("rmtree", p)
        for q in sorted(self.files):
            if q.startswith(p + "/"):
                del self.files[q]
        for d in sorted(self.dirs):
            if d == p or d.startswith(p + "/"):
                self.dirs.discard(d)

    def listdir(self, p="."):
        p = self.norm(p)
        self.op("listdir", p)
        if p not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        return self.children(p)

    def stat(self, p):
        orig = p
        p = self.norm(p)
        self.op("stat", p)
        if p in self.dirs:
            return os.stat_result((statmod.S_IFDIR | 0o755, 1, 1, 2, 0, 0, 0, 0, 0, 0))
        node = self.files.get(p)
        if node is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), orig)
        t = int(self.w.clock.now)
        return os.stat_result((statmod.S_IFREG | node.mode, node.ino, 1, 1, 0, 0, len(node.data), t, t, t))

    def newfd(self, raw):
        self.nfd += 1
        self.fds[self.nfd] = raw
        raw.fd = self.nfd
        return self.nfd


class SimRaw(io.RawIOBase):
    """The simulated device under one open file description."""

    def __init__(self, fs, node, path, r, w, append, name):
        self.fs, self.node, self.path = fs, node, path
        self._r, self._w, self._append = r, w, append
        self.pos = 0
        self.name = name
        self.mode = "rb+" if r and w else ("wb" if w else "rb")
        self.epoch = fs.epoch
        self.fd = None
        self.cleanup = None
        fs.open_handles += 1

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.fd is None:
            self.fs.newfd(self)
        return self.fd

    def isatty(self):
        return False

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def readinto(self, b):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation("File not open for reading")
        m = memoryview(b).cast("B")
        f = self.fs.op("read", self.path, len(m), self.epoch)
        n = max(0, min(len(m), len(self.node.data) - self.pos))
        if f is not None and f["kind"] in ("short", "part") and n > 1:
            n = max(1, min(n - 1, int(n * f.get("arg", 0.5))))
            self.fs.w.fire("read:short")
        m[:n] = self.node.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        self._check()
        if not self._w:
            raise io.UnsupportedOperation("File not open for writing")
        data = bytes(memoryview(b).cast("B"))
        fs = self.fs
        f = fs.op("write", self.path, len(data), self.epoch)
        if fs.pending.pop(self.node.ino, None) is not None:
            fs.w.fire("write:enospc")
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self.path)
        n = len(data)
        if f is not None:
            if f["kind"] in ("short", "part", "crash") and n > 0:
                n = int(n * f.get("arg", 0.5))
                n = min(len(data), max(n, 0 if f["kind"] == "crash" else 1))
                if f["kind"] == "short":
                    n = min(n, max(1, len(data) - 1))
                    fs.w.fire("write:short")
                elif f["kind"] == "part":
                    n = min(n, max(1, len(data) - 1))
                    fs.pending[self.node.ino] = 1
                    fs.w.fire("write:part")
        pos = len(self.node.data) if self._append else self.pos
        if fs.capacity is not None:
            grow = max(0, pos + n - len(self.node.data))
            room = fs.capacity - fs.used()
            if grow > room:
                n -= grow - max(room, 0)
                if n <= 0:
                    fs.w.fire("write:diskfull")
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self.path)
        if pos > len(self.node.data):
            self.node.data.extend(b"\0" * (pos - len(self.node.data)))
        self.node.data[pos:pos + n] = data[:n]
        self.pos = pos + n
        fs.after(f)
        return n

    def seek(self, off, whence=0):
        self._check()
        self.fs.op("seek", self.path, 0, self.epoch)
        base = 0 if whence == 0 else self.pos if whence == 1 else len(self.node.data)
        if base + off < 0:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL), self.path)
        self.pos = base + off
        return self.pos

    def tell(self):
        self._check()
        if self.fs.dead or self.epoch != self.fs.epoch:
            raise ProcessKilled()
        return self.pos

    def truncate(self, size=None):
        self._check()
        if size is None:
            size = self.pos
        f = self.fs.op("trunc", self.path, size, self.epoch)
        d = self.node.data
        if size < len(d):
            del d[size:]
        else:
            d.extend(b"\0" * (size - len(d)))
        self.fs.after(f)
        return size

    def close(self):
        if self.closed:
            return
        super().close()          # marks closed (calls flush, a no-op for raw files)
        self.fs.open_handles -= 1
        if self.fd is not None:
            self.fs.fds.pop(self.fd, None)
        if self.epoch != self.fs.epoch or self.fs.dead:
            return
        f = self.fs.op("close", self.path, 0, self.epoch)
        if self.cleanup is not None:
            c, self.cleanup = self.cleanup, None
            c()
        self.fs.after(f)

    def __del__(self):
        try:
            self.close()
        except BaseException:
            pass
