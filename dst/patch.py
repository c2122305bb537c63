"""Puts the simulated world behind every seam Python offers: files, directories, temporary files, processes, clocks."""
import builtins
import codecs
import io
import os
import posixpath
import shutil
import subprocess
import sys
import tempfile
import time

from . import core
from .fs import REAL, SimRaw

REPO = os.environ.get("DST_REPO", "/repo")
PASS = ()


def W():
    return core.CURRENT


def FS():
    return core.CURRENT.fs


def _passthrough(p):
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return isinstance(p, str) and p.startswith(PASS)


# ---------------------------------------------------------------- open
def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = FS()
    if not isinstance(file, (str, bytes, int)):
        file = os.fspath(file)
    if not isinstance(mode, str):
        raise TypeError("invalid mode: %r" % mode)
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    creating, reading, writing, appending = "x" in modes, "r" in modes, "w" in modes, "a" in modes
    updating, text, binary = "+" in modes, "t" in modes, "b" in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take encoding, errors or newline")
    if isinstance(file, int):
        raw = fs.fds.get(file)
        if raw is None:
            raise OSError(9, "Bad file descriptor")
        if not closefd:
            raise ValueError("closefd=False is not simulated")
    else:
        if not file and file != 0:
            raise FileNotFoundError(2, "No such file or directory", file)
        if reading and not updating and _passthrough(file):
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        flags = 0
        if updating:
            flags |= os.O_RDWR
        elif not reading:
            flags |= os.O_WRONLY
        if creating:
            flags |= os.O_CREAT | os.O_EXCL
        elif writing:
            flags |= os.O_CREAT | os.O_TRUNC
        elif appending:
            flags |= os.O_CREAT | os.O_APPEND
        if opener is not None:
            fd = opener(file, flags)
            raw = fs.fds[fd]
        else:
            raw = fs.sys_open(file, flags)
        if appending:
            raw.pos = len(raw.node.data)
        raw.name = file
    line = False
    if buffering == 1 and not binary:
        buffering, line = -1, True
    if buffering < 0:
        buffering = fs.bufsize
    elif buffering == 1:
        buffering = fs.bufsize
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    if updating:
        buf = io.BufferedRandom(raw, buffering)
    elif reading:
        buf = io.BufferedReader(raw, buffering)
    else:
        buf = io.BufferedWriter(raw, buffering)
    if binary:
        return buf
    enc = encoding
    if enc is None or enc == "locale":
        enc = "utf-8"
    t = io.TextIOWrapper(buf, enc, errors, newline, line)
    t.mode = mode
    return t


def sim_io_open(*a, **k):
    return sim_open(*a, **k)


# ---------------------------------------------------------------- os
def os_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = FS()
    raw = fs.sys_open(path, flags)
    return fs.newfd(raw)


def os_fdopen(fd, mode="r", buffering=-1, encoding=None, *a, **k):
    return sim_open(fd, mode, buffering, encoding, *a, **k)


def _fd(name):
    real = getattr(os, name)

    def f(fd, *a):
        raw = FS().fds.get(fd)
        if raw is None:
            if fd >= 1000:
                raise OSError(9, "Bad file descriptor")
            return real(fd, *a)
        if name == "close":
            return raw.close()
        if name == "read":
            return io.RawIOBase.read(raw, a[0])
        if name == "write":
            return raw.write(a[0])
        if name == "lseek":
            return raw.seek(a[0], a[1])
        if name in ("fsync", "fdatasync"):
            FS().op("fsync", raw.path, 0, raw.epoch)
            return None
        if name == "ftruncate":
            return raw.truncate(a[0])
        if name == "fstat":
            return FS().stat(raw.path)
        if name == "fchmod":
            return None
        raise NotImplementedError(name)
    f.__name__ = name
    return f


def os_stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        raw = FS().fds.get(path)
        return FS().stat(raw.path)
    if _passthrough(path):
        return REAL["stat"](path)
    return FS().stat(path)


def os_access(path, mode, **k):
    try:
        os_stat(path)
        return True
    except OSError:
        return False


def os_remove(path, *, dir_fd=None):
    FS().remove(path)


def os_rename(a, b, **k):
    FS().rename(a, b)


def os_mkdir(p, mode=0o777, **k):
    FS().mkdir(p)


def os_rmdir(p, **k):
    FS().rmdir(p)


def os_listdir(p="."):
    if _passthrough(p):
        return REAL["listdir"](p)
    return FS().listdir(p)


class SimDirEntry:
    def __init__(self, d, name):
        self.name, self.path = name, posixpath.join(d, name)

    def is_dir(self, *, follow_symlinks=True):
        return FS().norm(self.path) in FS().dirs

    def is_file(self, *, follow_symlinks=True):
        return FS().norm(self.path) in FS().files

    def is_symlink(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return FS().stat(self.path)

    def inode(self):
        return self.stat().st_ino

    def __fspath__(self):
        return self.path


class SimScan:
    def __init__(self, p):
        self.it = iter([SimDirEntry(p, n) for n in FS().listdir(p)])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.it = iter(())


def os_scandir(p="."):
    if _passthrough(p):
        return REAL["scandir"](p)
    return SimScan(os.fspath(p))


def os_getcwd():
    return FS().cwd


def os_chmod(p, mode, **k):
    FS().stat(p)


def os_utime(*a, **k):
    return None


def sh_rmtree(path, ignore_errors=False, onerror=None, **k):
    try:
        if FS().norm(path) not in FS().dirs:
            raise FileNotFoundError(2, "No such file or directory", path)
        FS().rmtree(path)
    except OSError:
        if not ignore_errors:
            raise


def sh_copyfile(a, b, **k):
    with sim_open(a, "rb") as f, sim_open(b, "wb") as g:
        while True:
            d = f.read(65536)
            if not d:
                break
            g.write(d)
    return b


def sh_move(a, b, *r, **k):
    FS().rename(a, b)
    return b


def sh_which(cmd, *a, **k):
    return "/usr/bin/" + cmd if cmd in W().procs.programs else None


# ---------------------------------------------------------------- tempfile
def _tmpname(suffix, prefix, dir):
    fs = FS()
    d = dir if dir is not None else "/tmp"
    fs.tmpn += 1
    if isinstance(suffix, bytes) or isinstance(prefix, bytes):
        raise TypeError("bytes temporary names are not simulated")
    return posixpath.join(os.fspath(d), "%s%08x%s" % ("tmp" if prefix is None else prefix, fs.tmpn * 2654435761 % 2**32,
                                                        suffix or ""))


def tf_mkstemp(suffix=None, prefix=None, dir=None, text=False):
    p = FS().norm(_tmpname(suffix, prefix, dir))
    raw = FS().sys_open(p, os.O_RDWR | os.O_CREAT | os.O_EXCL)
    return FS().newfd(raw), p


def tf_mkdtemp(suffix=None, prefix=None, dir=None):
    p = FS().norm(_tmpname(suffix, prefix, dir))
    FS().mkdir(p)
    return p


def tf_mktemp(suffix="", prefix="tmp", dir=None):
    return FS().norm(_tmpname(suffix, prefix, dir))


class tf_Named:
    def __init__(self, mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None,
                 delete=True, *, errors=None, delete_on_close=True):
        self.fs = FS()
        self.epoch = self.fs.epoch
        self.name = self.fs.norm(_tmpname(suffix, prefix, dir))
        raw = self.fs.sys_open(self.name, os.O_RDWR | os.O_CREAT | os.O_EXCL)
        fd = self.fs.newfd(raw)
        if "b" not in mode and encoding is None:
            encoding = "utf-8"
        self.file = sim_open(fd, mode, buffering, encoding, errors, newline)
        self.delete = delete
        self._on_close = delete and delete_on_close
        self._gone = False

    def _unlink(self):
        if self.delete and not self._gone:
            self._gone = True
            if self.fs.exists(self.name):
                self.fs.remove(self.name)

    def close(self):
        try:
            self.file.close()
        finally:
            if self._on_close:
                self._unlink()

    def __getattr__(self, n):
        return getattr(self.__dict__["file"], n)

    def __enter__(self):
        self.file.__enter__()
        return self

    def __exit__(self, *a):
        self.close()
        self._unlink()

    def __iter__(self):
        return iter(self.file)

    def __del__(self):
        try:
            if not self.fs.dead and self.fs.epoch == self.epoch:
                self.close()
                self._unlink()
        except BaseException:
            pass


class tf_Dir:
    def __init__(self, suffix=None, prefix=None, dir=None, ignore_cleanup_errors=False, *, delete=True):
        self.fs = FS()
        self.epoch = self.fs.epoch
        self.name = tf_mkdtemp(suffix, prefix, dir)
        self.delete = delete
        self._ignore = ignore_cleanup_errors

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        if self.delete:
            self.cleanup()

    def cleanup(self):
        if self.fs.norm(self.name) in self.fs.dirs:
            self.fs.rmtree(self.name)

    def __del__(self):
        try:
            if self.delete and not self.fs.dead and self.fs.epoch == self.epoch:
                self.cleanup()
        except BaseException:
            pass


def tf_TemporaryFile(mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, *, errors=None):
    return tf_Named(mode, buffering, encoding, newline, suffix, prefix, dir, True, errors=errors)


def tf_gettempdir():
    return "/tmp"


# ---------------------------------------------------------------- processes
def sp_call(*popenargs, timeout=None, **kw):
    return W().procs.run(popenargs[0] if popenargs else kw.pop("args"), **kw).returncode


def sp_run(*popenargs, input=None, capture_output=False, timeout=None, check=False, **kw):
    args = popenargs[0] if popenargs else kw.pop("args")
    p = W().procs.run(args, **kw)
    if check and p.returncode:
        raise subprocess.CalledProcessError(p.returncode, args)
    return p


def sp_check_call(*popenargs, **kw):
    args = popenargs[0] if popenargs else kw.pop("args")
    rc = W().procs.run(args, **kw).returncode
    if rc:
        raise subprocess.CalledProcessError(rc, args)
    return 0


def sp_check_output(*popenargs, **kw):
    sp_check_call(*popenargs, **kw)
    return b""


class sp_Popen:
    def __init__(self, args, *a, **kw):
        p = W().procs.run(args, **{k: v for k, v in kw.items() if k in ("shell", "cwd", "executable")})
        self.args, self.returncode, self.pid = args, None, 4242
        self._rc = p.returncode
        self.stdin = self.stdout = self.stderr = None

    def wait(self, timeout=None):
        self.returncode = self._rc
        return self._rc

    def poll(self):
        return self.wait()

    def communicate(self, input=None, timeout=None):
        self.wait()
        return None, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


def os_getpid():
    return getattr(W(), "pids", {}).get(W().sched.cur if W().sched.active else -1, 4000)


def os_system(cmd):
    return W().procs.run(cmd, shell=True).returncode << 8


# ---------------------------------------------------------------- clocks
def t_time():
    return W().clock.time()


def t_time_ns():
    return int(W().clock.time() * 1e9)


def t_mono():
    return W().clock.monotonic()


def t_mono_ns():
    return int(W().clock.monotonic() * 1e9)


def t_sleep(s):
    W().clock.advance(s)
    W().sched.point("sleep")


def t_localtime(secs=None):
    return REAL["gmtime"](W().clock.now if secs is None else secs)


def t_gmtime(secs=None):
    return REAL["gmtime"](W().clock.now if secs is None else secs)


def t_strftime(fmt, t=None):
    return REAL["strftime"](fmt, t_localtime() if t is None else t)


TABLE = None


def _table():
    t = [
        (builtins, "open", sim_open), (io, "open", sim_io_open),
        (os, "open", os_open), (os, "fdopen", os_fdopen),
        (os, "stat", os_stat), (os, "lstat", os_stat), (os, "access", os_access),
        (os, "remove", os_remove), (os, "unlink", os_remove), (os, "rename", os_rename), (os, "replace", os_rename),
        (os, "mkdir", os_mkdir), (os, "rmdir", os_rmdir), (os, "listdir", os_listdir), (os, "scandir", os_scandir),
        (os, "getcwd", os_getcwd), (os, "chmod", os_chmod), (os, "utime", os_utime), (os, "system", os_system), (os, "getpid", os_getpid),
        (shutil, "rmtree", sh_rmtree), (shutil, "copyfile", sh_copyfile), (shutil, "copy", sh_copyfile),
        (shutil, "copy2", sh_copyfile), (shutil, "move", sh_move), (shutil, "which", sh_which),
        (tempfile, "mkstemp", tf_mkstemp), (tempfile, "mkdtemp", tf_mkdtemp), (tempfile, "mktemp", tf_mktemp),
        (tempfile, "NamedTemporaryFile", tf_Named), (tempfile, "TemporaryDirectory", tf_Dir),
        (tempfile, "TemporaryFile", tf_TemporaryFile), (tempfile, "gettempdir", tf_gettempdir),
        (subprocess, "call", sp_call), (subprocess, "run", sp_run), (subprocess, "check_call", sp_check_call),
        (subprocess, "check_output", sp_check_output), (subprocess, "Popen", sp_Popen),
        (time, "time", t_time), (time, "time_ns", t_time_ns), (time, "monotonic", t_mono),
        (time, "monotonic_ns", t_mono_ns), (time, "perf_counter", t_mono), (time, "perf_counter_ns", t_mono_ns),
        (time, "sleep", t_sleep), (time, "localtime", t_localtime), (time, "gmtime", t_gmtime),
        (time, "strftime", t_strftime),
    ]
    for n in ("close", "read", "write", "lseek", "fsync", "fdatasync", "ftruncate", "fstat", "fchmod"):
        t.append((os, n, _fd(n)))
    return t


class Sink(io.TextIOBase):
    """Stands in for the process's stdout/stderr; what is printed goes to the current world."""

    def __init__(self, name):
        self.stream = name
        self.tap = None

    def writable(self):
        return True

    def write(self, s):
        if self.tap is not None:
            self.tap(self.stream, s)
        return len(s)

    def flush(self):
        pass


OUT = Sink("stdout")
ERRS = Sink("stderr")


def prepare():
    """Once per worker, before coral is imported."""
    global PASS
    REAL.update(open=builtins.open, stat=os.stat, listdir=os.listdir, scandir=os.scandir, gmtime=time.gmtime, walltime=time.time, strftime=time.strftime,
                time=time.time, close=os.close, write=os.write, read=os.read, getcwd=os.getcwd,
                stdout=sys.stdout, stderr=sys.stderr)
    stdlib = posixpath.dirname(os.__file__)
    PASS = (REPO + "/", stdlib, sys.prefix + "/lib", "/usr/lib/python3", posixpath.dirname(posixpath.dirname(os.path.abspath(__file__))) + "/")


def install(modules):
    """In the child that runs one execution."""
    t = _table()
    swap = {}
    for mod, name, new in t:
        old = getattr(mod, name)
        swap[id(old)] = (old, new)
        setattr(mod, name, new)
    os.path.getsize.__globals__["os"]  # genericpath uses os.stat: already redirected
    # names imported directly into the modules under test ("from time import time")
    for m in modules:
        for k, v in list(vars(m).items()):
            r = swap.get(id(v))
            if r is not None and r[0] is v and not k.startswith("__"):
                setattr(m, k, r[1])
    sys.stdout = OUT
    sys.stderr = ERRS
    sys.unraisablehook = lambda *a: None
