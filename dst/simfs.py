"""The file system of simulated processes.

Real files in a scratch directory, reached through replacements of open() and of
the os functions.  Every operation passes the 'fs' seam, where it can fail (any
errno), be cut short, be torn (part of the data written, then an error or a
kill), stall, meet a full disk, or be the last thing the process ever does.  The
data a process has written survives its kill; what it still held in its own
buffers does not.  Directory listings come in an order the spec decides.  Writing
anywhere but inside the scratch directory is refused."""
import builtins
import errno
import io
import os
import random
import shutil
import stat as _stat
import sys
import tempfile

from .sim import SIM, SimKill

REAL = {k: getattr(os, k) for k in (
    "open", "close", "read", "write", "replace", "rename", "remove", "unlink", "mkdir", "rmdir", "chmod", "stat", "lstat",
    "scandir", "listdir", "fsync", "fdatasync", "truncate", "ftruncate", "link", "symlink", "utime", "access",
    "sendfile", "chdir", "getcwd", "copy_file_range", "pwrite", "writev", "fdopen", "readlink") if hasattr(os, k)}
REAL_OPEN = io.open
ROOTS = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"


def scratch_path(pid):
    return os.path.join(ROOTS, f"qudiet-dst-{pid:08d}")


class Disk:
    """One run's disk."""

    def __init__(self):
        self.root = None
        self.full = None           # bytes left, once the disk is full
        self.order = 0
        self.blksize = 8192
        self.encoding = "utf-8"    # what files opened without one are taken to be in (the locale)
        self.watch = None          # called after every operation that changes a file
        self.fds = {}              # fd -> path, of everything opened by a process
        self.refused = []
        self.on_op = None          # told (label, relative path) before every operation

    def inside(self, path):
        return self.rel(path) is not None

    def rel(self, path):
        if self.root is None or isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(REAL["getcwd"](), p))
        if p == self.root:
            return "."
        if p.startswith(self.root + "/"):
            return p[len(self.root) + 1:]
        return None


DISK = Disk()


def active():
    return SIM.on and DISK.root is not None


def dead():
    p = SIM.ctx.proc
    return p is not None and p.killed


def fail(err, path=None):
    e = getattr(errno, err)
    if path is None:
        raise OSError(e, os.strerror(e))
    raise OSError(e, os.strerror(e), path)


class Op:
    """One operation: seam, fault, effect, watch."""

    def __init__(self, label, path=None, rel=None, changes=False):
        self.label, self.path, self.changes = label, path, changes
        self.rel = rel if rel is not None else (DISK.rel(path) if path is not None else "?")

    def __enter__(self):
        if dead():
            raise SimKill("killed")
        if DISK.on_op:
            DISK.on_op(self.label, self.rel)
        self.f = SIM.seam("fs", f"{self.label} {self.rel}")
        if dead():
            raise SimKill("killed")
        f = self.f
        if f is not None and f["do"] == "errno" and "part" not in f:
            fail(f["err"], self.path)
        if f is not None and f["do"] == "full":
            DISK.full = f.get("room", 0)
        return f

    def __exit__(self, t, v, tb):
        if DISK.watch and (self.changes or t is not None) and t is not SimKill:
            DISK.watch(self.label, self.rel)
        if t is None:
            SIM.seam_after(self.f, "fs")
        return False


class SimRaw(io.RawIOBase):
    def __init__(self, fd, path, reading, writing, closefd=True, appending=False):
        self.fd, self.path, self._r, self._w = fd, path, reading, writing
        self.name = path
        self.mode = "rb+" if reading and writing else "wb" if writing else "rb"
        self.proc = SIM.ctx.proc
        self.closefd = closefd
        self.rel = DISK.rel(path)
        self.token = DISK.fds.get(fd)      # the very string object: fd numbers are used again

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        if self.ghost():
            raise SimKill("killed")
        if not active():
            data = REAL["read"](self.fd, len(b))
            b[:len(data)] = data
            return len(data)
        with Op("read", self.path, self.rel) as f:
            n = len(b)
            if f is not None and f["do"] == "short":
                n = max(1, min(n, f["part"]))
            data = REAL["read"](self.fd, n)
            b[:len(data)] = data
            return len(data)

    def readall(self):
        out = b""
        while True:
            buf = bytearray(DISK.blksize)
            n = self.readinto(buf)
            if not n:
                return out
            out += bytes(buf[:n])

    def ghost(self):
        return self.proc is not None and self.proc.killed

    def write(self, b):
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        data = bytes(b)
        if self.ghost():
            return len(data)               # a dead process writes nothing
        if not active():
            return REAL["write"](self.fd, data)
        with Op("write", self.path, self.rel, True) as f:
            room = len(data)
            then = None
            if f is not None and f["do"] in ("errno", "tornkill", "short"):
                room = min(room, f["part"])
                then = f["do"]
                if then == "short":
                    room = max(1, room)
            if DISK.full is not None and room > DISK.full:
                room, then = DISK.full, then or "full"
                if then == "short":
                    then = None if room else "full"
            if DISK.full is not None:
                DISK.full -= room
            n = REAL["write"](self.fd, data[:room]) if room else 0
            if then == "errno":
                fail(f["err"], self.path)
            if then == "tornkill":
                if DISK.watch:
                    DISK.watch("write", self.rel)
                SIM.ctx.proc.kill()
                raise SimKill("killed")
            if then == "full":
                if n:
                    return n
                fail("ENOSPC", self.path)
            return n

    def truncate(self, size=None):
        if self.ghost():
            return 0
        if size is None:
            size = self.tell()
        if active():
            with Op("truncate", self.path, self.rel, True):
                REAL["ftruncate"](self.fd, size)
        else:
            REAL["ftruncate"](self.fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self.closefd and self.fd is not None:
                fd, self.fd = self.fd, None
                if DISK.fds.get(fd) is self.token:
                    DISK.fds.pop(fd, None)
                    REAL["close"](fd)
        if active() and not self.ghost() and not dead():
            with Op("close", self.path, self.rel):
                pass


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    known = isinstance(file, int) and not isinstance(file, bool) and file in DISK.fds
    if not active() or not (known or DISK.inside(file)):
        if active() and not isinstance(file, int) and any(c in mode for c in "wax+"):
            refuse(file)
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(mode, str):
        raise TypeError("invalid mode: %r" % mode)
    kinds = set(mode)
    if kinds - set("axrwb+t") or len(mode) > len(kinds) or sum(c in kinds for c in "rwax") != 1:
        raise ValueError("invalid mode: %r" % mode)
    binary, upd = "b" in kinds, "+" in kinds
    if binary and "t" in kinds:
        raise ValueError("can't have text and binary mode at once")
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
    reading, writing = "r" in kinds or upd, bool(kinds & set("wax")) or upd
    flags = os.O_CLOEXEC | (os.O_RDWR if reading and writing else os.O_WRONLY if writing else os.O_RDONLY)
    if "w" in kinds:
        flags |= os.O_CREAT | os.O_TRUNC
    if "a" in kinds:
        flags |= os.O_CREAT | os.O_APPEND
    if "x" in kinds:
        flags |= os.O_CREAT | os.O_EXCL
    if known:
        fd, path = file, DISK.fds[file]
    elif opener is not None:
        fd, path = opener(file, flags), os.fspath(file)
        DISK.fds.setdefault(fd, os.path.join(REAL["getcwd"](), path))
    else:
        path = os.fspath(file)
        fd = open_fd(path, flags, 0o666)
        if _stat.S_ISDIR(os.fstat(fd).st_mode):
            REAL["close"](fd)
            DISK.fds.pop(fd, None)
            fail("EISDIR", path)
    raw = SimRaw(fd, path, reading, writing, closefd)
    if "a" in kinds:
        os.lseek(fd, 0, 2)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else DISK.blksize
    if reading and writing:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, DISK.encoding if encoding in (None, "locale") else encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


def refuse(path):
    DISK.refused.append(str(path))
    raise PermissionError(errno.EACCES, "outside the scratch directory", str(path))


def open_fd(path, flags, mode=0o777, *, dir_fd=None):
    if not active() or (dir_fd is None and not DISK.inside(path)):
        if active() and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and str(path) != os.devnull:
            refuse(path)
        return REAL["open"](path, flags, mode, dir_fd=dir_fd) if dir_fd is not None else REAL["open"](path, flags, mode)
    changes = bool(flags & (os.O_CREAT | os.O_TRUNC))
    writing = bool(flags & (os.O_WRONLY | os.O_RDWR))
    fd = None
    try:
        with Op("open-w" if writing else "open-r", path, None, changes):
            if DISK.full is not None and flags & os.O_CREAT and DISK.full <= 0 and not os.path.lexists(path):
                fail("ENOSPC", path)
            fd = REAL["open"](path, flags, mode, dir_fd=dir_fd) if dir_fd is not None else REAL["open"](path, flags, mode)
            if not _stat.S_ISDIR(os.fstat(fd).st_mode):
                DISK.fds[fd] = os.path.join(REAL["getcwd"](), os.fspath(path))
    except BaseException:
        if fd is not None:                 # interrupted when it was open already
            DISK.fds.pop(fd, None)
            REAL["close"](fd)
        raise
    return fd


def sim_close(fd):
    known = fd in DISK.fds
    path = DISK.fds.pop(fd, None)
    if not active() or not known:
        return REAL["close"](fd)
    REAL["close"](fd)
    with Op("close", path):
        pass


def sim_read(fd, n):
    if not active() or fd not in DISK.fds:
        return REAL["read"](fd, n)
    with Op("read", DISK.fds[fd]) as f:
        if f is not None and f["do"] == "short":
            n = max(1, min(n, f["part"]))
        return REAL["read"](fd, n)


def sim_write(fd, data):
    if not active() or fd not in DISK.fds:
        return REAL["write"](fd, data)
    raw = SimRaw(fd, DISK.fds[fd], False, True, closefd=False)
    return raw.write(data)


def wrap1(name, label, changes=True, stat_like=False):
    real = REAL[name]

    def f(path, *a, **k):
        if not active():
            return real(path, *a, **k)
        if isinstance(path, int):
            if path not in DISK.fds:
                return real(path, *a, **k)
            with Op(label, DISK.fds[path], None, changes):
                return real(path, *a, **k)
        if k.get("dir_fd") is None and not DISK.inside(path):
            if changes:
                refuse(path)
            return real(path, *a, **k)
        if stat_like:
            if dead():
                raise SimKill("killed")
            if SIM.sched is not None:
                SIM.sched.yield_point("stat")
            return real(path, *a, **k)
        with Op(label, path, None, changes):
            return real(path, *a, **k)
    f.__name__ = name
    return f


def wrap2(name, label):
    real = REAL[name]

    def f(src, dst, *a, **k):
        if not active():
            return real(src, dst, *a, **k)
        if not DISK.inside(dst) or (name in ("replace", "rename") and not DISK.inside(src)):
            refuse(dst)
        with Op(label, dst, None, True):
            if name != "symlink" and (DISK.rel(src) or "").startswith("tmp/") != DISK.rel(dst).startswith("tmp/"):
                fail("EXDEV", dst)         # the directory for temporary files is another file system
            return real(src, dst, *a, **k)
    f.__name__ = name
    return f


class Listing:
    """What scandir gives, in the spec's order."""

    def __init__(self, entries):
        self.entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def permuted(names, where):
    names = sorted(names, key=lambda e: os.fsdecode(e if isinstance(e, (str, bytes)) else e.name))
    random.Random(f"{DISK.order}:{where}").shuffle(names)
    return names


def sim_scandir(path="."):
    if not active() or not DISK.inside(path):
        return REAL["scandir"](path)
    with Op("scandir", path):
        with REAL["scandir"](path) as it:
            return Listing(permuted(list(it), DISK.rel(path)))


def sim_listdir(path="."):
    if not active() or not DISK.inside(path):
        return REAL["listdir"](path)
    with Op("scandir", path):
        return permuted(REAL["listdir"](path), DISK.rel(path))


def fd_op(name, label):
    real = REAL[name]

    def f(fd, *a, **k):
        n = fd if isinstance(fd, int) else fd.fileno()
        if not active() or n not in DISK.fds:
            return real(fd, *a, **k)
        with Op(label, DISK.fds[n], None, True):
            return real(fd, *a, **k)
    f.__name__ = name
    return f


def unsupported(name):
    real = REAL[name]

    def f(*a, **k):
        if active():
            raise OSError(errno.ENOTSUP, os.strerror(errno.ENOTSUP))
        return real(*a, **k)
    return f


def install():
    """From here on these names mean the simulated disk (inside a run)."""
    builtins.open = sim_open
    io.open = sim_open
    os.open, os.close, os.read, os.write = open_fd, sim_close, sim_read, sim_write
    for n in ("remove", "unlink", "mkdir", "rmdir", "chmod", "truncate", "utime"):
        setattr(os, n, wrap1(n, n))
    for n in ("stat", "lstat", "access", "readlink"):
        setattr(os, n, wrap1(n, n, False, True))
    for n in ("replace", "rename", "link", "symlink"):
        setattr(os, n, wrap2(n, n))
    for n in ("fsync", "fdatasync", "ftruncate"):
        setattr(os, n, fd_op(n, n))
    for n in ("sendfile", "copy_file_range", "pwrite", "writev"):
        if n in REAL:
            setattr(os, n, unsupported(n))
    os.scandir, os.listdir = sim_scandir, sim_listdir
    shutil._USE_CP_SENDFILE = False
    # rmtree and walk may not use directory descriptors: paths are what we see
    os.supports_dir_fd.clear()
    os.supports_fd.clear()
    shutil._use_fd_functions = False


# ------------------------------------------------------------------ processes
class Exit(BaseException):
    pass


class Stream(io.TextIOBase):
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, proc):
        self.proc = proc
        self.parts = []

    def write(self, s):
        if not self.proc.killed:
            self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def writable(self):
        return True

    def isatty(self):
        return False

    def text(self):
        return "".join(self.parts)


class Proc:
    """A simulated process: its own modules, arguments, directory, streams."""

    def __init__(self, name, pid, argv, cwd, modules, body):
        self.name, self.pid, self.argv, self.cwd, self.modules, self.body = name, pid, argv, cwd, modules, body
        self.killed = False
        self.out, self.err = Stream(self), Stream(self)
        self.outcome = None        # "returned", "killed", "exit N", "raised ..."
        self.error = None

    def kill(self):
        self.killed = True

    def enter(self):
        from . import boot
        SIM.pid = self.pid
        sys.argv = list(self.argv)
        sys.stdout, sys.stderr = self.out, self.err
        REAL["chdir"](self.cwd)
        if self.modules is not None:
            boot.purge()
            sys.modules.update(self.modules)

    def run(self):
        try:
            self.body()
            self.outcome = "returned"
        except SimKill:
            self.outcome = "killed"
        except SystemExit as e:
            code = e.code if e.code is not None else 0
            self.outcome = "returned" if code == 0 else f"exit {code}"
            self.code = code
        except BaseException as e:
            if type(e).__name__ in ("Deadlock", "StepLimit"):
                raise
            self.error = e
            self.outcome = f"raised {type(e).__name__}"
        if self.killed:
            self.outcome = "killed"
        SIM.note(self.name, "ended", self.outcome)

    def text(self):
        return self.out.text() + self.err.text()


def run_procs(procs, policy, plans):
    """Runs processes concurrently under the scheduler (one: alone)."""
    from . import sim
    saved = sys.stdout, sys.stderr, list(sys.argv), SIM.pid, REAL["getcwd"]()
    tasks = []
    counts = {}
    for i, p in enumerate(procs):
        def body(p=p, i=i):
            SIM.begin_step(plans[i])
            try:
                p.run()
            finally:
                counts[i], p.fired = SIM.end_step()
        tasks.append(sim.Task(i, p.name, body, p))
    by = {t.index: procs[t.index] for t in tasks}

    def on_switch(t):
        if t is not None:
            by[t.index].enter()
    s = sim.Scheduler(tasks, policy or {"switches": []}, on_switch)
    try:
        s.run()
    finally:
        sys.stdout, sys.stderr = saved[0], saved[1]
        sys.argv = saved[2]
        SIM.pid = saved[3]
        REAL["chdir"](saved[4])
        DISK.full = None
        # whatever the processes left open is closed by their end
        for fd in list(DISK.fds):
            try:
                REAL["close"](fd)
            except OSError:
                pass
        DISK.fds.clear()
    for t in tasks:
        if isinstance(t.error, BaseException):
            raise t.error
    return [counts.get(i, {}) for i in range(len(procs))], s


def make_root():
    root = scratch_path(os.getpid() if SIM.pid is None else 0)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + "/tmp")
    os.makedirs(root + "/w")
    DISK.root = root
    tempfile.tempdir = root + "/tmp"
    return root + "/w"


def drop_root():
    root, DISK.root = DISK.root, None
    if root:
        REAL["chdir"]("/")
        shutil.rmtree(root, ignore_errors=True)
