"""Installs the seams: file system, clocks, randomness, temporary names, threads.

`install()` is called once per process, before lxml, quart, gcgen, loguru or the
code under test are imported.  While `CTX.vfs` is None everything goes to the real
system (needed to import libraries); while a run is active every path goes to the
run's VFS, with read-only fall-through to the real disk below REAL_PREFIXES.
"""
import builtins
import errno
import io
import os
import sys
import time as _time
import _io

from .vfs import FD_BASE, HarnessError, SimRaw, VFS, sim_open

REPO = os.environ.get("SPEX_SIM_REPO", "/repo")
REAL_PREFIXES = tuple(sorted({
    "/usr/lib", "/usr/share", "/usr/local/lib", "/lib", "/opt/venv", sys.prefix, sys.base_prefix + "/lib",
    REPO + "/src", "/verif/sim", os.path.dirname(os.path.abspath(__file__)),
}))


class Ctx:
    vfs = None
    clock = None
    rnd = None          # random.Random for urandom/temp names of the current run
    escapes = None
    installed = False


CTX = Ctx()
REAL = {}


class Clock:
    """simulated time; advances only when the simulator says so (plus an
    invisible tick per reading so that readings are strictly increasing)"""

    def __init__(self, start=1_700_000_000.0):
        self.now = 0.0
        self.start = start
        self.mono0 = 1000.0
        self.skew = 0.0
        self.ticks = 0

    def time(self):
        return self.start + self.now + self.skew

    def monotonic(self):
        return self.mono0 + self.now


def is_real(path):
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    for p in REAL_PREFIXES:
        if path == p or path.startswith(p + "/"):
            return True
    return False


def _route(path, follow=True):
    """-> True if the VFS handles `path` (always when a run is active, except reads
    of real files below REAL_PREFIXES)"""
    v = CTX.vfs
    if v is None:
        return False
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p.startswith("/") and is_real(p) and "\0" not in p:
        return v.find(p, follow) is not None
    if not p.startswith("/"):
        full = v.cwd + "/" + p
        if is_real(os.path.normpath(full)):
            return v.find(full, follow) is not None
    return True


def _sim_fd(fd):
    return isinstance(fd, int) and not isinstance(fd, bool) and fd >= FD_BASE


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    v = CTX.vfs
    if v is None:
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if _sim_fd(file):
            return sim_open(v, file, mode, buffering, encoding, errors, newline, closefd, opener)
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    os.fspath(file)
    if opener is None and not any(c in mode for c in "wax+") and not _route(file):
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    return sim_open(v, file, mode, buffering, encoding, errors, newline, closefd, opener)


def _mk(name, simfn, follow=True, mutating=False, fdarg=False):
    real = getattr(os, name)
    REAL[name] = real

    def f(path=".", *a, **kw):
        v = CTX.vfs
        if v is None:
            return real(path, *a, **kw)
        if isinstance(path, int) and not isinstance(path, bool):
            if not _sim_fd(path):
                if mutating:
                    raise HarnessError("os.%s on a real descriptor" % name)
                return real(path, *a, **kw)
            return fdarg(v, path, *a, **kw)
        if kw.get("dir_fd") is not None:
            raise HarnessError("dir_fd is not simulated (os.%s)" % name)
        kw.pop("dir_fd", None)
        if not mutating and not _route(path, follow and kw.get("follow_symlinks", True)):
            return real(path, *a, **kw)
        return simfn(v, os.fspath(path), *a, **kw)
    f.__name__ = name
    setattr(os, name, f)
    import posix
    if hasattr(posix, name):
        setattr(posix, name, f)
    return f


class SimDirEntry:
    __slots__ = ("name", "path", "_v", "_node")

    def __init__(self, v, name, path, node):
        self.name, self.path, self._v, self._node = name, path, v, node

    def _n(self, follow):
        if follow and self._node.kind == "l":
            return self._v.find(self.path)
        return self._node

    def is_dir(self, *, follow_symlinks=True):
        n = self._n(follow_symlinks)
        return n is not None and n.kind == "d"

    def is_file(self, *, follow_symlinks=True):
        n = self._n(follow_symlinks)
        return n is not None and n.kind == "f"

    def is_symlink(self):
        return self._node.kind == "l"

    def is_junction(self):
        return False

    def inode(self):
        return self._node.ino

    def stat(self, *, follow_symlinks=True):
        return self._v.st(self._n(follow_symlinks))

    def __fspath__(self):
        return self.path


class SimScandir:
    def __init__(self, it):
        self._it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def _scandir(v, path="."):
    names, node, canon = v.listdir(path)
    return SimScandir([SimDirEntry(v, n, os.path.join(path, n), node.children[n]) for n in names])


def _install_os():
    def s_open(v, path, flags, mode=0o777):
        return v.open_fd(path, flags, mode)
    real_open = os.open
    REAL["os.open"] = real_open

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        v = CTX.vfs
        if v is None:
            return real_open(path, flags, mode, dir_fd=dir_fd)
        if dir_fd is not None:
            raise HarnessError("dir_fd is not simulated (os.open)")
        wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        if not wr and not _route(path):
            return real_open(path, flags, mode)
        return v.open_fd(os.fspath(path), flags, mode)
    os.open = os_open

    def wrap_fd(name, fn):
        real = getattr(os, name)
        REAL[name] = real

        def f(fd, *a, **kw):
            if CTX.vfs is not None and _sim_fd(fd):
                return fn(CTX.vfs, fd, *a, **kw)
            if fd.__class__ is int and fd >= FD_BASE:
                raise OSError(errno.EBADF, os.strerror(errno.EBADF))
            return real(fd, *a, **kw)
        f.__name__ = name
        setattr(os, name, f)
    wrap_fd("read", lambda v, fd, n: v.fd_read(fd, n))
    wrap_fd("write", lambda v, fd, b: v.fd_write(fd, memoryview(b).cast("B")))
    wrap_fd("close", lambda v, fd: v.fd_close(fd))
    wrap_fd("lseek", lambda v, fd, o, w: v.fd_seek(fd, o, w))
    wrap_fd("fstat", lambda v, fd: v.st(v.of(fd).node))
    wrap_fd("ftruncate", lambda v, fd, n: v.fd_truncate(fd, n))
    wrap_fd("fsync", lambda v, fd: v.op("fsync", v.of(fd).path))
    wrap_fd("fdatasync", lambda v, fd: v.op("fsync", v.of(fd).path))
    wrap_fd("isatty", lambda v, fd: False)
    wrap_fd("fchmod", lambda v, fd, m: None)
    wrap_fd("get_inheritable", lambda v, fd: False)
    wrap_fd("set_inheritable", lambda v, fd, i: None)
    wrap_fd("dup", lambda v, fd: v.fd_dup(fd))

    def at(v, fd, off, fn):
        of = v.of(fd)
        pos, of.pos = of.pos, off
        try:
            return fn()
        finally:
            of.pos = pos

    def readinto(v, fd, bufs):
        n = 0
        for b in bufs:
            b = memoryview(b).cast("B")
            d = v.fd_read(fd, len(b))
            b[:len(d)] = d
            n += len(d)
            if len(d) < len(b):
                break
        return n

    def copy(v, out, src, n):
        d = v.fd_read(src, n)
        return v.fd_write(out, memoryview(d)) if d else 0
    wrap_fd("pread", lambda v, fd, n, off: at(v, fd, off, lambda: v.fd_read(fd, n)))
    wrap_fd("pwrite", lambda v, fd, b, off: at(v, fd, off, lambda: v.fd_write(fd, memoryview(b).cast("B"))))
    wrap_fd("readv", lambda v, fd, bufs: readinto(v, fd, bufs))
    wrap_fd("writev", lambda v, fd, bufs: v.fd_write(fd, memoryview(b"".join(bufs))))
    wrap_fd("sendfile", lambda v, out, src, offset, count, **k: copy(v, out, src, count) if offset is None else at(
        v, src, offset, lambda: copy(v, out, src, count)))
    wrap_fd("copy_file_range", lambda v, src, out, count, *a: copy(v, out, src, count))

    def fdstat(v, fd, *a, **kw):
        return v.st(v.of(fd).node)
    _mk("stat", lambda v, p, follow_symlinks=True: v.stat(p, follow_symlinks), fdarg=fdstat)
    _mk("lstat", lambda v, p: v.stat(p, False), follow=False)
    _mk("listdir", lambda v, p=".": list(v.listdir(p)[0]))
    _mk("scandir", _scandir)
    _mk("readlink", lambda v, p: v.readlink(p), follow=False)
    _mk("access", lambda v, p, m, **k: v.access(p, m))
    _mk("mkdir", lambda v, p, mode=0o777: v.mkdir(p, mode), mutating=True)
    _mk("rmdir", lambda v, p: v.rmdir(p), mutating=True)
    _mk("unlink", lambda v, p: v.unlink(p), mutating=True)
    _mk("remove", lambda v, p: v.unlink(p), mutating=True)
    for nm in ("rename", "replace"):
        REAL[nm] = getattr(os, nm)

        def ren(src, dst, *, src_dir_fd=None, dst_dir_fd=None, _real=REAL[nm]):
            v = CTX.vfs
            if v is None:
                return _real(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
            if src_dir_fd is not None or dst_dir_fd is not None:
                raise HarnessError("dir_fd is not simulated (os.rename)")
            return v.rename(os.fspath(src), os.fspath(dst))
        ren.__name__ = nm
        setattr(os, nm, ren)
        import posix
        setattr(posix, nm, ren)
    _mk("link", lambda v, p, q, **k: v.link(p, os.fspath(q)), mutating=True)
    _mk("symlink", lambda v, p, q, target_is_directory=False: v.symlink(p, os.fspath(q)), mutating=True)
    _mk("chmod", lambda v, p, m, follow_symlinks=True: v.chmod(p, m), mutating=True,
        fdarg=lambda v, fd, m, **k: None)
    _mk("utime", lambda v, p, *a, **k: v.utime(p), mutating=True, fdarg=lambda v, fd, *a, **k: None)
    _mk("chown", lambda v, p, *a, **k: None, mutating=True, fdarg=lambda v, fd, *a, **k: None)
    _mk("truncate", lambda v, p, n: _trunc(v, p, n), mutating=True, fdarg=lambda v, fd, n: v.fd_truncate(fd, n))
    _mk("chdir", lambda v, p: _chdir(v, p), mutating=True)

    def _trunc(v, p, n):
        fd = v.open_fd(p, os.O_WRONLY)
        try:
            v.fd_truncate(fd, n)
        finally:
            v.fd_close(fd)

    def _chdir(v, p):
        _, _, node, canon = v.walk(v.norm(p))
        if node is None or node.kind != "d":
            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        v.cwd = canon
    real_getcwd = os.getcwd
    os.getcwd = lambda: CTX.vfs.cwd if CTX.vfs is not None else real_getcwd()
    os.getcwdb = lambda: os.fsencode(os.getcwd())

    for n in ("lchown", "mkfifo", "mknod", "chroot", "fchdir", "removexattr", "setxattr",
              "fork", "forkpty", "execv", "execve", "posix_spawn", "posix_spawnp", "system", "kill", "killpg",
              "pwritev", "preadv", "memfd_create", "dup2", "openpty", "pipe2"):
        real = getattr(os, n, None)
        if real is None:
            continue

        def g(*a, _real=real, _n=n, **k):
            if CTX.vfs is not None:
                raise HarnessError("os.%s is not simulated" % _n)
            return _real(*a, **k)
        setattr(os, n, g)
    os.sync = lambda: None

    real_urandom = os.urandom
    REAL["urandom"] = real_urandom

    def urandom(n):
        if CTX.vfs is not None and CTX.rnd is not None:
            return CTX.rnd.randbytes(n)
        return real_urandom(n)
    os.urandom = urandom
    import random
    random._urandom = urandom


def _install_time():
    for name, fn in {
        "time": lambda: CTX.clock.time(),
        "time_ns": lambda: int(CTX.clock.time() * 1e9),
        "monotonic": lambda: CTX.clock.monotonic(),
        "monotonic_ns": lambda: int(CTX.clock.monotonic() * 1e9),
        "perf_counter": lambda: CTX.clock.monotonic(),
        "perf_counter_ns": lambda: int(CTX.clock.monotonic() * 1e9),
        "process_time": lambda: CTX.clock.now,
    }.items():
        real = getattr(_time, name)
        REAL["time." + name] = real

        def f(_fn=fn, _real=real):
            return _fn() if CTX.clock is not None else _real()
        f.__name__ = name
        setattr(_time, name, f)

    real_sleep = _time.sleep

    def sleep(s):
        if CTX.clock is not None:
            CTX.clock.now += max(0.0, s)
            return
        real_sleep(s)
    _time.sleep = sleep
    for name in ("localtime", "gmtime", "ctime"):
        real = getattr(_time, name)

        def f2(secs=None, _real=real):
            if secs is None and CTX.clock is not None:
                secs = CTX.clock.time()
            return _real(secs)
        f2.__name__ = name
        setattr(_time, name, f2)
    real_strftime = _time.strftime

    def strftime(fmt, t=None):
        return real_strftime(fmt, _time.localtime() if t is None else t)
    _time.strftime = strftime


def _install_datetime():
    import datetime as dtm
    rdt, rd = dtm.datetime, dtm.date

    class MetaDT(type(rdt)):
        def __instancecheck__(cls, o):
            return isinstance(o, rdt)

        def __subclasscheck__(cls, c):
            return issubclass(c, rdt)

    class datetime(rdt, metaclass=MetaDT):
        @classmethod
        def now(cls, tz=None):
            if CTX.clock is None:
                return rdt.now(tz)
            return rdt.fromtimestamp(CTX.clock.time(), tz)

        @classmethod
        def utcnow(cls):
            if CTX.clock is None:
                return rdt.utcnow()
            return rdt.fromtimestamp(CTX.clock.time(), dtm.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    class MetaD(type(rd)):
        def __instancecheck__(cls, o):
            return isinstance(o, rd)

        def __subclasscheck__(cls, c):
            return issubclass(c, rd)

    class date(rd, metaclass=MetaD):
        @classmethod
        def today(cls):
            if CTX.clock is None:
                return rd.today()
            return rd.fromtimestamp(CTX.clock.time())
    return {"datetime": datetime, "date": date}


class TempNames:
    """deterministic stand-in for tempfile's random name generator"""
    chars = "abcdefghijklmnopqrstuvwxyz0123456789_"
    issued = set()

    def __iter__(self):
        return self

    def __next__(self):
        r = CTX.rnd
        if r is None:
            import random
            r = random.Random()
        n = "".join(r.choice(self.chars) for _ in range(8))
        self.issued.add(n)
        return n


def _install_misc():
    import tempfile
    import shutil
    tempfile._get_candidate_names = lambda: _names
    global _names
    _names = TempNames()
    tempfile._RandomNameSequence = TempNames
    real_gettempdir = tempfile._gettempdir

    def gettempdir():
        return "/tmp" if CTX.vfs is not None else real_gettempdir()
    tempfile._gettempdir = gettempdir
    tempfile._O_TMPFILE_WORKS = False
    shutil._use_fd_functions = False
    shutil.rmtree.avoids_symlink_attacks = False
    shutil._USE_CP_SENDFILE = False
    # fcntl locks on simulated descriptors: single process, always granted
    import fcntl
    for n in ("flock", "lockf", "fcntl"):
        real = getattr(fcntl, n)

        def f(fd, *a, _real=real, **k):
            if hasattr(fd, "fileno"):
                fd = fd.fileno()
            if _sim_fd(fd):
                return 0
            return _real(fd, *a, **k)
        setattr(fcntl, n, f)
    import mmap
    real_mmap = mmap.mmap

    def sim_mmap(fileno, length, *a, **k):
        if _sim_fd(fileno):
            raise HarnessError("mmap is not simulated")
        return real_mmap(fileno, length, *a, **k)
    mmap.mmap = sim_mmap


def _install_lxml():
    from lxml import etree

    def wrap(name):
        real = getattr(etree, name)

        def f(source, *a, **kw):
            if CTX.vfs is not None and isinstance(source, (str, bytes, os.PathLike)):
                p = os.fspath(source)
                if isinstance(p, bytes):
                    p = os.fsdecode(p)
                if "://" not in p[:9]:
                    if name == "parse":
                        with _open(p, "rb") as fh:
                            data = fh.read()
                        kw.setdefault("base_url", p)
                        return parse(io.BytesIO(data), *a, **kw)
                    with _open(p, "rb") as fh:
                        data = fh.read()
                    return real(io.BytesIO(data), *a, **kw)
            return (parse if name == "parse" else real)(source, *a, **kw)
        f.__name__ = name
        setattr(etree, name, f)

    # external entities and the like come from the simulated disk as well
    class Resolver(etree.Resolver):
        def resolve(self, url, pubid, context):
            if CTX.vfs is None:
                return None
            from urllib.parse import unquote, urlsplit
            u = urlsplit(url or "")
            if u.scheme not in ("", "file") or not u.path:
                raise failed(url)
            try:
                with _open(unquote(u.path), "rb") as fh:
                    data = fh.read()
            except (OSError, ValueError):
                raise failed(url) from None
            return self.resolve_string(data, context)

    def failed(url):
        return etree.XMLSyntaxError(
            "failed to load external entity %r" % (url,), 1522, 1, 1)
    resolver = Resolver()
    DefaultParser = etree.XMLParser

    def resolving(real):
        def f(source, parser=None, **kw):
            if CTX.vfs is None:
                return real(source, parser, **kw)
            if parser is None:
                parser = DefaultParser()
            parser.resolvers.add(resolver)
            return real(source, parser, **kw)
        f.__name__ = real.__name__
        return f
    parse = resolving(etree.parse)
    wrap("parse")
    wrap("iterparse")
    etree.fromstring = resolving(etree.fromstring)
    etree.XML = resolving(etree.XML)

    real_et = etree.ElementTree

    def ElementTree(element=None, *, file=None, parser=None):
        if file is not None:
            return etree.parse(file, parser)
        return real_et(element)
    etree.ElementTree = ElementTree


def _audit(event, args):
    """last line of defence: while a run is active nothing may reach the real system"""
    if CTX.vfs is None:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, (str, bytes)) and flags is not None and isinstance(flags, int):
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                raise HarnessError("real file opened for writing: %r" % (path,))
    elif event in _FORBID:
        raise HarnessError("unsimulated system call: %s %r" % (event, args[:2]))


_FORBID = {
    "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.truncate", "os.link", "os.symlink", "os.chmod",
    "os.chown", "os.utime", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn",
    "subprocess.Popen", "shutil.rmtree.real", "socket.connect", "socket.bind", "os.kill", "os.setxattr",
}


def install():
    if CTX.installed:
        return
    CTX.installed = True
    REAL["open"] = io.open
    _install_os()
    _install_time()
    builtins.open = _open
    io.open = _open
    _io.open = _open
    real_fileio = io.FileIO

    class FileIO(real_fileio):
        def __new__(cls, file, mode="r", closefd=True, opener=None):
            if CTX.vfs is None:
                return real_fileio(file, mode, closefd, opener)
            return _open(file, mode.replace("b", "") + "b", 0, closefd=closefd, opener=opener)
    io.FileIO = FileIO
    _install_misc()
    import datetime
    _dt = _install_datetime()
    import importlib
    # third-party libraries first, with the real clock classes
    for m in ("lxml.etree", "lxml", "jsonschema", "gcgen.api", "loguru", "werkzeug", "quart", "aiofiles",
              "jinja2", "hypercorn.typing", "zipfile", "importlib.resources", "asyncio", "logging", "argparse",
              "textwrap", "email", "http", "mimetypes", "aiofiles.tempfile", "werkzeug.formparser",
              "concurrent.futures", "concurrent.futures.thread", "quart.wrappers.response", "uuid", "secrets"):
        importlib.import_module(m)
    import mimetypes
    mimetypes.init()
    _install_lxml()
    for k, v in _dt.items():
        setattr(datetime, k, v)
    # libraries which bound names of the patched functions at import time
    import aiofiles.threadpool as tp
    tp.sync_open = _open
    import aiofiles.os  # noqa: F401
    import aiofiles.ospath  # noqa: F401
    import gcgen.api.write_file as wf
    if hasattr(wf, "os_rename"):
        wf.os_rename = os.rename
    sys.addaudithook(_audit)
