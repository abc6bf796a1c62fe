"""In-memory file system with fault injection.

All file access of the code under test ends here (see seams.py).  A run owns one
`VFS`.  Every operation passes through `VFS.op`, which appends to the operation
log, consults the fault plan, and may
  * raise an OSError (ENOSPC, EIO, EMFILE, EACCES, ...),
  * shorten a read or write (legal, callers must cope),
  * tear a write (part of the data reaches the disk, then the error or crash),
  * kill the process (`SimCrash`): from then on nothing reaches the disk,
  * deliver an interrupt (KeyboardInterrupt).
Paths below `REAL_PREFIXES` that do not exist here are readable from the real
disk (interpreter, libraries, templates); nothing is ever written there.
"""
import errno
import io
import os
import stat as stat_m
import sys

FD_BASE = 100000


class SimCrash(BaseException):
    """the simulated process was killed; raised at the point of the kill and at
    every file operation attempted afterwards by code that is still unwinding."""


class HarnessError(BaseException):
    """the simulator met something it cannot simulate faithfully."""


class Node:
    __slots__ = ("kind", "data", "children", "ino", "mode", "mtime", "nlink", "target", "owner")

    def __init__(self, kind, ino, mode, mtime, owner=None):
        self.kind = kind  # "f", "d", "l"
        self.data = bytearray() if kind == "f" else None
        self.children = {} if kind == "d" else None
        self.ino = ino
        self.mode = mode
        self.mtime = mtime
        self.nlink = 1
        self.target = None
        self.owner = owner


class OpenFile:
    __slots__ = ("node", "pos", "flags", "path", "owner", "fd", "cls", "dirfd", "mutated")

    def __init__(self, node, flags, path, owner, cls):
        self.node = node
        self.pos = 0
        self.flags = flags
        self.path = path
        self.owner = owner
        self.cls = cls
        self.mutated = False


MUTATING = {"create", "trunc", "write", "rename", "unlink", "mkdir", "rmdir", "link", "chmod", "utime", "symlink"}


class VFS:
    def __init__(self, clock, classify=None, cwd="/work", blksize=8192):
        self.clock = clock
        self.cwd = cwd
        self.blksize = blksize
        self.classify = classify or (lambda p: "other")
        self._ino = 1000
        self.root = self._new("d", 0o755)
        self.fds = {}
        self._next_fd = FD_BASE
        self.frozen = False
        self.crashed_at = None
        self.faults = []          # active fault records (dicts)
        self.fired = []           # (kind, err, cls, owner, opindex)
        self.counts = {}          # (kind, cls, owner) -> n
        self.counts_any = {}      # (kind, cls) -> n
        self.oplog = []           # (kind, path, cls, owner)
        self.keep_log = True
        self.nops = 0
        self.trace = None         # callable(kind, path)
        self.owner_fn = lambda: None
        self.path_owner = {}      # top level temp entry -> owner
        self.mutations = []       # (kind, path) for containment checks
        self.capacity = None      # bytes; None: unlimited
        self.used = 0
        self.step_hook = None     # called before each op (crash points etc.)
        self.max_ops = 400000
        self.probes = {}

    # ---- tree ----------------------------------------------------------
    def _new(self, kind, mode, owner=None):
        self._ino += 1
        return Node(kind, self._ino, mode, self.clock.time(), owner)

    def norm(self, path):
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if "\0" in path:
            raise ValueError("embedded null byte")
        if not path.startswith("/"):
            path = self.cwd.rstrip("/") + "/" + path
        return path

    @staticmethod
    def split(path):
        return [c for c in path.split("/") if c not in ("", ".")]

    def walk(self, path, follow=True, depth=0):
        """-> (parent dir node or None, name, node or None, canonical path).

        raises the OSErrors path resolution would raise."""
        if depth > 10:
            raise OSError(errno.ELOOP, os.strerror(errno.ELOOP), path)
        comps = self.split(path)
        cur, stack, names = self.root, [self.root], []
        trailing = path.endswith("/")
        for i, c in enumerate(comps):
            if len(os.fsencode(c)) > 255:
                raise OSError(errno.ENAMETOOLONG, os.strerror(errno.ENAMETOOLONG), path)
            last = i == len(comps) - 1
            if cur.kind != "d":
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
            if c == "..":
                if len(stack) > 1:
                    stack.pop()
                    names.pop()
                cur = stack[-1]
                if last:
                    return (stack[-2] if len(stack) > 1 else None), (names[-1] if names else "/"), cur, "/" + "/".join(names)
                continue
            nxt = cur.children.get(c)
            if nxt is not None and nxt.kind == "l" and (follow or not last):
                tgt = nxt.target
                base = "/" + "/".join(names)
                full = tgt if tgt.startswith("/") else base + "/" + tgt
                rest = comps[i + 1:]
                return self.walk("/".join([full.rstrip("/")] + rest), follow, depth + 1)
            if last:
                if trailing and nxt is not None and nxt.kind != "d":
                    raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
                return cur, c, nxt, "/" + "/".join(names + [c])
            if nxt is None:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            cur = nxt
            stack.append(cur)
            names.append(c)
        return None, "/", self.root, "/"

    def find(self, path, follow=True):
        try:
            return self.walk(self.norm(path), follow)[2]
        except (OSError, ValueError):
            return None

    # ---- set-up helpers (no faults, no log) ----------------------------
    def mkdirs(self, path, owner="setup"):
        cur = self.root
        for c in self.split(path):
            nxt = cur.children.get(c)
            if nxt is None:
                nxt = self._new("d", 0o755, owner)
                cur.children[c] = nxt
            cur = nxt
        return cur

    def put(self, path, data, owner="setup"):
        parts = self.split(path)
        d = self.mkdirs("/" + "/".join(parts[:-1]))
        n = d.children.get(parts[-1])
        if n is None or n.kind != "f":
            n = self._new("f", 0o644, owner)
            d.children[parts[-1]] = n
        n.data = bytearray(data)
        return n

    def put_link(self, path, target):
        parts = self.split(path)
        n = self._new("l", 0o777, "setup")
        n.target = target
        self.mkdirs("/" + "/".join(parts[:-1])).children[parts[-1]] = n

    def get(self, path):
        n = self.find(path)
        return bytes(n.data) if n is not None and n.kind == "f" else None

    def snapshot(self, path="/"):
        """-> {path: bytes or None for directories} of the whole subtree"""
        out = {}
        n = self.find(path)
        if n is None:
            return out

        def rec(p, node):
            if node.kind == "d":
                out[p or "/"] = None
                for name in sorted(node.children):
                    rec(p + "/" + name, node.children[name])
            elif node.kind == "l":
                out[p] = b"->" + node.target.encode()
            else:
                out[p] = bytes(node.data)
        rec("" if path == "/" else path.rstrip("/"), n)
        return out

    # ---- operations and faults -----------------------------------------
    def owner_of(self, path):
        o = self.owner_fn()
        if o is not None:
            return o
        comps = self.split(path)
        if len(comps) >= 2:
            return self.path_owner.get("/" + comps[0] + "/" + comps[1])
        return None

    def op(self, kind, path, size=None, cls=None):
        """account one operation.  Returns None, or ("short", n) / ("torn", n, exc)
        instructions for reads and writes."""
        if self.frozen:
            raise SimCrash("frozen")
        self.nops += 1
        if self.nops > self.max_ops:
            raise HarnessError("operation budget of the run exhausted")
        if cls is None:
            cls = self.classify(path)
        owner = self.owner_of(path)
        if self.keep_log:
            self.oplog.append((kind, path, cls, owner))
        if self.trace is not None:
            self.trace(kind, path)
        if kind in MUTATING:
            self.mutations.append((kind, path))
        k = (kind, cls, owner)
        n = self.counts.get(k, 0) + 1
        self.counts[k] = n
        ka = (kind, cls)
        na = self.counts_any.get(ka, 0) + 1
        self.counts_any[ka] = na
        if not self.faults:
            return None
        for f in self.faults:
            if f["op"] != kind and not (f["op"] == "*"):
                continue
            if f.get("cls") is not None and f["cls"] != cls:
                continue
            if "owner" in f and f["owner"] is not None:
                if f["owner"] != owner:
                    continue
            seen = f["_seen"] = f.get("_seen", 0) + 1
            nth = f["nth"]
            if seen < nth or seen >= nth + f.get("count", 1):
                continue
            return self._fire(f, kind, path, cls, owner, size)
        return None

    def _fire(self, f, kind, path, cls, owner, size):
        err = f["err"]
        if err in ("SHORT",):
            if size is None or size <= 1:
                return None
            self.fired.append((kind, err, cls, owner, self.nops))
            frac = f.get("frac", 0.5)
            return ("short", max(1, min(size - 1, int(size * frac))))
        self.fired.append((kind, err, cls, owner, self.nops))
        if err == "KILL":
            if size is not None and kind == "write":
                return ("torn", int(size * f.get("frac", 0.0)), "KILL")
            if f.get("after"):
                return ("after", "KILL")
            self.kill("%s %s" % (kind, path))
        if err == "INTR":
            if f.get("after"):
                return ("after", "INTR")
            raise KeyboardInterrupt()
        code = getattr(errno, err)
        exc = OSError(code, os.strerror(code), path)
        if size is not None and kind == "write" and f.get("frac", 0.0) > 0:
            return ("torn", int(size * f["frac"]), exc)
        if f.get("after") and kind == "close":
            return ("after", exc)
        raise exc

    def kill(self, where):
        self.frozen = True
        self.crashed_at = where
        raise SimCrash(where)

    def after(self, act):
        """second half of a fault that strikes after the operation took effect"""
        if act is not None and act[0] == "after":
            if act[1] == "KILL":
                self.kill("after")
            if act[1] == "INTR":
                raise KeyboardInterrupt()
            raise act[1]

    # ---- path operations -----------------------------------------------
    def err(self, code, path, path2=None):
        if path2 is not None:
            return OSError(code, os.strerror(code), path, None, path2)
        return OSError(code, os.strerror(code), path)

    def open_fd(self, path, flags, mode=0o777):
        p = self.norm(path)
        if getattr(os, "O_TMPFILE", 0) and (flags & os.O_TMPFILE) == os.O_TMPFILE:
            raise self.err(errno.EOPNOTSUPP, p)
        parent, name, node, canon = self.walk(p, follow=not (flags & os.O_NOFOLLOW))
        acc = flags & os.O_ACCMODE
        created = False
        if node is None:
            if not flags & os.O_CREAT:
                raise self.err(errno.ENOENT, path)
            act = self.op("create", canon)
            node = self._new("f", 0o666 & ~0o022, self.owner_fn())
            parent.children[name] = node
            parent.mtime = self.clock.time()
            created = True
            self.after(act)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise self.err(errno.EEXIST, path)
            if node.kind == "d":
                if acc != os.O_RDONLY:
                    raise self.err(errno.EISDIR, path)
            elif flags & os.O_DIRECTORY:
                raise self.err(errno.ENOTDIR, path)
            act = self.op("open", canon)
            if node.kind == "f" and flags & os.O_TRUNC and acc != os.O_RDONLY:
                act2 = self.op("trunc", canon)
                self.used -= len(node.data)
                del node.data[:]
                node.mtime = self.clock.time()
                self.after(act2)
            self.after(act)
        of = OpenFile(node, flags, canon, self.owner_of(canon), self.classify(canon))
        fd = self._next_fd
        self._next_fd += 1
        of.fd = fd
        self.fds[fd] = of
        return fd

    def of(self, fd):
        f = self.fds.get(fd)
        if f is None:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return f

    def fd_read(self, fd, n):
        of = self.of(fd)
        if of.node.kind == "d":
            raise OSError(errno.EISDIR, os.strerror(errno.EISDIR))
        if of.flags & os.O_ACCMODE == os.O_WRONLY:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        avail = max(0, min(n, len(of.node.data) - of.pos))
        act = self.op("read", of.path, size=avail, cls=of.cls)
        if act is not None and act[0] == "short":
            avail = act[1]
        data = bytes(of.node.data[of.pos:of.pos + avail])
        of.pos += avail
        self.after(act)
        return data

    def fd_write(self, fd, b):
        of = self.of(fd)
        if of.flags & os.O_ACCMODE == os.O_RDONLY:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        n = len(b)
        act = self.op("write", of.path, size=n, cls=of.cls)
        if act is not None and act[0] in ("short", "torn"):
            n = act[1]
        if of.flags & os.O_APPEND:
            of.pos = len(of.node.data)
        end = of.pos + n
        grow = end - len(of.node.data)
        if self.capacity is not None and grow > 0 and self.used + grow > self.capacity:
            room = max(0, self.capacity - self.used)
            self.fired.append(("write", "FULL", of.cls, of.owner, self.nops))
            if room == 0 or act is not None:
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            n = min(n, room)
            end = of.pos + n
            grow = end - len(of.node.data)
        d = of.node.data
        if of.pos > len(d):
            d.extend(b"\0" * (of.pos - len(d)))
        d[of.pos:end] = bytes(b[:n])
        of.pos = end
        if grow > 0:
            self.used += grow
        of.node.mtime = self.clock.time()
        of.mutated = True
        if act is not None and act[0] == "torn":
            if act[2] == "KILL":
                self.kill("torn write %s" % of.path)
            raise act[2]
        self.after(act)
        return n

    def fd_dup(self, fd):
        of = self.of(fd)
        n = self._next_fd
        self._next_fd += 1
        self.fds[n] = of
        return n

    def fd_seek(self, fd, off, whence):
        of = self.of(fd)
        base = 0 if whence == 0 else of.pos if whence == 1 else len(of.node.data)
        if base + off < 0:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        of.pos = base + off
        return of.pos

    def fd_truncate(self, fd, size):
        of = self.of(fd)
        act = self.op("trunc", of.path, cls=of.cls)
        d = of.node.data
        if size < len(d):
            self.used -= len(d) - size
            del d[size:]
        else:
            d.extend(b"\0" * (size - len(d)))
        self.after(act)
        return size

    def fd_close(self, fd):
        of = self.fds.get(fd)
        if of is None:
            if self.frozen:
                return
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        if self.frozen:
            self.fds.pop(fd, None)
            return
        act = None
        try:
            act = self.op("close", of.path, cls=of.cls)
        finally:
            # like Linux, the descriptor is released even if close() reports an error
            self.fds.pop(fd, None)
        self.after(act)

    def st(self, node):
        size = len(node.data) if node.kind == "f" else 4096
        fm = {"f": stat_m.S_IFREG, "d": stat_m.S_IFDIR, "l": stat_m.S_IFLNK}[node.kind]
        nl = node.nlink if node.kind == "f" else 2
        m = node.mtime
        return os.stat_result(
            (fm | node.mode, node.ino, 77, nl, 0, 0, size, int(m), int(m), int(m), m, m, m,
             int(m * 1e9), int(m * 1e9), int(m * 1e9), self.blksize, (size + 511) // 512, 0))

    def stat(self, path, follow=True):
        p = self.norm(path)
        _, _, node, canon = self.walk(p, follow)
        if node is None:
            raise self.err(errno.ENOENT, path)
        self.op("stat", canon)
        return self.st(node)

    def rename(self, src, dst):
        ps, ns, s, cs = self.walk(self.norm(src), follow=False)
        if s is None:
            raise self.err(errno.ENOENT, src, dst)
        pd, nd, d, cd = self.walk(self.norm(dst), follow=False)
        if pd is None or ps is None:
            raise self.err(errno.EBUSY, src, dst)
        if s is d:
            return
        if d is not None:
            if d.kind == "d" and s.kind != "d":
                raise self.err(errno.EISDIR, src, dst)
            if d.kind != "d" and s.kind == "d":
                raise self.err(errno.ENOTDIR, src, dst)
            if d.kind == "d" and d.children:
                raise self.err(errno.ENOTEMPTY, src, dst)
        if s.kind == "d" and (cd + "/").startswith(cs + "/"):
            raise self.err(errno.EINVAL, src, dst)
        act = self.op("rename", cd)
        self.mutations.append(("rename-from", cs))
        del ps.children[ns]
        if d is not None and d.kind == "f":
            d.nlink -= 1
        pd.children[nd] = s
        self.after(act)

    def unlink(self, path):
        parent, name, node, canon = self.walk(self.norm(path), follow=False)
        if node is None:
            raise self.err(errno.ENOENT, path)
        if node.kind == "d":
            raise self.err(errno.EISDIR, path)
        act = self.op("unlink", canon)
        del parent.children[name]
        node.nlink -= 1
        if node.kind == "f" and node.nlink == 0:
            self.used -= len(node.data)
        self.after(act)

    def mkdir(self, path, mode=0o777):
        parent, name, node, canon = self.walk(self.norm(path).rstrip("/") or "/", follow=False)
        if node is not None:
            raise self.err(errno.EEXIST, path)
        act = self.op("mkdir", canon)
        parent.children[name] = self._new("d", mode & ~0o022, self.owner_fn())
        comps = self.split(canon)
        if len(comps) == 2:
            self.path_owner.setdefault(canon, self.owner_fn())
        self.after(act)

    def rmdir(self, path):
        parent, name, node, canon = self.walk(self.norm(path).rstrip("/") or "/", follow=False)
        if node is None:
            raise self.err(errno.ENOENT, path)
        if node.kind != "d":
            raise self.err(errno.ENOTDIR, path)
        if node.children:
            raise self.err(errno.ENOTEMPTY, path)
        act = self.op("rmdir", canon)
        del parent.children[name]
        self.after(act)

    def listdir(self, path):
        _, _, node, canon = self.walk(self.norm(path))
        if node is None:
            raise self.err(errno.ENOENT, path)
        if node.kind != "d":
            raise self.err(errno.ENOTDIR, path)
        self.op("list", canon)
        # readdir order is unspecified: a fixed but non-sorted order
        return sorted(node.children, key=lambda s: (len(s), s[::-1])), node, canon

    def link(self, src, dst):
        _, _, s, cs = self.walk(self.norm(src))
        pd, nd, d, cd = self.walk(self.norm(dst))
        if s is None:
            raise self.err(errno.ENOENT, src, dst)
        if d is not None:
            raise self.err(errno.EEXIST, src, dst)
        act = self.op("link", cd)
        pd.children[nd] = s
        s.nlink += 1
        self.after(act)

    def symlink(self, target, path):
        pd, nd, d, cd = self.walk(self.norm(path), follow=False)
        if d is not None:
            raise self.err(errno.EEXIST, path)
        self.op("symlink", cd)
        n = self._new("l", 0o777)
        n.target = os.fspath(target)
        pd.children[nd] = n

    def readlink(self, path):
        _, _, node, _ = self.walk(self.norm(path), follow=False)
        if node is None:
            raise self.err(errno.ENOENT, path)
        if node.kind != "l":
            raise self.err(errno.EINVAL, path)
        return node.target

    def access(self, path, mode):
        return self.find(path) is not None

    def chmod(self, path, mode):
        _, _, node, canon = self.walk(self.norm(path))
        if node is None:
            raise self.err(errno.ENOENT, path)
        self.op("chmod", canon)
        node.mode = mode & 0o7777

    def utime(self, path):
        _, _, node, canon = self.walk(self.norm(path))
        if node is None:
            raise self.err(errno.ENOENT, path)
        self.op("utime", canon)


class SimRaw(io.RawIOBase):
    """unbuffered file object over a simulated descriptor (stands in for FileIO)"""

    def __init__(self, vfs, fd, name, mode, closefd=True):
        self._vfs = vfs
        self._fd = fd
        self.name = name
        self._mode = mode
        self._closefd = closefd
        self._blksize = vfs.blksize

    @property
    def mode(self):
        return self._mode

    @property
    def closefd(self):
        return self._closefd

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def fileno(self):
        self._chk()
        return self._fd

    def isatty(self):
        return False

    def readable(self):
        self._chk()
        return "r" in self._mode or "+" in self._mode

    def writable(self):
        self._chk()
        return any(c in self._mode for c in "wax+")

    def seekable(self):
        self._chk()
        return True

    def readinto(self, b):
        self._chk()
        if not self.readable():
            raise io.UnsupportedOperation("not readable")
        mv = memoryview(b).cast("B")
        data = self._vfs.fd_read(self._fd, len(mv))
        mv[: len(data)] = data
        return len(data)

    def readall(self):
        self._chk()
        if not self.readable():
            raise io.UnsupportedOperation("not readable")
        out = []
        while True:
            d = self._vfs.fd_read(self._fd, max(self._blksize, 65536))
            if not d:
                return b"".join(out)
            out.append(d)

    def write(self, b):
        self._chk()
        if not self.writable():
            raise io.UnsupportedOperation("not writable")
        return self._vfs.fd_write(self._fd, memoryview(b).cast("B"))

    def seek(self, off, whence=0):
        self._chk()
        return self._vfs.fd_seek(self._fd, off, whence)

    def tell(self):
        self._chk()
        return self._vfs.of(self._fd).pos

    def truncate(self, size=None):
        self._chk()
        if size is None:
            size = self.tell()
        return self._vfs.fd_truncate(self._fd, size)

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._closefd:
                self._vfs.fd_close(self._fd)


def sim_open(vfs, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    """io.open over the VFS (`file`: path, or simulated descriptor)"""
    modes = set(mode)
    if modes - set("axrwb+tU") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    creating, reading, writing, appending = "x" in modes, "r" in modes, "w" in modes, "a" in modes
    updating, text, binary = "+" in modes, "t" in modes, "b" in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if isinstance(file, int):
        fd = file
        vfs.of(fd)
    else:
        flags = os.O_CLOEXEC
        if updating:
            flags |= os.O_RDWR
        elif reading:
            flags |= os.O_RDONLY
        else:
            flags |= os.O_WRONLY
        if writing:
            flags |= os.O_CREAT | os.O_TRUNC
        if appending:
            flags |= os.O_CREAT | os.O_APPEND
        if creating:
            flags |= os.O_CREAT | os.O_EXCL
        if opener is not None:
            fd = opener(file, flags)
        else:
            fd = vfs.open_fd(os.fspath(file), flags, 0o666)
            if vfs.fds[fd].node.kind == "d":
                vfs.fds.pop(fd)
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
    rawmode = ("x" if creating else "r" if reading else "w" if writing else "a") + ("b") + ("+" if updating else "")
    raw = SimRaw(vfs, fd, file, rawmode, closefd)
    if appending:
        vfs.fd_seek(fd, 0, 2)
    res = raw
    try:
        line = False
        if buffering == 1 and text or (buffering == 1 and not binary):
            buffering, line = -1, True
        if buffering < 0:
            buffering = vfs.blksize
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        if updating:
            buf = io.BufferedRandom(raw, buffering)
        elif reading:
            buf = io.BufferedReader(raw, buffering)
        else:
            buf = io.BufferedWriter(raw, buffering)
        res = buf
        if binary:
            return buf
        enc = encoding if encoding is not None else "utf-8"
        txt = io.TextIOWrapper(buf, enc, errors, newline, line)
        res = txt
        txt.mode = mode
        return txt
    except BaseException:
        res.close()
        raise
