"""A model of the file system calls a store may use: one directory, crash, failure and interleaving at every step.

Writes are buffered until flush / close, as Python's files do; truncation, creation, links, renames and unlinks take effect at
once.  A crash while flushing leaves nothing or a torn prefix.  flock is modelled per inode.
"""
import errno
import io
import os as _os
import pathlib
import posixpath
import stat as _stat

from symx import symstr
from symx.engine import PathAbort, Unsupported
from symx.values import Eq

ROOT = "/scratch/store"
CUR = [None]


class Crash(BaseException):
    """The process ends here."""


class Torn:
    """An incomplete piece of a dump."""

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


class Inode:
    def __init__(self, fs):
        fs.clock += 1
        self.pieces = []
        self.ctime = fs.clock
        self.ino = fs.clock
        self.locks = []


class Stat:
    def __init__(self, ino, size, ctime, is_dir):
        self.st_ino, self.st_size, self.st_dev, self.st_nlink = ino, size, 1, 1
        self.st_ctime = self.st_mtime = self.st_atime = float(ctime)
        self.st_ctime_ns = self.st_mtime_ns = self.st_atime_ns = ctime * 10**9
        self.st_mode = (_stat.S_IFDIR if is_dir else _stat.S_IFREG) | 0o700
        self.st_uid = self.st_gid = 0


class FS:
    def __init__(self, ctx):
        self.ctx = ctx
        self.files = {}  # path -> Inode
        self.dirs = set()
        self.clock = 0
        self.steps = 0
        self.crash_at = self.fail_at = self.other_at = None
        self.other = None
        self.dead = False
        self.inside = False
        self.fired = False
        self.torn = "torn"
        self.fds = {}
        self.err = errno.ENOSPC

    # -- steps
    def tick(self):
        if self.dead:
            raise Crash()
        if self.inside:
            return
        self.steps += 1
        if self.other_at is not None and self.steps == self.other_at:
            self.inside = True
            self.fired = True
            try:
                self.other()
            finally:
                self.inside = False
        if self.fail_at is not None and self.steps == self.fail_at:
            self.fired = True
            raise OSError(self.err, _os.strerror(self.err))
        if self.crash_at is not None and self.steps == self.crash_at:
            self.fired = True
            self.dead = True
            raise Crash()

    def reboot(self):
        self.dead = False
        self.crash_at = self.fail_at = self.other_at = None
        for i in self.files.values():
            i.locks = []

    # -- names
    def key(self, p):
        s = _os.fspath(p)
        if isinstance(s, bytes):
            s = s.decode()
        if symstr.has_tokens(s):
            head = ROOT + "/"
            if not s.startswith(head) or symstr.has_tokens(head):
                raise Unsupported("path " + repr(s))
            name = symstr.untoken(s[len(head):])
            for c in name:
                self.ctx.check(c != "/", "a task id reaches a file outside the store directory")
                self.ctx.check(c != "\0", "a task id with a NUL character reaches the file system")
                self.ctx.check(c != "\\", "a task id reaches a file outside the store directory (windows separator)")
                self.ctx.check(c != ":", "a task id reaches a file outside the store directory (windows drive or stream)")
            self.ctx.check(name != "." and name != "..", "a task id reaches a file outside the store directory")
            return s
        if "\0" in s:
            self.ctx.check(False, "a task id with a NUL character reaches the file system")
        n = posixpath.normpath(s)
        rel = n[len(ROOT) + 1:]
        self.ctx.check(n == ROOT or n.startswith(ROOT + "/"), "a task id reaches a file outside the store directory")
        self.ctx.check(s.startswith(ROOT) and ".." not in s[len(ROOT):].split("/"), "a task id reaches a file outside the store directory")
        self.ctx.check("\\" not in rel and ":" not in rel, "a task id reaches a file outside the store directory (windows separator)")
        self.ctx.check("/" not in rel, "a task id reaches a file outside the store directory (sub-directory)")
        return n

    def find(self, k):
        """The existing key equal to k or None."""
        if not symstr.has_tokens(k):
            if k in self.files:
                return k
            for e in self.files:
                if symstr.has_tokens(e) and symstr.untoken(e) == k:
                    return e
            return None
        name = symstr.untoken(k)
        for e in list(self.files):
            if symstr.untoken(e) == name:
                return e
        return None

    def node(self, p, follow=True):
        k = self.find(self.key(p))
        if k is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(p))
        return k, self.files[k]

    def isdir(self, p):
        return self.key(p) in self.dirs

    def need_dir(self):
        if ROOT not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", ROOT)

    # -- operations
    def exists(self, p):
        self.tick()
        return self.isdir(p) or self.find(self.key(p)) is not None

    def isfile(self, p):
        self.tick()
        return self.find(self.key(p)) is not None

    def is_dir(self, p):
        self.tick()
        return self.isdir(p)

    def mkdir(self, p, exist_ok=False):
        self.tick()
        k = self.key(p)
        if k in self.dirs and not exist_ok:
            raise FileExistsError(errno.EEXIST, "File exists")
        self.dirs.add(k)

    def unlink(self, p, missing_ok=False):
        self.tick()
        try:
            k, _ = self.node(p)
        except FileNotFoundError:
            if missing_ok:
                return
            raise
        del self.files[k]

    def rename(self, a, b):
        self.tick()
        k, i = self.node(a)
        kb = self.key(b)
        old = self.find(kb)
        if old is not None and old != k:
            del self.files[old]
        if old != k:
            del self.files[k]
        self.clock += 1
        i.ctime = self.clock
        self.files[old or kb] = i

    def link(self, a, b):
        self.tick()
        _, i = self.node(a)
        if self.find(self.key(b)) is not None:
            raise FileExistsError(errno.EEXIST, "File exists")
        self.files[self.key(b)] = i

    def stat(self, p):
        self.tick()
        if self.isdir(p):
            return Stat(1, 0, 0, True)
        return self.istat(self.node(p)[1])

    def istat(self, i):
        return Stat(i.ino, sum(len(x) for x in i.pieces), i.ctime, False)

    def listing(self, p):
        self.tick()
        if not self.isdir(p):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(p))
        return [Entry(self, f) for f in list(self.files)]

    def open(self, p, mode="r", *a, **kw):
        self.tick()
        m = mode.replace("b", "").replace("t", "")
        if "b" not in mode and m not in ("a", "w", "w+", "a+", "r"):
            raise Unsupported("text mode")
        k = self.key(p)
        self.need_dir()
        if self.isdir(p):
            raise IsADirectoryError(errno.EISDIR, "Is a directory")
        e = self.find(k)
        if m[0] == "x" and e is not None:
            raise FileExistsError(errno.EEXIST, "File exists", str(p))
        if m[0] == "r" and e is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(p))
        if e is None:
            self.files[k] = Inode(self)
            e = k
        i = self.files[e]
        if m[0] == "w" and i.pieces:
            i.pieces = []
        return File(self, i, m, p)


class Entry:
    def __init__(self, fs, path):
        self.fs, self.path = fs, path
        self.name = path.rsplit("/", 1)[1]

    def is_file(self, **k):
        return True

    def is_dir(self, **k):
        return False

    def is_symlink(self):
        return False

    def inode(self):
        return self.fs.node(self.path)[1].ino

    def stat(self, **k):
        return self.fs.stat(self.path)

    def __fspath__(self):
        return self.path


class Scan:
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class File:
    def __init__(self, fs, inode, mode, path):
        self.fs, self.i, self.mode, self.name = fs, inode, mode, str(path)
        self.pos = 0
        self.buf = []
        self.closed = False
        self.fd = 1000 + len(fs.fds)
        fs.fds[self.fd] = self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def fileno(self):
        return self.fd

    def readable(self):
        return self.mode[0] == "r" or "+" in self.mode

    def size(self):
        return sum(len(x) for x in self.i.pieces)

    def read(self, n=-1):
        if not self.readable():
            raise io.UnsupportedOperation("not readable")
        self.flush()
        self.fs.tick()
        if n not in (-1, None) or self.pos:
            raise Unsupported("partial read")
        self.pos = self.size()
        ps = self.i.pieces
        if all(isinstance(x, (bytes, bytearray)) for x in ps):
            return b"".join(ps)
        # a complete dump first: what follows is ignored when loading
        return ps[0]

    def write(self, data):
        if self.closed:
            raise ValueError("write to closed file")
        if self.mode == "r":
            raise io.UnsupportedOperation("not writable")
        self.buf.append(data)
        return len(data)

    def truncate(self, size=None):
        self.flush()
        self.fs.tick()
        size = self.pos if size is None else size
        if size == 0:
            self.i.pieces = []
        elif size != self.size():
            raise Unsupported("truncation")
        return size

    def seek(self, off, whence=0):
        self.flush()
        if whence == 0:
            self.pos = off
        elif whence == 2 and off == 0:
            self.pos = self.size()
        else:
            raise Unsupported("seek")
        return self.pos

    def tell(self):
        return self.pos + sum(len(x) for x in self.buf)

    def put(self, data):
        i = self.i
        total = self.size()
        if self.mode[0] == "a" or self.pos == total:
            i.pieces = i.pieces + [data]
            self.pos = total + len(data)
        elif self.pos == 0:
            rest = total - len(data)
            if all(isinstance(x, (bytes, bytearray)) for x in i.pieces + [data]):
                i.pieces = [bytes(data) + b"".join(i.pieces)[len(data):]]
            else:
                i.pieces = [data] + ([Torn(rest)] if rest > 0 else [])
            self.pos = len(data)
        else:
            raise Unsupported("write in the middle")
        self.fs.clock += 1
        i.ctime = self.fs.clock

    def flush(self):
        buf, self.buf = self.buf, []
        for data in buf:
            try:
                self.fs.tick()
            except (Crash, OSError):
                if not (self.fs.dead and self.fs.steps != self.fs.crash_at) and self.fs.torn == "torn" and len(data):
                    if isinstance(data, (bytes, bytearray)):
                        self.put(bytes(data[: len(data) // 2]))
                    else:
                        self.put(Torn(len(data) // 2))
                raise
            self.put(data)

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            self.flush()
        finally:
            self.i.locks = [x for x in self.i.locks if x[0] is not self]


def lock(f, flags):
    """flock: per open file, shared or exclusive."""
    fs = CUR[0]
    if isinstance(f, int):
        f = fs.fds[f]
    fs.tick()
    import fcntl

    kind = "ex" if flags & fcntl.LOCK_EX else "sh"
    others = [x for x in f.i.locks if x[0] is not f]
    if any(kind == "ex" or k == "ex" for _, k in others):
        if flags & fcntl.LOCK_NB:
            return False
        if fs.inside:
            raise PathAbort("the other process waits here: this interleaving does not exist")
        fs.ctx.check(False, "the store blocks on a lock it holds itself")
    f.i.locks = others + [(f, kind)]
    return True


def unlock(f):
    fs = CUR[0]
    if isinstance(f, int):
        f = fs.fds[f]
    f.i.locks = [x for x in f.i.locks if x[0] is not f]
    return True


class FakePath(pathlib.PurePosixPath):
    def open(self, mode="r", *a, **kw):
        return CUR[0].open(self, mode)

    def exists(self, **k):
        return CUR[0].exists(self)

    def is_file(self, **k):
        return CUR[0].isfile(self)

    def is_dir(self, **k):
        return CUR[0].is_dir(self)

    def is_symlink(self):
        return False

    def unlink(self, missing_ok=False):
        CUR[0].unlink(self, missing_ok)

    def read_bytes(self):
        with self.open("rb") as f:
            return f.read()

    def write_bytes(self, data):
        with self.open("wb") as f:
            return f.write(data)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        CUR[0].mkdir(self, exist_ok)

    def stat(self, **k):
        return CUR[0].stat(self)

    def lstat(self):
        return CUR[0].stat(self)

    def touch(self, mode=0o666, exist_ok=True):
        CUR[0].open(self, "ab" if exist_ok else "xb").close()

    def rename(self, target):
        CUR[0].rename(self, target)
        return FakePath(target)

    replace = rename

    def hardlink_to(self, target):
        CUR[0].link(target, self)

    def iterdir(self):
        return iter([FakePath(e.path) for e in CUR[0].listing(self)])

    def glob(self, pattern):
        import fnmatch
        import re

        if "/" in pattern or "**" in pattern:
            raise Unsupported("glob pattern")
        m = re.compile(fnmatch.translate(pattern)).match
        return iter([FakePath(e.path) for e in CUR[0].listing(self) if m(e.name)])

    def resolve(self, strict=False):
        return FakePath(posixpath.normpath(str(self)))

    def absolute(self):
        return self

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        if hasattr(pathlib.Path, n):
            raise Unsupported("Path." + n)
        raise AttributeError(n)


class FakeOSPath:
    def __getattr__(self, n):
        if n in ("join", "basename", "dirname", "splitext", "normpath", "split", "sep", "samestat", "isabs", "commonpath", "commonprefix"):
            return getattr(posixpath, n)
        raise Unsupported("os.path." + n)

    def exists(self, p):
        return CUR[0].exists(p)

    lexists = exists

    def isfile(self, p):
        return CUR[0].isfile(p)

    def isdir(self, p):
        return CUR[0].is_dir(p)

    def getctime(self, p):
        return CUR[0].stat(p).st_ctime

    def getsize(self, p):
        return CUR[0].stat(p).st_size

    def abspath(self, p):
        return posixpath.normpath(_os.fspath(p))

    realpath = abspath

    def samefile(self, a, b):
        return CUR[0].stat(a).st_ino == CUR[0].stat(b).st_ino


class FakeOS:
    path = FakeOSPath()

    def __getattr__(self, n):
        if n in ("PathLike", "fspath", "stat_result", "name", "sep", "getpid", "urandom", "fsdecode", "fsencode", "environ", "error", "SEEK_SET", "SEEK_END",
                 "SEEK_CUR", "altsep", "DirEntry", "strerror"):
            return getattr(_os, n)
        raise Unsupported("os." + n)

    def scandir(self, p="."):
        return Scan(CUR[0].listing(p))

    def listdir(self, p="."):
        return [e.name for e in CUR[0].listing(p)]

    def unlink(self, p):
        CUR[0].unlink(p)

    remove = unlink

    def rename(self, a, b):
        CUR[0].rename(a, b)

    replace = rename

    def link(self, a, b, **k):
        CUR[0].link(a, b)

    def stat(self, p, **k):
        if isinstance(p, int):
            return self.fstat(p)
        return CUR[0].stat(p)

    lstat = stat

    def fstat(self, fd):
        return CUR[0].istat(CUR[0].fds[fd].i)

    def fsync(self, fd):
        CUR[0].tick()

    fdatasync = fsync

    def makedirs(self, p, mode=0o777, exist_ok=False):
        CUR[0].mkdir(p, exist_ok)

    def mkdir(self, p, mode=0o777):
        CUR[0].mkdir(p)

    def access(self, p, mode):
        return CUR[0].exists(p)

    def chmod(self, p, mode):
        CUR[0].tick()


class FakeShutil:
    def rmtree(self, p, ignore_errors=False, **k):
        fs = CUR[0]
        fs.tick()
        root = fs.key(p)
        fs.ctx.check(root == ROOT, "a directory other than the store's is removed")
        fs.files.clear()
        fs.dirs.discard(root)

    def move(self, a, b, **k):
        CUR[0].rename(a, b)
        return b

    def __getattr__(self, n):
        raise Unsupported("shutil." + n)


def fake_open(p, mode="r", *a, **kw):
    return CUR[0].open(p, mode)


def patches(pickle=None):
    import glob

    class FakeGlob:
        escape = staticmethod(glob.escape)

        def __getattr__(self, n):
            raise Unsupported("glob." + n)

    m = "asyncz.stores.file"
    out = [(m, "open", fake_open), (m, "os", FakeOS()), (m, "Path", FakePath), (m, "shutil", FakeShutil()), (m, "glob", FakeGlob()),
           ("asyncz.file_locking", "lock", lock), ("asyncz.file_locking", "unlock", unlock)]
    if pickle is not None:
        out.append((m, "pickle", pickle))
    return out
