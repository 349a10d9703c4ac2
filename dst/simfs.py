"""Simulated disk and I/O seam.

A pure in-memory file tree lives below ``/simdisk``.  Every file-system entry
point the import system, zipimport, zipfile, pathlib and modulegraph2 use is
replaced by a wrapper that serves paths below ``/simdisk`` from memory and
passes all other paths to the real call.  Every simulated call is one *event*:
it advances the simulated clock, is appended to the run's event log, may be
turned into a fault, may trigger a concurrent actor (an installer process) and
is a scheduling point for simulated threads.
"""

import builtins
import errno
import hashlib
import io
import os
import posixpath
import random
import stat as statmod
import sys

PREFIX = "/simdisk"
_REAL = {}

ERRNOS = {
    n: getattr(errno, n)
    for n in (
        "EIO",
        "ENOSPC",
        "EDQUOT",
        "EPIPE",
        "EROFS",
        "EACCES",
        "EMFILE",
        "ENFILE",
        "ENOMEM",
        "ESTALE",
        "ENOSPC",
        "EDQUOT",
        "EPERM",
        "ETIMEDOUT",
    )
}


_IMPORTERS = ("importlib.util", "importlib._bootstrap", "importlib._bootstrap_external",
              "_frozen_importlib", "_frozen_importlib_external", "zipimport",
              "importlib._abc", "importlib.machinery")


def resolving(frame):
    """Names of the modules whose resolution is in progress in *frame*: what
    the innermost library frame asked of the import system, and the specs that
    library frames hold."""
    names, inner = set(), []
    spec_type = type(os.__spec__)
    f = frame
    while f is not None:
        mod = f.f_globals.get("__name__") or ""
        if mod.startswith("modulegraph2"):
            if inner is not None:
                # the outermost import system frame below this library frame
                if inner:
                    names.add(inner[-1])
                inner = None
            found = False
            for v in list(f.f_locals.values()):
                if isinstance(v, spec_type):
                    names.add(v.name)
                    found = True
            if found:
                break
        elif inner is not None and mod in _IMPORTERS:
            loc = f.f_locals
            for k in ("fullname", "absolute_name", "name"):
                v = loc.get(k)
                if isinstance(v, str) and "/" not in v and v:
                    inner.append(v)
                    break
        f = f.f_back
    return sorted(names)


class SimCrash(BaseException):
    """Harness problem (never a property violation)."""


def make_error(kind, path):
    if kind == "MemoryError":
        return MemoryError()
    if kind == "KeyboardInterrupt":
        return KeyboardInterrupt()
    no = ERRNOS[kind]
    return OSError(no, os.strerror(no), path)


class File:
    __slots__ = ("data", "mtime", "ino")
    is_dir = False

    def __init__(self, data, mtime, ino):
        self.data = data
        self.mtime = mtime
        self.ino = ino


class Dir:
    __slots__ = ("entries", "mtime", "ino")
    is_dir = True

    def __init__(self, mtime, ino):
        self.entries = {}
        self.mtime = mtime
        self.ino = ino


class Disk:
    def __init__(self, sim, dirseed=0):
        self.sim = sim
        self.dirseed = dirseed
        self._ino = 100
        self.root = self._newdir()

    # -- raw tree manipulation (no events)
    def _next(self):
        self._ino += 1
        return self._ino

    def _newdir(self):
        return Dir(self.sim.now, self._next())

    @staticmethod
    def parts(path):
        rel = path[len(PREFIX):]
        return [p for p in rel.split("/") if p and p != "."]

    def lookup(self, path):
        parts = self.parts(path)
        trailing = path.endswith("/")
        node = self.root
        stack = [node]
        for p in parts:
            if p == "..":
                if len(stack) > 1:
                    stack.pop()
                node = stack[-1]
                continue
            if not node.is_dir:
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
            nxt = node.entries.get(p)
            if nxt is None:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            node = nxt
            stack.append(node)
        if trailing and not node.is_dir:
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        return node

    def parent_of(self, path):
        parts = self.parts(path)
        if not parts:
            raise PermissionError(errno.EPERM, "root", path)
        parent = self.lookup(PREFIX + "/" + "/".join(parts[:-1]))
        if not parent.is_dir:
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        return parent, parts[-1]

    def mkdirs(self, path):
        node = self.root
        for p in self.parts(path):
            nxt = node.entries.get(p)
            if nxt is None:
                nxt = self._newdir()
                node.entries[p] = nxt
                node.mtime = self.sim.now
            elif not nxt.is_dir:
                raise SimCrash(f"mkdirs over file {path}")
            node = nxt
        return node

    def put(self, path, data):
        parts = self.parts(path)
        parent = self.mkdirs(PREFIX + "/" + "/".join(parts[:-1]))
        old = parent.entries.get(parts[-1])
        if old is not None:
            old.data = bytearray(data)
            old.mtime = self.sim.now
        else:
            parent.entries[parts[-1]] = File(bytearray(data), self.sim.now, self._next())
            parent.mtime = self.sim.now

    def remove(self, path):
        parent, name = self.parent_of(path)
        if name in parent.entries:
            del parent.entries[name]
            parent.mtime = self.sim.now

    def names(self, path, node):
        names = sorted(node.entries)
        rnd = random.Random(f"{self.dirseed}:{path.rstrip('/')}")
        rnd.shuffle(names)
        return names


def _stat_result(node):
    if node.is_dir:
        mode = statmod.S_IFDIR | 0o755
        size = 4096
    else:
        mode = statmod.S_IFREG | 0o644
        size = len(node.data)
    t = node.mtime / 1e9
    return os.stat_result(
        (mode, node.ino, 77, 1, 0, 0, size, int(t), int(t), int(t), t, t, t,
         node.mtime, node.mtime, node.mtime)
    )


class SimRaw(io.RawIOBase):
    """Unbuffered simulated file handle."""

    def __init__(self, sim, path, node, mode):
        self._sim = sim
        self._path = path
        self.name = path
        self._node = node
        self._pos = 0
        self._mode = mode
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        if "a" in mode:
            self._pos = len(node.data)
        self.mode = mode
        self._dirty = False
        sim.open_handles += 1

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    def seek(self, off, whence=0):
        if whence == 0:
            self._pos = off
        elif whence == 1:
            self._pos += off
        else:
            self._pos = len(self._node.data) + off
        return self._pos

    def tell(self):
        return self._pos

    def truncate(self, size=None):
        if size is None:
            size = self._pos
        del self._node.data[size:]
        return size

    def readinto(self, b):
        act = self._sim.io("read", self._path)
        n = min(len(b), max(0, len(self._node.data) - self._pos))
        if act == "SHORT" and n > 1:
            n = max(1, n // 3)
        b[:n] = self._node.data[self._pos:self._pos + n]
        self._pos += n
        return n

    def readall(self):
        chunks = []
        while True:
            buf = bytearray(4096)
            n = self.readinto(buf)
            if not n:
                break
            chunks.append(bytes(buf[:n]))
        return b"".join(chunks)

    def write(self, b):
        data = bytes(b)
        act = self._sim.io("write", self._path)
        n = len(data)
        if act == "SHORT" and n > 1:
            n = max(1, n // 3)
        end = self._pos + n
        if self._pos > len(self._node.data):
            self._node.data.extend(b"\0" * (self._pos - len(self._node.data)))
        self._node.data[self._pos:end] = data[:n]
        self._pos = end
        self._node.mtime = self._sim.now
        self._dirty = True
        return n

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self._sim.open_handles -= 1
                if self._w:
                    self._sim.io("close", self._path)


class SimDirEntry:
    __slots__ = ("name", "path", "_node", "_sim")

    def __init__(self, sim, base, name, node):
        self.name = name
        self.path = os.path.join(base, name)
        self._node = node
        self._sim = sim

    def __fspath__(self):
        return self.path

    def is_dir(self, *, follow_symlinks=True):
        return self._node.is_dir

    def is_file(self, *, follow_symlinks=True):
        return not self._node.is_dir

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def inode(self):
        return self._node.ino

    def stat(self, *, follow_symlinks=True):
        return _stat_result(self._node)

    def __repr__(self):
        return f"<SimDirEntry {self.name!r}>"


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


class Seam:
    """Installs the wrappers for one Sim in the current process."""

    def __init__(self, sim):
        self.sim = sim

    def _p(self, path):
        """Return the virtual path as str, or None for real paths."""
        if isinstance(path, int) or path is None:
            return None
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            try:
                path = path.decode()
            except UnicodeDecodeError:
                return None
        cwd = self.sim.cwd
        if cwd and path and (path[0] != "/" or path.startswith(PREFIX)):
            tail = "/" if path.endswith("/") else ""
            path = posixpath.normpath(posixpath.join(cwd, path)) + tail
        if path == PREFIX or path.startswith(PREFIX + "/"):
            return path
        return None

    def install(self):
        sim = self.sim
        disk = sim.disk
        P = self._p
        real_open = builtins.open
        _REAL.setdefault("open", real_open)
        _REAL.setdefault("stat", os.stat)
        _REAL.setdefault("listdir", os.listdir)

        def sim_open_raw(path, mode):
            core = mode.replace("b", "").replace("t", "").replace("U", "")
            sim.io("open", path)
            if "r" in core:
                node = disk.lookup(path)
            else:
                parent, name = disk.parent_of(path)
                node = parent.entries.get(name)
                if node is None:
                    node = File(bytearray(), sim.now, disk._next())
                    parent.entries[name] = node
                    parent.mtime = sim.now
                elif node.is_dir:
                    raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
                elif "x" in core:
                    raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
                elif "w" in core:
                    del node.data[:]
            if node.is_dir:
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
            return SimRaw(sim, path, node, core)

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
                     newline=None, closefd=True, opener=None):
            path = P(file)
            if path is None:
                return real_open(file, mode, buffering, encoding, errors, newline,
                                 closefd, opener)
            raw = sim_open_raw(path, mode)
            if "b" in mode and buffering == 0:
                return raw
            if "+" in mode:
                buf = io.BufferedRandom(raw)
            elif "r" in mode:
                buf = io.BufferedReader(raw)
            else:
                buf = io.BufferedWriter(raw)
            if "b" in mode:
                return buf
            text = io.TextIOWrapper(
                buf, sim.locale if encoding in (None, "locale") else encoding, errors,
                newline, buffering == 1)
            text.mode = mode
            return text

        def sim_open_code(path):
            p = P(path)
            if p is None:
                return _io_mod.open_code(path)
            return io.BufferedReader(sim_open_raw(p, "r"))

        class SimFileIOFactory:
            def __call__(self, file, mode="r", closefd=True, opener=None):
                p = P(file)
                if p is None:
                    return _io_mod.FileIO(file, mode, closefd, opener)
                return sim_open_raw(p, mode)

        fileio = SimFileIOFactory()

        import _io as _io_mod

        r_stat, r_lstat = os.stat, os.lstat
        r_listdir, r_scandir = os.listdir, os.scandir
        r_readlink, r_access, r_osopen = os.readlink, os.access, os.open
        r_mkdir, r_rmdir = os.mkdir, os.rmdir
        r_unlink, r_rename, r_replace = os.unlink, os.rename, os.replace
        r_utime = os.utime

        def s_stat(path, *, dir_fd=None, follow_symlinks=True):
            p = P(path) if dir_fd is None else None
            if p is None:
                return r_stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
            sim.io("stat", p)
            return _stat_result(disk.lookup(p))

        def s_lstat(path, *, dir_fd=None):
            p = P(path) if dir_fd is None else None
            if p is None:
                return r_lstat(path, dir_fd=dir_fd)
            sim.io("stat", p)
            return _stat_result(disk.lookup(p))

        def s_listdir(path="."):
            p = P(path)
            if p is None:
                return r_listdir(path)
            sim.io("listdir", p)
            node = disk.lookup(p)
            if not node.is_dir:
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), p)
            return disk.names(p, node)

        def s_scandir(path="."):
            p = P(path)
            if p is None:
                return r_scandir(path)
            sim.io("listdir", p)
            node = disk.lookup(p)
            if not node.is_dir:
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), p)
            return SimScandir(
                [SimDirEntry(sim, p, n, node.entries[n]) for n in disk.names(p, node)])

        def s_readlink(path, *, dir_fd=None):
            p = P(path)
            if p is None:
                return r_readlink(path, dir_fd=dir_fd)
            disk.lookup(p)
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL), p)

        def s_access(path, mode, **kw):
            p = P(path)
            if p is None:
                return r_access(path, mode, **kw)
            sim.io("stat", p)
            try:
                disk.lookup(p)
            except OSError:
                return False
            return True

        def s_osopen(path, flags, mode=0o777, *, dir_fd=None):
            p = P(path)
            if p is None:
                return r_osopen(path, flags, mode, dir_fd=dir_fd)
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                # Only the import system's bytecode writer does this; a
                # read-only disk is a legal answer.
                raise OSError(errno.EROFS, os.strerror(errno.EROFS), p)
            sim.io("open", p)
            node = disk.lookup(p)
            if node.is_dir:
                raise OSError(errno.ENOTSUP, "directory handle", p)
            fd = os.memfd_create("sim")
            os.write(fd, bytes(node.data))
            os.lseek(fd, 0, 0)
            return fd

        def s_mkdir(path, mode=0o777, *, dir_fd=None):
            p = P(path)
            if p is None:
                return r_mkdir(path, mode, dir_fd=dir_fd)
            sim.io("mkdir", p)
            parent, name = disk.parent_of(p)
            if name in parent.entries:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
            parent.entries[name] = disk._newdir()
            parent.mtime = sim.now

        def s_unlink(path, *, dir_fd=None):
            p = P(path)
            if p is None:
                return r_unlink(path, dir_fd=dir_fd)
            sim.io("unlink", p)
            disk.lookup(p)
            disk.remove(p)

        def s_rmdir(path, *, dir_fd=None):
            p = P(path)
            if p is None:
                return r_rmdir(path, dir_fd=dir_fd)
            sim.io("unlink", p)
            disk.lookup(p)
            disk.remove(p)

        def s_replace(src, dst, **kw):
            p, q = P(src), P(dst)
            if p is None or q is None:
                return r_replace(src, dst, **kw)
            sim.io("rename", q)
            node = disk.lookup(p)
            sp, sn = disk.parent_of(p)
            dp, dn = disk.parent_of(q)
            del sp.entries[sn]
            dp.entries[dn] = node
            sp.mtime = dp.mtime = sim.now

        def s_utime(path, times=None, **kw):
            p = P(path)
            if p is None:
                return r_utime(path, times, **kw)

        os_over = dict(stat=s_stat, lstat=s_lstat, listdir=s_listdir,
                       scandir=s_scandir, readlink=s_readlink, access=s_access,
                       open=s_osopen, mkdir=s_mkdir, unlink=s_unlink,
                       remove=s_unlink, rmdir=s_rmdir, rename=s_replace,
                       replace=s_replace, utime=s_utime)
        if sim.cwd:
            os_over.update(getcwd=lambda: sim.cwd, getcwdb=lambda: sim.cwd.encode())
        for k, v in os_over.items():
            setattr(os, k, v)
        builtins.open = sim_open
        io.open = sim_open
        io.open_code = sim_open_code
        import tokenize
        tokenize._builtin_open = sim_open

        posix = sys.modules["posix"]

        class Proxy:
            def __init__(self, real, over):
                self.__dict__["_real"] = real
                self.__dict__.update(over)

            def __getattr__(self, name):
                return getattr(self.__dict__["_real"], name)

        osproxy = Proxy(posix, os_over)
        ioproxy = Proxy(_io_mod, dict(open=sim_open, open_code=sim_open_code,
                                      FileIO=fileio))
        be = sys.modules["_frozen_importlib_external"]
        be._os = osproxy
        be._io = ioproxy
        import zipimport
        zipimport._io = ioproxy
        if hasattr(zipimport, "_os"):
            zipimport._os = osproxy
        # importlib.metadata, zipfile, pathlib, glob and shutil go through the
        # attributes of os/io/builtins patched above.


class Sim:
    """One simulated execution: clock, disk, event log, faults and actors."""

    def __init__(self, case, max_steps=400000):
        self.case = case
        self.now = 1_700_000_000_000_000_000 + int(case.get("t0", 0))
        self.tick = int(case.get("tick", 1_000_000))
        self.start = self.now
        self.steps = 0
        self.max_steps = max_steps
        self.open_handles = 0
        self.counts = {}
        self.faults = [dict(f, seen=0, fired=0) for f in case.get("faults", ())]
        self.fired = {}
        self.fired_log = []
        self.armed = False
        self.actors = sorted(case.get("actors", ()), key=lambda a: a["at"])
        self.actor_events = 0
        self.sched = None
        self._hash = hashlib.sha256()
        self.trace = []
        self.keep_trace = bool(case.get("keep_trace"))
        self.disk = Disk(self, case.get("dirseed", 0))
        self.entries = frozenset()    # the search path
        self.locale = case.get("locale", "utf-8")    # encoding of text files by default
        self.cwd = case.get("cwd")    # simulated working directory
        self.eligible = frozenset()   # files whose reads may fail
        self.zips = frozenset()
        self.fault_names = []         # module names under resolution per fault
        self.op_index = -1
        self.io_of_op = 0

    # -- event log
    def log(self, *items):
        rec = repr(items)
        self._hash.update(rec.encode("utf-8", "backslashreplace"))
        if self.keep_trace:
            self.trace.append(rec)

    def digest(self):
        return self._hash.hexdigest()

    # -- the seam
    def io(self, op, path):
        self.steps += 1
        self.io_of_op += 1
        self.now += self.tick
        if self.steps > self.max_steps:
            raise SimCrash("step limit")
        self.log("io", op, path)
        self.counts[op] = self.counts.get(op, 0) + 1
        while self.actors and self.armed and self.actors[0]["at"] <= self.steps:
            a = self.actors[0]
            on = a.get("on")
            if on and on != [op, path] and self.steps < a["at"] + 300:
                break
            self.run_actor(self.actors.pop(0))
        act = None
        if self.armed and self.faults:
            for f in self.faults:
                if f["op"] == "file":
                    if op not in ("open", "read") or not self.may_fail(path):
                        continue
                elif f["op"] == "list":
                    if op != "listdir" or not self.may_list(path, f["err"]):
                        continue
                elif f["op"] != op and f["op"] != "any":
                    continue
                fp = f.get("path")
                if fp is not None and path != fp:
                    continue
                if f.get("opidx") is not None and f["opidx"] != self.op_index:
                    continue
                f["seen"] += 1
                if f["nth"] <= f["seen"] < f["nth"] + f.get("span", 1):
                    f["fired"] += 1
                    key = f"{op}:{f['err']}"
                    self.fired[key] = self.fired.get(key, 0) + 1
                    self.fired_log.append((self.op_index, op, path, f["err"]))
                    self.log("fault", op, path, f["err"])
                    if f["err"] == "SHORT":
                        act = "SHORT"
                        self.fault_names.append(None)
                    else:
                        self.fault_names.append(resolving(sys._getframe(1)))
                        raise make_error(f["err"], path)
        if self.sched is not None:
            self.sched.io_point(op, path)
        return act

    def may_list(self, path, err):
        """Listings of this directory may fail without the import system or
        the lookup of distributions (legitimately) ignoring that."""
        if path in self.entries or not path.startswith("/simdisk/"):
            return False
        f = sys._getframe(2)
        while f is not None and f.f_globals.get("__name__") == __name__:
            f = f.f_back
        if f is not None and f.f_code.co_filename.startswith("<frozen"):
            return err not in ("EACCES", "ESTALE")
        return True

    def may_fail(self, path):
        """Reads of this file may fail without the import system itself
        (legitimately) turning the error into "no such module"."""
        if path in self.eligible:
            return True
        if path in self.zips:
            # the archive directory is read (and errors swallowed) by the
            # path hook; module reads from the archive report errors
            # (and the failing import of a pkgutil-style namespace package is
            # ignored when its search path is determined)
            f = sys._getframe(2)
            n = 0
            while f is not None:
                name = f.f_code.co_name
                if (name == "_read_directory" and n < 12) or name == "extend_path" or (
                        name == "import_module"
                        and f.f_code.co_filename.endswith("importlib/__init__.py")):
                    return False
                f = f.f_back
                n += 1
            return True
        return False

    def run_actor(self, a):
        self.actor_events += 1
        self.log("actor", a["do"], a["path"])
        if a["do"] == "put":
            self.disk.put(a["path"], a["data"].encode("utf-8"))
        elif a["do"] == "mkdir":
            self.disk.mkdirs(a["path"])
        elif a["do"] == "remove":
            try:
                self.disk.remove(a["path"])
            except OSError:
                pass
        else:
            raise SimCrash(f"actor {a!r}")
