"""A simulated disk, mounted at /simfs.

All Python-level ways the code under test reads files (open, io.open, codecs.open, pathlib,
os.stat & co, os.open/os.read through a memfd) end here for paths below the mount point, and
go to the real disk for all others.  Faults are switched on and off by the scenario; every
access is a scheduling point and may take simulated time.
"""
import builtins
import errno
import io
import os
import stat as stat_

from . import sched

MOUNT = "/simfs"
_real = {}
FS = None
real_hook = None   # called with the path of real files opened; may raise or return a file


def _path(p):
    if isinstance(p, int):
        return None
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if FS is None or not p.startswith(MOUNT + "/") and p != MOUNT:
        return None
    return os.path.normpath(p)



class SimFS:
    def __init__(self, files=None):
        self.files = dict(files or {})    # path -> bytes
        self.faults = {}                  # path -> {"op": .., "err": .., "after": n, "times": n}
        self.delays = {}                  # path -> simulated seconds per open
        self.short = 0                    # > 0: reads return at most this many bytes
        self.injected = []                # exceptions raised by faults
        self.injected_at = []             # their paths
        self.counts = {}
        self.opened = []                  # live raw handles
        self.log = []                     # (operation, path)
        self.real_access = []

    # -- faults -----------------------------------------------------------------------
    def fault(self, op, path):
        f = self.faults.get(path)
        if not f or f["op"] != op:
            return
        if f.get("skip", 0) > 0:
            f["skip"] -= 1
            return
        if f.get("times", -1) == 0:
            return
        if "times" in f:
            f["times"] -= 1
        self.counts[f"{op}:{f['err']}"] = self.counts.get(f"{op}:{f['err']}", 0) + 1
        if f["err"] == "KeyboardInterrupt":
            e = KeyboardInterrupt("injected")
        elif f["err"] == "MemoryError":
            e = MemoryError("injected")
        elif f["err"] == "TimeoutError":
            e = TimeoutError(errno.ETIMEDOUT, "injected", path)
        else:
            no = getattr(errno, f["err"])
            e = OSError(no, os.strerror(no), path)
        self.injected.append(e)
        self.injected_at.append(path)
        raise e

    def _isdir(self, path):
        return path == MOUNT or any(p.startswith(path + "/") for p in self.files)

    # -- operations -------------------------------------------------------------------
    def stat(self, path):
        cur = sched.CURRENT
        if cur is not None:
            cur.yield_point("stat " + path)
        self.log.append(("stat", path))
        self.fault("stat", path)
        if path in self.files:
            mode, size = stat_.S_IFREG | 0o644, len(self.files[path])
        elif self._isdir(path):
            mode, size = stat_.S_IFDIR | 0o755, 0
        else:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        return os.stat_result((mode, hash_path(path), 99, 1, 0, 0, size, 0, 0, 0))

    def open_raw(self, path, write=False):
        cur = sched.CURRENT
        if cur is not None:
            cur.sleep(self.delays.get(path, 0), "open " + path)
        self.log.append(("open", path))
        if write:
            raise PermissionError(errno.EROFS, "Read-only file system", path)
        f = self.faults.get(path)
        if f and f["op"] == "vanish" and f.get("times", 1) != 0:
            # gone between the existence check and the open
            f["times"] = f.get("times", 1) - 1
            self.counts["open:vanish"] = self.counts.get("open:vanish", 0) + 1
            e = FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            self.injected.append(e)
            self.injected_at.append(path)
            raise e
        self.fault("open", path)
        if path not in self.files:
            if self._isdir(path):
                raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        return SimRaw(self, path)


def hash_path(path):
    import zlib
    return zlib.crc32(path.encode())


class SimRaw(io.RawIOBase):
    def __init__(self, fs, path):
        self.fs = fs
        self.path = self.name = path
        self.mode = "rb"
        self.data = fs.files[path]
        self.pos = 0
        self.reads = 0
        fs.opened.append(self)

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        cur = sched.CURRENT
        if cur is not None:
            cur.yield_point("read " + self.path)
        self.fs.log.append(("read", self.path))
        self.fs.fault("read", self.path)
        n = len(b)
        if self.fs.short:
            self.reads += 1
            n = min(n, 1 + (self.reads * 7919 + len(self.data)) % self.fs.short)
            self.fs.counts["short-read"] = self.fs.counts.get("short-read", 0) + 1
        chunk = self.data[self.pos:self.pos + n]
        b[:len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)

    def close(self):
        if not self.closed:
            if self in self.fs.opened:
                self.fs.opened.remove(self)
        super().close()

    def __del__(self):
        # dropped without close(): CPython closes at once
        try:
            self.close()
        except Exception:
            pass


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
          closefd=True, opener=None):
    path = _path(file)
    if path is None:
        if real_hook is not None and isinstance(file, (str, os.PathLike)):
            f = real_hook(os.fspath(file))
            if f is not None:
                return f
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    write = any(c in mode for c in "wax+")
    binary = "b" in mode
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = FS.open_raw(path, write)
    if binary and buffering == 0:
        return raw
    buf = io.BufferedReader(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
    if binary:
        return buf
    if encoding is None or encoding == "locale":
        encoding = FS.locale_encoding if getattr(FS, "locale_encoding", None) else "utf-8"
    text = io.TextIOWrapper(buf, encoding, errors, newline)
    text.mode = mode
    return text


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = _path(path)
    if p is None:
        return _real["os.open"](path, flags, mode, dir_fd=dir_fd)
    raw = FS.open_raw(p, flags & (os.O_WRONLY | os.O_RDWR))
    FS.fault("read", p)
    fd = os.memfd_create("simfs")
    os.write(fd, raw.data)
    os.lseek(fd, 0, 0)
    raw.close()
    return fd


def _stat(path, *, dir_fd=None, follow_symlinks=True):
    p = _path(path)
    if p is None:
        return _real["os.stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    return FS.stat(p)


def _lstat(path, *, dir_fd=None):
    p = _path(path)
    if p is None:
        return _real["os.lstat"](path, dir_fd=dir_fd)
    return FS.stat(p)


def _access(path, mode, **kw):
    p = _path(path)
    if p is None:
        return _real["os.access"](path, mode, **kw)
    try:
        FS.stat(p)
    except OSError:
        return False
    f = FS.faults.get(p)
    if f and f["op"] == "open" and f["err"] in ("EACCES", "EPERM") and f.get("times", 1) != 0 and mode & os.R_OK:
        return False
    return not mode & os.W_OK


def _listdir(path="."):
    p = _path(path)
    if p is None:
        return _real["os.listdir"](path)
    if not FS._isdir(p):
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
    names = {q[len(p) + 1:].split("/")[0] for q in FS.files if q.startswith(p + "/")}
    return sorted(names)


def _realpath(path, *, strict=False):
    p = _path(path)
    if p is None:
        return _real["realpath"](path, strict=strict)
    return p


def install(fs):
    """Mount fs in this process (the process ends with the run)."""
    global FS
    FS = fs
    if _real:
        return
    _real.update({"open": builtins.open, "os.open": os.open, "os.stat": os.stat,
                  "os.lstat": os.lstat, "os.access": os.access, "os.listdir": os.listdir,
                  "realpath": os.path.realpath})
    builtins.open = io.open = _open
    os.open, os.stat, os.lstat, os.access, os.listdir = _os_open, _stat, _lstat, _access, _listdir
    os.path.realpath = _realpath
    os.path.isfile = _isfile
    os.path.isdir = _isdir
    os.path.exists = _exists


def _test(path, pred):
    try:
        st = os.stat(path)
    except (OSError, ValueError):
        return False
    return pred(st.st_mode)


def _isfile(path):
    return _test(path, stat_.S_ISREG)


def _isdir(path):
    return _test(path, stat_.S_ISDIR)


def _exists(path):
    return _test(path, lambda m: True)
