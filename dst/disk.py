"""A simulated disk under the documentation generator: every file operation below a scratch folder is counted and can fail or be
the last one before a crash; every change elsewhere is refused and recorded. Real files, real Python I/O stack, real bs4."""
import builtins
import errno
import io
import os
import sys

ERRNOS = {"ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EIO": errno.EIO, "EROFS": errno.EROFS, "EMFILE": errno.EMFILE}
WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_open = io.open


class SimCrash(BaseException):
    """The process dies here: nothing after this point reaches the disk."""


class Disk:
    """fault: None, ("error", n, errno name), ("crash", n) counted over all operations, or ("write"/"close", n, errno name)."""

    def __init__(self, scratch, allowed, fault=None):
        self.scratch, self.allowed, self.fault = scratch, allowed, fault
        self.ops = []
        self.count = {"write": 0, "close": 0}
        self.fired = None
        self.dead = False
        self.outside = []
        self.written = {}

    def inside(self, path):
        return path == self.scratch or path.startswith(self.scratch + "/")

    def op(self, name, path):
        """An operation is about to happen."""
        if self.dead:
            raise SimCrash()
        self.ops.append((name, os.path.relpath(path, self.scratch)))
        f, n = self.fault, len(self.ops)
        if f is None or self.fired:
            return
        if f[0] == "crash" and n == f[1]:
            self.fired = (name, n)
            self.dead = True
            raise SimCrash()
        if f[0] == "error" and n == f[1]:
            self.fired = (name, n)
            raise OSError(ERRNOS[f[2]], f"injected {f[2]}", path)

    def low(self, kind):
        """Whether this raw write or close is to fail."""
        self.count[kind] += 1
        f = self.fault
        if f is not None and not self.fired and f[0] == kind and self.count[kind] == f[1]:
            self.fired = (kind, f[1])
            return f[2]
        return None

    def mutate(self, name, path):
        if path in (os.devnull, "/dev/null") or path.startswith("/proc/self/fd"):
            return
        if not (path == self.allowed or path.startswith(self.allowed + "/")):
            if not self.dead:
                self.outside.append((name, path))
            if not self.inside(path):
                raise PermissionError(errno.EPERM, "outside the simulated disk", path)
        if self.inside(path):
            self.op(name, path)


class _S:
    active = None


def _path(p, dir_fd=-1):
    if isinstance(p, int):
        try:
            return os.readlink(f"/proc/self/fd/{p}")
        except OSError:
            return f"/proc/self/fd/{p}"
    p = os.fsdecode(p)
    if not os.path.isabs(p) and isinstance(dir_fd, int) and dir_fd >= 0:
        base = _path(dir_fd)
        p = os.path.join(base, p)
    p = os.path.abspath(p)
    # a name is resolved through its directory; the last component stays as it is
    return os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))


ONE = {"os.mkdir": 2, "os.rmdir": 1, "os.remove": 1, "os.chmod": 2, "os.chown": 3, "os.utime": 3, "os.truncate": None, "os.setxattr": None,
       "os.removexattr": None, "os.mkfifo": 2, "os.mknod": 3}
READ = {"os.listdir", "os.scandir"}
NEVER = {"subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "pty.spawn", "os.kill", "os.killpg",
         "socket.connect", "ctypes.dlopen"}


def _hook(event, args):
    d = _S.active
    if d is None or not (event == "open" or event.startswith("os.") or event in NEVER):
        return
    _S.active = None        # what the hook itself does is not simulated
    try:
        if event == "open":
            path, flags = args[0], args[2] or 0
            if isinstance(path, int) or path is None:
                return
            p = _path(path)
            if flags & WRITING:
                d.mutate("open", p)
            elif d.inside(p):
                d.op("open-read", p)
        elif event in ONE:
            i = ONE[event]
            d.mutate(event, _path(args[0], args[i] if i is not None and i < len(args) else -1))
        elif event in ("os.rename", "os.link"):
            for k in (0, 1):
                fd = args[2 + k] if len(args) > 2 + k else -1
                d.mutate(event, _path(args[k], fd))
        elif event == "os.symlink":
            d.mutate(event, _path(args[1], args[2] if len(args) > 2 else -1))
        elif event in READ:
            p = _path(args[0] if args[0] is not None else ".")
            if d.inside(p):
                d.op(event, p)
        elif event in NEVER:
            d.outside.append((event, repr(args)[:200]))
            raise PermissionError(errno.EPERM, f"{event} inside the simulation")
    finally:
        _S.active = d


class _Raw(io.FileIO):
    """The kernel's side of a file being written."""

    def __init__(self, disk, path, mode):
        super().__init__(path, mode)
        self._d, self._p = disk, _quiet(_path, path)
        disk.written[self._p] = 0

    def write(self, data):
        d = self._d
        if d.dead or _S.active is not d:
            return len(data)
        e = d.low("write")
        if e is not None:
            super().write(bytes(data)[: len(data) // 2])
            raise OSError(ERRNOS[e], f"injected {e}", self._p)
        d.op("write", self._p)
        return super().write(data)

    def close(self):
        if self.closed:
            return
        d = self._d
        if d.dead or _S.active is not d:
            return super().close()
        e = d.low("close")
        super().close()
        if e is not None:
            raise OSError(ERRNOS[e], f"injected {e} at close", self._p)
        d.op("close", self._p)


def _quiet(fn, *a):
    d, _S.active = _S.active, None
    try:
        return fn(*a)
    finally:
        _S.active = d


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = _S.active
    if d is None or isinstance(file, int) or opener is not None or not set(mode) & set("wax+"):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not d.inside(_quiet(_path, file)):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = _Raw(d, file, mode.replace("b", "").replace("t", ""))
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
    if "b" in mode:
        return raw if buffering == 0 else buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
    text.mode = mode
    return text


_installed = False


def install():
    global _installed
    if not _installed:
        sys.addaudithook(_hook)
        builtins.open = io.open = sim_open
        _installed = True


class running:
    def __init__(self, *a, **k):
        install()
        self.d = Disk(*a, **k)

    def __enter__(self):
        _S.active = self.d
        return self.d

    def __exit__(self, *exc):
        _S.active = None
        return False


def tree(root):
    """{relative path: bytes, None for a folder, or the link target}"""
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = None
            else:
                with _open(p, "rb") as f:
                    out[r] = f.read()
    return out
