"""File-system, process and network seam.

Inside a simulated run every path is looked up in a scratch overlay first; everything
written goes to the overlay, so the real tree is never modified.  Operations on the
package directory and on anything in the overlay are numbered events: the run's plan can
fail them, shorten reads, raise an interrupt, or kill the simulated process that issued
them, and each of them is a scheduling point.
"""

import builtins
import email.message
import errno
import hashlib
import http.client
import io
import os
import random
import shutil
import stat as stat_
import tempfile
import types
import urllib.error
import urllib.request
import urllib.response

from . import sched as S

_real = types.SimpleNamespace()
FSOBJ = None  # the active file system of this process


class NodeKilled(BaseException):
    """Raised in a simulated process that has been killed."""


ERR = {
    "EIO": errno.EIO,
    "EACCES": errno.EACCES,
    "EMFILE": errno.EMFILE,
    "ENOSPC": errno.ENOSPC,
    "ENOENT": errno.ENOENT,
    "ESTALE": errno.ESTALE,
}


class Pt:
    """Stands for a code location in scheduler events."""

    def __init__(self, name):
        self.co_qualname = name


class DiskSet:
    """A set of paths kept on the real disk, shared by forked processes."""

    def __init__(self, d):
        self.d = d
        _real.makedirs(d)

    def _p(self, p):
        return os.path.join(self.d, p.replace("%", "%25").replace("/", "%2F"))

    def add(self, p):
        with _real.open(self._p(p), "wb"):
            pass

    def discard(self, p):
        try:
            _real.unlink(self._p(p))
        except FileNotFoundError:
            pass

    def __contains__(self, p):
        return _real.exists(self._p(p))

    def __iter__(self):
        return iter([n.replace("%2F", "/").replace("%25", "%") for n in sorted(_real.listdir(self.d))])


class Node:
    def __init__(self, nid):
        self.nid = nid
        self.dead = False
        self.pid = 40000 + nid
        self.fds = set()


def _abs(p):
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        p = os.path.join(_real.getcwd(), p)
    return os.path.normpath(p)


CHANGES = {"open_w", "write", "rename", "mkdir", "unlink", "truncate", "rmdir", "link", "symlink"}


class FS:
    def __init__(self, scratch, root="/repo", passthrough=("/dev", "/proc", "/sys")):
        self.scratch = scratch
        self.ov = os.path.join(scratch, "ov")
        _real.makedirs(self.ov, exist_ok=True)
        self.root = root
        self.passthrough = passthrough
        self.whiteouts = set()
        self.n = 0
        self.log = []
        self.order = None
        self.plan = {}  # event number -> kind (one shot)
        self.sticky = None  # (kind, first event, last event)
        self.armed = False
        self.counts = {}
        self.hash = hashlib.blake2b(digest_size=8)
        self.nodes = {}  # tid -> Node
        self.flocks = {}  # path -> (owner token)
        self.after = None  # hook after each event
        self.tracked = {}  # fd -> path
        self.hit = []  # calls that met a fault
        self.on_kill = None
        self.writes = 0
        self.wplan = {}  # faults by number of the change, counted while armed
        self.nw = 0

    # -- paths --------------------------------------------------------------
    def _pass(self, p):
        return p.startswith(self.passthrough) or p.startswith(self.scratch)

    def o(self, p):
        return self.ov + p

    def in_overlay(self, p):
        try:
            _real.lstat(self.o(p))
            return True
        except OSError:
            return False

    def seam(self, p):
        """Is this path one whose operations are events?"""
        if self._pass(p):
            return False
        if p.startswith(self.root + "/") and not p.endswith((".py", ".pyc")) and "/.git/" not in p:
            return True
        return self.in_overlay(p) or p in self.whiteouts

    def rpath(self, p):
        """Real path holding what p shows, or None."""
        if self._pass(p):
            return p
        if self.in_overlay(p):
            return self.o(p)
        if p in self.whiteouts:
            return None
        return p

    def dev(self, p):
        return 1 if p.startswith(self.root + "/") else 2

    def wpath(self, p, copy=True):
        """Path to write to for p; brings the current content along."""
        if self._pass(p):
            return p
        if not self.in_overlay(p):
            d = os.path.dirname(p)
            if d in self.whiteouts or not (self.in_overlay(d) or _real.isdir(d)):
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            _real.makedirs(os.path.dirname(self.o(p)), exist_ok=True)
            if copy and p not in self.whiteouts and _real.isfile(p):
                _real.copyfile(p, self.o(p))
        return self.o(p)

    def merged(self, p, listdir):
        if not self.in_overlay(p):
            if not any(os.path.dirname(w) == p for w in self.whiteouts):
                return None
        names = set()
        if _real.isdir(p) and p not in self.whiteouts:
            names.update(listdir(p))
        if self.in_overlay(p):
            names.update(listdir(self.o(p)))
        return sorted(n for n in names if self.in_overlay(os.path.join(p, n)) or os.path.join(p, n) not in self.whiteouts)

    def put(self, p, data):
        """Harness-side: set the content of a file (no event)."""
        _real.makedirs(os.path.dirname(self.o(p)), exist_ok=True)
        with _real.open(self.o(p), "wb") as f:
            f.write(data)
        self.stamp(self.o(p))
        self.whiteouts.discard(p)

    def stamp(self, rp, when=None):
        """File times follow the simulated clock."""
        if when is None:
            when = 1.7e9 + (S.CURRENT.now if S.CURRENT is not None else 0.0)
        try:
            _real.utime(rp, (when, when))
        except (OSError, OverflowError):
            pass

    def remove(self, p):
        if self.in_overlay(p):
            _real.unlink(self.o(p))
        self.whiteouts.add(p)

    def content(self, p):
        r = self.rpath(p)
        if r is None:
            return None
        try:
            with _real.open(r, "rb") as f:
                return f.read()
        except OSError:
            return None

    def listing(self):
        """Every overlay file (virtual path -> size)."""
        out = {}
        for d, _, fs in _real.walk(self.ov):
            for f in fs:
                q = os.path.join(d, f)
                out[q[len(self.ov):]] = _real.lstat(q).st_size
        return out

    # -- events -------------------------------------------------------------
    def node(self):
        s = S.CURRENT
        if s is None:
            return None
        t = s.by_ident.get(S.get_ident())
        return None if t is None else self.nodes.get(t.root)

    def event(self, kind, p):
        """Count an operation; returns 'short' or None, or raises the planned fault."""
        if kind in CHANGES:
            self.writes += 1
        s = S.CURRENT
        t = s.by_ident.get(S.get_ident()) if s is not None else None
        nd = self.nodes.get(t.root) if t is not None else None
        if nd is not None and nd.dead:
            raise NodeKilled()
        if not self.armed:
            return None
        if t is not None and t.in_cb:
            return None
        self.n += 1
        n = self.n
        name = os.path.basename(p) if isinstance(p, str) else str(p)
        if len(self.log) < 400:
            self.log.append((n, kind, name, None if t is None else t.tid))
        self.hash.update(repr((kind, None if t is None else t.tid)).encode())
        f = self.plan.pop(n, None)
        if kind in CHANGES:
            self.nw += 1
            f = self.wplan.pop(self.nw, None) or f
        if f is None and self.sticky is not None:
            k, a, b = self.sticky
            if a <= n <= b and self._fits(k, kind):
                f = k
        if t is not None and t.active:
            s._event(t, Pt("fs." + kind), n, True)
            if nd is not None and nd.dead:
                raise NodeKilled()
        if f is not None:
            return self.fault(f, kind, p, nd)
        return None

    @staticmethod
    def _fits(k, kind):
        if k == "ENOSPC":
            return kind in ("write", "open_w", "mkdir")
        if k == "short":
            return kind == "read"
        if k in ("EMFILE", "EACCES"):
            return kind.startswith("open")
        return True

    def fault(self, f, kind, p, nd):
        s = S.CURRENT
        t = s.by_ident.get(S.get_ident()) if s is not None else None
        if t is not None:
            self.hit.append(t.opid)
        if f == "kill":
            self.counts["kill@" + kind] = self.counts.get("kill@" + kind, 0) + 1
            if self.on_kill is not None:
                self.on_kill()
            nd.dead = True
            raise NodeKilled()
        if f in ("kbd", "mem"):
            self.counts[f + "@" + kind] = self.counts.get(f + "@" + kind, 0) + 1
            raise S.FAULT_EXC[f]("injected")
        if not self._fits(f, kind):
            f = "short" if kind == "read" and f == "short" else "EIO"
        self.counts[f + "@" + kind] = self.counts.get(f + "@" + kind, 0) + 1
        if f == "short":
            return "short"
        e = ERR[f]
        raise OSError(e, os.strerror(e), p)

    def mark_dead(self, nd):
        nd.dead = True
        for k in [k for k, v in self.flocks.items() if v[0] is nd]:
            self._unflock(k)

    def _unflock(self, k):
        own, waiters = self.flocks.pop(k)
        for w in waiters:
            if S.CURRENT is not None:
                S.CURRENT.wake(w)


class SimRaw(io.FileIO):
    def __init__(self, rp, mode, vp, fs, closefd=True, opener=None):
        super().__init__(rp, mode, closefd=closefd, opener=opener)
        self._vp = vp
        self._fs = fs
        self._node = fs.node()
        try:
            self.name = vp
        except Exception:
            pass

    def _dead(self):
        return self._node is not None and self._node.dead

    def readinto(self, b):
        if self._dead():
            raise NodeKilled()
        r = self._fs.event("read", self._vp)
        mv = memoryview(b).cast("B")
        if r == "short" and len(mv) > 1:
            mv = mv[: max(1, len(mv) // 7)]
            mv = mv[: 13 if len(mv) > 13 else len(mv)]
        return super().readinto(mv)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def readall(self):
        out = []
        while True:
            buf = bytearray(65536)
            n = self.readinto(buf)
            if not n:
                return b"".join(out)
            out.append(bytes(buf[:n]))

    def write(self, b):
        if self._dead():
            return len(memoryview(b).cast("B"))
        self._fs.event("write", self._vp)
        mv = memoryview(b).cast("B")
        if len(mv) > 1 and self._fs.armed:
            # a large write reaches the disk in pieces
            h = len(mv) // 2
            n = super().write(mv[:h])
            self._fs.stamp(self.fileno())
            self._fs.event("write", self._vp)
            mv = mv[h:]
        else:
            n = 0
        n += super().write(mv)
        self._fs.stamp(self.fileno())
        return n

    def truncate(self, size=None):
        if self._dead():
            raise NodeKilled()
        self._fs.event("write", self._vp)
        return super().truncate(size)

    def close(self):
        super().close()


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = FSOBJ
    if fs is None:
        return _real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if opener is not None and not isinstance(file, int):
        file = opener(file, os.O_RDWR | os.O_CREAT)
        opener = None
    if isinstance(file, int):
        if file not in fs.tracked:
            return _real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        rp, p = file, fs.tracked[file]
    else:
        p = _abs(file)
        writing = any(c in mode for c in "wax+")
        if fs._pass(p):
            return _real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if writing:
            fs.event("open_w", p)
            exists = fs.rpath(p) is not None and _real.exists(fs.rpath(p))
            if "x" in mode and exists:
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
            if "r" in mode and not exists:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
            rp = fs.wpath(p, copy="w" not in mode and "x" not in mode)
            fs.whiteouts.discard(p)
        else:
            if not fs.seam(p):
                return _real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            fs.event("open_r", p)
            rp = fs.rpath(p)
            if rp is None:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
    binary = "b" in mode
    rawmode = "".join(c for c in mode if c in "rwax+")
    try:
        raw = SimRaw(rp, rawmode, p, fs, closefd, None if isinstance(rp, int) else opener)
    except OSError as e:
        raise OSError(e.errno, e.strerror, p) from None
    if "w" in rawmode or "x" in rawmode:
        fs.stamp(raw.fileno())
    if binary and buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        b = io.BufferedRandom(raw, size)
    elif any(c in mode for c in "wax"):
        b = io.BufferedWriter(raw, size)
    else:
        b = io.BufferedReader(raw, size)
    if binary:
        return b
    t = io.TextIOWrapper(b, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


class _Entry(os.PathLike):
    def __init__(self, d, name):
        self.name = name
        self.path = os.path.join(d, name)

    def is_dir(self, *, follow_symlinks=True):
        return os.path.isdir(self.path)

    def is_file(self, *, follow_symlinks=True):
        return os.path.isfile(self.path)

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return os.stat(self.path)

    def __fspath__(self):
        return self.path


class _Scan:
    def __init__(self, es):
        self.es = iter(es)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.es)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _wrap_read(name, kind):
    real = getattr(os, name)
    setattr(_real, name, real)
    real_listdir = _real.listdir if hasattr(_real, "listdir") else None

    def f(path=".", *a, **k):
        fs = FSOBJ
        if fs is None or isinstance(path, int) or k.get("dir_fd") is not None:
            return real(path, *a, **k)
        p = _abs(path)
        if not fs.seam(p):
            return real(path, *a, **k)
        fs.event(kind, p)
        rp = fs.rpath(p)
        if rp is None:
            if name == "access":
                return False
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        if name in ("listdir", "scandir"):
            names = fs.merged(p, real_listdir)
            if names is None:
                names = sorted(real_listdir(rp))
            if fs.order is not None:
                # a file system lists a directory in any order
                random.Random("%s %s" % (fs.order, sorted(names))).shuffle(names)
            return names if name == "listdir" else _Scan([_Entry(p, n) for n in names])
        return real(rp, *a, **k)

    f.__name__ = name
    setattr(os, name, f)


def _wrap_write(name, kind, create=False):
    real = getattr(os, name)
    setattr(_real, name, real)

    def f(path, *a, **k):
        fs = FSOBJ
        if fs is None or isinstance(path, int) or k.get("dir_fd") is not None:
            return real(path, *a, **k)
        p = _abs(path)
        if fs._pass(p):
            return real(path, *a, **k)
        fs.event(kind, p)
        rp = fs.rpath(p)
        if create:
            if rp is not None and _real.exists(rp):
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
            rp = fs.wpath(p, copy=False)
            fs.whiteouts.discard(p)
            return real(rp, *a, **k)
        if rp is None or not _real.exists(rp):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        if name in ("unlink", "remove", "rmdir"):
            if rp.startswith(fs.ov):
                real(rp, *a, **k)
            fs.whiteouts.add(p)
            return None
        return real(fs.wpath(p), *a, **k)

    f.__name__ = name
    setattr(os, name, f)


def _wrap_move(name):
    real = getattr(os, name)
    setattr(_real, name, real)

    def f(src, dst, **k):
        fs = FSOBJ
        if fs is None:
            return real(src, dst, **k)
        a, b = _abs(src), _abs(dst)
        if fs._pass(a) and fs._pass(b):
            return real(src, dst, **k)
        fs.event("rename", b)
        rp = fs.rpath(a)
        if rp is None or not _real.exists(rp):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
        if fs.dev(a) != fs.dev(b):
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), a)
        wa = fs.wpath(a)
        wb = fs.wpath(b, copy=False)
        if name == "link":
            if _real.exists(wb) or (b not in fs.whiteouts and _real.exists(b)):
                raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), b)
            fs.whiteouts.discard(b)
            return real(wa, wb)
        real(wa, wb)
        fs.whiteouts.add(a)
        fs.whiteouts.discard(b)

    f.__name__ = name
    setattr(os, name, f)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = FSOBJ
    if fs is None or dir_fd is not None:
        return _real.os_open(path, flags, mode, dir_fd=dir_fd)
    p = _abs(path)
    if fs._pass(p):
        return _real.os_open(path, flags, mode)
    w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
    if not w:
        if not fs.seam(p):
            return _real.os_open(path, flags, mode)
        fs.event("open_r", p)
        rp = fs.rpath(p)
        if rp is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
    else:
        fs.event("open_w", p)
        cur = fs.rpath(p)
        exists = cur is not None and _real.exists(cur)
        if exists and flags & os.O_CREAT and flags & os.O_EXCL:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
        if not exists and not flags & os.O_CREAT:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
        rp = fs.wpath(p)
        fs.whiteouts.discard(p)
    fd = _real.os_open(rp, flags, mode)
    if w and (not exists or flags & os.O_TRUNC):
        fs.stamp(fd)
    fs.tracked[fd] = p
    return fd


def _os_write(fd, data):
    fs = FSOBJ
    if fs is not None and fd in fs.tracked:
        nd = fs.node()
        if nd is not None and nd.dead:
            return len(data)
        fs.event("write", fs.tracked[fd])
        n = _real.os_write(fd, data)
        fs.stamp(fd)
        return n
    return _real.os_write(fd, data)


def _os_read(fd, n):
    fs = FSOBJ
    if fs is not None and fd in fs.tracked:
        if fs.event("read", fs.tracked[fd]) == "short":
            n = max(1, n // 7)
    return _real.os_read(fd, n)


def _os_close(fd):
    fs = FSOBJ
    if fs is not None:
        fs.tracked.pop(fd, None)
    return _real.os_close(fd)


def _getpid():
    fs = FSOBJ
    if fs is not None:
        nd = fs.node()
        if nd is not None:
            return nd.pid
    return _real.getpid()


def _flock(fd, op):
    import fcntl

    fs = FSOBJ
    nd = None if fs is None else fs.node()
    if nd is None:
        return _real.flock(fd, op)
    if nd.dead:
        raise NodeKilled()
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    st = os.fstat(fd)
    k = (st.st_dev, st.st_ino)
    if op & fcntl.LOCK_UN:
        if k in fs.flocks and fs.flocks[k][0] is nd:
            fs._unflock(k)
        return
    s = S.CURRENT
    t = s.me()
    if getattr(s, "remote", False):
        # simulated processes: the kernel keeps the locks, waiting is simulated
        while True:
            try:
                return _real.flock(fd, op | fcntl.LOCK_NB)
            except BlockingIOError:
                if op & fcntl.LOCK_NB:
                    raise
                s.sleep(0.5)
    while k in fs.flocks and fs.flocks[k][0] is not nd:
        if op & fcntl.LOCK_NB:
            raise BlockingIOError(errno.EWOULDBLOCK, "locked")
        fs.flocks[k][1].append(t)
        s.block(t, "flock")
    if k not in fs.flocks:
        fs.flocks[k] = (nd, [])


# ------------------------------------------------------------------ network


class Net:
    """A scripted server.  Each request takes the next entry of the script; one marked "always" stays."""

    def __init__(self, body, script=()):
        self.body = body
        self.script = list(script)
        self.requests = 0
        self.log = []

    def open(self, fullurl, data=None, timeout=None):
        fs = FSOBJ
        nd = fs.node() if fs is not None else None
        if nd is not None and nd.dead:
            raise NodeKilled()
        self.requests += 1
        what = {"k": "ok"}
        if self.script:
            what = self.script[0] if self.script[0].get("always") else self.script.pop(0)
        url = fullurl if isinstance(fullurl, str) else fullurl.full_url
        self.log.append(what["k"])
        if fs is not None:
            fs.event("net_open", "net")
        s = S.CURRENT
        if s is not None and s.me() is not None and s.me().active:
            s.me().in_cb = False
            s.sleep(what.get("lat", 0.05))
        k = what["k"]
        if k == "refused":
            raise urllib.error.URLError(ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"))
        if k == "dns":
            raise urllib.error.URLError(OSError(-2, "Name or service not known"))
        if k == "timeout":
            raise urllib.error.URLError(TimeoutError("timed out"))
        hdr = email.message.Message()
        if k == "http":
            hdr["Content-Length"] = "11"
            raise urllib.error.HTTPError(url, what.get("code", 503), "Service Unavailable", hdr, io.BytesIO(b"unavailable"))
        hdr["Content-Length"] = str(len(self.body))
        hdr["Content-Type"] = "application/octet-stream"
        return urllib.response.addinfourl(Body(self.body, what), hdr, url, 200)


class Body(io.RawIOBase):
    def __init__(self, data, what):
        self.data = data
        self.what = what
        self.pos = 0
        self.at = int(len(data) * what.get("frac", 1.0))

    def readable(self):
        return True

    def _chunk(self, n):
        fs = FSOBJ
        if fs is not None:
            fs.event("net_read", "net")
        s = S.CURRENT
        if s is not None and s.me() is not None and s.me().active:
            s.sleep(self.what.get("lat", 0.01))
        k = self.what["k"]
        end = len(self.data)
        if k in ("reset", "short", "rtimeout"):
            end = self.at
            if self.pos >= end and k == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if self.pos >= end and k == "rtimeout":
                raise TimeoutError("The read operation timed out")
        n = min(n, self.what.get("mss", 1 << 30))
        out = self.data[self.pos: min(end, self.pos + n)]
        self.pos += len(out)
        return out

    def read(self, n=-1):
        if n is None or n < 0:
            out = []
            while self.pos < len(self.data):
                c = self._chunk(65536)
                if not c:
                    raise http.client.IncompleteRead(b"".join(out), len(self.data) - self.pos)
                out.append(c)
            return b"".join(out)
        if n == 0 or self.pos >= len(self.data):
            return b""
        out = []
        got = 0
        while got < n and self.pos < len(self.data):
            c = self._chunk(n - got)
            if not c:
                break
            out.append(c)
            got += len(c)
        return b"".join(out)

    read1 = read

    def readall(self):
        return self.read(-1)

    def readinto(self, b):
        c = self.read(len(b))
        b[: len(c)] = c
        return len(c)


NET = None


def _od_open(self, fullurl, data=None, timeout=None):
    if NET is not None:
        return NET.open(fullurl, data, timeout)
    raise urllib.error.URLError("no network in the simulation")


_done = False


def install():
    """Install the seam once; it is inert until FSOBJ is set."""
    global _done
    if _done:
        return
    _done = True
    import fcntl

    _real.open = builtins.open
    _real.unlink = os.unlink
    _real.listdir = os.listdir
    _real.os_open = os.open
    _real.os_write = os.write
    _real.os_read = os.read
    _real.os_close = os.close
    _real.getcwd = os.getcwd
    _real.getpid = os.getpid
    _real.flock = fcntl.flock
    st = os.stat

    def exists(p):
        try:
            st(p)
            return True
        except (OSError, ValueError):
            return False

    def isdir(p):
        try:
            return stat_.S_ISDIR(st(p).st_mode)
        except (OSError, ValueError):
            return False

    def isfile(p):
        try:
            return stat_.S_ISREG(st(p).st_mode)
        except (OSError, ValueError):
            return False

    mk = os.mkdir

    def makedirs(p, exist_ok=True):
        if not isdir(p):
            makedirs(os.path.dirname(p))
            try:
                mk(p)
            except FileExistsError:
                pass

    def copyfile(a, b):
        with _real.open(a, "rb") as f, _real.open(b, "wb") as g:
            g.write(f.read())

    sd = os.scandir

    def walk(top):
        ds, fs_ = [], []
        with sd(top) as it:
            for e in sorted(it, key=lambda x: x.name):
                (ds if e.is_dir(follow_symlinks=False) else fs_).append(e.name)
        yield top, ds, fs_
        for d in ds:
            yield from walk(os.path.join(top, d))

    _real.exists, _real.isdir, _real.isfile = exists, isdir, isfile
    _real.makedirs, _real.copyfile, _real.walk = makedirs, copyfile, walk
    builtins.open = _open
    io.open = _open
    os.open = _os_open
    os.write = _os_write
    os.read = _os_read
    os.close = _os_close
    os.getpid = _getpid
    fcntl.flock = _flock
    fcntl.lockf = lambda fd, op, *a: _flock(fd, op)
    for n in ("listdir", "stat", "lstat", "access", "scandir", "readlink"):
        _wrap_read(n, "stat")
    for n in ("unlink", "remove", "rmdir"):
        _wrap_write(n, "unlink")
    for n in ("chmod", "utime", "truncate"):
        _wrap_write(n, "stat" if n != "truncate" else "write")
    _wrap_write("mkdir", "mkdir", create=True)
    for n in ("rename", "replace", "link"):
        _wrap_move(n)
    shutil._USE_CP_SENDFILE = False
    tempfile._name_sequence = None
    urllib.request.OpenerDirector.open = _od_open
    try:
        import numpy.lib._datasource as d

        d._file_openers._load()
        d._file_openers._file_openers[None] = _open
    except Exception:
        pass


class _Names:
    """Deterministic temporary names."""

    def __init__(self, prefix="sim"):
        self.n = 0
        self.prefix = prefix

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return "%s%06d" % (self.prefix, self.n)


def activate(scratch):
    global FSOBJ
    FSOBJ = FS(scratch)
    _real.makedirs(FSOBJ.o("/tmp/simtmp"))
    tempfile.tempdir = "/tmp/simtmp"
    tempfile._name_sequence = _Names()
    return FSOBJ


def set_net(net):
    global NET
    NET = net


def real():
    return _real
