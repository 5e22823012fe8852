"""The file system as the code under test sees it: operations on paths below
chosen roots become scheduling points of the simulator, where errors, short
writes, disk-full and the death of the process can strike; everything else
passes through. The files themselves are real files in a scratch directory.

A "process" is a simulated task: when it is killed every later operation of it
raises Killed and changes nothing (not even flushing of buffers), so what other
processes find is what it had done until then.
"""
import builtins, errno, io, os
from . import sched
from .sched import current_task, current_sim


class Killed(BaseException):
    """The simulated process has died."""


class Process(object):
    """Fault plan and state of one simulated process."""
    def __init__(self, pid, faults=None, persistent=None, cut=0.5):
        self.cut = cut                      # how much of a torn write arrives
        self.pid = pid
        self.faults = {int(k): v for k, v in (faults or {}).items()}
        self.persistent = persistent        # None, "rofs", "full", "noread", "nostat"
        self.n = 0
        self.dead = False
        self.fired = []
        self.log = []


def oserr(name, path):
    code = getattr(errno, name)
    return OSError(code, os.strerror(code), str(path))


class Raw(io.FileIO):
    """A file of the simulated disk."""
    def __init__(self, disk, path, mode, opener=None):
        self._disk = disk
        self._process = current_task().process
        io.FileIO.__init__(self, path, mode)
        disk.fds[self.fileno()] = path

    def write(self, b):
        if self._process.dead:
            return len(b)                   # a buffer nobody will flush any more
        return self._disk.write(self.name, bytes(b), lambda x: io.FileIO.write(self, x))

    def readinto(self, b):
        self._disk.op("read", self.name)
        return io.FileIO.readinto(self, b)

    def readall(self):
        self._disk.op("read", self.name)
        return io.FileIO.readall(self)

    def truncate(self, size=None):
        self._disk.op("truncate", self.name)
        return io.FileIO.truncate(self, size)

    def close(self):
        if self.closed:
            return
        try:
            fd = self.fileno()
        except ValueError:
            fd = None
        self._disk.fds.pop(fd, None)
        io.FileIO.close(self)


READS = ("stat", "open-r", "read", "listdir", "access")


class Disk(object):
    def __init__(self, roots, hidden=()):
        self.roots = [os.path.realpath(str(r)) for r in roots]
        self.exact = [os.path.realpath(str(r)) for r in hidden]
        self.fds = {}
        self.active = False

    # -------------------------------------------------------------- matching
    def mine(self, path):
        if not self.active or path is None:
            return False
        t = current_task()
        if t is None or getattr(t, "process", None) is None:
            return False
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.path.abspath(os.fsdecode(path))
        except TypeError:
            return False
        return p in self.exact or any(p.startswith(r + os.sep) for r in self.roots)

    def label(self, path):
        if isinstance(path, int):
            path = self.fds.get(path, "fd")
        p = os.path.basename(os.fsdecode(path))
        return p if p in ("cddm.ini", ".cddm") else "tmp" if p.startswith("cddm.ini") or p.startswith("tmp") else p

    # ------------------------------------------------------------ operations
    def op(self, kind, path, after=False):
        """One operation is about to happen; returns a fault to apply after it."""
        t = current_task()
        p = getattr(t, "process", None) if t is not None else None
        if p is None or not self.active:
            return None
        if p.dead:
            raise Killed()
        sim = t.sim
        sim.yield_point("sync", kind)
        if p.dead:
            raise Killed()
        n = p.n
        p.n += 1
        lab = self.label(path)
        p.log.append((n, kind, lab))
        sim.event("fs", pid=p.pid, n=n, op=kind, path=lab)
        f = p.faults.get(n)
        if f is not None:
            p.fired.append((n, f, kind))
            sim.count("fault:%s" % f)
            if f == "kill":
                p.dead = True
                raise Killed()
            if f in ("EIO", "EACCES", "ENOSPC", "EINTR", "EMFILE", "EDQUOT"):
                raise oserr(f, path)
            return f                        # "kill-after", "EIO-after", "torn", "short"
        q = p.persistent
        if q == "rofs" and kind not in READS:
            sim.count("fault:read_only_file_system")
            p.fired.append((n, q, kind))
            raise oserr("EROFS", path)
        if q == "full" and kind in ("write", "mkdir", "open-w"):
            if kind == "write":
                sim.count("fault:disk_full")
                p.fired.append((n, q, kind))
                raise oserr("ENOSPC", path)
        if q == "noread" and kind in ("open-r", "read", "listdir"):
            sim.count("fault:unreadable")
            p.fired.append((n, q, kind))
            raise oserr("EACCES", path)
        if q == "nostat" and kind in ("stat", "access"):
            sim.count("fault:stat_fails")
            p.fired.append((n, q, kind))
            raise oserr("EIO", path)
        return None

    def finish(self, f, path):
        if f is None:
            return
        t = current_task()
        if f in ("kill-after", "torn", "short"):
            if f == "kill-after":
                t.process.dead = True
                raise Killed()
            return
        raise oserr("EIO", path)

    def write(self, path, data, real):
        f = self.op("write", path)
        if f in ("torn", "short") and len(data) > 1:
            t = current_task()
            k = int(t.process.cut * len(data))
            done = real(data[:k]) if k else 0
            if f == "torn":
                t.process.dead = True
                raise Killed()
            if not done:
                raise oserr("ENOSPC", path)
            # the rest does not fit
            t.process.faults[t.process.n] = "ENOSPC"
            return done
        r = real(data)
        self.finish(f, path)
        return r

    def sendfile(self, out, inn, offset, count):
        path = self.fds[out]
        f = self.op("write", path)
        if f in ("torn", "short"):
            t = current_task()
            size = max(1, os.fstat(inn).st_size - (offset or 0))
            k = int(t.process.cut * min(size, count))
            done = self.real["sendfile"](out, inn, offset, k) if k else 0
            if f == "torn":
                t.process.dead = True
                raise Killed()
            if not done:
                raise oserr("ENOSPC", path)
            t.process.faults[t.process.n] = "ENOSPC"
            return done
        r = self.real["sendfile"](out, inn, offset, count)
        self.finish(f, path)
        return r

    # -------------------------------------------------------------- patching
    ONE = dict(stat="stat", lstat="stat", mkdir="mkdir", unlink="unlink", remove="unlink", rmdir="rmdir", chmod="chmod", utime="utime", listdir="listdir", scandir="listdir",
               access="access", truncate="truncate", readlink="stat", fsync="fsync", fdatasync="fsync", ftruncate="truncate", fchmod="chmod", setxattr="chmod", chown="chmod", lchown="chmod")
    TWO = dict(rename="rename", replace="rename", link="link", symlink="link")

    def __enter__(self):
        self.real = {}
        self.active = True
        D = self

        def patch(name, fn):
            if hasattr(os, name):
                self.real[name] = getattr(os, name)
                setattr(os, name, fn)

        def one(name, kind):
            if not hasattr(os, name):
                return
            real = getattr(os, name)

            def f(path=".", *a, **kw):
                if not D.mine(path):
                    return real(path, *a, **kw)
                after = D.op(kind, path)
                r = real(path, *a, **kw)
                D.finish(after, path)
                return r
            patch(name, f)

        def two(name, kind):
            real = getattr(os, name)

            def f(src, dst, *a, **kw):
                if not (D.mine(src) or D.mine(dst)):
                    return real(src, dst, *a, **kw)
                after = D.op(kind, dst)
                r = real(src, dst, *a, **kw)
                D.finish(after, dst)
                return r
            patch(name, f)
        for k, v in self.ONE.items():
            one(k, v)
        for k, v in self.TWO.items():
            two(k, v)

        real_open, real_oswrite, real_close, real_read = os.open, os.write, os.close, os.read

        def os_open(path, flags, *a, **kw):
            if not D.mine(path):
                return real_open(path, flags, *a, **kw)
            after = D.op("open-w" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) else "open-r", path)
            fd = real_open(path, flags, *a, **kw)
            D.fds[fd] = path
            if after is not None and after not in ("torn", "short"):
                os_close(fd)
                D.finish(after, path)
            return fd

        def os_close(fd):
            D.fds.pop(fd, None)
            return real_close(fd)

        def os_write(fd, data):
            if not D.mine(fd):
                return real_oswrite(fd, data)
            return D.write(D.fds[fd], bytes(data), lambda x: real_oswrite(fd, x))

        def os_read(fd, n):
            if D.mine(fd):
                D.op("read", D.fds[fd])
            return real_read(fd, n)

        def sendfile(out, inn, offset, count, *a, **kw):
            if not D.mine(out):
                return D.real["sendfile"](out, inn, offset, count, *a, **kw)
            return D.sendfile(out, inn, offset, count)
        patch("open", os_open)
        patch("close", os_close)
        patch("write", os_write)
        patch("read", os_read)
        patch("sendfile", sendfile)
        if hasattr(os, "copy_file_range"):
            def cfr(src, dst, *a, **kw):
                if D.mine(dst):
                    raise oserr("EXDEV", "fd")
                return D.real["copy_file_range"](src, dst, *a, **kw)
            patch("copy_file_range", cfr)

        def getpid():
            t = current_task()
            p = getattr(t, "process", None) if t is not None else None
            return p.pid if p is not None and D.active else D.real["getpid"]()
        patch("getpid", getpid)
        self.real_builtin = builtins.open

        def open_(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int) or opener is not None or not D.mine(file):
                return D.real_builtin(file, mode, buffering, encoding, errors, newline, closefd, opener)
            return D.open(file, mode, buffering, encoding, errors, newline)
        builtins.open = io.open = open_
        return self

    def open(self, file, mode, buffering, encoding, errors, newline):
        file = os.fspath(file)
        m = set(mode)
        binary, text = "b" in m, "b" not in m
        rawmode = "".join(c for c in mode if c in "rwxa+")
        writing = bool(m & set("wxa+"))
        after = self.op("open-w" if writing else "open-r", file)
        raw = Raw(self, file, rawmode)
        if after is not None and after not in ("torn", "short"):
            raw.close()
            self.finish(after, file)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in m:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        t.mode = mode
        return t

    def __exit__(self, *a):
        self.active = False
        builtins.open = io.open = self.real_builtin
        for k, v in self.real.items():
            setattr(os, k, v)
