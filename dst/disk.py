"""Simulated disk.

Files live in a private scratch directory of the real (tmpfs) file system, so every
way of naming, listing, renaming or replacing a file that library code may use works
as usual; but every byte that is opened, read, written, flushed, closed, renamed or
deleted under that directory passes through the devices below, which decide what
happens to it.  Python-level buffers (BufferedWriter, TextIOWrapper) sit on top of the
device as they do in reality: data still in them is lost in a crash.
"""
import builtins
import errno
import io
import os
import shutil
import sys
import tempfile

from kernel import HarnessError, Patches, SimCrash

REAL_OPEN = io.open
REAL = {n: getattr(os, n) for n in
        ("rename", "replace", "remove", "unlink", "link", "open", "close", "read", "write", "pread", "pwrite", "writev", "fsync", "fdatasync", "truncate",
         "ftruncate", "listdir") if hasattr(os, n)}

ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE, "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT,
         "EAGAIN": errno.EAGAIN, "ETIMEDOUT": errno.ETIMEDOUT, "ESTALE": errno.ESTALE, "EPERM": errno.EPERM, "ECONNRESET": errno.ECONNRESET, "EINTR": errno.EINTR,
         "ENOENT": errno.ENOENT}
ERRORS = ["EIO", "EIO", "ENOSPC", "ENOSPC", "EACCES", "EACCES", "EDQUOT", "EMFILE", "EROFS", "EAGAIN", "ETIMEDOUT", "ESTALE", "EPERM", "ECONNRESET"]


def draw_frac(rng):
    """How much of a cut write gets through: nothing and everything are cases of their own."""
    x = rng.random()
    return 0.0 if x < 0.2 else 1.0 if x < 0.26 else round(rng.random(), 4)


class SimRaw(io.FileIO):
    """The device end of one open file."""

    def __init__(self, disk, path, mode, opener=None, closefd=True, name=None):
        self._disk = disk
        self._dead = False
        self._sim_closed = False
        self._counted = False
        self._broken = None
        self._writes = 0
        if opener is None:
            super().__init__(path, mode, closefd=closefd)
        else:
            super().__init__(path, mode, closefd=closefd, opener=opener)
        self._path = path if name is None else name  # never a descriptor: those differ from run to run
        self._owner = disk.sim.current
        disk.handles.append(self)
        self._counted = True

    def write(self, b):
        if self._dead:
            return len(b)
        d = self._disk
        n = memoryview(b).nbytes
        lim = d.write_chunk
        if lim:
            # a device that takes little at once takes more after a while: long files stay affordable
            self._writes += 1
            lim <<= min(20, self._writes // 200)
        if lim and n > lim:
            b = memoryview(b).cast("B")[:lim]
            n = lim
            d.sim.stats["short_writes"] += 1
        f = self._broken or d.event("write", self._path, n)
        if self._dead:
            return n
        if f:
            k = 0 if self._broken else min(n - 1, int(n * f.get("frac", 0)))
            if k > 0:
                super().write(memoryview(b).cast("B")[:k])
                d.stamp(self)
            if f["kind"] != "crash":
                # as POSIX does: a partial transfer is a short count, the error comes
                # with the next call; a handle that failed keeps failing, so what is
                # on the device is always a prefix of what was written
                self._broken = f
                if k > 0:
                    return k
            d.apply(f, self._path)
        n = super().write(b)
        d.stamp(self)
        return n

    def _read_fault(self):
        f = self._disk.event("read", self._path)
        if f:
            self._disk.apply(f, self._path)

    def readinto(self, b):
        if self._dead:
            raise SimCrash()
        self._read_fault()
        lim = self._disk.read_chunk
        if lim and len(b) > lim:
            mv = memoryview(b)[:lim]
            return super().readinto(mv)
        return super().readinto(b)

    def read(self, n=-1):
        if self._dead:
            raise SimCrash()
        self._read_fault()
        lim = self._disk.read_chunk
        if n is None or n < 0:
            return self.readall()
        if lim and n > lim:
            n = lim
        return super().read(n)

    def readall(self):
        if self._dead:
            raise SimCrash()
        self._read_fault()
        return super().readall()

    def truncate(self, size=None):
        if self._dead:
            return 0
        size = self.tell() if size is None else size
        self._disk.cut(self._path, size, lambda: super(SimRaw, self).truncate(size))
        self._disk.stamp(self)
        return size

    def close(self):
        if self._sim_closed:
            return super().close()
        self._sim_closed = True
        d = getattr(self, "_disk", None)
        try:
            if d is not None and self._counted and not self._dead and not self.closed:
                f = d.event("close", self._path)
                if f:
                    if f["kind"] != "crash" and self.writable():
                        # a delayed write error reported by close: the tail is gone
                        try:
                            super().truncate(int(os.fstat(self.fileno()).st_size * f.get("frac", 0)))
                        except OSError:
                            pass
                    d.apply(f, self._path)
        finally:
            if d is not None and self in d.handles:
                d.handles.remove(self)
            super().close()

    def __del__(self):
        # a late finalizer must not create seam events
        self._sim_closed = True
        try:
            super().close()
        except Exception:
            pass


class Descriptor:
    """An open file library code reaches through os.open rather than open."""

    closed = False

    def __init__(self, disk, fd, path, flags):
        self.fd, self._path, self._owner = fd, path, disk.sim.current
        self.writes = 0
        self.broken = None
        self._dead = False
        self.writing = bool(flags & (os.O_WRONLY | os.O_RDWR))

    def fileno(self):
        return self.fd


class Disk:
    def __init__(self, sim, root):
        self.sim = sim
        sim.disk = self
        self.root = os.path.realpath(root)
        self.patches = Patches()
        self.handles = []
        self.fds = {}
        self.dead = False
        self.write_chunk = sim.cfg.get("write_chunk") or None
        self.read_chunk = sim.cfg.get("read_chunk") or None
        self.fired = []
        self.bypass = 0
        self.grain = max(1, int(sim.cfg.get("mtime_grain") or 1))

    # ------------------------------------------------------------- faults
    def arm(self, faults):
        """Arm faults for the calling client: each {"on", "nth", "kind", "frac"}."""
        t = self.sim.current
        faults = [dict(f, _left=f.get("nth", 0)) for f in (faults or ())]
        if t is None:
            self._main_faults = faults
        else:
            t.disk_faults = faults
        self.fired = []

    def disarm(self):
        t = self.sim.current
        if t is None:
            self._main_faults = []
        else:
            t.disk_faults = []
        fired, self.fired = self.fired, []
        return fired

    _main_faults = ()

    def event(self, cls, path, detail=""):
        """A device event; returns the fault to apply, if any."""
        if self.bypass:
            return None
        sim = self.sim
        if self.dead:
            raise SimCrash()
        sim.event("io:" + cls, "%s %s" % (os.path.basename(str(path)) if sim.cfg.get("log_paths", 1) else "", detail))
        if self.dead:
            raise SimCrash()
        sim.stats["io_" + cls] += 1
        t = sim.current
        faults = t.disk_faults if t is not None else self._main_faults
        for f in faults:
            if f.get("_spent") or (f.get("after") and not faults[0].get("_spent")):
                continue
            if f["on"] == cls or f["on"] == "any" or (f["on"] == "meta" and cls in ("rename", "replace", "remove")):
                if f["_left"] > 0:
                    f["_left"] -= 1
                    continue
                if not f.get("sticky"):
                    f["_spent"] = True
                else:
                    f["_hit"] = True
                if not f.get("_hit_logged"):
                    f["_hit_logged"] = True
                    sim.fault("%s@%s" % (f["kind"], cls))
                self.fired.append((f["kind"], cls))
                if t is not None:
                    t.local.setdefault("fired", []).append((f["kind"], cls))
                return f
        return None

    def apply(self, f, path):
        k = f["kind"]
        if k == "crash":
            self.sim.crashed = True
            self.die()
            raise SimCrash()
        if k in ERRNO:
            raise OSError(ERRNO[k], os.strerror(ERRNO[k]) + " [injected]", str(path))
        raise HarnessError("unknown disk fault %r" % k)

    def die(self):
        self.dead = True
        for h in self.handles:
            h._dead = True

    def cut(self, path, size, act):
        """A truncation: a change of the file like a write."""
        f = self.event("write", path, "truncate %d" % size)
        if f:
            if f["kind"] == "crash" and f.get("frac", 0) >= 0.5:
                act()
            self.apply(f, path)
        act()

    def adopted(self, fd):
        """The descriptor is from here on a file object's."""
        self.fds.pop(fd, None)

    def revive(self):
        for fd in list(self.fds):
            try:
                REAL["close"](fd)
            except OSError:
                pass
        self.fds = {}
        for h in list(self.handles):
            h._dead = True
            h._sim_closed = True
            try:
                io.FileIO.close(h)
            except Exception:
                pass
        self.handles = []
        self.dead = False
        self._main_faults = ()
        self.fired = []

    def stamp(self, raw):
        """Modification times come from the simulated clock, as finely as the simulated file system keeps them."""
        t = int(self.sim.clock.wall() * 1e9) // self.grain * self.grain
        try:
            os.utime(raw.fileno(), ns=(t, t))
        except (OSError, ValueError, OverflowError):
            pass

    # ---------------------------------------------------------- file names
    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def path(self, name):
        return os.path.join(self.root, name)

    # ------------------------------------------------------- harness access
    def raw_read(self, name):
        try:
            with io.FileIO(self.path(name), "r") as f:
                return f.readall()
        except FileNotFoundError:
            return None

    def raw_write(self, name, data):
        with io.FileIO(self.path(name), "w") as f:
            f.write(data)
            self.stamp(f)

    def names(self):
        return sorted(REAL["listdir"](self.root))

    def wipe(self):
        with no_faults(self):
            self._wipe()

    def _wipe(self):
        for n in self.names():
            p = self.path(n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                REAL["unlink"](p)

    def open_handles(self, owner=None):
        return [h for h in self.handles + [self.fds[n] for n in sorted(self.fds)] if not h.closed and (owner is None or h._owner is owner)]

    # ------------------------------------------------------------ patching
    def install(self):
        P = self.patches
        disk = self

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            name = file
            if isinstance(file, int) and not isinstance(file, bool) and not disk.bypass:
                try:
                    name = os.readlink("/proc/self/fd/%d" % file)
                except OSError:
                    name = file
            if disk.bypass or isinstance(name, int) or not disk.inside(name):
                return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            binary = "b" in mode
            raw_mode = mode.replace("b", "").replace("t", "").replace("U", "")
            if not raw_mode or set(mode) - set("rwxabt+U") or len(mode) > len(set(mode)):
                return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if binary and (encoding is not None or newline is not None or errors is not None):
                return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            # wrapping a descriptor opens nothing
            f = disk.event("open", name, mode) if file is name else None
            if f:
                # a crash "in" open may happen before or after truncation took effect
                if f["kind"] == "crash" and f.get("frac", 0) >= 0.5 and set(raw_mode) & set("wx"):
                    io.FileIO(name, raw_mode).close()
                disk.apply(f, name)
            raw = SimRaw(disk, file, raw_mode, opener, closefd, name)
            if isinstance(file, int) and closefd:
                disk.adopted(file)
            elif opener is not None:
                disk.adopted(raw.fileno())
            if set(raw_mode) & set("wx"):
                disk.stamp(raw)
            if raw_mode.startswith("a"):
                raw.seek(0, 2)
            if buffering == 0:
                if not binary:
                    raw.close()
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            line_buffering = buffering == 1 and not binary
            bufsize = io.DEFAULT_BUFFER_SIZE if buffering < 2 else buffering
            if disk.sim.cfg.get("bufsize"):
                bufsize = disk.sim.cfg["bufsize"]
            if "+" in raw_mode:
                buf = io.BufferedRandom(raw, bufsize)
            elif raw_mode[0] in "wax":
                buf = io.BufferedWriter(raw, bufsize)
            else:
                buf = io.BufferedReader(raw, bufsize)
            if binary:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
            text.mode = mode
            return text

        P.set(builtins, "open", sim_open)
        P.set(io, "open", sim_open)

        def meta2(name):
            real = REAL[name]

            def fn(src, dst, *a, **k):
                if disk.bypass or not (disk.inside(src) or disk.inside(dst)):
                    return real(src, dst, *a, **k)
                f = disk.event(name, dst)
                if f:
                    if f["kind"] == "crash" and f.get("frac", 0) >= 0.5:
                        real(src, dst, *a, **k)
                    disk.apply(f, dst)
                return real(src, dst, *a, **k)

            return fn

        def meta1(name):
            real = REAL[name]

            def fn(path, *a, **k):
                if disk.bypass or isinstance(path, int) or not disk.inside(path):
                    return real(path, *a, **k)
                f = disk.event("remove", path)
                if f:
                    if f["kind"] == "crash" and f.get("frac", 0) >= 0.5:
                        real(path, *a, **k)
                    disk.apply(f, path)
                return real(path, *a, **k)

            return fn

        self.install_descriptors(P)
        P.set(os, "rename", meta2("rename"))
        P.set(os, "replace", meta2("replace"))
        P.set(os, "link", meta2("link"))
        P.set(os, "remove", meta1("remove"))
        P.set(os, "unlink", meta1("unlink"))
        if hasattr(shutil, "_USE_CP_SENDFILE"):
            P.set(shutil, "_USE_CP_SENDFILE", False)  # copies go through the devices
        P.rebind()

    def install_descriptors(self, P):
        """Files opened, read and written as bare descriptors pass through the same device."""
        disk = self

        def of(fd):
            return None if disk.bypass else disk.fds.get(fd)

        def os_open(path, flags, mode=0o777, *a, **k):
            if disk.bypass or k.get("dir_fd") is not None or isinstance(path, int) or not disk.inside(path) or flags & os.O_DIRECTORY or os.path.isdir(path):
                return REAL["open"](path, flags, mode, *a, **k)
            f = disk.event("open", path, "flags")
            if f:
                if f["kind"] == "crash" and f.get("frac", 0) >= 0.5 and flags & (os.O_CREAT | os.O_TRUNC):
                    REAL["close"](REAL["open"](path, flags, mode, *a, **k))
                disk.apply(f, path)
            fd = REAL["open"](path, flags, mode, *a, **k)
            disk.fds[fd] = Descriptor(disk, fd, path, flags)
            if flags & os.O_TRUNC:
                disk.stamp(disk.fds[fd])
            return fd

        def taken(h, n):
            """How many of n bytes the device takes now."""
            lim = disk.write_chunk
            if lim:
                h.writes += 1
                lim <<= min(20, h.writes // 200)
                if n > lim:
                    n = lim
                    disk.sim.stats["short_writes"] += 1
            return n

        def put(h, data, real):
            data = memoryview(data).cast("B")
            data = data[:taken(h, len(data))]
            f = h.broken or disk.event("write", h._path, len(data))
            if f:
                k = 0 if h.broken else min(len(data) - 1, int(len(data) * f.get("frac", 0)))
                if k > 0:
                    real(data[:k])
                    disk.stamp(h)
                if f["kind"] != "crash":
                    h.broken = f
                    if k > 0:
                        return k
                disk.apply(f, h._path)
            n = real(data)
            disk.stamp(h)
            return n

        def os_write(fd, data):
            h = of(fd)
            return REAL["write"](fd, data) if h is None else put(h, data, lambda d: REAL["write"](fd, d))

        def os_pwrite(fd, data, offset):
            h = of(fd)
            return REAL["pwrite"](fd, data, offset) if h is None else put(h, data, lambda d: REAL["pwrite"](fd, d, offset))

        def os_writev(fd, buffers):
            h = of(fd)
            return REAL["writev"](fd, buffers) if h is None else put(h, b"".join(bytes(b) for b in buffers), lambda d: REAL["write"](fd, d))

        def get(h, n):
            f = disk.event("read", h._path)
            if f:
                disk.apply(f, h._path)
            return min(n, disk.read_chunk) if disk.read_chunk else n

        def os_read(fd, n):
            h = of(fd)
            return REAL["read"](fd, n if h is None else get(h, n))

        def os_pread(fd, n, offset):
            h = of(fd)
            return REAL["pread"](fd, n if h is None else get(h, n), offset)

        def os_close(fd):
            h = of(fd)
            if h is None:
                return REAL["close"](fd)
            del disk.fds[fd]
            try:
                f = disk.event("close", h._path)
                if f:
                    if f["kind"] != "crash" and h.writing:
                        REAL["ftruncate"](fd, int(os.fstat(fd).st_size * f.get("frac", 0)))
                    disk.apply(f, h._path)
            finally:
                REAL["close"](fd)

        def os_ftruncate(fd, size):
            h = of(fd)
            if h is None:
                return REAL["ftruncate"](fd, size)
            disk.cut(h._path, size, lambda: REAL["ftruncate"](fd, size))
            disk.stamp(h)

        def os_truncate(path, size):
            if isinstance(path, int):
                return os_ftruncate(path, size)
            if disk.bypass or not disk.inside(path):
                return REAL["truncate"](path, size)
            disk.cut(path, size, lambda: REAL["truncate"](path, size))

        def sync(name):
            def fn(fd):
                n = fd if isinstance(fd, int) else fd.fileno()
                if not disk.bypass:
                    try:
                        path = os.readlink("/proc/self/fd/%d" % n)
                    except OSError:
                        path = ""
                    if path and disk.inside(path):
                        f = disk.event("sync", path)
                        if f:
                            disk.apply(f, path)
                return REAL[name](n)
            return fn

        for name, fn in [("open", os_open), ("write", os_write), ("pwrite", os_pwrite), ("writev", os_writev), ("read", os_read), ("pread", os_pread), ("close", os_close),
                         ("ftruncate", os_ftruncate), ("truncate", os_truncate), ("fsync", sync("fsync")), ("fdatasync", sync("fdatasync"))]:
            if name in REAL:
                P.set(os, name, fn)

    def uninstall(self):
        self.patches.undo()


class no_faults:
    """Harness-side access to the simulated directory, invisible to the simulation."""

    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        self.disk.bypass += 1

    def __exit__(self, *a):
        self.disk.bypass -= 1


def scratch_root():
    for base in ("/dev/shm", tempfile.gettempdir()):
        try:
            d = tempfile.mkdtemp(prefix="zqcdst.", dir=base)
            return d
        except OSError:
            continue
    raise HarnessError("no scratch directory")
