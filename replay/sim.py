"""stand-ins for the operating system: descriptors of simulated files are real
descriptors of scratch files, every call on them is intercepted and recorded.
Must be imported before the code under test."""
import builtins
import errno
import fcntl
import io
import os
import stat

REAL = {n: getattr(os, n) for n in ("fstat", "stat", "ftruncate", "truncate", "fsync", "fdatasync", "lseek", "write", "pwrite",
                                    "read", "close", "posix_fallocate", "sync") if hasattr(os, n)}
REAL["exists"] = os.path.exists
REAL["open"] = builtins.open
REAL["ioctl"] = fcntl.ioctl
FDS = {}            # descriptor -> SimDest
KNOBS = {}          # path suffix -> Knob


def _wrap(name):
    real = REAL[name]

    def f(fd, *a, **k):
        s = FDS.get(fd) if isinstance(fd, int) else None
        if s is None and hasattr(fd, "fileno") and not isinstance(fd, int):
            try:
                s = FDS.get(fd.fileno())
            except Exception:
                s = None
        if s is None:
            return real(fd, *a, **k)
        return getattr(s, "os_" + name)(*a, **k)
    f.__name__ = name
    return f


for _n in ("fstat", "ftruncate", "fsync", "fdatasync", "lseek", "write", "pwrite", "posix_fallocate"):
    if _n in REAL:
        setattr(os, _n, _wrap(_n))
os.truncate = _wrap("truncate")


def _exists(p):
    if isinstance(p, str) and p.startswith("/sys/dev/block/"):
        s = KNOBS.get("exists")
        return bool(s) and s(p)
    return REAL["exists"](p)


os.path.exists = _exists


def _open(path, mode="r", *a, **k):
    if isinstance(path, str) and path.startswith("/sys/"):
        for sfx, knob in KNOBS.items():
            if sfx != "exists" and path.endswith(sfx):
                return knob.open(mode)
        raise FileNotFoundError(errno.ENOENT, "no such simulated file", path)
    return REAL["open"](path, mode, *a, **k)


builtins.open = _open
io.open = _open


class Clock:
    t = 0


class SimDest:
    """destination with a user-level buffer, a kernel file, and faults"""

    def __init__(self, scratch, kind, faults=None, capacity=0, old=b"", bufsize=0, path="dest", rdev=(251, 250)):
        self.name = os.path.join(scratch, path)
        with REAL["open"](self.name, "wb"):
            pass
        self.fd = os.open(self.name, os.O_RDWR)
        FDS[self.fd] = self
        self.kind, self.capacity = kind, capacity
        self.rdev = rdev
        self.data = bytearray(old)
        self.buf = []           # pending (offset, bytes)
        self.buflen = 0
        self.bufsize = bufsize
        self.pos = self.kpos = 0
        self.ops = []
        self.faults = faults or {}
        self.counts = {}
        self.failed = []
        self.synced = True
        self.ranges = []        # all writes that reached write()
        self.since = 0
        self.max_since = 0
        self.closed = False
        self.nosparse = False

    def drop(self):
        FDS.pop(self.fd, None)
        try:
            REAL["close"](self.fd)
        except OSError:
            pass

    def op(self, name, *a):
        self.ops.append((name,) + a)
        n = self.counts[name] = self.counts.get(name, 0) + 1
        f = self.faults.get(name)
        if f is not None and n == f[0]:
            self.failed.append(name)
            e = OSError(f[1], "simulated %s failure" % name)
            raise e

    # file object
    def fileno(self):
        return self.fd

    def seek(self, off, whence=0):
        self.op("seek", off, whence)
        if whence == 2:
            off += max(len(self.data), self.capacity if self.kind == "blk" else 0)
        elif whence == 1:
            off += self.pos
        self.pos = off
        return off

    def tell(self):
        return self.pos

    def write(self, b):
        self.op("write", self.pos, len(b))
        b = bytes(b)
        self.ranges.append((self.pos, len(b)))
        self.buf.append((self.pos, b))
        self.buflen += len(b)
        self.pos += len(b)
        self.since += len(b)
        self.max_since = max(self.max_since, self.since)
        self.synced = False
        if self.buflen > self.bufsize:
            self._drain()
        return len(b)

    def _drain(self):
        for off, b in self.buf:
            self._kwrite(off, b)
        self.buf = []
        self.buflen = 0

    def _kwrite(self, off, b):
        if self.kind == "null":
            return
        if len(self.data) < off + len(b):
            self.data.extend(bytes(off + len(b) - len(self.data)))
        self.data[off:off + len(b)] = b

    def flush(self):
        self.op("flush")
        self._drain()

    def truncate(self, n=None):
        self.flush()
        self.os_ftruncate(self.pos if n is None else n)

    def close(self):
        if not self.closed:
            self.closed = True
            self._drain()

    def writable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # kernel
    def os_fstat(self):
        mode = {"reg": stat.S_IFREG, "blk": stat.S_IFBLK, "null": stat.S_IFCHR, "chr": stat.S_IFCHR}[self.kind] | 0o644
        rdev = {"reg": 0, "null": os.makedev(1, 3), "blk": os.makedev(*self.rdev), "chr": os.makedev(5, 1)}[self.kind]
        st = REAL["fstat"](self.fd)
        d = {k: getattr(st, k) for k in dir(st) if k.startswith("st_")}
        t = list(st)
        t[0] = mode
        t[6] = len(self.data) if self.kind == "reg" else 0
        d["st_rdev"] = rdev
        d["st_size"] = t[6]
        d["st_mode"] = mode
        return os.stat_result(t, d)

    def os_ftruncate(self, n):
        self.op("ftruncate", n)
        if self.kind != "reg":
            raise OSError(errno.EINVAL, "not a regular file")
        if n < len(self.data):
            del self.data[n:]
        else:
            self.data.extend(bytes(n - len(self.data)))
        self.synced = False

    os_truncate = os_ftruncate

    def os_fsync(self):
        self.op("fsync")
        if self.kind == "null":
            raise OSError(errno.EINVAL, "no fsync here")
        if not self.buf:
            self.synced = True
        self.since = 0

    os_fdatasync = os_fsync

    def os_lseek(self, off, whence):
        self.op("lseek", off, whence)
        end = self.capacity if self.kind == "blk" else len(self.data)
        self.kpos = {0: 0, 1: self.kpos, 2: end}[whence] + off
        self.pos = self.kpos
        return self.kpos

    def os_write(self, b):
        return self.os_pwrite(b, self.kpos)

    def os_pwrite(self, b, off):
        self.op("write", off, len(b))
        self.ranges.append((off, len(b)))
        self._kwrite(off, bytes(b))
        self.synced = False
        self.since += len(b)
        self.max_since = max(self.max_since, self.since)
        return len(b)

    def os_posix_fallocate(self, off, n):
        self.op("fallocate", off, n)


class SimImage:
    """image: file-like object supporting read() and forward seek()"""
    stand_in = True

    def __init__(self, data, faults=None, name="/nonexistent/image"):
        self.data, self.name = data, name
        self.pos = 0
        self.faults = faults or {}
        self.counts = {}
        self.failed = []

    def op(self, name):
        n = self.counts[name] = self.counts.get(name, 0) + 1
        f = self.faults.get(name)
        if f is not None and n == f[0]:
            self.failed.append(name)
            if f[1] == "foreign":
                raise RuntimeError("simulated decoder failure")
            raise OSError(f[1], "simulated %s failure" % name)

    def seek(self, off, whence=0):
        self.op("imgseek")
        assert whence == 0 and off >= 0
        if off < self.pos:
            raise OSError(errno.ESPIPE, "backward seek on the image")
        self.pos = off
        return off

    def tell(self):
        return self.pos

    def read(self, n=-1):
        self.op("imgread")
        if n is None or n < 0:
            n = len(self.data)
        b = self.data[self.pos:self.pos + n]
        self.pos += len(b)
        return b


class Knob:
    """sysfs setting"""

    def __init__(self, text, fail=()):
        self.text = text                # what is shown; [x] marks the selected option
        self.fail = set(fail)           # (operation, n-th)
        self.n = {}
        self.writes = []
        self.reads = 0
        self.failed = []

    def value(self):
        t = self.text.strip()
        if "[" in t:
            return t.split("[")[1].split("]")[0]
        return t

    def op(self, name):
        n = self.n[name] = self.n.get(name, 0) + 1
        if (name, n) in self.fail:
            self.failed.append((name, n))
            raise PermissionError(errno.EACCES, "simulated knob %s failure" % name)

    def set(self, v):
        v = v.strip()
        if "[" in self.text:
            opts = self.text.strip().replace("[", "").replace("]", "").split(" ")
            if v not in opts:
                raise OSError(errno.EINVAL, "no such option %r" % v)
            self.text = " ".join("[%s]" % o if o == v else o for o in opts) + "\n"
        else:
            self.text = v + "\n"

    def open(self, mode):
        w = "w" in mode or "+" in mode or "a" in mode
        self.op("open" + ("w" if w else "r"))
        return KnobFile(self, w)


class KnobFile:
    def __init__(self, knob, w):
        self.k, self.w = knob, w
        self.pend = None

    def read(self, n=-1):
        self.k.op("read")
        self.k.reads += 1
        return self.k.text

    readline = read

    def __iter__(self):
        return iter([self.read()])

    def write(self, v):
        assert isinstance(v, str)
        self.k.op("write")
        self.pend = v
        return len(v)

    def flush(self):
        if self.pend is not None:
            v, self.pend = self.pend, None
            self.k.op("flush")
            self.k.writes.append(v)
            self.k.set(v)

    def close(self):
        self.flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if a[0] is not None:
            self.pend = None
        self.close()
        return False
