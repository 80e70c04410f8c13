"""block maps against a simulated kernel (fcntl.ioctl and os.lseek replaced)"""
import errno
import os
import struct
import fcntl
import tempfile
from bmaptools import Filemap, BmapHelpers


def runs(bits):
    out = []
    for i, b in enumerate(bits):
        if b:
            if out and out[-1][1] == i - 1:
                out[-1][1] = i
            else:
                out.append([i, i])
    return out


class Kernel:
    """file with a block map; FIEMAP and SEEK_* as documented"""

    def __init__(self, case):
        self.c = case
        self.bs = case["bs"]
        self.size = case["size"]
        self.exts = case["exts"]          # [first, last] block extents
        self.calls = 0
        self.failed = False
        self.real_lseek = os.lseek
        self.real_ioctl = fcntl.ioctl

    def ioctl(self, f, req, arg=0, mutate=True):
        if req == 2:
            return struct.pack("I", self.bs)
        assert req == 0xC020660B, "unknown ioctl %x" % req
        self.calls += 1
        err = self.c.get("fiemap_err")
        if err and self.calls > self.c.get("err_after", 0):
            self.failed = True
            raise OSError(err, os.strerror(err))
        start, length, flags, _, cap, _ = struct.unpack("=QQLLLL", bytes(arg[:32]))
        assert len(arg) >= 32 + 56 * cap
        es = [(a * self.bs, (b + 1) * self.bs) for a, b in self.exts]
        if flags & ~1:
            raise OSError(errno.EBADR, "flags")
        es = [(i, a, b) for i, (a, b) in enumerate(es) if b > start and a < start + length]
        n = min(cap, len(es))
        out = struct.pack("=QQLLLL", start, length, flags, n, cap, 0)
        for i, a, b in es[:n]:
            last = 1 if i == len(self.exts) - 1 else 0
            out += struct.pack("=QQQQQLLLL", a, 7 * self.bs + a, b - a, 0, 0, last, 0, 0, 0)
        data = bytearray(arg)
        data[:len(out)] = out
        for i in range(len(out)):
            arg[i] = out[i]
        return 0

    def lseek(self, fd, off, whence):
        if whence not in (os.SEEK_DATA, os.SEEK_HOLE):
            return self.real_lseek(fd, off, whence)
        st = os.fstat(fd)
        if (st.st_dev, st.st_ino) != self.ino:      # the probe file: one hole
            return self.probe(st.st_size, off, whence)
        self.calls += 1
        if self.c.get("seek_err") and self.calls > self.c.get("err_after", 0):
            self.failed = True
            raise OSError(self.c["seek_err"], "seek")
        if off < 0 or off >= self.size:
            raise OSError(errno.ENXIO, "ENXIO")
        for a, b in self.exts:
            lo, hi = a * self.bs, min((b + 1) * self.bs, self.size)
            if whence == os.SEEK_DATA and off < hi and hi > 0:
                if off >= lo:
                    return off
                return lo
            if whence == os.SEEK_HOLE and off < hi:
                if off < lo:
                    return off
                off = hi
        if whence == os.SEEK_DATA:
            raise OSError(errno.ENXIO, "ENXIO")
        return min(off, self.size)

    def probe(self, size, off, whence):
        sup = self.c.get("support", "real")
        if sup == "none":
            raise OSError(errno.EINVAL, "EINVAL")
        if sup == "stub":
            return size if whence == os.SEEK_HOLE else off
        return off if whence == os.SEEK_HOLE else (_ for _ in ()).throw(OSError(errno.ENXIO, "x"))


class Base:
    shrinkable = True
    classes = ()

    def __init__(self, scratch):
        self.path = os.path.join(scratch, "img")
        self.real = (fcntl.ioctl, os.lseek, BmapHelpers.ioctl if hasattr(BmapHelpers, "ioctl") else None,
                     BmapHelpers.get_file_system_type)

    def gen_layout(self, rng):
        bs = rng.choice([1, 2, 3, 512, 1000, 1024, 4096, 4096, 65536])
        n = rng.choice([0, 1, 2, 3, 4, 5, 8, 13, 40])
        size = max(0, n * bs - (rng.randrange(bs) if rng.random() < 0.6 else 0))
        n = (size + bs - 1) // bs
        exts = []
        i = 0
        dens = rng.choice([0.1, 0.5, 0.9, 1.0])
        while i < n:
            if rng.random() < dens:
                ln = rng.choice([1, 1, 1, 2, 3, n])
                j = min(i + ln, n) - 1
                exts.append([i, j])
                i = j + 1
            else:
                i += rng.choice([1, 1, 2])
        return bs, size, n, exts

    def window(self, rng, n):
        if n == 0:
            return 0, 0
        if rng.random() < 0.4:
            return 0, n
        a = rng.randrange(n)
        return a, rng.randrange(n - a + 1)

    def smaller(self, c):
        for k in ("count", "start"):
            if c[k] > 0:
                yield dict(c, **{k: c[k] - 1})
        for i in range(len(c["exts"])):
            yield dict(c, exts=c["exts"][:i] + c["exts"][i + 1:])
        if c["bs"] > 1 and c["size"] % c["bs"] == 0:
            yield dict(c, bs=1, size=c["size"] // c["bs"])

    def run(self, c):
        k = Kernel(c)
        with open(self.path, "wb") as f:
            f.truncate(c["size"])
            st = os.fstat(f.fileno())
        k.ino = (st.st_dev, st.st_ino)
        fcntl.ioctl, os.lseek = k.ioctl, k.lseek
        if self.real[2]:
            BmapHelpers.ioctl = k.ioctl
        BmapHelpers.get_file_system_type = lambda p: "ext4"
        buf = getattr(Filemap, "_FIEMAP_BUFFER_SIZE", None)
        if buf is not None and c.get("bufext"):
            Filemap._FIEMAP_BUFFER_SIZE = 32 + 56 * c["bufext"] + 3
        try:
            with open(self.path, "rb" if c.get("ro", True) else "r+b") as f:
                return self.judge(c, k, f)
        finally:
            fcntl.ioctl, os.lseek = self.real[0], self.real[1]
            if self.real[2]:
                BmapHelpers.ioctl = self.real[2]
            BmapHelpers.get_file_system_type = self.real[3]
            if buf is not None:
                Filemap._FIEMAP_BUFFER_SIZE = buf

    def check_map(self, c, k, fm, merged, name):
        n = (c["size"] + c["bs"] - 1) // c["bs"]
        bits = [False] * n
        for a, b in c["exts"]:
            for i in range(a, b + 1):
                bits[i] = True
        if fm.blocks_cnt != n or fm.image_size != c["size"] or fm.block_size != c["bs"]:
            return "%s: geometry %r" % (name, (fm.blocks_cnt, fm.image_size, fm.block_size))
        s, cnt = c["start"], c["count"]
        for which, want in (("mapped", bits), ("unmapped", [not b for b in bits])):
            if c.get("fiemap_err") or c.get("seek_err"):
                try:
                    got = list(getattr(fm, "get_%s_ranges" % which)(s, cnt))
                except (Filemap.Error, Filemap.ErrorNotSupp, OSError):
                    if not k.failed:
                        return "%s: error although no system call failed" % name
                    continue
                if k.failed:
                    return "%s: a failing system call was swallowed" % name
            else:
                got = list(getattr(fm, "get_%s_ranges" % which)(s, cnt))
            cover = [0] * n
            last = s - 1
            prev = None
            for a, b in got:
                if not (last < a <= b < s + cnt):
                    return "%s: %s ranges %r of window (%d,%d) not increasing, disjoint and inside" % (name, which, got, s, cnt)
                if merged and which == "mapped" and prev == a - 1:
                    return "%s: unmerged %r" % (name, got)
                prev = last = b
                for i in range(a, b + 1):
                    cover[i] += 1
            exp = [1 if (s <= i < s + cnt and want[i]) else 0 for i in range(n)]
            if cover != exp:
                return "%s: %s ranges %r differ from the map %r in window (%d,%d), %d blocks" % (
                    name, which, got, c["exts"], s, cnt, n)
        for i in range(n):
            try:
                m, u = fm.block_is_mapped(i), fm.block_is_unmapped(i)
            except (Filemap.Error, Filemap.ErrorNotSupp, OSError):
                if not k.failed:
                    return "%s: block query failed" % name
                continue
            if bool(m) != bits[i] or bool(u) == bits[i]:
                return "%s: block %d reported mapped=%r unmapped=%r" % (name, i, m, u)
        return None


class C08(Base):
    rule = "random block size, size, extent list, window, extent-buffer capacity, ioctl failures; distinct cases"

    def cases(self, rng):
        while True:
            bs, size, n, exts = self.gen_layout(rng)
            s, cnt = self.window(rng, n)
            c = dict(bs=bs, size=size, exts=exts, start=s, count=cnt, bufext=rng.choice([0, 1, 1, 2, 3]))
            if rng.random() < 0.1:
                c["fiemap_err"], c["err_after"] = rng.choice([5, 95, 25]), rng.randrange(1, 4)
            yield c

    def judge(self, c, k, f):
        try:
            fm = Filemap.FilemapFiemap(f)
        except (Filemap.Error, Filemap.ErrorNotSupp):
            return None if k.failed else "FilemapFiemap refused"
        return self.check_map(c, k, fm, True, "FIEMAP")


class C09(Base):
    rule = "random block size, size, data/hole layout, window, seek support (real, stub, none), failures; distinct cases"

    def cases(self, rng):
        while True:
            bs, size, n, exts = self.gen_layout(rng)
            merged = []
            for a, b in exts:
                if merged and merged[-1][1] == a - 1:
                    merged[-1][1] = b
                else:
                    merged.append([a, b])
            s, cnt = self.window(rng, n)
            c = dict(bs=bs, size=size, exts=merged, start=s, count=cnt, mode=rng.choice(["seek", "seek", "filemap"]),
                     support=rng.choice(["real"] * 5 + ["stub", "none"]))
            if c["mode"] == "filemap":
                c["fiemap_err"] = rng.choice([None, 95, 25, 5, 22])
            elif rng.random() < 0.1:
                c["seek_err"], c["err_after"] = rng.choice([5, 22, 95, 4]), rng.randrange(0, 4)
            yield c

    def judge(self, c, k, f):
        if c["mode"] == "filemap":
            try:
                fm = Filemap.filemap(f)
            except Filemap.ErrorNotSupp:
                if c["fiemap_err"] in (95, 25) and c["support"] != "real":
                    return None
                return "filemap() reports lack of support (FIEMAP error %r, seek support %s)" % (c["fiemap_err"], c["support"])
            except Filemap.Error:
                return None if c["fiemap_err"] in (5, 22) or c["support"] == "none" else "filemap() fails"
            if c["fiemap_err"] is None:
                if type(fm).__name__ != "FilemapFiemap":
                    return "extent method not used though supported"
            else:
                if c["fiemap_err"] not in (95, 25):
                    return "error of the extent query was swallowed"
                if c["support"] != "real":
                    return "seek method chosen without support"
                if type(fm).__name__ != "FilemapSeek":
                    return "%s chosen" % type(fm).__name__
            return self.check_map(dict(c, fiemap_err=None), k, fm, False, "filemap()") if c["fiemap_err"] is None or c["fiemap_err"] in (95, 25) else None
        try:
            fm = Filemap.FilemapSeek(f)
        except (Filemap.ErrorNotSupp, Filemap.Error) as err:
            return None if c["support"] != "real" else "FilemapSeek refused: %s" % err
        if c["support"] != "real":
            return "stub or missing SEEK_HOLE support accepted"
        return self.check_map(c, k, fm, False, "SEEK")


HARNESS = {"C08": C08, "C09": C09}
