"""file system query, zfs parameter and block size with stand-ins for df, the
parameter file and the ioctl"""
import errno
import fcntl
import os
import struct
from bmaptools import BmapHelpers, Filemap

HEAD = "Filesystem     Type 1K-blocks  Used Available Use% Mounted on\n"
TYPES = ["zfs", "ZFS", "Zfs", "ext4", "xfs", "btrfs", "zfs2", "fuse.zfs", "tmpfs", "overlay", "EXT4"]
PARAMS = ["1\n", "0\n", "1", "2\n", "11\n", "-1\n", " 1 \n", "Y\n", "", None, "unreadable", "10\n"]


class C20:
    rule = "zfs is refused unless its parameter file holds 1, other types are allowed, an unknown type is an error; " \
           "the block size is the reported one or the preferred one if that fails or is zero"
    shrinkable = False

    def __init__(self, scratch):
        self.dir = scratch
        self.bin = os.path.join(scratch, "bin")
        os.mkdir(self.bin)
        self.out = os.path.join(scratch, "df.out")
        self.img = os.path.join(scratch, "image")
        with open(self.img, "wb") as f:
            f.truncate(65536)
        self.param = os.path.join(scratch, "param")

    def cases(self, rng):
        for t in TYPES:
            for p in PARAMS:
                yield {"kind": "compat", "out": HEAD + "pool/x  %s   456 86 369  20%% /home\n" % t, "type": t, "param": p}
        while True:
            k = rng.choice(["compat", "block", "map", "none"])
            t = rng.choice(TYPES)
            p = rng.choice(PARAMS)
            dev = rng.choice(["/dev/sda1", "rpool/USER", "none", "zfs"])
            line = "%s%s%s 4 8 3 2%% /" % (dev, " " * rng.randrange(1, 20), t)
            if k == "block":
                yield {"kind": k, "bsz": rng.choice([None, 0, 1, 512, 4096, 65536, rng.randrange(1, 1 << 20)]),
                       "seed": rng.randrange(1 << 30)}
            elif k == "none":
                yield {"kind": "compat", "type": None, "param": p, "err": rng.random() < 0.5,
                       "out": rng.choice(["", HEAD, HEAD + dev + "\n", HEAD + "\n", HEAD[:-1]])}
            else:
                yield {"kind": k, "type": t, "param": p,
                       "out": HEAD + line + rng.choice(["", "\n", "\nother ext4 1 1 1 1% /o\n"])}

    def run(self, c):
        if c["kind"] == "block":
            return self.block(c)
        with open(self.out, "w") as f:
            f.write(c["out"])
        with open(os.path.join(self.bin, "df"), "w") as f:
            f.write("#!/bin/sh\n%s%s/bin/cat '%s'\nexit %d\n" % (
                "[ \"$1\" = -T ] || exit 9\n", "echo oops >&2\n" if c.get("err") else "", self.out, c["type"] is None))
        os.chmod(os.path.join(self.bin, "df"), 0o755)
        if os.path.isdir(self.param):
            os.rmdir(self.param)
        elif os.path.lexists(self.param):
            os.unlink(self.param)
        p = c["param"]
        real_open = open
        if p is not None:
            with open(self.param, "w") as f:
                f.write("1\n" if p == "unreadable" else p)

        def no_open(name, *a, **k):
            if name == self.param:
                raise PermissionError(errno.EACCES, "denied", name)
            return real_open(name, *a, **k)
        good = p is not None and p != "unreadable" and p.strip() == "1"
        old_path, old_param = os.environ["PATH"], BmapHelpers.ZFS_COMPAT_PARAM_PATH
        os.environ["PATH"] = self.bin + ":" + old_path
        BmapHelpers.ZFS_COMPAT_PARAM_PATH = self.param
        if p == "unreadable":
            BmapHelpers.open = no_open
        try:
            try:
                if c["kind"] == "map":
                    f = Filemap.filemap(self.img)
                    got = True
                    if f.block_size != os.statvfs(self.img).f_bsize:
                        return "block size %r instead of %d" % (f.block_size, os.statvfs(self.img).f_bsize)
                else:
                    got = bool(BmapHelpers.is_compatible_file_system(self.img))
            except BmapHelpers.Error as e:
                got = "error: %s" % e
            except Filemap.ErrorNotSupp as e:
                got = True
            except Filemap.Error as e:
                got = "error: %s" % e
        finally:
            os.environ["PATH"] = old_path
            BmapHelpers.ZFS_COMPAT_PARAM_PATH = old_param
            if "open" in vars(BmapHelpers):
                del BmapHelpers.open
        if c["type"] is None:
            return None if str(got).startswith("error") else "undetermined type gives %r" % (got,)
        if c["type"].lower() != "zfs" or good:
            return None if got is True else "type %s, parameter %r: refused (%s)" % (c["type"], p, got)
        return None if got is not True else "type %s, parameter %r: allowed" % (c["type"], p)

    def block(self, c):
        calls = []
        with open(self.img, "rb") as f:
            def fake(fd, req, arg=0, mutate=True):
                calls.append(req)
                if req != 2:
                    raise AssertionError("ioctl %r" % (req,))
                if c["bsz"] is None:
                    raise OSError(errno.ENOTTY, "not supported")
                return struct.pack("I", c["bsz"])
            real = fcntl.ioctl
            mine = getattr(BmapHelpers, "ioctl", None)
            fcntl.ioctl = fake
            if mine is not None:
                BmapHelpers.ioctl = fake
            try:
                got = BmapHelpers.get_block_size(f)
            finally:
                fcntl.ioctl = real
                if mine is not None:
                    BmapHelpers.ioctl = mine
            want = c["bsz"] or os.fstat(f.fileno()).st_blksize
            if not calls:
                return "the file system is not asked for its block size"
        return None if got == want else "block size %r instead of %r" % (got, want)


HARNESS = {"C20": C20}
