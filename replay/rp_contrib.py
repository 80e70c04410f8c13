"""contrib/bmap_write.py run in a scratch directory, with os.fsync observed"""
import contextlib
import io
import os
import runpy
import stat
import sys
import warnings

SCRIPT = os.path.join(os.environ.get("PYTHONPATH", "/repo").split(":")[0], "contrib/bmap_write.py")
SPACES = ["", " ", "\n", "  ", "\t", " \n "]


def pattern(i, n):
    return bytes((i * 37 + j * 11 + (j >> 8) + 1) & 0xff or 1 for j in range(n))


class Device:
    """an output that keeps its size and its contents when it is opened"""

    def __init__(self, path):
        self.f = open(path, "r+b")

    def truncate(self, *a):
        raise OSError(22, "Invalid argument")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, n):
        return getattr(self.f, n)


class C21:
    rule = "the output holds the mapped blocks at their offsets, nothing else was written, it has the recorded size and " \
           "everything was synchronised; wrong arguments or missing files are refused"
    shrinkable = False

    def __init__(self, scratch):
        self.dir = scratch

    def cases(self, rng):
        for argc in (0, 1, 3):
            yield {"kind": "args", "argc": argc}
        yield {"kind": "noraw"}
        yield {"kind": "nobmap"}
        yield {"kind": "rawdir"}
        while True:
            bs = rng.choice([1, 3, 16, 512, 4096, 10000])
            nb = rng.randrange(0, 12)
            size = max(0, nb * bs - rng.randrange(0, bs)) if nb else 0
            nb = -(-size // bs)
            ranges, at = [], 0
            while at < nb:
                at += rng.randrange(0, 3)
                if at >= nb:
                    break
                end = min(nb - 1, at + rng.choice([0, 0, 1, 2, 5]))
                ranges.append([at, end])
                at = end + 1
            yield {"kind": "copy", "bs": bs, "size": size, "ranges": ranges, "seed": rng.randrange(1000),
                   "old": rng.choice([None, 0, size // 2, size + 3 * bs]), "fmt": rng.randrange(1 << 16),
                   "zero": rng.getrandbits(12) if rng.random() < 0.4 else 0, "dev": rng.random() < 0.3,
                   "sizetag": rng.choice(["plain", "space"]),
                   "name": rng.choice(["a.img", "a", "a.b.img", ".img", "a.bmap.raw"])}

    def text(self, c):
        out = ["<?xml version=\"1.0\" ?><bmap version=\"2.0\">",
               "<ImageSize> %d </ImageSize>" % c["size"] if c["sizetag"] == "space" else "<ImageSize>%d</ImageSize>" % c["size"],
               "<BlockSize> %d </BlockSize><BlockMap>" % c["bs"]]
        f = c["fmt"]
        for s, e in c["ranges"]:
            a, b = SPACES[f % 6], SPACES[f // 6 % 6]
            f = (f * 7919 + 13) & 0xffff
            if s == e and f & 1:
                out.append("<Range chksum=\"%s\">%s%d%s</Range>" % ("0" * 64, a, s, b))
            else:
                out.append("<Range>%s%d%s-%s%d%s</Range>" % (a, s, b, a, e, b))
        return "\n".join(out) + "</BlockMap></bmap>"

    def run(self, c):
        work = os.path.join(self.dir, "w")
        os.system("rm -rf '%s'" % work)
        os.mkdir(work)
        c = dict(c)
        if c["kind"] != "copy":
            c.update({"bs": 16, "size": 40, "ranges": [[0, 2]], "fmt": 0, "sizetag": "plain", "seed": 1, "old": None,
                      "name": "a.img"})
        raw = os.path.join(work, c["name"])
        out = os.path.join(work, "out")
        data = bytearray(pattern(c["seed"], c["size"]))
        for b in range(12):
            if c.get("zero", 0) >> b & 1:
                part = data[b * c["bs"]:(b + 1) * c["bs"]]
                data[b * c["bs"]:(b + 1) * c["bs"]] = bytes(len(part))
        data = bytes(data)
        dev = c.get("dev") and c["kind"] == "copy"
        if dev:
            c["old"] = c["size"] + 2 * c["bs"]
        used = []

        def open_(path, mode="r", *a, **k):
            if dev and isinstance(path, str) and path == out and set(mode) & set("wa+"):
                used.append(path)
                return Device(out)
            return open(path, mode, *a, **k)
        if c["kind"] == "rawdir":
            os.mkdir(raw)
        elif c["kind"] != "noraw":
            with open(raw, "wb") as f:
                f.write(data)
        if c["kind"] != "nobmap":
            with open(os.path.splitext(raw)[0] + ".bmap", "w") as f:
                f.write(self.text(c))
        if c["old"] is not None:
            with open(out, "wb") as f:
                f.write(b"\xff" * c["old"])
        synced = []
        real = os.fsync

        def fsync(fd):
            fd = fd if isinstance(fd, int) else fd.fileno()
            real(fd)
            with open("/proc/self/fd/%d" % fd, "rb") as f:
                synced.append((os.readlink("/proc/self/fd/%d" % fd), f.read()))
        args = {"args": [raw, out, out, out][:c.get("argc", 2)]}.get(c["kind"], [raw, out])
        argv = sys.argv
        sys.argv = [SCRIPT] + args
        os.fsync = fsync
        text = io.StringIO()
        code = 0
        try:
            with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    runpy.run_path(SCRIPT, {"open": open_} if dev else None, run_name="__main__")
                except SystemExit as e:
                    code = e.code
        finally:
            os.fsync = real
            sys.argv = argv
        if c["kind"] != "copy":
            if not code:
                return "%s: the script does not fail" % c["kind"]
            return "%s: an output exists" % c["kind"] if os.path.exists(out) else None
        if code:
            return "the script fails with %r" % (code,)
        want = bytearray(b"\xff" * c["old"] if used else c["size"])
        for s, e in c["ranges"]:
            a, b = s * c["bs"], min(c["size"], (e + 1) * c["bs"])
            want[a:b] = data[a:b]
        with open(out, "rb") as f:
            got = f.read()
        if len(got) != len(want):
            return "the output has %d bytes instead of %d" % (len(got), len(want))
        if got != want:
            i = next(i for i in range(len(got)) if got[i] != want[i])
            return "byte %d of the output is %d instead of %d" % (i, got[i], want[i])
        if not any(n == os.path.realpath(out) and d == got for n, d in synced):
            return "the output was not synchronised after the last write"
        with open(raw, "rb") as f:
            if f.read() != data:
                return "the raw file was changed"
        return None


HARNESS = {"C21": C21}
