"""copying against simulated files: BmapCopy and BmapBdevCopy"""
import errno
import hashlib
import logging
import os
import random
import re
import stat as _stat
import threading
import _thread
import time

import sim
from sim import SimDest, SimImage, Knob
from bmaptools import BmapCopy

MIB = 1 << 20
_DATA = {}


def content(seed, n):
    key = seed % 4
    if key not in _DATA:
        _DATA[key] = random.Random(key).randbytes(25 * MIB)
    assert n + 97 < 25 * MIB
    return _DATA[key][seed % 97:seed % 97 + n]


def ceil(a, b):
    return (a + b - 1) // b


def document(c, data):
    """the map of case c for image bytes data, with a correct file checksum unless told otherwise"""
    v = c["version"]
    alg = c.get("alg", "sha256") if v in ("1.4", "2.0") else "sha1"
    if c.get("doc_alg"):
        alg_name = c["doc_alg"]
    else:
        alg_name = alg
    attr = {"1.3": "sha1", "1.4": "chksum", "2.0": "chksum"}.get(v)
    if attr is None and v not in ("1.0", "1.1", "1.2"):
        attr = "chksum"
    bs = c["bs"]
    h = c.get("hdr", {})
    lines = ['<?xml version="1.0" ?>', '<bmap version="%s">' % c.get("doc_version", v),
             "<ImageSize> %d </ImageSize>" % h.get("size", c["size"]), "<BlockSize> %d </BlockSize>" % h.get("bs", bs),
             "<BlocksCount> %d </BlocksCount>" % h.get("bc", ceil(c["size"], bs)),
             "<MappedBlocksCount> %d   </MappedBlocksCount>" % h.get("mc", sum(b - a + 1 for a, b in c["ranges"]))]
    zero = "0" * len(hashlib.new(alg).hexdigest())
    if attr == "chksum":
        lines.append("<ChecksumType> %s </ChecksumType>" % alg_name)
        lines.append("<BmapFileChecksum> %s </BmapFileChecksum>" % zero)
    elif attr == "sha1":
        lines.append("<BmapFileSHA1> %s </BmapFileSHA1>" % zero)
    lines.append("<BlockMap>")
    for i, (a, b) in enumerate(c["ranges"]):
        t = " %d " % a if a == b and (c.get("single", 0) >> i) & 1 else " %d-%d " % (a, b)
        if (c.get("spaces", 0) >> i) & 1:
            t = t.replace("-", " - ")
        at = ""
        if attr and not (c.get("nochk", 0) >> i) & 1:
            d = hashlib.new(alg, data[a * bs:(b + 1) * bs]).hexdigest()
            if i in c.get("badchk", ()):
                d = d[:-1] + ("0" if d[-1] != "0" else "1")
            at = ' %s="%s"' % (attr, d)
        lines.append("<Range%s>%s</Range>" % (at, t))
    lines.append("</BlockMap></bmap>")
    doc = "\n".join(lines) + "\n"
    if attr:
        d = hashlib.new(alg, doc.encode()).hexdigest()
        m = c.get("sum", "good")
        if m == "bad":
            d = d[:-1] + ("0" if d[-1] != "0" else "1")
        elif m == "short":
            d = d[:-1]
        elif m == "zero":
            d = "0" * len(d)
        doc = doc.replace("> %s <" % zero, "> %s <" % d)
        if m == "edited":
            # a change after the checksum was computed
            doc = doc.replace("</BlockMap>", " </BlockMap>")
        elif m == "edited-early":
            doc = doc.replace("<bmap ", "<bmap  ")
        elif m == "edited-last":
            doc = doc[:-1] + " "
    if c.get("malformed") is not None:
        k = c["malformed"]
        doc = [doc[:len(doc) // 2], doc.replace("</BlockMap>", "<Oops>"), "", doc.replace('"', "", 1)][k]
    return doc.encode()


logging.disable(logging.CRITICAL)
threading.stack_size(1 << 19)


class Base:
    shrinkable = True
    limit = 3 * MIB

    def __init__(self, scratch):
        self.scratch = scratch

    # -- generation --
    def gen_ranges(self, rng, n):
        out = []
        i = 0
        dens = rng.choice([0.2, 0.6, 1.0])
        cap = rng.choice([3, 8, 20])
        while i < n and len(out) < cap:
            if rng.random() < dens:
                ln = rng.choice([1, 1, 2, 5, 17, 256, 257, n])
                j = min(i + ln, n) - 1
                out.append([i, j])
                i = j + 1
            i += rng.choice([0, 1, 1, 3, 10])
        return out

    def gen(self, rng, big=True):
        bs = rng.choice([1, 2, 3, 7, 512, 1000, 4096, 4096, 4096, 65536, MIB - 1, MIB, MIB + 1, 3 * MIB // 2])
        kind = rng.randrange(4)
        if kind == 0 or not big:
            n = rng.choice([1, 2, 3, 5, 9, 20])
        elif kind == 1:
            n = MIB // bs + rng.choice([-1, 0, 1, 2])
        else:
            n = rng.choice([1, 5, 40, 2 * MIB // bs + 1, 2 * MIB // bs])
        n = max(1, min(n, self.limit // bs, 6000 if bs < 500 and kind != 1 else 1 << 30))
        size = n * bs - (rng.randrange(bs) if rng.random() < 0.6 else 0)
        c = dict(bs=bs, size=size, imglen=size, ranges=self.gen_ranges(rng, n), version=rng.choice(["2.0", "2.0", "1.3", "1.4", "1.2", "1.0"]),
                 dest=rng.choice(["reg", "reg", "reg", "null", "blk"]), seed=rng.randrange(1000), bufsize=rng.choice([0, 0, 8192, 10 * MIB]),
                 sync=rng.random() < 0.7, verify=rng.random() < 0.8, single=rng.getrandbits(20), spaces=rng.getrandbits(20),
                 nochk=rng.getrandbits(20) if rng.random() < 0.3 else 0, old=rng.choice([0, 0, 100, 4 * MIB]), faults={})
        c["alg"] = rng.choice(["sha256", "sha256", "md5", "sha512", "sha1"])
        c["zero"] = rng.getrandbits(16) if rng.random() < 0.2 else 0
        return c

    def spoil(self, rng, c):
        """make map and image disagree"""
        k = rng.randrange(8)
        if k == 0:
            c["imglen"] = max(0, c["size"] - rng.choice([1, c["bs"], c["bs"] + 1, c["size"] // 2, c["size"]]))
        elif k == 1:
            c["imglen"] = c["size"] + rng.choice([1, c["bs"], 2 * c["bs"]])
        elif k == 2:
            m = sum(b - a + 1 for a, b in c["ranges"])
            c["hdr"] = {"mc": max(0, m + rng.choice([-1, 1, -m, 5]))}
        elif k == 3 and c["ranges"]:
            c["badchk"] = [rng.choice([0, len(c["ranges"]) - 1, rng.randrange(len(c["ranges"]))])]
        elif k == 4 and c["ranges"]:
            i = rng.randrange(len(c["ranges"]))
            a, b = c["ranges"][i]
            c["ranges"][i] = [b + rng.choice([1, 2]), a]
        elif k == 5:
            rng.shuffle(c["ranges"])
        elif k == 6 and c["ranges"]:
            a, b = c["ranges"][-1]
            c["ranges"].append([a, b])
        elif k == 7 and c["ranges"]:
            n = ceil(c["size"], c["bs"])
            c["ranges"][-1] = [c["ranges"][-1][0], n + rng.choice([0, 1, 3])]
        return c

    def smaller(self, c):
        for i in range(len(c.get("ranges", ()))):
            yield dict(c, ranges=c["ranges"][:i] + c["ranges"][i + 1:])
        if c.get("bufsize"):
            yield dict(c, bufsize=0)
        if c.get("old"):
            yield dict(c, old=0)
        for f in list(c.get("faults", {})):
            yield dict(c, faults={k: v for k, v in c["faults"].items() if k != f})

    # -- running --
    def setup(self, c):
        self.data = self.recorded = content(c["seed"], c["imglen"])
        if c.get("tile"):
            n = c["tile"] * c["bs"]
            self.data = self.recorded = (self.data[:n] * (c["imglen"] // n + 1))[:c["imglen"]]
        if c.get("zero"):
            d, q = bytearray(self.data), random.Random(c["zero"])
            for i in range(8):
                a = q.randrange(max(1, ceil(c["imglen"], c["bs"]))) * c["bs"]
                part = d[a:a + c["bs"] * q.choice([1, 1, 3])]
                d[a:a + len(part)] = bytes(len(part))
            self.data = self.recorded = bytes(d)
        for i in (j for j in c.get("damage", ()) if j < len(c["ranges"])):
            a = min(c["ranges"][i][0] * c["bs"], c["imglen"] - 1)
            self.data = self.data[:a] + bytes([self.data[a] ^ 1]) + self.data[a + 1:]
        fl = {k: tuple(v) for k, v in c.get("faults", {}).items()}
        self.img = SimImage(self.data, fl)
        cap = c.get("capacity", 1 << 40)
        self.dst = SimDest(self.scratch, c["dest"], fl, cap, old=b"\xee" * min(c.get("old", 0), 4 * MIB) if c["dest"] == "reg" else b"",
                           bufsize=c.get("bufsize", 0))
        self.bmap = None
        if c.get("version"):
            p = os.path.join(self.scratch, "map.bmap")
            self.doc = document(c, self.recorded)
            with open(p, "wb") as f:
                f.write(self.doc)
            self.bmap = open(p, "rb")
        sim.KNOBS.clear()
        sim.KNOBS["exists"] = lambda p: True
        self.knobs = {}
        for n, sfx in (("ratio", "bdi/max_ratio"), ("sched", "queue/scheduler")):
            k = c.get(n)
            if k is None:
                k = {"text": {"ratio": "100\n", "sched": "[mq-deadline] none\n"}[n], "fail": []}
            self.knobs[n] = Knob(k["text"], [tuple(x) for x in k["fail"]])
            sim.KNOBS[sfx] = self.knobs[n]

    def teardown(self):
        self.dst.drop()
        if self.bmap is not None:
            self.bmap.close()
        sim.KNOBS.clear()
        # the reader may be blocked on a full queue after a failure of the writer
        qs = [v for v in vars(self.obj).values() if hasattr(v, "get_nowait")] if self.obj is not None else []
        gone = time.time() + 2
        idle = 0
        need = 12 if self.exc is not None and qs else 1      # the thread may not have started yet
        while idle < need and time.time() < gone:
            for q in qs:
                try:
                    while True:
                        if q.get_nowait() is None:
                            need = 1
                except Exception:
                    pass
            idle = 0 if _thread._count() > 0 or threading.active_count() > 1 else idle + 1
            time.sleep(0.0002)

    def make(self, c):
        cls = BmapCopy.BmapBdevCopy if c["dest"] == "blk" else BmapCopy.BmapCopy
        return cls(self.img, self.dst, self.bmap, c.get("given"))

    def prepare(self, obj, c):
        pass

    def run(self, c):
        self.setup(c)
        self.exc = None
        self.obj = None
        try:
            try:
                self.obj = self.make(c)
            except Exception as e:
                self.exc = e
                return self.judge_ctor(c)
            r = self.judge_open(c)
            if r or self.only_open:
                return r
            self.prepare(self.obj, c)
            try:
                self.obj.copy(c.get("sync", True), c.get("verify", True))
            except (Exception, KeyboardInterrupt) as e:
                if type(e).__name__ == "Hang":
                    raise
                self.exc = e
            return self.judge(c)
        finally:
            self.teardown()

    only_open = False

    def judge_ctor(self, c):
        if c.get("version") and (c.get("doc_version") or c.get("hdr") or c.get("malformed") is not None or c.get("sum", "good") != "good" or c.get("doc_alg")):
            return None
        if self.dst.failed or c.get("capacity", 1 << 40) < c["size"]:
            return None
        return "constructor fails: %r" % self.exc

    def judge_open(self, c):
        return None

    # -- oracle --
    def consistent(self, c):
        n = ceil(c["size"], c["bs"])
        last = -1
        for a, b in c["ranges"]:
            if not last < a <= b < n:
                return False
            last = b
        return c["imglen"] == c["size"] and not c.get("hdr") and not (c.get("badchk") and self.checks(c))

    def checks(self, c):
        return c.get("verify", True) and c["version"] in ("1.3", "1.4", "2.0")

    def envfail(self):
        return self.dst.failed + self.img.failed

    def final(self):
        d = bytearray(self.dst.data)
        for off, b in self.dst.buf:
            if len(d) < off + len(b):
                d.extend(bytes(off + len(b) - len(d)))
            d[off:off + len(b)] = b
        return bytes(d)

    def misplaced(self, c, mapped):
        bs = c["bs"]
        for off, n in self.dst.ranges:
            i = off // bs
            while mapped is not None and i * bs < off + n:
                j = max((b for a, b in mapped if a <= i <= b), default=None)
                if j is None:
                    return "block %d written but not mapped" % i
                i = j + 1
        # everything written equals the image at that offset
        fin = self.final()
        if c["dest"] in ("reg", "blk"):
            for off, n in self.dst.ranges:
                lim = min(off + n, c["size"]) if c["dest"] == "reg" and self.exc is None else off + n
                if fin[off:lim] != self.data[off:lim]:
                    return "bytes at %d+%d differ from the image" % (off, n)
                if off + n > len(self.data):
                    return "written beyond the data of the image"
        return None

    def missing(self, c, ranges):
        got = sorted(self.dst.ranges)
        bs = c["bs"]
        for a, b in ranges:
            lo, hi = a * bs, min((b + 1) * bs, len(self.data))
            for off, n in got:
                if off <= lo < off + n:
                    lo = off + n
            if lo < hi:
                return "byte %d of mapped range %d-%d was not written" % (lo, a, b)
        return None


class C01(Base):
    rule = "random block size, size, ranges (also inconsistent maps), destination kind, user buffering; distinct cases"

    def cases(self, rng):
        while True:
            c = self.gen(rng)
            if rng.random() < 0.3:
                self.spoil(rng, c)
            yield c

    def judge(self, c):
        blocks = [(a, b) for a, b in c["ranges"]]
        r = self.misplaced(c, blocks)
        if r:
            return r
        if self.exc is not None:
            if self.consistent(c) and not self.envfail():
                return "a consistent image and map fail: %r" % self.exc
            return None
        if c["dest"] == "reg" and len(self.final()) != c["size"]:
            return "destination has %d bytes instead of %d" % (len(self.final()), c["size"])
        if not c.get("hdr") and all(a <= b for a, b in blocks) and blocks == sorted(blocks) and all(
                x[1] < y[0] for x, y in zip(blocks, blocks[1:])):
            return self.missing(c, blocks)
        return None


class C02(Base):
    rule = "random image length (known and unknown), destination kind; distinct cases"

    def cases(self, rng):
        while True:
            c = self.gen(rng)
            c.update(version=None, bs=4096, ranges=[])
            n = rng.choice([0, 1, 4095, 4096, 4097, 10000, MIB - 1, MIB, MIB + 1, 2 * MIB, 2 * MIB + 4096, rng.randrange(3 * MIB)])
            c["imglen"] = c["size"] = n
            if rng.random() < 0.5 and n:
                c["given"] = n
                if rng.random() < 0.3:
                    c["given"] = n + rng.choice([1, 4096, 5000, MIB, -min(n - 1, 4096), -min(n - 1, 1)])
            yield c

    def judge(self, c):
        r = self.misplaced(dict(c, size=c.get("given") or c["imglen"]), None)
        if r:
            return r
        g = c.get("given")
        n = c["imglen"]
        if self.exc is not None:
            if (g is None or g == n) and not self.envfail():
                return "copy fails: %r" % self.exc
            return None
        if g is not None and ceil(g, 4096) > ceil(n, 4096):
            return "an image of %d bytes passes for %d bytes" % (n, g)
        want = g if g is not None else n
        if c["dest"] == "reg" and len(self.final()) != want:
            return "destination has %d bytes instead of %d" % (len(self.final()), want)
        if self.obj.image_size != want or self.obj.blocks_cnt != ceil(want, 4096):
            return "reported %r bytes, %r blocks" % (self.obj.image_size, self.obj.blocks_cnt)
        return self.missing(dict(c, bs=1), [(0, min(want, n) - 1)]) if min(want, n) else None


class C03(Base):
    rule = "random maps with at most one wrong range checksum at any position, verification on and off; distinct cases"

    def cases(self, rng):
        while True:
            c = self.gen(rng)
            c["version"] = rng.choice(["2.0", "2.0", "1.3", "1.4"])
            if c["ranges"] and rng.random() < 0.6:
                c["badchk"] = [rng.choice([0, len(c["ranges"]) - 1, rng.randrange(len(c["ranges"]))])]
            elif rng.random() < 0.3:
                c["imglen"] = max(0, c["size"] - rng.randrange(1, c["bs"] + 1))
            if rng.random() < 0.3:
                c["tile"] = rng.choice([1, 1, 2, 3])
                if c["ranges"] and c.pop("badchk", None):
                    # content that was recorded damaged afterwards
                    c["damage"] = [rng.choice([len(c["ranges"]) - 1, rng.randrange(len(c["ranges"]))])]
            yield c

    def judge(self, c):
        bad = [i for i in list(c.get("badchk", ())) + list(c.get("damage", ())) if i < len(c["ranges"]) and not (c["nochk"] >> i) & 1]
        if self.exc is None:
            if c["verify"] and bad:
                return "range %d with a wrong checksum passes" % bad[0]
            return None
        if self.consistent(dict(c, badchk=bad)) and not self.envfail():
            return "copy fails although %s: %r" % ("every checksum is right" if c["verify"] else "verification is off", self.exc)
        return None


class C04(Base):
    rule = "random maps of all versions with good, wrong, shortened, zero file checksums, later edits, checksum types; distinct cases"
    only_open = True

    def cases(self, rng):
        while True:
            c = self.gen(rng, False)
            c["dest"] = "reg"
            c["sum"] = rng.choice(["good", "good", "bad", "short", "zero", "edited", "edited-early", "edited-last"])
            c["alg"] = rng.choice(["md5", "sha1", "sha224", "sha256", "sha384", "sha512"])
            if rng.random() < 0.15:
                c["doc_alg"] = rng.choice(["nosuch", "sha-257", "SHA_2"])
            yield c

    def expect(self, c):
        if c["version"] in ("1.0", "1.2"):
            return True
        if c.get("doc_alg") and c["version"] != "1.3":
            return False
        return c["sum"] == "good"

    def judge_ctor(self, c):
        if self.expect(c):
            return "a map with a correct checksum is refused: %r" % self.exc
        if not isinstance(self.exc, (BmapCopy.Error, IndexError)) :
            return "refused with %r" % self.exc
        if c.get("doc_alg") and not isinstance(self.exc, BmapCopy.Error):
            return "unknown algorithm reported as %r" % self.exc
        return self.modified()

    def judge_open(self, c):
        if not self.expect(c):
            return "a map with a wrong checksum (%s, %s) is accepted" % (c["sum"], c.get("doc_alg"))
        return self.modified()

    def modified(self):
        with open(self.bmap.name, "rb") as f:
            if f.read() != self.doc:
                return "loading modified the map file"


class C05(Base):
    rule = "random header values of all versions, sizes given by the caller, malformed documents, bad ranges; distinct cases"

    def cases(self, rng):
        while True:
            c = self.gen(rng, False)
            c["dest"] = "reg"
            k = rng.randrange(8)
            n = ceil(c["size"], c["bs"])
            if k == 0:
                c["hdr"] = {"bc": n + rng.choice([-1, 1, 5, -n])}
            elif k == 1:
                d = rng.choice([-1, 1, c["bs"], -c["bs"]])
                c["hdr"] = {"size": max(0, c["size"] + d)}
            elif k == 2:
                c["given"] = max(1, c["size"] + rng.choice([0, 0, 1, -1]))
            elif k == 3:
                c["doc_version"] = rng.choice(["3.0", "4.2", "10.0", "2.1"])
            elif k == 4:
                c["malformed"] = rng.randrange(4)
            elif k == 5 and c["ranges"]:
                i = rng.randrange(len(c["ranges"]))
                a, b = c["ranges"][i]
                c["ranges"][i] = [b + rng.choice([1, 2, 300]), a]
                c["hdr"] = {"mc": n}
            elif k == 6:
                c["hdr"] = {"mc": rng.randrange(0, n + 2)}
            elif k == 7:
                c.update(size=0, imglen=0, ranges=[])
            yield c

    def good(self, c):
        h = c.get("hdr", {})
        size, bc = h.get("size", c["size"]), h.get("bc", ceil(c["size"], c["bs"]))
        if c.get("malformed") is not None or c.get("doc_version", "2")[0:2] not in ("2", "2."):
            return False
        return bc == ceil(size, c["bs"]) and c.get("given", size) == size

    def judge_ctor(self, c):
        if self.dst.ranges or [o for o in self.dst.ops if o[0] == "ftruncate"]:
            return "acted upon before it was rejected"
        if c.get("doc_version") == "2.1" and c["version"] not in ("2.0", "1.4"):
            return None
        if c.get("doc_version") and c["version"] == "1.3" and c.get("doc_version") == "2.1":
            return None
        if self.good(c):
            return "a good map is refused: %r" % self.exc
        if not isinstance(self.exc, BmapCopy.Error):
            return "refused with %s: %r" % (type(self.exc).__name__, self.exc)
        return None

    def judge_open(self, c):
        if not self.good(c):
            return "an unsupported or inconsistent map loads"
        o = self.obj
        h = c.get("hdr", {})
        size, bs = h.get("size", c["size"]), c["bs"]
        mc = h.get("mc", sum(b - a + 1 for a, b in c["ranges"]))
        v = c.get("doc_version", c["version"])
        bc = ceil(size, bs)
        want = (v, int(v.split(".")[0]), int(v.split(".")[1]), bs, bc, mc, size, mc * bs)
        got = (o.bmap_version, o.bmap_version_major, o.bmap_version_minor, o.block_size, o.blocks_cnt, o.mapped_cnt,
               o.image_size, o.mapped_size)
        if want != got:
            return "reported %r instead of %r" % (got, want)
        pc = mc * 100.0 / bc if bc else 100
        if abs(o.mapped_percent - pc) > 1e-6 * max(1, abs(pc)):
            return "reported %r%% mapped instead of %r" % (o.mapped_percent, pc)

    def judge(self, c):
        bad = [(a, b) for a, b in c["ranges"] if a > b]
        if not bad:
            return None
        if self.exc is None:
            return "a range with first > last passes"
        if not isinstance(self.exc, BmapCopy.Error):
            # the reader may have hit something else before the bad range
            i = next(i for i, (a, b) in enumerate(c["ranges"]) if a > b)
            return "bad range reported as %r" % self.exc
        return None


class C06(Base):
    rule = "one random fault (image read, destination write, resize, flush, sync, seek) at a random point, inconsistent maps; distinct cases"

    def cases(self, rng):
        while True:
            c = self.gen(rng)
            if rng.random() < 0.3:
                c.update(version=None, bs=4096, ranges=[], imglen=c["size"])
                if rng.random() < 0.5:
                    c["given"] = c["size"]
                    if rng.random() < 0.3:
                        c["given"] = c["size"] + 4096 * rng.randrange(1, 5)
            if rng.random() < 0.75:
                op = rng.choice(["imgread", "imgread", "write", "write", "ftruncate", "flush", "fsync", "imgseek", "seek"])
                e = rng.choice([errno.EIO, errno.ENOSPC, errno.EINVAL, errno.EINTR])
                if op == "imgread" and rng.random() < 0.4:
                    e = "foreign"
                c["faults"] = {op: [rng.choice([1, 1, 2, 3]), e]}
            elif c["version"]:
                self.spoil(rng, c)
            yield c

    def judge(self, c):
        f = self.envfail()
        if self.exc is None:
            if f:
                return "success although %s failed" % f
            w = sum(ceil(n, c["bs"]) for _, n in self.dst.ranges)
            if c["version"] and w != (c.get("hdr") or {}).get("mc", sum(b - a + 1 for a, b in c["ranges"])):
                return "success with %d blocks copied instead of the recorded number" % w
            if not c["version"] and c.get("given") and w != ceil(c["given"], 4096):
                return "success with %d blocks copied, %d expected" % (w, ceil(c["given"], 4096))
            return None
        if f and f[0] in ("imgread", "write", "ftruncate", "flush", "fsync"):
            if c["faults"].get(f[0], [0, 0])[1] != "foreign" and not isinstance(self.exc, BmapCopy.Error):
                return "%s failure surfaces as %r" % (f[0], self.exc)
        return None


class C07(Base):
    rule = "random copies, ordering of writes, resizes, flushes and synchronisations recorded; distinct cases"

    def cases(self, rng):
        while True:
            c = self.gen(rng)
            c["dest"] = rng.choice(["reg", "blk", "blk", "chr"])
            if rng.random() < 0.35:
                # long enough for the watermark
                c.update(dest="blk", bs=rng.choice([512, 4096, 65536, MIB, MIB + 1]), seed=3, verify=False, version="2.0")
                k = rng.choice([9, 9, 15, 23])
                n = k * MIB // c["bs"]
                h = rng.choice([0, 0, 1, n // 3])
                a = rng.choice([0, n // 2, n // 9])
                c["ranges"] = [[0, a], [a + h + 1, n - 1]] if rng.random() < 0.7 else [[h, n - 1]]
                c["size"] = c["imglen"] = n * c["bs"]
            if rng.random() < 0.3:
                c.update(version=None, bs=4096, ranges=[])
                if rng.random() < 0.5:
                    c["given"] = c["size"]
            yield c

    def judge(self, c):
        if self.dst.max_since > 6 * MIB + max(MIB, c["bs"]) and c["dest"] == "blk":
            return "%d bytes written without synchronisation" % self.dst.max_since
        if self.exc is not None:
            return None
        if not c["sync"]:
            self.obj.sync()
        if self.dst.buf:
            return "data left in the buffer of the file object"
        if not self.dst.synced:
            return "data or size not synchronised: last operations %r" % (self.dst.ops[-4:],)
        return None


class C17(Base):
    rule = "image size around the capacity of the device, with and without map; distinct cases"
    only_open = True

    def cases(self, rng):
        while True:
            c = self.gen(rng, False)
            c["dest"] = "blk"
            c["capacity"] = max(0, c["size"] + rng.choice([0, 0, -1, 1, -c["size"], 5000, -5000]))
            k = rng.randrange(4)
            if k == 0:
                c.update(version=None, bs=4096, ranges=[], given=c["size"])
            elif k == 1:
                c.update(version=None, bs=4096, ranges=[])
            elif k == 2:
                c["given"] = c["size"]
            if rng.random() < 0.1:
                c["faults"] = {"lseek": [rng.choice([1, 2]), errno.EIO]}
            yield c

    def judge_ctor(self, c):
        if self.dst.ranges:
            return "something was written"
        if self.dst.failed:
            return None if isinstance(self.exc, BmapCopy.Error) else "%r" % self.exc
        if c["capacity"] >= c["size"] or (c["version"] is None and not c.get("given")):
            return "an image of %d bytes is refused on %d bytes: %r" % (c["size"], c["capacity"], self.exc)
        return None if isinstance(self.exc, BmapCopy.Error) else "refused with %r" % self.exc

    def judge_open(self, c):
        if self.dst.ranges:
            return "something was written"
        known = c["version"] is not None or c.get("given")
        if known and c["size"] and c["capacity"] < c["size"]:
            return "an image of %d bytes is accepted for a device of %d bytes" % (c["size"], c["capacity"])
        if self.dst.pos != 0:
            return "the position is left at %d" % self.dst.pos
        return None


class C18(Base):
    rule = "random knob contents and failures of open, read, write, flush at any access, copies that succeed, fail or are interrupted; distinct cases"

    def cases(self, rng):
        def knob(texts):
            f = []
            if rng.random() < 0.5:
                f = [[rng.choice(["openr", "openw", "read", "write", "flush"]), rng.choice([1, 1, 2])] for _ in range(rng.choice([1, 1, 2]))]
            return {"text": rng.choice(texts), "fail": f}
        while True:
            c = self.gen(rng, False)
            c.update(dest="blk", old=0)
            c["ratio"] = knob(["100\n", "1\n", "37\n", "0\n", "100 [50] 1\n"])
            c["sched"] = knob(["[mq-deadline] none\n", "mq-deadline [none]\n", "none\n", "bfq [kyber] none\n", "noop deadline [cfq] none\n",
                               "mq-deadline kyber [bfq] none\n", "[none] mq-deadline\n"])
            k = rng.randrange(5)
            if k == 0:
                c["faults"] = {"write": [1, errno.EIO]}
            elif k == 1 and c["ranges"]:
                c["badchk"] = [0]
            elif k == 2:
                c["interrupt"] = 1
            yield c

    def prepare(self, obj, c):
        self.orig = {n: k.value() for n, k in self.knobs.items()}
        if c.get("interrupt"):
            def w(b):
                raise KeyboardInterrupt()
            self.dst.write = w

    def judge(self, c):
        wanted = {"ratio": "1", "sched": "none"}
        restfail = False
        for n, k in self.knobs.items():
            if k.writes and not k.reads:
                return "%s was written without having been read" % n
            if self.orig[n] == wanted[n] and k.n.get("openw"):
                return "%s has the wanted value already but was written" % n
            if k.value() != self.orig[n]:
                # only a failing restoration excuses this
                if not any(x[1] == 2 and x[0] in ("openw", "write", "flush") for x in k.failed):
                    if not (any(x[0] in ("openw", "write", "flush") for x in k.failed)):
                        return "%s was %r and is now %r" % (n, self.orig[n], k.value())
                restfail = True
        cfail = bool(self.envfail()) or c.get("interrupt") or (c.get("badchk") and self.checks(c))
        if restfail and self.exc is None:
            return "a setting was not restored but no error was raised"
        if not restfail and self.exc is not None and not cfail:
            return "the copy fails because of a setting: %r" % self.exc
        return None


class Prog:
    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text += s

    def flush(self):
        pass


class C19(Base):
    rule = "random copies with progress output and a splash-screen path that is a pipe (with or without reader), a file or missing; distinct cases"

    def cases(self, rng):
        while True:
            c = self.gen(rng)
            if rng.random() < 0.3:
                self.spoil(rng, c)
            c["pipe"] = rng.choice(["read", "noreader", "file", "missing", "vanish", "dir"])
            c["fmt"] = rng.choice([None, "%d done"])
            if rng.random() < 0.25:
                c.update(version=None, bs=4096, ranges=[], imglen=c["size"])
                if rng.random() < 0.5:
                    c["given"] = c["size"]
            yield c

    def prepare(self, obj, c):
        self.prog = Prog()
        obj.set_progress_indicator(self.prog, c["fmt"])
        p = os.path.join(self.scratch, "splash")
        if os.path.isdir(p):
            os.rmdir(p)
        elif sim.REAL["exists"](p):
            os.unlink(p)
        self.rfd = None
        if c["pipe"] in ("read", "noreader", "vanish"):
            os.mkfifo(p)
            if c["pipe"] == "read":
                self.rfd = os.open(p, os.O_RDONLY | os.O_NONBLOCK)
        elif c["pipe"] == "file":
            open(p, "w").close()
        elif c["pipe"] == "dir":
            os.mkdir(p)
        obj.set_psplash_pipe(p)
        if c["pipe"] == "vanish":
            os.unlink(p)

    def numbers(self, c, txt, pat):
        ns = [int(x) for x in re.findall(pat, txt)]
        for x, y in zip(ns, ns[1:]):
            if y < x:
                return ns, "progress goes from %d to %d" % (x, y)
        if [x for x in ns if not 0 <= x <= 100]:
            return ns, "progress %r out of range" % ns
        return ns, None

    def judge(self, c):
        ns, r = self.numbers(c, self.prog.text, r"Copied (\d+)%" if not c["fmt"] else r"(\d+) done")
        p = os.path.join(self.scratch, "splash")
        piped = None
        if self.rfd is not None:
            try:
                piped = b""
                while True:
                    b = os.read(self.rfd, 65536)
                    if not b:
                        break
                    piped += b
            except OSError:
                pass
            os.close(self.rfd)
        if r:
            return r
        if c["pipe"] == "file" and os.path.getsize(p):
            return "a file that is not a pipe was written"
        if piped is not None:
            m, r = self.numbers(c, piped.decode(), r"PROGRESS (-?\d+)\n")
            if r:
                return "splash: " + r
        if c["version"]:
            blocks = [(a, b) for a, b in c["ranges"]]
            r = self.misplaced(c, blocks)
            if r:
                return r
        if self.exc is None:
            if c["version"] and self.dst.ranges and (not ns or ns[-1] != 100):
                return "ends at %r" % ns[-1:]
            if not c["version"] and c.get("given") and self.dst.ranges and ns[-1] != 100:
                return "ends at %r" % ns[-1:]
        elif c["version"] and self.consistent(c) and not self.envfail():
            return "progress makes the copy fail: %r" % self.exc
        elif not c["version"] and not self.envfail() and c.get("given", c["imglen"]) == c["imglen"]:
            return "progress makes the copy fail: %r" % self.exc
        return None


HARNESS = {k: globals()[k] for k in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C17", "C18", "C19")}
