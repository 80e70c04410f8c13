"""creating maps of real scratch files; the block map is real or a stand-in"""
import hashlib
import os
import re
import xml.etree.ElementTree as ET
from bmaptools import BmapCopy, BmapCreate, Filemap

ALGS = ["sha256", "sha1", "md5", "sha512", "SHA256", "blake2b"]


class FakeMap:
    def __init__(self, c, image):
        self.c = c
        self.image_size, self.block_size = c["size"], c["bs"]
        self.blocks_cnt = (c["size"] + c["bs"] - 1) // c["bs"]
        self.mapped_cnt = None

    def get_mapped_ranges(self, start, count):
        for a, b in self.c["ranges"]:
            a, b = max(a, start), min(b, start + count - 1)
            if a <= b:
                yield a, b

    def get_unmapped_ranges(self, start, count):
        raise AssertionError("not expected")

    def block_is_mapped(self, b):
        return any(x <= b <= y for x, y in self.c["ranges"])

    def block_is_unmapped(self, b):
        return not self.block_is_mapped(b)


class Spy:
    """file object that records whether it was closed"""

    def __init__(self, f, name):
        self._f, self.name, self.closes = f, name, 0

    def close(self):
        self.closes += 1
        self._f.close()

    def __getattr__(self, n):
        return getattr(self._f, n)


class Base:
    shrinkable = True

    def __init__(self, scratch):
        self.dir = scratch
        self.n = 0
        self.real_map = Filemap.filemap

    def smaller(self, c):
        if c["ranges"]:
            for i in range(len(c["ranges"])):
                yield dict(c, ranges=c["ranges"][:i] + c["ranges"][i + 1:])
        for k, v in (("include", False), ("pos", 0), ("alg", "sha256")):
            if c[k] != v:
                yield dict(c, **{k: v})

    def cases(self, rng):
        while True:
            mode = rng.choice(["fake"] * 6 + ["seek", "filemap"])
            bs = rng.choice([1, 2, 3, 7, 16, 512, 513, 4096]) if mode == "fake" else 4096
            n = rng.choice([1, 2, 9, 10, 11, 30, 100, 101, 1000])
            if mode != "fake":
                n = rng.choice([1, 5, 40, 300])
            if bs * n > 1 << 21:
                n = 400
            size = max(1, bs * n - rng.choice([0, 0, rng.randrange(bs)]))
            if mode == "fake" and rng.random() < 0.1:
                bs = rng.choice([1 << 20, 700001, 1 << 19])
                n = rng.choice([1, 2, 3, 5])
                size = max(2, bs * n - rng.choice([0, 1, bs - 1, rng.randrange(bs)]))
            if mode == "fake" and rng.random() < 0.03:
                size = 0
            nearly = rng.random() < 0.08
            if nearly:
                # the mapped size in a smaller unit than the image's
                bs, size = (4096, 1 << 20) if mode != "fake" else rng.choice([(4, 1024), (8, 1024), (4096, 1 << 20)])
            n = (size + bs - 1) // bs
            ranges, p = [], 0
            style = rng.choice(["full", "sparse", "dense", "none", "single"])
            if nearly:
                h = rng.randrange(n)
                ranges = [r for r in ([0, h - 1], [h + 1, n - 1]) if r[0] <= r[1]]
                p = n
            while p < n:
                if style == "full":
                    ranges.append([0, n - 1])
                    break
                if style == "none":
                    break
                p += rng.randrange(0 if style != "sparse" else 1, 6 if style == "sparse" else 3)
                if p >= n:
                    break
                ln = 1 if style == "single" else rng.randrange(1, 9)
                ranges.append([p, min(p + ln - 1, n - 1)])
                p += ln + 1
            yield dict(mode=mode, bs=bs, size=size, ranges=ranges, include=rng.random() < 0.7, alg=rng.choice(ALGS),
                       pos=rng.choice([0, 0, rng.randrange(size + 1)]), image=rng.choice(["path", "object", "object"]),
                       bmap=rng.choice(["path", "object"]), buf=rng.choice([0, 1, 64, 4096, 1 << 17]), seed=rng.randrange(1 << 30))

    def run(self, c):
        import random
        self.n += 1
        img, bm = os.path.join(self.dir, "img%d" % self.n), os.path.join(self.dir, "bmap%d" % self.n)
        r = random.Random(c["seed"])
        data = bytearray(c["size"])
        with open(img, "wb") as f:
            f.truncate(c["size"])
            for a, b in c["ranges"]:
                lo, hi = a * c["bs"], min((b + 1) * c["bs"], c["size"])
                blob = r.randbytes(hi - lo)
                if r.random() < 0.2:
                    # mapped blocks may hold nothing but zeros
                    z = r.randrange(lo, hi + 1) - lo
                    blob = bytes(z) + blob[z:] if r.random() < 0.5 else bytes(hi - lo)
                data[lo:hi] = blob
                f.seek(lo)
                f.write(blob)
        data = bytes(data)
        real = Filemap.filemap
        try:
            if c["mode"] == "fake":
                Filemap.filemap = lambda image: FakeMap(c, image)
                ranges = c["ranges"]
            else:
                if c["mode"] == "seek":
                    Filemap.filemap = Filemap.FilemapSeek
                with open(img, "rb") as f:
                    os.fsync(f.fileno())
                try:
                    with open(img, "rb") as f:
                        fm = (Filemap.FilemapSeek if c["mode"] == "seek" else real)(f)
                        if fm.block_size != c["bs"]:
                            return None
                        ranges = [list(x) for x in fm.get_mapped_ranges(0, fm.blocks_cnt)]
                except Filemap.ErrorNotSupp:
                    return None
            return self.judge(c, img, bm, data, ranges)
        finally:
            Filemap.filemap = real
            for p in (img, bm):
                if os.path.exists(p):
                    os.unlink(p)

    def make(self, c, img, bm):
        fi = open(img, "rb", buffering=c["buf"] if c["buf"] != 1 else -1) if c["image"] == "object" else None
        fb = open(bm, "w+") if c["bmap"] == "object" else None
        if fi:
            fi.seek(c["pos"])
            fi.read(1 if c["pos"] < c["size"] else 0)
        pos = fi.tell() if fi else None
        si = Spy(fi, img) if fi else None
        sb = Spy(fb, bm) if fb else None
        return si, sb, pos

    def judge(self, c, img, bm, data, ranges):
        si, sb, pos = self.make(c, img, bm)
        try:
            try:
                o = BmapCreate.BmapCreate(si or img, sb or bm, c["alg"])
            except BmapCreate.Error as e:
                return None if c["size"] == 0 else "refused: %s" % e
            if c["size"] == 0:
                return "an image of size zero was accepted"
            o.generate(c["include"])
            text = open(bm).read()
            cnt = o.mapped_cnt
            if si and si.tell() != pos:
                return "image position %d after generate, %d before" % (si.tell(), pos)
            if (si and si.closes) or (sb and sb.closes):
                return "an object handed in was closed"
            del o
        finally:
            for s in (si, sb):
                if s:
                    s._f.close()
        if open(img, "rb").read() != data:
            return "the image was modified"
        return self.check(c, text, data, ranges, cnt, bm)

    def check(self, c, text, data, ranges, cnt, bm):
        try:
            root = ET.fromstring(text)
        except ET.ParseError as e:
            return "not well-formed: %s" % e
        bs, size = c["bs"], c["size"]
        alg = c["alg"].lower()

        def get(n):
            return root.find(n).text.strip()
        want = {"ImageSize": size, "BlockSize": bs, "BlocksCount": (size + bs - 1) // bs,
                "MappedBlocksCount": sum(b - a + 1 for a, b in ranges)}
        for k, v in want.items():
            if get(k) != str(v):
                return "%s is %r, not %d" % (k, get(k), v)
        if cnt != want["MappedBlocksCount"]:
            return "mapped_cnt is %r" % cnt
        got = []
        for e in root.find("BlockMap"):
            if e.tag != "Range":
                return "element %s in the map" % e.tag
            t = e.text.strip().split("-")
            got.append([int(t[0]), int(t[-1])])
            cs = e.attrib.get("chksum")
            if (cs is not None) != c["include"]:
                return "checksum present: %r, wanted %r" % (cs, c["include"])
            if cs is not None:
                a, b = got[-1]
                if cs != hashlib.new(alg, data[a * bs:(b + 1) * bs]).hexdigest():
                    return "wrong checksum of range %d-%d" % (a, b)
        if got != ranges:
            return "ranges %r listed, %r mapped" % (got[:20], ranges[:20])
        return None


class C10(Base):
    rule = "random block size, size, layout, checksum type, object/path, initial position and buffering; distinct cases"


class C11(Base):
    rule = C10.rule + "; the result is read back by BmapCopy"

    def check(self, c, text, data, ranges, cnt, bm):
        msg = Base.check(self, c, text, data, ranges, cnt, bm)
        if msg:
            return msg
        root = ET.fromstring(text)
        alg = c["alg"].lower()
        if root.attrib.get("version") != "2.0" or root.find("ChecksumType").text.strip() != alg:
            return "version %r, checksum type %r" % (root.attrib.get("version"), root.find("ChecksumType").text)
        cs = root.find("BmapFileChecksum").text.strip()
        i = text.index("<BmapFileChecksum>")
        j = text.index(cs, i)
        z = text[:j] + "0" * len(cs) + text[j + len(cs):]
        if hashlib.new(alg, z.encode()).hexdigest() != cs:
            return "wrong file checksum"
        with open(bm, "rb") as f, open(os.path.join(self.dir, "out"), "wb+") as out, open(os.path.join(self.dir, "in"), "wb+") as inp:
            inp.write(data)
            inp.seek(0)
            try:
                w = BmapCopy.BmapCopy(inp, out, f)
            except BmapCopy.Error as e:
                return "the reader refuses the map: %s" % e
            if (w.image_size, w.block_size, w.mapped_cnt) != (c["size"], c["bs"], cnt):
                return "the reader sees another geometry"
            try:
                w.copy(False, True)
            except BmapCopy.Error as e:
                return "copying with the generated map fails: %s" % e
            out.seek(0)
            if len(data) < 1 << 22 and out.read() != data:
                return "the copy differs from the image"
        return None


HARNESS = {"C10": C10, "C11": C11}
