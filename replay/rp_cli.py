"""The command line, run in-process on scratch files, a stand-in gpg module and a
stand-in HTTP server below urllib's openers"""
import hashlib
import http.client
import io
import json
import logging
import os
import random
import shutil
import sys
import types
import urllib.error

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rp_trans import Base, Net, Resp                # noqa: E402
from bmaptools import BmapCopy, CLI, TransRead      # noqa: E402

BS, N = 4096, 12
HEAD = """<?xml version="1.0" ?>
<bmap version="2.0">
    <ImageSize> %d </ImageSize>
    <BlockSize> %d </BlockSize>
    <BlocksCount> %d </BlocksCount>
    <MappedBlocksCount> %d </MappedBlocksCount>
    <ChecksumType> sha256 </ChecksumType>
    <BmapFileChecksum> %s </BmapFileChecksum>
    <BlockMap>
%s    </BlockMap>
</bmap>
"""


def image(seed):
    return random.Random(seed).randbytes(BS * N - 100)


def map_blocks(k):
    """the set of blocks map number k covers: distinct and non-empty for k < 4096"""
    return [b for b in range(N) if ((k + 1) >> b) & 1]


def bmap(img, k, badsum=False):
    out = ""
    for b in map_blocks(k):
        h = hashlib.sha256(img[b * BS:(b + 1) * BS]).hexdigest()
        if badsum:
            h = "0" * 64
        out += '        <Range chksum="%s"> %d </Range>\n' % (h, b)
    text = HEAD % (len(img), BS, N, len(map_blocks(k)), "0" * 64, out)
    return text.replace("0" * 64, hashlib.sha256(text.encode()).hexdigest(), 1).encode()


def self_map():
    """an image that is a well-formed map of itself"""
    out = HEAD.replace('"2.0"', '"1.2"') % (BS * N - 100, BS, N, 1, "0", "        <Range> 0 </Range>\n")
    out = "".join(x + "\n" for x in out.splitlines() if "Checksum" not in x)
    return out.encode().ljust(BS * N - 100, b"\n")


def copied(img, k):
    """the destination after copying with map k"""
    out = bytearray(len(img))
    for b in map_blocks(k):
        out[b * BS:(b + 1) * BS] = img[b * BS:(b + 1) * BS]
    return bytes(out)


def md5(b):
    return hashlib.md5(b).hexdigest()


# ------------------------------------------------------------------ gpg
class Sig:
    def __init__(self, ok):
        self.summary = 3 if ok else 4
        self.fpr = "FPR"
        self.status = 0 if ok else 9


def make_gpg(verified):
    """verified: list filled with (md5 of the signed data, all valid)"""
    gpg = types.ModuleType("gpg")
    gpg.constants = types.SimpleNamespace(SIGSUM_VALID=1, SIGSUM_GREEN=2, SIGSUM_RED=4, SIGSUM_KEY_MISSING=128)

    class GpgError(Exception):
        pass

    class GPGMEError(GpgError):
        def getstring(self):
            return "stand-in error"

    class BadSignatures(GpgError):
        pass
    gpg.errors = types.SimpleNamespace(GpgError=GpgError, GPGMEError=GPGMEError, BadSignatures=BadSignatures)

    def whole(o):
        return bytes(o) if isinstance(o, (bytes, bytearray)) else o.read()

    class Context:
        def __init__(self, *a, **kw):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def get_key(self, fpr, *a, **kw):
            return types.SimpleNamespace(uids=[types.SimpleNamespace(name="N", email="E")])

        def verify(self, signed_data, signature=None, sink=None, verify=True):
            data = whole(signed_data)
            try:
                d = json.loads(whole(signature))
            except Exception:       # noqa
                raise GPGMEError("no data")
            if d["md5"] != md5(data):
                raise BadSignatures("mismatch")
            verified.append((md5(data), all(d["sigs"])))
            return data, types.SimpleNamespace(signatures=[Sig(x) for x in d["sigs"]])
    gpg.Context = Context
    return gpg


class Messages(logging.Handler):
    def __init__(self, fn):
        logging.Handler.__init__(self)
        self.fn = fn

    def emit(self, record):
        self.fn(record.getMessage())


class Cli(Base):
    def fresh(self):
        self.w = os.path.join(self.dir, "w")
        shutil.rmtree(self.w, ignore_errors=True)
        os.makedirs(self.w)

    def put(self, name, data):
        p = os.path.join(self.w, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def get(self, p):
        try:
            with open(p, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def go(self, argv, gpg=True, urls=None, at_end=None, fault=None):
        """run the command; (status, log messages, verified)"""
        verified, said = [], []
        served = {}

        def plan(req, i):
            u = req.full_url
            bodies = (urls or {}).get(u)
            if bodies is None:
                raise urllib.error.HTTPError(u, 404, "not found", http.client.HTTPMessage(), io.BytesIO(b""))
            k = served[u] = served.get(u, -1) + 1
            return Resp(bodies[min(k, len(bodies) - 1)], {})
        root = logging.getLogger()
        saved = (sys.argv, sys.stdout, sys.stderr, root.handlers[:], root.level, sys.modules.get("gpg"),
                 BmapCopy.BmapCopy.copy, BmapCopy.BmapCopy.sync, os.getcwd())

        def hear(m):
            said.append(m)
            if at_end:
                at_end(m)
        if fault:
            where, exc = fault
            E = {"error": BmapCopy.Error, "read": TransRead.Error, "int": KeyboardInterrupt, "mem": MemoryError,
                 "os": OSError}[exc]
            real = BmapCopy.BmapCopy.sync if where == "sync" else BmapCopy.BmapCopy.copy

            def broken(me, *a, **kw):
                if where == "copied":
                    real(me, *a, **kw)
                raise E("stand-in")
            setattr(BmapCopy.BmapCopy, "sync" if where == "sync" else "copy", broken)
        h = Messages(hear)
        try:
            root.handlers[:] = [h]
            sys.argv = ["bmaptool"] + argv
            sys.stdout, sys.stderr = io.TextIOWrapper(io.BytesIO()), io.StringIO()
            sys.modules["gpg"] = make_gpg(verified) if gpg else None
            os.chdir(self.w)
            with Net(plan), self.path():
                try:
                    r = CLI.main()
                    st = 0 if r is None else r if isinstance(r, int) else 1
                except SystemExit as e:
                    st = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
                except (Exception, KeyboardInterrupt):      # noqa  (the interpreter exits with 1 or 130)
                    st = 1
            st &= 255
            return st, said, verified
        finally:
            (sys.argv, sys.stdout, sys.stderr, root.handlers[:], lvl, g, BmapCopy.BmapCopy.copy,
             BmapCopy.BmapCopy.sync, cwd) = saved
            root.setLevel(lvl)
            os.chdir(cwd)
            if g is None:
                sys.modules.pop("gpg", None)
            else:
                sys.modules["gpg"] = g


class C15(Cli):
    rule = "with verification on and a signature given or discovered, data is written only with the map that was " \
           "verified and only if every signature is valid; otherwise the run fails and writes no data"

    def cases(self, rng):
        while True:
            src = rng.choice(["option", "option", "asc", "sig", "both", "none"])
            yield {"seed": rng.randrange(100), "map": rng.choice(["given", "given", "found", "url"]), "src": src,
                   "sigurl": rng.random() < 0.4, "k": rng.randrange(4000), "other": rng.randrange(4000),
                   "signed": rng.choice(["map"] * 5 + ["other"]), "moves": rng.random() < 0.4,
                   "sigs": [rng.random() < 0.75 for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                   "garbage": rng.choice([None] * 5 + ["missing", "junk", "clear"]), "gpg": rng.random() < 0.85,
                   "off": rng.random() < 0.2, "nobmap": rng.random() < 0.08, "dest": rng.random() < 0.6,
                   "extra": rng.choice([[], [], ["-q"], ["-d"]]), "noverify": rng.random() < 0.2}

    def run(self, c):
        self.fresh()
        img = image(c["seed"])
        c = dict(c, other=c["other"] if c["other"] != c["k"] else (c["k"] + 1) % 4000)
        m, o = bmap(img, c["k"]), bmap(img, c["other"])
        if c["garbage"] == "clear":
            m = b"-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\n" + m + b"-----BEGIN PGP SIGNATURE-----\n\nx\n"
        ip = self.put("disk.img", img)
        dest = os.path.join(self.w, "out")
        old = b"previous content" * 5000
        if c["dest"]:
            self.put("out", old)
        urls = {}
        argv = c["extra"] + ["copy", ip, dest]
        # the map
        if c["map"] == "given":
            mp = self.put("maps/the.bmap", m)
            argv += ["--bmap", mp]
            self.put("disk.img.bmap", o)
        elif c["map"] == "found":
            mp = self.put(["disk.img.bmap", "disk.bmap"][c["seed"] % 2], m)
        else:
            mp = "http://host/maps/the.bmap"
            argv += ["--bmap", mp]
            urls[mp] = [m, o] if c["moves"] else [m]
            self.put("disk.img.bmap", o)
        # the signature
        text = json.dumps({"md5": md5(m if c["signed"] == "map" else o), "sigs": c["sigs"]}).encode()
        if c["garbage"] == "junk":
            text = b"this is no signature"
        remote = False
        if c["src"] == "option":
            remote = c["sigurl"]
            sp = "http://host/sigs/x.sig" if remote else os.path.join(self.w, "x.sig")
            argv += ["--bmap-sig", sp]
            if c["garbage"] != "missing":
                if remote:
                    urls[sp] = [text]
                else:
                    self.put("x.sig", text)
        elif c["src"] != "none" and c["garbage"] != "missing":
            for e in {"asc": [".asc"], "sig": [".sig"], "both": [".asc", ".sig"]}[c["src"]]:
                if c["map"] == "url":
                    urls[mp + e] = [text]
                else:
                    self.put(mp + e, text)
        if c["off"]:
            argv.append("--no-sig-verify")
        if c["nobmap"]:
            argv.append("--nobmap")
        if c["noverify"]:
            argv.append("--no-verify")
        st, said, verified = self.go(argv, c["gpg"], urls)
        now = self.get(dest)
        wrote = now is not None and now != b"" and not (c["dest"] and now == old)
        if c["src"] == "option" and c["off"]:
            return self.refused(st, wrote, "a signature together with disabled verification")
        if c["nobmap"] or c["off"]:
            return None
        if c["src"] == "none" or (c["garbage"] == "missing" and c["src"] != "option"):
            return None
        if not c["gpg"]:
            return self.refused(st, wrote, "the gpg module is missing")
        if c["garbage"]:
            return self.refused(st, wrote, "the signature file is %s" % c["garbage"])
        if c["signed"] != "map":
            return self.refused(st, wrote, "the signature is not one of the map")
        if not all(c["sigs"]):
            return self.refused(st, wrote, "a signature is invalid")
        if not wrote:
            return None
        if not verified:
            return "data was written and no signature was verified"
        for k, t in ((c["k"], m), (c["other"], o)):
            if now == copied(img, k):
                if (md5(t), True) not in verified:
                    return "the map used for copying is not the one whose signature was verified"
                return None
        return None

    def refused(self, st, wrote, what):
        if wrote:
            return "data was written although %s" % what
        if st == 0:
            return "the exit status is 0 although %s" % what
        return None


NAMES = ["disk.img", "disk", "disk.tar.img", "a.b/disk", "disk.bmap", "a.b/disk.img", "disk.v1.2.raw", ".disk", "disk.img.bmap",
         "disk..img", "dir.bmap/disk.img"]


def chain(name):
    out = [name + ".bmap"]
    while True:
        name, ext = os.path.splitext(name)
        if not ext:
            return out
        out.append(name + ".bmap")


class C16(Cli):
    rule = "contradictory options leave the destination alone and fail; the map used is the named one or the first of the " \
           "discovery chain; no map needs --nobmap; every failure gives a nonzero status; success is reported after the sync"

    def cases(self, rng):
        while True:
            name = rng.choice(NAMES)
            yield {"seed": rng.randrange(100), "name": name, "k": rng.randrange(3000), "dest": rng.random() < 0.6,
                   "there": [rng.random() < 0.35 for _ in chain(name)],
                   "bmap": rng.choice([None, None, None, "ok", "ok", "ok", "missing", "junk", "image", "url", "nourl", "badsum", "other"]),
                   "nobmap": rng.random() < 0.25, "sig": rng.random() < 0.12, "nosig": rng.random() < 0.25,
                   "q": rng.random() < 0.25, "d": rng.random() < 0.25, "noverify": rng.random() < 0.3,
                   "bad": rng.choice([None] * 6 + ["image", "dest", "isdir"]), "splash": rng.random() < 0.1,
                   "fault": rng.choice([None] * 5 + [[w, e] for w in ("copy", "copied", "sync")
                                                     for e in ("error", "read", "int", "mem", "os")]),
                   "rel": rng.random() < 0.4, "self": rng.random() < 0.15}

    def run(self, c):
        self.fresh()
        img = self_map() if c["self"] else image(c["seed"])
        for d in ("a.b", "dir.bmap", "x"):
            os.makedirs(os.path.join(self.w, d))
        ip = c["name"] if c["rel"] else os.path.join(self.w, c["name"])
        full = os.path.join(self.w, c["name"])
        if c["bad"] != "image":
            self.put(c["name"], img)
        maps = {}
        k = c["k"]
        for i, (p, there) in enumerate(zip(chain(full), c["there"])):
            if there and p != full:
                maps[p] = k + i
                self.put(p, bmap(img, k + i))
        dest = os.path.join(self.w, "x", "out")
        old = b"previous content" * 5000
        if c["bad"] == "dest":
            dest = os.path.join(self.w, "nowhere", "out")
        elif c["bad"] == "isdir":
            os.mkdir(dest)
        elif c["dest"]:
            self.put("x/out", old)
        argv = ["-q"] * c["q"] + ["-d"] * c["d"] + ["copy", ip, "x/out" if c["rel"] and not c["bad"] else dest]
        urls = {}
        b, used, fails = c["bmap"], None, None
        if b:
            mp = os.path.join(self.w, "x", "given.bmap")
            if b == "ok":
                self.put(mp, bmap(img, k + 50))
            elif b == "url":
                mp = "http://host/given.bmap"
                urls[mp] = [bmap(img, k + 50)]
            elif b == "nourl":
                mp = "http://host/nothing.bmap"
            elif b == "junk":
                self.put(mp, b"<bmap version='2.0'> broken")
            elif b == "badsum":
                self.put(mp, bmap(img, k + 50, True))
            elif b == "other":
                # a map of another image: its size differs
                self.put(mp, bmap(img[:-BS * 2], k % 100))
            elif b == "image":
                mp = ip
            argv += ["--bmap", mp]
            used = k + 50
            if b in ("missing", "nourl", "junk", "other") or (b == "badsum" and not c["noverify"]):
                fails = "the map asked for is %s" % b
            elif b == "image":
                fails = "the map is the image"
        elif not c["nobmap"]:
            for p in chain(full):
                if p == full and c["bad"] != "image":
                    fails = "the map is the image"
                    break
                if p in maps:
                    used = maps[p]
                    break
            else:
                fails = "there is no map"
        for o in ("nobmap", "noverify"):
            if c[o]:
                argv.append({"nobmap": "--nobmap", "noverify": "--no-verify"}[o])
        if c["nosig"]:
            argv.append("--no-sig-verify")
        if c["sig"]:
            sp = self.put("x/given.sig", json.dumps({"md5": md5(b"nothing"), "sigs": [True]}).encode())
            argv += ["--bmap-sig", sp]
        if c["splash"]:
            argv += ["--psplash-pipe", self.put("x/splash", b"")]
        contra = (c["nobmap"] and b) or (c["sig"] and c["nosig"]) or (c["q"] and c["d"])
        if c["sig"] and not c["nosig"]:
            fails = fails or "the signature does not match"
        want = img if used is None else copied(img, used)
        state = {"synced": False, "early": None}
        fsync = os.fsync

        def note(fd):
            r = fsync(fd)
            try:
                state["synced"] |= os.fstat(fd).st_ino == os.stat(dest).st_ino
            except OSError:
                pass
            return r

        def heard(m):
            if "copying time" in m and state["early"] is None:
                if not state["synced"]:
                    state["early"] = "success is reported before the destination was synchronised"
                elif self.get(dest) != want and b != "other":
                    state["early"] = "success is reported while the destination has other contents"
                elif c["fault"]:
                    state["early"] = "success is reported although %s failed" % c["fault"][0]
                else:
                    state["early"] = ""
        os.fsync = note
        try:
            st, said, verified = self.go(argv, True, urls, heard, c["fault"])
        finally:
            os.fsync = fsync
        now = None if c["bad"] == "isdir" else self.get(dest)
        if contra:
            if st == 0:
                return "contradictory options and the exit status is 0"
            if c["bad"] is None and now != (old if c["dest"] else None):
                return "contradictory options and the destination was touched"
            return None
        if state["early"]:
            return state["early"]
        if self.get(full) != (None if c["bad"] == "image" else img):
            return "the image file was changed"
        if c["bad"]:
            return "exit status 0 although %s cannot be opened" % c["bad"] if st == 0 else None
        wrote = now is not None and now != b"" and not (c["dest"] and now == old)
        if fails:
            if st == 0:
                return "exit status 0 although %s" % fails
            if wrote and b != "badsum":
                return "data was written although %s" % fails
            return None
        if c["fault"]:
            if st == 0:
                return "exit status 0 although the %s failed (%s)" % tuple(c["fault"])
            return None
        if st == 0 and now != want:
            return "exit status 0 and the destination is not the image copied with %s" % (
                "no map" if used is None else "the map asked for" if b else "the first map of the chain")
        if st != 0 and not c["q"] and not c["splash"]:
            return "a plain copy is refused"
        return None


HARNESS = {"C15": C15, "C16": C16}
