"""TransRead against scratch files, stand-in tools on a scratch PATH and a
stand-in HTTP server (below urllib's openers)"""
import base64
import contextlib
import errno
import http.client
import io
import os
import random
import shutil
import socket
import subprocess
import sys
import threading
import time
import urllib.error
import urllib.parse
import urllib.request

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from contracts.cmdline import FORMATS, TOOLS, command_kind      # noqa: E402
from bmaptools import BmapCreate, TransRead                     # noqa: E402

ALL = sorted({t for ts in TOOLS.values() for t in ts} | {"tar"})
threading.excepthook = lambda a: None

TOOL = """#!/bin/sh
echo "$0 $*" >> %(dir)s/log
[ -f %(dir)s/early ] && { /usr/bin/head -c `/bin/cat %(dir)s/early`; exit 3; }
/usr/bin/tee %(dir)s/fed
[ -f %(dir)s/code ] && exit `/bin/cat %(dir)s/code`
exit 0
"""


def content(seed, n):
    return random.Random(seed).randbytes(n)


class Resp:
    """body of a response with short reads and failures; style decides the operations it knows"""

    def __init__(self, data, c):
        self._b = io.BytesIO(data)
        self.r = random.Random(c.get("seed", 0))
        self.short, self.fail = c.get("short", 0), c.get("fail")
        self.code = self.status = 200
        self.msg = self.reason = "OK"
        self.shut = False
        self.headers = http.client.HTTPMessage()

    def info(self):
        return self.headers

    def geturl(self):
        return "url"

    def read(self, n=-1):
        if self.shut:
            raise ValueError("I/O operation on closed file")
        if self.fail is not None and self._b.tell() >= self.fail:
            raise OSError(errno.EIO, "stand-in failure")
        if n is None or n < 0:
            if self.fail is not None:
                raise OSError(errno.EIO, "stand-in failure")
            return self._b.read()
        if self.short and n:
            n = self.r.randrange(1, max(2, min(n, self.short) + 1))
        if self.fail is not None:
            n = min(n, self.fail - self._b.tell())
        return self._b.read(n)

    def close(self):
        self.shut = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Net:
    """replaces the connection below urllib's handlers: answers every request with plan(request)"""

    def __init__(self, plan):
        self.plan = plan
        self.requests = []

    def __enter__(self):
        self.saved = urllib.request.AbstractHTTPHandler.do_open
        net = self

        def do_open(handler, cls, req, **kw):
            net.requests.append(req)
            return net.plan(req, len(net.requests) - 1)
        urllib.request.AbstractHTTPHandler.do_open = do_open
        urllib.request.install_opener(None)
        return self

    def __exit__(self, *a):
        urllib.request.AbstractHTTPHandler.do_open = self.saved
        urllib.request.install_opener(None)


class Base:
    shrinkable = False

    def __init__(self, scratch):
        self.dir = scratch
        self.bin = os.path.join(scratch, "bin")
        os.makedirs(self.bin, exist_ok=True)
        os.makedirs(os.path.join(scratch, "home"), exist_ok=True)
        os.environ["HOME"] = os.path.join(scratch, "home")
        for v in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
            os.environ.pop(v, None)
        os.environ["no_proxy"] = "*"

    def tools(self, names, code=None, early=None):
        shutil.rmtree(self.bin)
        os.mkdir(self.bin)
        for n in names:
            p = os.path.join(self.bin, n)
            with open(p, "w") as f:
                f.write(TOOL % {"dir": self.dir})
            os.chmod(p, 0o755)
        for n, v in (("code", code), ("early", early)):
            p = os.path.join(self.dir, n)
            if os.path.exists(p):
                os.unlink(p)
            if v is not None:
                with open(p, "w") as f:
                    f.write(str(v))
        for n in ("log", "fed"):
            with open(os.path.join(self.dir, n), "w"):
                pass

    @contextlib.contextmanager
    def path(self, value=None):
        old = os.environ["PATH"]
        os.environ["PATH"] = self.bin if value is None else value
        err = os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        os.close(null)
        try:
            yield
        finally:
            os.environ["PATH"] = old
            os.dup2(err, 2)
            os.close(err)

    def log(self):
        with open(os.path.join(self.dir, "log")) as f:
            return [x.split() for x in f.read().splitlines()]

    def fed(self):
        with open(os.path.join(self.dir, "fed"), "rb") as f:
            return f.read()

    def close(self, r):
        try:
            r.close()
        except Exception:           # noqa  (C23 checks this)
            pass


def tails(rng):
    return rng.choice(sorted(FORMATS) + [None, ".img", ".GZ", ".gz.txt", "gz", ".tar", ".tgzx", ".raw", ".z"])


def expected(name):
    for t in sorted(FORMATS, key=lambda t: -len(t)):
        if name.endswith(t):
            return FORMATS[t]
    return None


class C12(Base):
    rule = "every read returns the bytes of the stream at the position told; forward seeks stop at the end, others are " \
           "refused without consuming; the end is only reported if the child process succeeded"

    def cases(self, rng):
        while True:
            kind = rng.choice(["local", "fifo", "stdin", "http", "http", "gz", "xz", "httpbz2"])
            n = rng.choice([0, 1, 10, 1000, 70000, 1 << 20, (1 << 20) + 17, 2500000])
            ops = []
            for _ in range(rng.randrange(1, 12)):
                o = rng.choice(["read", "read", "tell", "seek", "seek", "cur", "all", "bad", "r0"])
                a = rng.choice([0, 1, 7, 512, 4096, n // 3, n, n + 5, 1 << 20, (1 << 20) + 1])
                ops.append([o, a if o in ("read", "seek", "cur") else rng.choice([2, 3, -1, 7]) if o == "bad" else 0])
            yield {"kind": kind, "n": n, "seed": rng.randrange(1000), "short": rng.choice([0, 0, 1000, 65536]) if n > 5000
                   else rng.choice([0, 1, 3, 100]), "ops": ops, "back": rng.random() < 0.5,
                   "code": rng.choice([None, None, None, 1, 2, 3, 127]), "noseek": rng.random() < 0.5}

    def run(self, c):
        data = content(c["seed"], c["n"])
        tail = {"gz": ".gz", "xz": ".tar.xz", "httpbz2": ".bz2"}.get(c["kind"], "")
        child = bool(tail)
        self.tools(ALL, c["code"] if child else None)
        name = os.path.join(self.dir, "img" + tail)
        if os.path.lexists(name):
            os.unlink(name)
        plan = lambda req, i: Resp(data, c)     # noqa
        th = stdin = None
        if c["kind"] in ("local", "gz", "xz"):
            with open(name, "wb") as f:
                f.write(data)
        elif c["kind"] == "fifo":
            os.mkfifo(name)
        elif c["kind"] == "stdin":
            stdin, name = sys.stdin, "-"
            rd, wr = os.pipe()
            sys.stdin = os.fdopen(rd, "r")
        else:
            name = "http://host/img" + tail

        def feed():
            try:
                with open(name, "wb") if c["kind"] == "fifo" else os.fdopen(wr, "wb") as f:
                    f.write(data)
            except OSError:
                pass
        if c["kind"] in ("fifo", "stdin"):
            th = threading.Thread(target=feed, daemon=True)
            th.start()
        r = None
        try:
            with Net(plan), self.path():
                r = TransRead.TransRead(name)
                return self.ops(c, r, data, child)
        finally:
            if r is not None:
                self.close(r)
            if stdin is not None:
                with contextlib.suppress(Exception):
                    sys.stdin.close()
                sys.stdin = stdin
            if th is not None:
                th.join(5)

    def ops(self, c, r, data, child):
        n = len(data)
        pos = 0
        bad = child and c["code"] is not None and not (c["kind"] == "gz" and c["code"] == 2)
        seekable = c["kind"] == "local"

        def get(size):
            nonlocal pos
            want = data[pos:] if size is None else data[pos:pos + size]
            try:
                b = r.read() if size is None else r.read(size)
            except TransRead.Error as e:
                if bad:
                    return "over"
                return "read fails: %s" % e
            if size is None or c["kind"] in ("local", "gz", "xz", "httpbz2"):
                if b != want:
                    return "read(%s) at %d returns %d bytes, not the %d expected" % (size, pos, len(b), len(want))
            elif b != data[pos:pos + len(b)] or len(b) > size or (not b and size and pos < n):
                return "read(%s) at %d returns other bytes" % (size, pos)
            if bad and (size is None or (size and not b)):
                return "the end is reported though the process exited with %s" % c["code"]
            pos += len(b)
            return None
        for op, a in c["ops"] + [["tell", 0], ["all", 0], ["read", 5]]:
            m = None
            if op in ("read", "r0"):
                m = get(a if op == "read" else 0)
            elif op == "all":
                m = get(None)
            elif op == "tell":
                t = r.tell()
                if t != pos:
                    m = "tell() is %r instead of %d" % (t, pos)
            else:
                if op == "bad":
                    if seekable:
                        continue
                    args, new, legal = (0, a), None, False
                elif op == "cur":
                    back = c["back"] and a and a <= pos
                    args, new = ((-a if back else a), 1), pos + (-a if back else a)
                    legal = new >= pos or seekable
                else:
                    new = a if c["back"] else pos + a
                    args = (new,)
                    legal = new >= pos or seekable
                try:
                    r.seek(*args)
                    if not legal:
                        m = "seek%s at %d is not refused" % (args, pos)
                    elif seekable:
                        pos = new
                    else:
                        pos = min(new, max(n, pos))
                except Exception as e:      # noqa
                    if legal:
                        m = "seek%s at %d is refused: %s" % (args, pos, e)
            if m == "over":
                return None
            if m:
                return m
        return None


class C13(Base):
    rule = "the command executed decompresses the format of the name, missing programs are refused before anything is " \
           "started, other names are read as they are, a size is only reported for plain local files"

    def cases(self, rng):
        for t in sorted(FORMATS):
            for where in ("file", "http"):
                yield {"tail": t, "root": "img", "where": where, "avail": ALL, "n": 3000, "seed": 1, "path": 0}
            for miss in sorted(TOOLS[FORMATS[t][0]]) + ["tar"]:
                yield {"tail": t, "root": "a.b", "where": "file", "avail": [x for x in ALL if x != miss], "n": 100,
                       "seed": 1, "path": 1}
        while True:
            yield {"tail": tails(rng), "root": rng.choice(["img", "a.b", "x.gz.y", "tar", "x.tar", "a b", "x.zip.img", ".h"]),
                   "where": rng.choice(["file", "file", "http", "fifo"]),
                   "avail": [t for t in ALL if rng.random() < 0.8], "n": rng.choice([0, 1, 5000]), "seed": rng.randrange(99),
                   "path": rng.randrange(4)}

    def run(self, c):
        data = content(c["seed"], c["n"])
        self.tools(c["avail"])
        base = c["root"] + (c["tail"] or "")
        fmt = expected(base)
        if c["where"] == "http":
            name = "http://host/" + base.replace(" ", "%20")
        else:
            name = os.path.join(self.dir, base)
            if os.path.lexists(name):
                os.unlink(name)
            if c["where"] == "file":
                with open(name, "wb") as f:
                    f.write(data)
            else:
                os.mkfifo(name)
                threading.Thread(target=self.feed, args=(name, data), daemon=True).start()
        empty = os.path.join(self.dir, "home")
        path = [self.bin, empty + ":" + self.bin, '"%s"' % self.bin, self.bin + ":/nonexistent"][c["path"]]
        r = err = None
        try:
            with Net(lambda q, i: Resp(data, {})), self.path(path if c["path"] != 2 else self.bin):
                try:
                    r = TransRead.TransRead(name)
                except TransRead.Error as e:
                    err = str(e)
                got = r.read() if r is not None else None
        finally:
            size = "?" if r is None else r.size
            if r is not None:
                self.close(r)
            if c["where"] == "fifo":
                with contextlib.suppress(OSError):
                    os.close(os.open(name, os.O_RDONLY | os.O_NONBLOCK))
            if c["where"] != "http":
                os.unlink(name)
        log = self.log()
        if fmt is None:
            if err:
                return "%s is refused: %s" % (base, err)
            if log:
                return "%s is not compressed, but %s was executed" % (base, log)
            if got != data:
                return "%s is not read as it is" % base
            want = {"file": [len(data)], "http": [None], "fifo": [None, 0]}[c["where"]]
            return None if size in want else "the size reported for %s is %r" % (base, size)
        have = set(c["avail"])
        kind, tar = fmt
        tools = TOOLS[kind]
        ok = bool(have & set(tools)) and (not tar or "tar" in have)
        if err is not None:
            # an archive may insist on the plain tool, which tar will use
            if ok and not (tar and tools[-1] not in have):
                return "%s is refused with all programs at hand: %s" % (base, err)
            return "a process was started for %s before the refusal" % base if log else None
        if not ok:
            return "%s is not refused though %s is missing" % (base, "tar" if have & set(tools) else tools)
        if len(log) != 1:
            return "%s: %d commands were executed: %s" % (base, len(log), log)
        k = command_kind(log[0])
        if k[:2] != fmt:
            return "%s: %s executed instead of a command for %s (%s)" % (base, " ".join(log[0]), fmt, k)
        if not tar and len(tools) > 1 and (k[2] == tools[0]) != (tools[0] in have):
            return "%s: %s is used, %s %s" % (base, k[2], tools[0], "is available" if tools[0] in have else "is not")
        if got != data or self.fed() != data:
            return "%s: the command did not get the file (or its output is not what is read)" % base
        return None if size is None else "the size %r is reported for %s" % (size, base)

    def feed(self, name, data):
        try:
            with open(name, "wb") as f:
                f.write(data)
        except OSError:
            pass


class C14(Base):
    rule = "the decompressor gets all bytes in order and then the end of its input, also if the source or the pipe fails"

    def cases(self, rng):
        while True:
            n = rng.choice([0, 1, 1000, 65536, 1 << 20, (1 << 20) + 1, 3 << 20, 2500001])
            yield {"n": n, "seed": rng.randrange(1000), "short": rng.choice([0, 0, 4096, 100000, 1 << 20]) if n > 5000
                   else rng.choice([0, 1, 10]), "fail": rng.choice([None, None, None, 0, n // 2, n]),
                   "early": rng.choice([None, None, None, 0, 1, 5000]), "tail": rng.choice([".gz", ".tar.xz", ".bz2", ".zip"])}

    def run(self, c):
        data = content(c["seed"], c["n"])
        self.tools(ALL, None, c["early"])
        procs = []
        real = subprocess.Popen

        class Popen(real):
            def __init__(self, *a, **k):
                procs.append(self)
                real.__init__(self, *a, **k)
        subprocess.Popen = Popen
        r = None
        try:
            with Net(lambda q, i: Resp(data, c)), self.path():
                before = set(threading.enumerate())
                r = TransRead.TransRead("http://host/img" + c["tail"])
                out = []
                try:
                    while True:
                        b = r.read(100000)
                        if not b:
                            break
                        out.append(b)
                except TransRead.Error:
                    pass
                for t in set(threading.enumerate()) - before:
                    t.join(10)
                    if t.is_alive():
                        return "the feeder does not end"
                for p in procs:
                    try:
                        p.wait(10)
                    except subprocess.TimeoutExpired:
                        return "the decompressor waits for the end of its input"
                    if p.stdin is not None and not p.stdin.closed:
                        return "the decompressor's input is left open"
        finally:
            subprocess.Popen = real
            if r is not None:
                self.close(r)
        out = b"".join(out)
        if c["early"] is not None:
            return None if data.startswith(out) else "other bytes were fed"
        if c["fail"] is not None:
            return None if data.startswith(self.fed()) else "other bytes were fed"
        if self.fed() != data:
            return "%d bytes were fed to the decompressor instead of the %d of the source" % (len(self.fed()), len(data))
        return None


class C22(Base):
    rule = "credentials are not in the request URL but are offered to the server, everything else of the URL is kept, " \
           "those of the URL win over the netrc file, failures are the module's errors, a timeout is retried without one"

    def cases(self, rng):
        while True:
            yield {"scheme": rng.choice(["http", "http", "https"]), "user": rng.choice(["", "bob", "a.b"]),
                   "pass": rng.choice([None, None, "", "pw", "p:w"]),
                   "host": rng.choice(["host", "h.example.com", "127.0.0.1", "[::1]", "[2001:db8::2]"]),
                   "port": rng.choice(["", "", "", ":8080", ":80", ":1"]), "path": rng.choice(["/img", "/a/b.img", "/", "/a;p", ""]),
                   "tail": rng.choice(["", "", "?q=1", "?a=b@c", "#f"]),
                   "netrc": rng.choice(["none", "none", "match", "other", "default", "broken"]),
                   "auth": rng.random() < 0.7,
                   "odd": rng.choice([None] * 9 + ["host", "port", "port2", "ipv6"]),
                   "plan": rng.choice([["ok"]] * 6 + [[a, b] for a in (
                       "timeout", "urltimeout") for b in ("ok", "timeout", "urltimeout", "oserror")] + [
                       [x] for x in ("oserror", "urlerror", "value", "invalid", "badstatus", "protocol", "http404", "refused")])}

    def odd(self, c, url):
        """URLs that cannot be right must be refused by the module's error"""
        with Net(lambda q, i: Resp(b"x", {})), self.path():
            try:
                self.close(TransRead.TransRead(url))
            except TransRead.Error:
                pass
        return None

    def run(self, c):
        cred = "" if not c["user"] and c["pass"] is None else c["user"] + ("" if c["pass"] is None else ":" + c["pass"]) + "@"
        rest = c["host"] + c["port"] + c["path"] + c["tail"]
        url = c["scheme"] + "://" + cred + rest
        bare = c["scheme"] + "://" + rest
        if c.get("odd"):
            return self.odd(c, {"host": url.replace(c["host"], "", 1), "port": url.replace(rest, c["host"] + ":99999" + c["path"]),
                                "port2": url.replace(rest, c["host"] + ":ab" + c["path"]),
                                "ipv6": url.replace(rest, "[::1" + c["path"])}[c["odd"]])
        home = os.environ["HOME"]
        rc = os.path.join(home, ".netrc")
        if os.path.exists(rc):
            os.unlink(rc)
        plain = c["host"].strip("[]")
        text = {"match": "machine %s login nu password np\n" % plain, "other": "machine elsewhere login ou password op\n",
                "default": "default login du password dp\n", "broken": "machine\nfoo bar\n"}.get(c["netrc"])
        if text is not None:
            with open(rc, "w") as f:
                f.write(text)
            os.chmod(rc, 0o600)
        want = None
        if c["user"] and c["pass"]:
            want = (c["user"], c["pass"])
        elif not c["user"] and not c["pass"]:
            want = {"match": ("nu", "np"), "default": ("du", "dp")}.get(c["netrc"])
        data = content(7, 100)
        seen = []

        def plan(req, i):
            a = req.get_header("Authorization")
            seen.append((req.full_url, a, req.timeout, req.host))
            step = c["plan"][min(sum(1 for x in seen[:-1] if x[1] is None or x[1] == "done"), len(c["plan"]) - 1)]
            if step == "ok":
                r = Resp(data, {})
                if want and c["auth"] and a is None:
                    r.code = r.status = 401
                    r.headers["WWW-Authenticate"] = 'Basic realm="r"'
                    seen[-1] = (seen[-1][0], "done", seen[-1][2], seen[-1][3])
                    seen.pop()
                    seen.append((req.full_url, None, req.timeout, req.host))
                    c_["challenged"] = True
                return r
            if step == "timeout":
                raise socket.timeout("timed out")
            if step == "urltimeout":
                raise urllib.error.URLError(socket.timeout("timed out"))
            if step == "oserror":
                raise OSError(errno.ECONNRESET, "reset")
            if step == "refused":
                raise ConnectionRefusedError(errno.ECONNREFUSED, "refused")
            if step == "urlerror":
                raise urllib.error.URLError("no route")
            if step == "value":
                raise ValueError("bad value")
            if step == "invalid":
                raise http.client.InvalidURL("nonnumeric port")
            if step == "badstatus":
                raise http.client.BadStatusLine("x")
            if step == "protocol":
                raise http.client.UnknownProtocol("HTTP/9")
            r = Resp(data, {})
            r.code = r.status = 404
            r.msg = r.reason = "Not found"
            return r
        c_ = {}
        if c["plan"] != ["ok"]:
            c = dict(c, auth=False)
        r = err = None
        try:
            with Net(plan), self.path():
                try:
                    r = TransRead.TransRead(url)
                except TransRead.Error as e:
                    err = str(e)
        finally:
            if r is not None:
                self.close(r)
            if os.path.exists(rc):
                os.unlink(rc)
        steps = c["plan"]
        good = steps[-1] == "ok"
        if good and err:
            return "%s cannot be opened: %s" % (url, err)
        if not good and not err:
            return "%s is opened in spite of failures %s" % (url, steps)
        if not seen:
            return "%s: nothing was requested" % url
        exp = url if not want else bare
        for full, a, t, host in seen:
            if full.split("#")[0] != exp.split("#")[0]:
                return "%s is requested as %s" % (url, full)
            if a is not None and a != "done":
                got = base64.b64decode(a.split()[1]).decode()
                if not want or got != "%s:%s" % want:
                    return "%s: the server gets the credentials %s" % (url, got)
        if c_.get("challenged") and not any(x[1] not in (None, "done") for x in seen):
            return "%s: the credentials %s are not offered to the server" % (url, want)
        if len(steps) == 2 and len([x for x in seen if x[1] is None]) < 2:
            return "%s: no second attempt after a timeout" % url
        if len(steps) == 2 and seen[-1][2] is not None:
            return "%s: the second attempt has a timeout of %s" % (url, seen[-1][2])
        return None


def fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            out[int(n)] = os.readlink("/proc/self/fd/" + n)
    return {k: v for k, v in out.items() if not v.startswith("/proc/")}


class C23(Base):
    rule = "objects handed in stay open, everything opened by the library is closed, child processes are gone"

    def cases(self, rng):
        while True:
            if rng.random() < 0.5:
                yield {"what": "create", "image": rng.choice(["path", "object"]), "bmap": rng.choice(["path", "object"]),
                       "size": rng.choice([0, 1, 5000, 20000]), "generate": rng.random() < 0.6,
                       "bad": rng.choice(["", "", "alg", "image", "bmap"]), "map": rng.choice(["auto", "seek"])}
            else:
                yield {"what": "read", "where": rng.choice(["file", "http"]),
                       "tail": rng.choice(["", ".gz", ".tar.xz", ".zip", ".bz2"]), "n": rng.choice([0, 1000, 3 << 20]),
                       "read": rng.choice([0, 1, 5000, -1]), "how": rng.choice(["close", "del", "twice"]),
                       "avail": rng.random() < 0.8, "code": rng.choice([None, None, 1]), "short": rng.choice([0, 5000])}

    def run(self, c):
        before = fds()
        m = getattr(self, c["what"])(c)
        if m:
            return m
        after = fds()
        left = {k: v for k, v in after.items() if before.get(k) != v}
        if left:
            return "descriptors are left open: %s" % sorted(left.values())
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
            return "a child process is left %s" % ("running" if pid == 0 else "unreaped")
        except ChildProcessError:
            return None

    def create(self, c):
        img, bm = os.path.join(self.dir, "i"), os.path.join(self.dir, "m")
        with open(img, "wb") as f:
            f.write(b"x" * c["size"])
        handed = []
        a, b = img, bm
        if c["image"] == "object":
            a = open(img, "rb")
            handed.append(a)
        elif c["bad"] == "image":
            a = img + "/none"
        if c["bmap"] == "object":
            b = open(bm, "w+")
            handed.append(b)
        elif c["bad"] == "bmap":
            b = img + "/none"
        try:
            o = BmapCreate.BmapCreate(a, b, "nonsense" if c["bad"] == "alg" else "sha256")
            if c["generate"]:
                o.generate()
            del o
        except BmapCreate.Error as e:
            e.__traceback__ = None
            del e
        o = None
        import gc
        gc.collect()
        for f in handed:
            if f.closed:
                return "%s was handed in open and is closed" % f.name
            f.close()
        return None

    def read(self, c):
        data = content(3, c["n"])
        self.tools(ALL if c["avail"] else ["tar"], c["code"])
        name = os.path.join(self.dir, "img" + c["tail"])
        with open(name, "wb") as f:
            f.write(data)
        if c["where"] == "http":
            name = "http://host/img" + c["tail"]
        resp = Resp(data, c)
        with Net(lambda q, i: resp), self.path():
            obj = None
            try:
                obj = TransRead.TransRead(name)
                if c["read"]:
                    obj.read(c["read"])
            except TransRead.Error as e:
                e.__traceback__ = None
                del e
            if obj is not None and (c["how"] != "del" or (c["where"] == "http" and c["tail"])):
                obj.close()
                if c["how"] == "twice":
                    obj.close()
            del obj
            import gc
            gc.collect()
        if c["where"] == "http" and not resp.shut:
            return "the response is not closed"
        return None


HARNESS = {"C12": C12, "C13": C13, "C14": C14, "C22": C22, "C23": C23}
