"""C12 C13 C14 C22 C23: the transparent reader (bmaptools/TransRead.py).

Streams (local files, pipes, URL responses, outputs of child processes) enter
with the contract of a Python file object: read(n) returns between 1 and n of
the next bytes, nothing only at the end; read() returns the rest.  Every history
of reads, seeks and position queries is covered by an invariant over the state
of the reader, inferred and checked for one arbitrary operation."""
import ast
import io
import re as _re
import shlex
import subprocess
import threading
import urllib.parse
import urllib.response
import http.client

from pyvc.builtins_ import suffix_atom, without_suffix, rope_key
from .common import *
from .helpers import SimpleCM, rope_same
from .cmdline import FORMATS, TAILS, TOOLS, TOOL_FORMAT, command_kind

UNSUP = EXT["io.UnsupportedOperation"]


def opt(ctx, n, why):
    return ctx.choose(n, why)


def flagt(ctx, o, n):
    v = ctx.read_cell(o, n)
    return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))


def flag(ctx, o, n):
    """value of a boolean cell (forks)"""
    v = ctx.read_cell(o, n)
    return ctx.branch(v.t) if isinstance(v, SBool) else bool(v)


class Src(SimpleCM):
    """a stream of known content; kind: local, pipe, http, fileurl, popen"""
    typename = "file"
    is_file = True
    closed = True

    def __init__(self, ctx, kind, src, label=None):
        Model.__init__(self, ctx, label or src)
        self.kind, self.src = kind, src
        self.real = (http.client.HTTPResponse if kind == "http" else urllib.response.addinfourl if kind == "fileurl"
                     else io.BufferedReader,) if kind != "bare" else ()
        self.len = ctx.new_int("len_" + src, 0)
        self.child = None
        self.attrs.update(pos=0, shut=False, ended=False)
        ctx.world.srcs.append(self)

    def p(self, ctx):
        return T.I(int_term(ctx.read_cell(self, "pos")))

    def alive(self, ctx):
        if flag(ctx, self, "shut"):
            ctx.interp.throw("ValueError", "I/O operation on closed file")

    def m_read(self, ctx, n=-1):
        w = ctx.world
        self.alive(ctx)
        w.interfere(ctx)
        self.alive(ctx)
        w.env(ctx, "read of " + self.src)
        pos = self.p(ctx)
        left = T.norm(self.len - pos)
        all_ = n is None
        if not all_:
            n = T.I(int_term(n))
            all_ = ctx.branch(n < 0)
        if not all_ and ctx.branch(n == 0):
            return b""
        if not ctx.branch(pos < self.len):
            ctx.write_cell(self, "ended", True)
            return b""
        if all_:
            ctx.write_cell(self, "pos", sint(z3.If(pos > self.len, pos, self.len)))
            ctx.write_cell(self, "ended", True)
            return SBytes(self.src, pos, left)
        got = T.fresh_int("got")
        ctx.assume(z3.And(got >= 1, got <= n, got <= left))
        if self.kind == "local":
            ctx.assume(z3.Or(got == n, got == left))
        ctx.write_cell(self, "pos", sint(pos + got))
        return SBytes(self.src, pos, got)

    def m_read1(self, ctx, n=-1):
        return self.m_read(ctx, n)

    def m_seek(self, ctx, off, whence=0):
        self.alive(ctx)
        if self.kind not in ("local", "fileurl"):
            raise IRaise(ctx.interp.make_exc(UNSUP, "File or stream is not seekable."))
        off = T.I(int_term(off))
        wh = T.I(int_term(whence))
        if ctx.branch(wh == 0):
            new = off
        elif ctx.branch(wh == 1):
            new = self.p(ctx) + off
        elif ctx.branch(wh == 2):
            new = self.len + off
        else:
            ctx.interp.throw("ValueError", "invalid whence")
        if ctx.branch(new < 0):
            ctx.interp.throw("OSError", 22, "Invalid argument")
        ctx.write_cell(self, "pos", sint(new))
        return sint(new)

    def m_tell(self, ctx):
        self.alive(ctx)
        if self.kind in ("pipe", "popen"):
            ctx.world.fail(ctx, 29)
        if self.kind == "http":
            raise IRaise(ctx.interp.make_exc(UNSUP, "tell"))
        return ctx.read_cell(self, "pos")

    def m_seekable(self, ctx):
        return self.kind in ("local", "fileurl")

    def m_readable(self, ctx):
        return True

    def m_fileno(self, ctx):
        return ctx.world.fd(ctx, self)

    def m_close(self, ctx):
        ctx.write_cell(self, "shut", True)

    def get_attribute(self, ctx, name):
        if name == "closed":
            return ctx.read_cell(self, "shut")
        if name == "name":
            return ctx.world.name if self.kind in ("local", "pipe") else Opaque("name")
        return NotImplemented

    def truth(self, ctx):
        return True


class Bare(Model):
    """a stream that only knows read() and close()"""
    typename = "response"
    is_file = True
    closed = True

    def __init__(self, ctx, src):
        Src.__init__(self, ctx, "bare", src)

    p, alive, m_read, m_close, truth = Src.p, Src.alive, Src.m_read, Src.m_close, Src.truth


class Pipe(SimpleCM):
    """standard input of a child process"""
    typename = "file"
    is_file = True
    closed = True
    real = (io.BufferedWriter,)

    def __init__(self, ctx, raw):
        Model.__init__(self, ctx, "child stdin")
        self.raw = raw
        self.attrs.update(fed=0, shut=False)

    def m_write(self, ctx, buf):
        w = ctx.world
        if flag(ctx, self, "shut"):
            ctx.interp.throw("ValueError", "write to closed file")
        w.interfere(ctx)
        if isinstance(buf, bytes) and not buf:
            return 0
        ok = isinstance(buf, SBytes) and buf.src == "url"
        ctx.prove("only data of the source is fed to the decompressor", ok, ("C14",))
        if not ok:
            raise PathEnd("foreign data")
        fed = T.I(int_term(ctx.read_cell(self, "fed")))
        off, n = T.I(buf.off), T.I(buf.len)
        ctx.prove("data is fed in order, without gaps or repetitions", off == fed, ("C14",))
        w.env(ctx, "write to child", "BrokenPipeError")
        if self.raw:
            k = T.fresh_int("short")
            ctx.assume(z3.And(k >= 1, k <= n))
            n = k
        ctx.write_cell(self, "fed", sint(fed + n))
        ctx.engine.cover("feeds")
        return sint(n)

    def m_flush(self, ctx):
        ctx.world.env(ctx, "flush of child stdin", "BrokenPipeError")

    def m_close(self, ctx):
        ctx.write_cell(self, "shut", True)
        if opt(ctx, 2, "close of child stdin"):
            ctx.gset("cfail", True)
            ctx.world.fail(ctx, 32, "BrokenPipeError")

    def m_fileno(self, ctx):
        return ctx.world.fd(ctx, self)

    def get_attribute(self, ctx, name):
        if name == "closed":
            return ctx.read_cell(self, "shut")
        return NotImplemented


class Child(SimpleCM):
    typename = "Popen"
    closed = True
    real = (subprocess.Popen,)

    def __init__(self, ctx, world, cmd, stdin, stdout, pipe):
        Model.__init__(self, ctx, "child")
        self.cmd, self.stdin, self.stdout, self.pipe = cmd, stdin, stdout, pipe
        self.attrs.update(reaped=False, killed=False, rc=None)

    def _rc(self, ctx):
        if ctx.read_cell(self, "rc") is None:
            if flag(ctx, self, "killed"):
                ctx.write_cell(self, "rc", -9)
            elif opt(ctx, 2, "exit status of child"):
                r = T.fresh_int("status")
                ctx.assume(z3.And(r != 0, r >= -64, r <= 255))
                ctx.write_cell(self, "rc", SInt(r))
            else:
                ctx.write_cell(self, "rc", 0)
        ctx.write_cell(self, "reaped", True)
        return ctx.read_cell(self, "rc")

    def m_wait(self, ctx, timeout=None):
        return self._rc(ctx)

    def m_poll(self, ctx):
        if ctx.read_cell(self, "rc") is None and not flag(ctx, self, "killed") and opt(ctx, 2, "child running"):
            return None
        return self._rc(ctx)

    def m_kill(self, ctx):
        ctx.write_cell(self, "killed", True)

    m_terminate = m_kill

    def m_send_signal(self, ctx, s):
        self.m_kill(ctx)

    def get_attribute(self, ctx, name):
        if name == "returncode":
            return ctx.read_cell(self, "rc")
        if name == "stdin":
            return self.pipe
        if name == "stdout":
            return self.stdout
        if name == "stderr":
            return None
        if name == "pid":
            return SInt(ctx.new_int("pid", 1))
        if name == "args":
            return Opaque("args")
        return NotImplemented


class Thr(Model):
    typename = "Thread"
    closed = True
    real = (threading.Thread,)

    def __init__(self, ctx, target, args, kwargs):
        Model.__init__(self, ctx, "thread")
        self.target, self.args, self.kwargs = target, args, kwargs
        self.attrs.update(started=False, joined=False, daemon=False)

    def m_start(self, ctx):
        ctx.prove("a thread is started once", self.attrs["started"] is False, ("C14",))
        ctx.write_cell(self, "started", True)

    def m_join(self, ctx, timeout=None):
        if not flag(ctx, self, "started"):
            ctx.interp.throw("RuntimeError", "cannot join thread before it is started")
        ctx.world.joining(ctx)
        ctx.write_cell(self, "joined", True)

    def m_is_alive(self, ctx):
        return free_bool(ctx, "alive") if self.attrs["started"] is not False and self.attrs["joined"] is False else False

    def m_setDaemon(self, ctx, d):
        return None

    def set_attribute(self, ctx, name, v):
        if name not in ("daemon", "name"):
            return NotImplemented


class TransWorld(World):
    """kind: local, fifo, stdin, http, bare, fileurl, ssh: where the stream comes from; tails: name tails considered"""

    def __init__(self, ctx, kind, tails=TAILS, faults=False):
        World.__init__(self, ctx)
        self.kind = kind
        self.faults = faults
        self.srcs, self.children, self.threads = [], [], []
        self.avail = {}
        self.in_thread = False
        self.obj = self.target = None
        self.enoent = kind in ("http", "bare", "fileurl", "ssh")
        ctx.G.attrs.update(cfail=False, closing=False)
        self.tail = None
        if kind == "stdin":
            self.name = "-"
        else:
            self.tail = tails[ctx.choose(len(tails), "tail of the name")] if len(tails) > 1 else tails[0]
            root = mkstr([Hole(z3.Const("name", T.Txt))])
            if self.tail is None:
                self.name = mkstr([Hole(z3.Const("name", T.Txt), "nonempty")])
                without_suffix(ctx, self.name, FORMATS)
                ctx.solver.add(txt_term(ctx, self.name) != txt_term(ctx, "-"))
            else:
                self.name = mkstr(list(parts_of(root)) + [self.tail])
        if not self.tail:
            self.fmt = None
        else:
            # a name ending in X may also end in tar.X
            self.fmt = FORMATS[self.tail]
            if not self.fmt[1] and ".tar" + self.tail in FORMATS:
                if ctx.branch(suffix_atom(ctx, mkstr(list(parts_of(self.name))[:-1]), ".tar").t):
                    self.fmt = (self.fmt[0], True)

    def interfere(self, ctx):
        """another thread may close the reader at any time"""
        if self.in_thread and not ctx.branch(self.gb(ctx, "closing")) and ctx.choose(2, "closed meanwhile"):
            ctx.gset("closing", True)
            st, v = outcome(ctx.interp, lambda: method(ctx.interp, self.obj, "close"))
            if st == "raise":
                raise PathEnd("close failed")

    def joining(self, ctx):
        pass

    def gb(self, ctx, n):
        v = ctx.g(n)
        return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))

    def env(self, ctx, what, cls="OSError"):
        if self.faults and ctx.choose(2, what):
            ctx.gset("cfail", True)
            self.fail(ctx, None, cls)

    def fd(self, ctx, f):
        key = ("fd", f.label)
        if key not in ctx.memo:
            ctx.memo[key] = Fd(ctx, f)
        return ctx.memo[key]

    def same_name(self, p):
        return is_text(p) and rope_same(p, self.name)

    # -- files -------------------------------------------------------------
    def open(self, ctx, p, mode="r", *a, **k):
        ctx.prove("the file opened is the one asked for", self.same_name(p), ("C13",))
        ctx.prove("the file is only read, as bytes", mode == "rb", ("C13",))
        if self.enoent:
            self.fail(ctx, 2, "FileNotFoundError")
        if self.faults and ctx.choose(2, "open"):
            ctx.gset("cfail", True)
            self.fail(ctx, 13, "PermissionError")
        s = Src(ctx, "pipe" if self.kind == "fifo" else "local", "file")
        self.opened = s
        return s

    io_open = open

    def path_exists(self, ctx, p):
        return not self.enoent

    path_isfile = path_exists

    def stdin_buffer(self, ctx):
        if "stdinb" not in ctx.memo:
            ctx.memo["stdinb"] = self.opened = Src(ctx, "pipe", "file", "stdin")
        return ctx.memo["stdinb"]

    def path_splitext(self, ctx, p):
        parts = list(parts_of(p))
        if isinstance(parts[-1], str) and "." in parts[-1]:
            i = parts[-1].rindex(".")
            return (mkstr(parts[:-1] + [parts[-1][:i]]), parts[-1][i:])
        ctx.interp.unsupported("splitext of %r" % (p,))

    def os_fstat(self, ctx, fd):
        f = file_of(ctx, fd)
        st = Model(ctx, "stat")
        st.typename = "stat_result"
        st.attrs["st_size"] = SInt(f.len) if f.kind == "local" else 0
        st.attrs["st_mode"] = ModeVal(ctx, "reg" if f.kind == "local" else "fifo")
        return st

    # -- programs ----------------------------------------------------------
    def available(self, ctx, name):
        if not isinstance(name, str):
            ctx.interp.unsupported("availability of %r" % (name,))
        if name not in self.avail:
            self.avail[name] = not ctx.choose(2, "%s available" % name)
        return self.avail[name]

    def shutil_which(self, ctx, name, *a, **k):
        return "/usr/bin/" + name if self.available(ctx, name) else None

    def sp_Popen(self, ctx, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, **k):
        ip = ctx.interp
        if ip.truth(shell):
            if not isinstance(args, str):
                ctx.prove("a shell is only given a fixed command line", False, ("C13",))
                raise PathEnd("shell")
            ctx.prove("a shell is only given a plain command line: %s" % args,
                      not _re.search(r"[|&;<>()$`\\\"'*?\[\]#~%\n{}!]", args), ("C13",))
            tokens = shlex.split(args)
        else:
            tokens = list(args.attrs["items"]) if isinstance(args, IList) else list(args) if isinstance(
                args, (tuple, list)) else [args]
        if executable is not None:
            ip.unsupported("Popen executable")
        if self.faults and ctx.choose(2, "start of process"):
            ctx.gset("cfail", True)
            self.fail(ctx, 11, "BlockingIOError")
        pipe = None
        if isinstance(stdin, int) and stdin == -1:
            pipe = Pipe(ctx, isinstance(bufsize, int) and bufsize == 0)
        elif stdin is not None:
            stdin = file_of(ctx, stdin)
        n = len(self.children)
        out = None
        if isinstance(stdout, int) and stdout == -1:
            out = Src(ctx, "popen", "ssh" if tokens and tokens[0] in ("ssh", "sshpass") else "out", "stdout%d" % n)
            if tokens and tokens[0] in ("ssh", "sshpass"):
                out.src = "url"
        elif stdout is not None:
            ip.unsupported("Popen stdout %r" % (stdout,))
        c = Child(ctx, self, tokens, stdin, out, pipe)
        if out is not None:
            out.child = c
        self.children.append(c)
        return c

    def threading_Thread(self, ctx, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        t = Thr(ctx, target, args, kwargs)
        self.threads.append(t)
        return t

    def start_new_thread(self, ctx, fn, args=(), kwargs=None):
        t = Thr(ctx, fn, args, kwargs)
        t.attrs["started"] = True
        self.threads.append(t)
        return SInt(ctx.new_int("tid"))

    # -- URLs: the common case (C22 has its own world) ------------------------
    def urlparse(self, ctx, u, *a, **k):
        if not self.same_name(u):
            ctx.interp.unsupported("urlparse of another text")
        m = Model(ctx, "url")
        m.typename = "ParseResult"
        H = lambda n: mkstr([Hole(z3.Const(n, T.Txt), "nonempty")])         # noqa
        m.attrs.update(scheme="ssh" if self.kind == "ssh" else "http", username=None, password=None, hostname=H("host"),
                       port=None, netloc=H("host"), path=H("urlpath"), params="", query="", fragment="")
        return m

    def netrc_netrc(self, ctx, *a):
        self.fail(ctx, 2, "FileNotFoundError")

    def url_build_opener(self, ctx, *a):
        return Opener(ctx)

    def url_install_opener(self, ctx, o):
        return None

    def url_open(self, ctx, o, url, timeout):
        ctx.prove("the URL opened is the one asked for", self.same_name(url), ("C13", "C22"))
        if self.faults and ctx.choose(2, "URL opened"):
            ctx.gset("cfail", True)
            self.fail(ctx, 5)
        s = Bare(ctx, "url") if self.kind == "bare" else Src(ctx, self.kind, "url")
        self.opened = s
        return s


class Opener(Model):
    typename = "OpenerDirector"

    def m_open(self, ctx, url, data=None, timeout=None):
        return ctx.world.url_open(ctx, self, url, timeout)

    def set_attribute(self, ctx, name, v):
        if name != "addheaders":
            return NotImplemented

    def m_addheader(self, ctx, *a):
        return None


def trans_setup(eng):
    eng.hints.append(stream_hints)
    def avail(ip, f, a, k):
        return ip.ctx.world.available(ip.ctx, a[0] if a else list(k.values())[0])
    eng.contracts["BmapHelpers.program_is_available"] = Contract(avail)


def construct(ctx, ip, w):
    """('ok', object) or ('raise', exception, object)"""
    mod = ip.import_module("bmaptools.TransRead")
    cls = mod.attrs["TransRead"]
    w.obj = obj = Obj(ctx, cls)
    st, v = outcome(ip, lambda: ip.call(BoundMethod(cls.lookup("__init__")[0], obj), [w.name], {}))
    return mod, st, v


# ---------------------------------------------------------------------------
def stream_hints(ctx, view):
    w = ctx.world
    out = []
    if not isinstance(w, TransWorld):
        return out
    out.append((("nofail",), lambda: z3.Not(w.gb(ctx, "cfail"))))
    if w.target is not None:
        # inside a seek
        s, tgt, p0 = w.target
        out.append((("bounds",), lambda: z3.And(s.p(ctx) >= p0, z3.Or(s.p(ctx) == p0, s.p(ctx) <= s.len),
                                                z3.Or(s.p(ctx) == p0, s.p(ctx) <= tgt))))
        for k, x in view.ints:
            if k[:2] != (s.label, "pos"):
                out.append((("left", k), lambda x=x: s.p(ctx) + x() == tgt))
                out.append((("at", k), lambda x=x: s.p(ctx) == x()))
        for k, x in view.counts:
            out.append((("done", k), lambda x=x: s.p(ctx) - p0 == x()))
    return out


NODE = ast.parse("while True: pass").body[0]

STREAMS = (("local", None), ("fifo", None), ("stdin", None), ("http", None), ("bare", None), ("fileurl", None),
           ("ssh", None), ("local", ".gz"), ("local", ".tar.xz"), ("http", ".bz2"), ("ssh", ".zst"))
T12 = ("C12",)


@unit("trans.stream", ["C12"], trans_setup, variants=STREAMS, expect=("reads", "tells", "seeks"))
def stream(ctx, var):
    """any history of read, seek and tell on a constructed reader"""
    kind, tail = var
    ip, w = make(ctx, TransWorld, kind, (tail,))
    w.avail = {t: True for t in ("tar", "ssh", "sshpass") + tuple(TOOL_FORMAT)}
    mod, st, obj = construct(ctx, ip, w)
    if st == "raise":
        # a remote file that cannot be read
        ctx.prove("a failing construction is reported by the module's error: %s" % excname(obj),
                  isexc(ip, obj, mod.attrs["Error"]), T12)
        ctx.prove("the reader can be constructed: %s" % excname(obj), kind == "ssh", T12)
        return
    obj = w.obj
    seq = 0
    w.faults = True
    final = [s for s in w.srcs][-1]
    seekable = final.kind in ("local", "fileurl")
    Err = mod.attrs["Error"]

    def body():
        p0 = final.p(ctx)
        op = ctx.choose(5, "operation")
        ctx.gset("cfail", False)
        if op == 0:
            n = ctx.new_int("n", 0)
            st, v = outcome(ip, lambda: method(ip, obj, "read", SInt(n)))
            check_read(st, v, p0, n)
        elif op == 1:
            st, v = outcome(ip, lambda: method(ip, obj, "read", *([] if ctx.choose(2, "size given") else [-1])))
            check_read(st, v, p0, None)
        elif op == 2:
            st, v = outcome(ip, lambda: method(ip, obj, "tell"))
            ctx.prove("the position can be told%s" % (": " + excname(v) if st == "raise" else ""), st == "ok", T12)
            if st == "ok":
                ctx.prove("the position told is the position in the stream", T.I(int_term(v)) == p0, T12)
                ctx.engine.cover("tells")
            ctx.prove("telling the position consumes nothing", final.p(ctx) == p0, T12)
        else:
            off = ctx.new_int("offset")
            wh = None if op == 3 and ctx.choose(2, "reference point") else ctx.new_int("whence")
            args = [SInt(off)] if wh is None else [SInt(off), SInt(wh)]
            wt = z3.IntVal(0) if wh is None else wh
            w.target = (final, z3.If(wt == 0, off, p0 + off), p0)
            st, v = outcome(ip, lambda: method(ip, obj, "seek", *args))
            w.target = None
            check_seek(st, v, p0, off, wt)
        if st == "raise" and w.failed(ctx):
            raise PathEnd("failed read")

    w.failed = lambda c: c.g("cfail") is not False and c.branch(w.gb(c, "cfail"))

    def child_ok():
        c = final.child
        if c is None:
            return True
        rc = ctx.read_cell(c, "rc")
        if rc is None or not flag(ctx, c, "reaped"):
            return False
        r = T.I(int_term(rc))
        if w.fmt and w.fmt[0] == "gzip":
            return z3.Or(r == 0, r == 2)
        return r == 0

    def check_read(st, v, p0, n):
        if st == "raise":
            bad = final.child is not None and flag(ctx, final, "ended") and ctx.read_cell(
                final.child, "rc") not in (None, 0)
            ctx.prove("a read only fails if its source or decompressor fails: %s" % excname(v),
                      w.failed(ctx) or bad, T12)
            if bad and not w.failed(ctx):
                ctx.prove("a failing decompressor is reported by the module's error: %s" % excname(v), isexc(ip, v, Err), T12)
                raise PathEnd("decompressor failed")
            return
        ctx.prove("a failing read is not silent", z3.Not(w.gb(ctx, "cfail")), T12)
        p1 = final.p(ctx)
        want = z3.If(p0 < final.len, final.len - p0, 0)
        if isinstance(v, bytes) and not v:
            ctx.prove("a read of nothing consumes nothing", p1 == p0, T12)
            ctx.prove("nothing is returned only at the end of the stream",
                      z3.Or(p0 >= final.len, n == 0) if n is not None else p0 >= final.len, T12)
            end = n is None or ctx.branch(n > 0)
            got = None
        else:
            ok = isinstance(v, SBytes) and v.src == final.src
            ctx.prove("a read returns bytes of the stream", ok, T12)
            if not ok:
                raise PathEnd("foreign data")
            got = T.I(v.len)
            ctx.prove("a read returns the bytes at the position of the stream", T.I(v.off) == p0, T12)
            ctx.prove("a read consumes what it returns", p1 == p0 + got, T12)
            ctx.prove("a read returns all that was asked for at most",
                      z3.And(got >= 1, got == want if n is None else got <= n), T12)
            end = n is None
            ctx.engine.cover("reads")
        if end and final.child is not None:
            ctx.prove("the end of the stream is only reported after the decompressor succeeded", child_ok(), T12)

    def check_seek(st, v, p0, off, wt):
        p1 = final.p(ctx)
        legal = z3.Or(wt == 0, wt == 1)
        new = z3.If(wt == 0, off, p0 + off)
        if st == "raise":
            if w.failed(ctx):
                return
            ctx.prove("a refused seek consumes nothing", p1 == p0, T12)
            if seekable:
                ctx.prove("a legal seek is not refused: %s" % excname(v), z3.Not(z3.Or(
                    z3.And(legal, new >= 0), z3.And(wt == 2, off >= 0))), T12)
                return
            ctx.prove("a forward seek is not refused: %s" % excname(v), z3.Not(z3.And(legal, new >= p0)), T12)
            ctx.engine.cover("refuses")
            return
        ctx.prove("a failing read is not silent", z3.Not(w.gb(ctx, "cfail")), T12)
        if seekable:
            ctx.prove("a seek of a seekable stream goes where it should", p1 == z3.If(wt == 2, final.len + off, new), T12)
        else:
            ctx.prove("only forward seeks with a known reference point are done", z3.And(legal, new >= p0), T12)
            L = z3.If(final.len > p0, final.len, p0)
            ctx.prove("a forward seek goes to the position asked for, or to the end", p1 == z3.If(new < L, new, L), T12)
        ctx.engine.cover("seeks")

    ctx.cut_loop(NODE, lambda: not ctx.choose(2, "more"), body, "history")


# ---------------------------------------------------------------------------
T13 = ("C13",)


def needed(fmt, tar):
    """sets of programs of which each must have a member that is available"""
    return [set(TOOLS[fmt])] + ([{"tar"}] if tar else [])


@unit("trans.dispatch", ["C13"], trans_setup, variants=("local", "http", "stdin", "fifo"),
      expect=("plain", "single", "archive", "missing"))
def dispatch(ctx, var):
    """the constructor selects and starts the right tool"""
    ip, w = make(ctx, TransWorld, var)
    mod, st, v = construct(ctx, ip, w)
    Err = mod.attrs["Error"]
    if w.fmt is None:
        ctx.prove("a name without a known suffix is no error%s" % (": " + excname(v) if st == "raise" else ""),
                  st == "ok", T13)
        if st != "ok":
            return
        ctx.prove("a name without a known suffix is read as is, nothing is executed", not w.children, T13)
        first = w.opened
        data(ctx, ip, w, first)
        size(ctx, ip, w, first)
        ctx.engine.cover("plain")
        return
    fmt, tar = w.fmt
    if st == "raise":
        ctx.prove("a missing program is reported by the module's error: %s" % excname(v), isexc(ip, v, Err), T13)
        ctx.prove("no process is started if a program is missing", not w.children, T13)
        req = needed(fmt, tar) + ([{TOOLS[fmt][-1]}] if tar else [])
        ctx.prove("the reader is only refused if a program it needs is missing",
                  any(all(w.avail.get(t) is False for t in s) for s in req), T13)
        ctx.engine.cover("missing")
        return
    ctx.prove("exactly one process decompresses a compressed image", len(w.children) == 1, T13)
    if len(w.children) != 1:
        return
    c = w.children[0]
    if not all(isinstance(t, str) for t in c.cmd):
        ip.unsupported("command %r" % (c.cmd,))
    got = command_kind(c.cmd)
    ctx.prove("the command decompresses the format of the name: %s for .%s%s" % (" ".join(c.cmd), "tar." if tar else "", fmt),
              got[:2] == (fmt, tar), T13)
    for s in needed(fmt, tar):
        ctx.prove("the programs needed are checked to be available: %s" % sorted(s), any(w.avail.get(t) for t in s), T13)
    tool = c.cmd[0].split("/")[-1]
    ctx.prove("the program started is available: %s" % tool, w.avail.get(tool) is True, T13)
    if not tar and len(TOOLS[fmt]) > 1:
        par = TOOLS[fmt][0]
        ctx.prove("the parallel variant is used when it is available", (tool == par) == w.available(ctx, par), T13)
    src = w.opened
    if c.pipe is None:
        ctx.prove("the tool decompresses the file opened, from its start",
                  z3.And(c.stdin is src, src.kind == "local" or src.kind == "pipe", src.p(ctx) == 0), T13)
    else:
        ctx.prove("a pipe is filled from the source", len(w.threads) == 1 and w.threads[0].attrs["started"] is True, T13)
    ctx.prove("what the tool prints is read", c.stdout is not None, T13)
    if c.stdout is not None:
        data(ctx, ip, w, c.stdout)
    ctx.prove("no size is reported for a compressed image", ip.getattr(w.obj, "size") is None, T13)
    ctx.engine.cover("archive" if tar else "single")


def data(ctx, ip, w, src):
    """the reader reads the stream src from its start"""
    n = ctx.new_int("n", 1)
    st, v = outcome(ip, lambda: method(ip, w.obj, "read", SInt(n)))
    if isinstance(v, SBytes):
        ctx.prove("the reader reads the stream of the right file from its start",
                  z3.And(st == "ok", v.src == src.src, T.I(v.off) == 0), T13)
    else:
        ctx.prove("the reader reads the stream of the right file",
                  z3.And(src.len == 0, z3.BoolVal(st == "ok" and v == b"" or src.child is not None)), T13)


def size(ctx, ip, w, src):
    s = ip.getattr(w.obj, "size")
    if w.kind == "local":
        ctx.prove("the size of a local file is reported", s is not None, T13)
        if s is not None:
            ctx.prove("the size reported is that of the file", T.I(int_term(s)) == src.len, T13)
    elif w.kind in ("stdin", "fifo"):
        ctx.prove("no wrong size is reported for a pipe", s is None or s == 0, T13)
    else:
        ctx.prove("no size is reported for a remote file", s is None, T13)


# ---------------------------------------------------------------------------
T14 = ("C14",)


def feed_hints(ctx, view):
    w = ctx.world
    if not isinstance(w, TransWorld) or not w.in_thread:
        return []
    src, pipe = w.feed
    out = [(("fed",), lambda: T.I(int_term(ctx.read_cell(pipe, "fed"))) == src.p(ctx)),
           (("in",), lambda: src.p(ctx) <= src.len)]
    fed = lambda: T.I(int_term(pipe.attrs["fed"]))         # noqa
    for k, ln, starts in view.byte_strings:
        out.append((("end", k), lambda ln=ln: z3.Implies(ln() == 0, src.p(ctx) == src.len)))
        out.append((("ahead", k), lambda ln=ln, s=starts: z3.And(fed() + ln() == src.p(ctx), s(fed()))))
    for o in [w.obj, pipe] + w.srcs:
        for n, v in o.attrs.items():
            if isinstance(v, (bool, SBool)):
                # flags only change when the reader is closed
                out.append((("flag", o.label, n), lambda o=o, n=n: z3.Or(w.gb(ctx, "closing"), z3.Not(flagt(ctx, o, n)))))
                out.append((("flag1", o.label, n), lambda o=o, n=n: z3.Or(w.gb(ctx, "closing"), flagt(ctx, o, n))))
    return out


def feed_setup(eng):
    trans_setup(eng)
    eng.hints.append(feed_hints)
    eng.inline_rest = lambda ctx: ctx.g("closing") is True


@unit("trans.feed", ["C14"], feed_setup, variants=(("http", ".gz"), ("bare", ".tar.xz"), ("ssh", ".bz2")),
      expect=("feeds", "complete", "failed"))
def feed(ctx, var):
    """the feeder of a decompressor, run against a source and a pipe that may fail and be closed"""
    kind, tail = var
    ip, w = make(ctx, TransWorld, kind, (tail,))
    w.avail = {t: True for t in ("tar", "ssh", "sshpass") + tuple(TOOL_FORMAT)}
    mod, st, v = construct(ctx, ip, w)
    if st == "raise":
        return
    pipes = [c.pipe for c in w.children if c.pipe is not None]
    ctx.prove("the decompressor of a remote image is fed through a pipe", len(pipes) == 1, T14)
    ctx.prove("one thread is started to feed the decompressor",
              len(w.threads) == 1 and w.threads[0].attrs["started"] is True, T14)
    if len(pipes) != 1 or len(w.threads) != 1:
        return
    src = [s for s in w.srcs if s.src == "url"][-1]
    pipe, t = pipes[0], w.threads[0]
    ctx.prove("nothing of the source is lost before it is fed", z3.And(src.p(ctx) == 0, pipe.attrs["fed"] == 0), T14)
    w.faults = w.in_thread = True
    w.feed = (src, pipe)
    a = ctx.read_cell(t.args, "items") if isinstance(t.args, IList) else t.args
    k = {}
    if isinstance(t.kwargs, IDict):
        k = dict(ctx.read_cell(t.kwargs, "items"))
    st, v = outcome(ip, lambda: ip.call(t.target, list(a), k))
    ctx.prove("the decompressor's input is closed in every case", flagt(ctx, pipe, "shut"), T14)
    fail, closing = w.gb(ctx, "cfail"), w.gb(ctx, "closing")
    if st == "raise":
        ctx.prove("the feeder only fails if the source or the decompressor fails: %s" % excname(v), z3.Or(fail, closing), T14)
        ctx.engine.cover("failed")
        return
    if ctx.branch(closing):
        ctx.engine.cover("closed meanwhile")
        return
    if ctx.branch(fail):
        # reported elsewhere (C12: the decompressor fails)
        return
    ctx.prove("everything is fed to the decompressor", T.I(int_term(ctx.read_cell(pipe, "fed"))) == src.len, T14)
    ctx.engine.cover("complete")


# ---------------------------------------------------------------------------
T23 = ("C23",)


@unit("trans.close", ["C23"], trans_setup,
      variants=(("local", None), ("stdin", None), ("http", None), ("bare", None), ("ssh", None), ("local", ".gz"),
                ("local", ".tar.xz"), ("http", ".bz2"), ("ssh", ".zst")), expect=("closed",))
def close(ctx, var):
    """close() and the destructor, after a construction that succeeded or failed"""
    kind, tail = var
    ip, w = make(ctx, TransWorld, kind, (tail,))
    mod, st, v = construct(ctx, ip, w)
    how = "__del__" if st == "raise" or ctx.choose(2, "how") else "close"
    st, v = outcome(ip, lambda: method(ip, w.obj, how))
    ctx.prove("closing succeeds%s" % (": " + excname(v) if st == "raise" else ""), st == "ok", T23)
    for s in w.srcs:
        ctx.prove("every stream opened is closed: %s" % s.src, flagt(ctx, s, "shut"), T23)
    for c in w.children:
        if c.stdout is None:
            # ran to its end
            ctx.prove("processes are waited for", flagt(ctx, c, "reaped"), T23)
            continue
        ctx.prove("child processes are ended and waited for", flagt(ctx, c, "reaped"), T23)
    for t in w.threads:
        ctx.prove("the feeding thread is waited for", t.attrs["joined"] is True or t.attrs["started"] is False, T23)
    if how == "close":
        st, v = outcome(ip, lambda: method(ip, w.obj, "__del__"))
        ctx.prove("closing twice is harmless%s" % (": " + excname(v) if st == "raise" else ""), st == "ok", T23)
    ctx.engine.cover("closed")


# ---------------------------------------------------------------------------
T22 = ("C22",)


def hole(n):
    return mkstr([Hole(z3.Const(n, T.Txt), "nonempty")])


class ParseResult(SimpleCM):
    """what urlparse returns: a tuple of six with derived attributes"""
    typename = "ParseResult"
    closed = True
    real = (urllib.parse.ParseResult,)
    FIELDS = ("scheme", "netloc", "path", "params", "query", "fragment")

    def __init__(self, ctx, fields, rest):
        Model.__init__(self, ctx, "url")
        self.fields, self.rest = fields, rest

    def tuple_items(self, ctx):
        return tuple(self.fields[n] for n in self.FIELDS)

    def get_attribute(self, ctx, name):
        if name in self.fields:
            return self.fields[name]
        if name == "port" and self.rest["port"] == "bad":
            ctx.world.bad_url = True
            ctx.interp.throw("ValueError", "Port could not be cast to integer value")
        if name in self.rest:
            return self.rest[name]
        return NotImplemented

    def m__replace(self, ctx, **kw):
        if set(kw) - {"netloc"}:
            ctx.interp.unsupported("_replace of %s" % sorted(kw))
        return ParseResult(ctx, dict(self.fields, **kw), self.rest)

    def m__asdict(self, ctx):
        return IDict(ctx, list(self.fields.items()))

    def m_geturl(self, ctx):
        return unparse(ctx, self.tuple_items(ctx))


def unparse(ctx, parts):
    """urlunparse with a host given, where the path is empty or starts with a slash"""
    scheme, netloc, path, params, query, fragment = parts
    out = list(parts_of(scheme)) + ["://"] + list(parts_of(netloc)) + list(parts_of(path))
    for sep, x in ((";", params), ("?", query), ("#", fragment)):
        if x != "":
            out += [sep] + list(parts_of(x))
    return mkstr(out)


class PassMgr(Model):
    typename = "HTTPPasswordMgrWithDefaultRealm"

    def __init__(self, ctx):
        Model.__init__(self, ctx, "password manager")
        self.attrs["entries"] = ()

    def m_add_password(self, ctx, realm, uri, user, passwd):
        uris = [uri] if is_text(uri) else list(ctx.interp.to_list(uri))
        ctx.write_cell(self, "entries", self.attrs["entries"] + tuple((realm, u, user, passwd) for u in uris))


class UrlWorld(TransWorld):
    """http(s) and other URLs with any parts; any content of the netrc file; openings with any outcome"""

    def __init__(self, ctx, scheme, user, simple):
        TransWorld.__init__(self, ctx, "http", (None,))
        self.bad_url = False
        self.simple = simple
        self.tries = []
        self.scheme = scheme
        self.user = {"none": None, "empty": ""}.get(user, user)
        if user == "some":
            self.user = hole("user")
        self.passwd = (hole("password"), None, "")[
            ctx.choose(1 if simple else 3, "password")] if self.user is not None else None
        info = [] if self.user is None else list(parts_of(self.user)) + (
            [] if self.passwd is None else [":"] + list(parts_of(self.passwd))) + ["@"]
        kind = ctx.choose(1 if simple else 4, "host")
        self.host = None if kind == 3 else hole("hostname")
        if self.host is not None:
            ctx.memo.setdefault("contains", {})[("in", rope_key(self.host), repr(":"))] = z3.BoolVal(kind == 1)
            for c in "[]@/?#":
                ctx.memo["contains"][("in", rope_key(self.host), repr(c))] = z3.BoolVal(False)
        host = [] if kind == 3 else ["[", self.host.parts[0], "]"] if kind == 1 else list(self.host.parts)
        pk = ctx.choose(1 if simple else 3, "port")
        self.port = (None, SInt(ctx.new_int("port", 1)), "bad")[pk]
        port = [] if pk == 0 else [":"] + ([IntHole(self.port.t)] if pk == 1 else list(hole("badport").parts))
        path = mkstr(["/"] + list(mkstr([Hole(z3.Const("path", T.Txt))]).parts)) if not ctx.choose(1 if simple else 2, "path") else ""
        full = path and not ctx.choose(1 if simple else 2, "tail")
        tail = {n: hole(n) if full else "" for n in ("params", "query", "fragment")}
        self.hostport = mkstr(host + port)
        self.fields = dict(scheme=scheme, netloc=mkstr(info + host + port), path=path, **tail)
        self.parsed = ctx.choose(1 if simple else 2, "URL can be parsed") == 0
        tup = [self.fields[n] for n in ParseResult.FIELDS]
        self.name = unparse(ctx, tup)
        self.bare = unparse(ctx, [scheme, self.hostport] + tup[2:])
        without_suffix(ctx, self.name, FORMATS)
        self.netrc = self.entry = None

    def read_netrc(self, ctx):
        if self.netrc is None:
            self.netrc = ("entry", "none", "no entry", "broken")[ctx.choose(2 if self.simple else 4, "netrc")]
            if self.netrc == "entry":
                self.entry = (hole("login") if self.simple or not ctx.choose(2, "login") else "", None,
                              hole("secret") if self.simple or not ctx.choose(2, "secret") else "")

    def urlparse(self, ctx, u, *a, **k):
        if not self.same_name(u):
            ctx.interp.unsupported("urlparse of another text")
        if not self.parsed:
            self.bad_url = True
            ctx.interp.throw("ValueError", "Invalid IPv6 URL")
        return ParseResult(ctx, self.fields, dict(username=self.user, password=self.passwd, hostname=self.host, port=self.port))

    def urlunparse(self, ctx, parts):
        return unparse(ctx, ctx.interp.to_list(parts))

    def netrc_netrc(self, ctx, *a):
        w = self
        self.read_netrc(ctx)
        if self.netrc == "none":
            self.fail(ctx, 2, "FileNotFoundError")
        if self.netrc == "broken":
            e = ctx.interp.make_exc(EXT["netrc.NetrcParseError"], "bad follower token")
            e.attrs.update(msg="bad follower token", filename=hole("netrcname"), lineno=SInt(ctx.new_int("lineno", 1)))
            raise IRaise(e)

        class Netrc(Model):
            typename = "netrc"

            def m_authenticators(self, ctx, host):
                ok = host is w.host or is_text(host) and w.host is not None and rope_same(host, w.host)
                ctx.prove("the netrc file is asked for the host of the URL", ok, T22)
                return w.entry
        return Netrc(ctx, "netrc")

    def url_HTTPPasswordMgrWithDefaultRealm(self, ctx):
        return PassMgr(ctx)

    def url_HTTPBasicAuthHandler(self, ctx, mgr=None, password_mgr=None):
        m = Model(ctx, "handler")
        m.typename = "HTTPBasicAuthHandler"
        m.mgr = mgr or password_mgr or PassMgr(ctx)

        def add(ctx, *a):
            return m.mgr.m_add_password(ctx, *a)
        m.m_add_password = add
        return m

    def url_build_opener(self, ctx, *handlers):
        o = Opener(ctx)
        o.handlers = list(handlers)
        return o

    def creds(self, ctx):
        """(user, password) that must be used, or None"""
        t = ctx.interp.truth
        if t(self.user) or t(self.passwd):
            return (self.user, self.passwd) if t(self.user) and t(self.passwd) else None
        self.read_netrc(ctx)
        if self.scheme in ("http", "https") and self.entry and t(self.entry[0]) and t(self.entry[2]):
            return self.entry[0], self.entry[2]
        return None

    def url_open(self, ctx, o, url, timeout):
        ip = ctx.interp
        c = self.creds(ctx)
        same = lambda a, b: is_text(a) and rope_same(a, b)      # noqa
        entries = [e for h in getattr(o, "handlers", []) if getattr(h, "mgr", None) for e in h.mgr.attrs["entries"]]
        if c is None:
            ctx.prove("without credentials the URL is requested unchanged", same(url, self.name), T22)
            ctx.prove("no credentials are registered if none are known", not entries, T22)
            ctx.engine.cover("anonymous")
        elif self.scheme in ("http", "https"):
            ctx.prove("the URL requested is the one given without credentials", same(url, self.bare), T22)
            ctx.prove("the credentials are registered for the URL", any(
                e[0] is None and covers_url(e[1], url) and same(e[2], c[0]) and same(e[3], c[1]) for e in entries), T22)
            ctx.prove("no other credentials are registered", all(same(e[2], c[0]) and same(e[3], c[1]) for e in entries), T22)
            ctx.engine.cover("credentials")
        if self.tries:
            ctx.prove("after a timeout the URL is opened without one", timeout is None, T22)
            ctx.engine.cover("retries")
        out = ("ok", "timeout", "urltimeout", "urlerror", "oserror", "value", "invalid", "badstatus",
               "protocol")[ctx.choose(9 if self.simple else 2, "opening the URL")]
        self.tries.append((out, timeout))
        if len(self.tries) > 4:
            ctx.prove("the URL is not opened over and over", False, T22)
            raise PathEnd("retries")
        if out == "timeout":
            self.fail(ctx, 110, "TimeoutError")
        if out in ("urltimeout", "urlerror"):
            r = ip.make_exc("TimeoutError", "timed out") if out == "urltimeout" else hole("reason")
            e = ip.make_exc(EXT["urllib.error.URLError"], r)
            e.attrs.update(reason=r, errno=None, strerror=None, filename=None)
            raise IRaise(e)
        if out == "oserror":
            self.fail(ctx, 104, "ConnectionResetError")
        if out == "value":
            ip.throw("ValueError", "unknown url type")
        if out == "invalid":
            raise IRaise(ip.make_exc(EXT["http.client.InvalidURL"], "nonnumeric port"))
        if out == "badstatus":
            raise IRaise(ip.make_exc(EXT["http.client.BadStatusLine"], "x"))
        if out == "protocol":
            raise IRaise(ip.make_exc(EXT["http.client.UnknownProtocol"], "HTTP/9"))
        self.opened = Src(ctx, "http", "url")
        return self.opened


def covers_url(uri, url):
    """the URL itself, a prefix, or its host"""
    if not is_text(uri):
        return False
    a, b = list(parts_of(uri)), list(parts_of(url))
    return rope_same(uri, url) or len(a) < len(b) and rope_same(uri, mkstr(b[:len(a)])) and len(a) > 1


@unit("trans.url", ["C22"], trans_setup, variants=tuple(
    (a, u, simple) for a in ("http", "https", "ftp") for u in ("none", "empty", "some") for simple in (False, True)),
      expect=("opened", "anonymous", "retries", "refused", "credentials"))
def url(ctx, var):
    """opening a URL: any URL with few outcomes, or simple URLs with any outcome"""
    ip, w = make(ctx, UrlWorld, *var)
    mod, st, v = construct(ctx, ip, w)
    Err = mod.attrs["Error"]
    outs = [o for o, _ in w.tries]
    if st == "raise":
        ctx.prove("a URL that cannot be opened is reported by the module's error: %s" % excname(v), isexc(ip, v, Err), T22)
        ctx.prove("a URL is only refused if it is wrong or cannot be opened: %s" % excname(v),
                  "ok" not in outs and (bool(outs) or w.bad_url or w.host is None), T22)
        if outs and outs[-1] in ("timeout", "urltimeout"):
            ctx.prove("a timeout is only reported if there was no limit", w.tries[-1][1] is None, T22)
        ctx.engine.cover("refused")
        return
    ctx.prove("a URL is only opened if that succeeds", bool(outs) and outs[-1] == "ok", T22)
    ctx.prove("only a timeout is tried again", all(o in ("timeout", "urltimeout") for o in outs[:-1]), T22)
    n = ctx.new_int("n", 1)
    st, v = outcome(ip, lambda: method(ip, w.obj, "read", SInt(n)))
    ctx.prove("what is read is the response", isinstance(v, bytes) or isinstance(v, SBytes) and v.src == "url", T22)
    ctx.engine.cover("opened")


# ---------------------------------------------------------------------------
class ProgWorld(World):
    """a search path of any length; directory i of it may hold the program as a file, which may be executable"""

    def __init__(self, ctx):
        World.__init__(self, ctx)
        self.prog = mkstr([Hole(z3.Const("program", T.Txt), "nonempty")])
        self.n = ctx.new_int("dirs", 1)
        self.j = ctx.new_int("J", 0)
        mk = lambda n: z3.Function(n, z3.IntSort(), z3.BoolSort())      # noqa
        self.isf, self.isx, self.qf, self.qx = mk("isfile"), mk("executable"), mk("isfile.q"), mk("executable.q")
        self.quoted = mk("quoted")
        self.seen = []
        self.tok = z3.Function("dir", z3.IntSort(), T.Txt)
        ctx.assume(self.j < self.n)

    def element(self, ctx, i):
        self.seen.append(i)
        return mkstr([Hole(self.tok(i), "any", info=("dir", i))])

    def split_hole(self, ctx, p, sep, maxs):
        if "env:PATH" not in str(p.t):
            return None
        ctx.prove("the search path is split at its separators: %r" % (sep,), sep == ":" and maxs < 0, T13)
        return SeqIter(ctx, self.n, self.element, "dirs")

    def which(self, ctx, p):
        """(index, is the directory without its quotes) of a candidate"""
        parts = list(parts_of(p))
        if len(parts) == 3 and parts[1] == "/" and isinstance(parts[0], Hole):
            h = parts[0]
            q = True
            while h.info and h.info[0] == "strip":
                q = q and '"' not in (h.info[1] or "")
                h = Hole(h.t, info=h.info[3])
            if h.info and h.info[0] == "dir" and rope_same(mkstr(parts[2:]), self.prog):
                return h.info[1], q
        return None, None

    def path_join(self, ctx, a, b):
        return mkstr(list(parts_of(a)) + ["/"] + list(parts_of(b)))

    def pred(self, ctx, p, plain, quoted):
        i, q = self.which(ctx, p)
        if i is None:
            ctx.interp.unsupported("path %r" % (p,))
        ctx.solver.add(z3.Implies(z3.Not(self.quoted(i)), z3.And(self.isf(i) == self.qf(i), self.isx(i) == self.qx(i))))
        return SBool(z3.And(i >= 0, i < self.n, quoted(i) if q else plain(i)))

    def path_isfile(self, ctx, p):
        return self.pred(ctx, p, self.isf, self.qf)

    def path_exists(self, ctx, p):
        r = self.pred(ctx, p, self.isf, self.qf)
        return SBool(z3.Or(r.t, T.fresh_bool("directory")))

    def os_access(self, ctx, p, mode, *a, **k):
        if mode != os_X_OK:
            return free_bool(ctx, "access")
        return self.pred(ctx, p, self.isx, self.qx)

    def ok(self, i):
        return z3.And(i >= 0, i < self.n, self.isf(i), self.isx(i))


import os                   # noqa: E402
os_X_OK = os.X_OK


def prog_hints(ctx, view):
    w = ctx.world
    if not isinstance(w, ProgWorld):
        return []
    return [(("none", k), lambda x=x: z3.Implies(w.j < x(), z3.Not(w.ok(w.j)))) for k, x in view.ints]


def prog_setup(eng):
    eng.hints.append(prog_hints)


@unit("helpers.program", ["C13"], prog_setup, expect=("available", "missing"))
def program(ctx, var):
    """program_is_available for any search path"""
    ip, w = make(ctx, ProgWorld)
    mod = ip.import_module("bmaptools.BmapHelpers")
    st, v = outcome(ip, lambda: call(ip, mod.attrs["program_is_available"], w.prog))
    ctx.prove("looking for a program does not fail%s" % (": " + excname(v) if st == "raise" else ""), st == "ok", T13)
    if st != "ok":
        return
    if ip.truth(v):
        ctx.prove("a program is only available if a directory of the path has it as an executable file",
                  z3.Or([w.ok(i) for i in w.seen]) if w.seen else False, T13)
        ctx.engine.cover("available")
    else:
        ctx.prove("a program is available if a directory of the path has it as an executable file", z3.Not(w.ok(w.j)), T13)
        ctx.engine.cover("missing")
