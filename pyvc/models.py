"""Contracts assumed for the Python library and the operating system.

Everything here is trusted; each entry over-approximates what the real callable
may do (unless noted in World.assume()).  The concrete conformance runs in
/verif/replay exercise the real counterparts."""
import ast
import errno as _errno
import os as _os
import re as _re
import stat as _stat
import struct as _struct
import z3
from . import terms as T
from .values import *
from .builtins_ import (make_builtins, Native, eq, wrapb, free_bool, int_term, is_text, is_bytes,
                        txt_len, to_str, text_eq, txt_term, is_intlike, concrete, getitem)

BUILTINS = make_builtins()
OBJ = BUILTINS["object"]


def excls(name, base):
    return ClassVal(name, [BUILTINS[base] if isinstance(base, str) else base], {}, native=Native(None))


class World:
    """environment of one verification unit; subclasses refine it"""

    def __init__(self, ctx):
        self.ctx = ctx
        ctx.world = self
        self.overrides = {}

    def ext_override(self, ctx, full):
        return self.overrides.get(full)

    def os_error(self, ctx, errno=None, cls="OSError"):
        ip = ctx.interp
        e = ip.make_exc(cls, Opaque("errno") if errno is None else errno, mkstr([Hole(T.fresh_txt("strerror"), "nonempty")]))
        e.attrs["errno"] = errno if errno is not None else SInt(ctx.new_int("errno", 1))
        e.attrs["strerror"] = mkstr([Hole(T.fresh_txt("strerror"), "nonempty")])
        e.attrs["filename"] = None
        e.attrs["__env__"] = True
        return e

    def fail(self, ctx, errno=None, cls="OSError"):
        raise IRaise(self.os_error(ctx, errno, cls))

    def maybe_fail(self, ctx, what):
        """environment failure at operation `what` (forks)"""
        return False


def bi(name):
    def d(fn):
        return Builtin(name, lambda ctx, a, k: fn(ctx, *a, **k))
    return d


EXT = {}


def ext(name):
    def d(fn):
        EXT[name] = Builtin(name, lambda ctx, a, k: fn(ctx, *a, **k))
        return fn
    return d


def world_call(name, default=None):
    """EXT entry delegating to the world"""
    def fn(ctx, a, k):
        f = getattr(ctx.world, name, None)
        if f is None:
            if default is not None:
                return default(ctx, *a, **k)
            ctx.interp.unsupported("environment operation %s in this unit" % name)
        return f(ctx, *a, **k)
    return fn


def delegate(dotted, meth, default=None):
    EXT[dotted] = Builtin(dotted, world_call(meth, default))


# --- os --------------------------------------------------------------------
for n in ("SEEK_SET", "SEEK_CUR", "SEEK_END", "SEEK_DATA", "SEEK_HOLE", "O_WRONLY", "O_RDONLY", "O_RDWR", "O_EXCL",
          "O_NONBLOCK", "O_CREAT", "O_TRUNC", "O_APPEND", "O_DIRECT", "O_SYNC", "X_OK", "R_OK",
          "W_OK", "F_OK", "pathsep", "sep", "linesep", "devnull", "name", "curdir", "O_CLOEXEC"):
    EXT["os." + n] = getattr(_os, n)
EXT["os.path.sep"] = "/"
EXT["os.error"] = BUILTINS["OSError"]
for n in ("fstat", "stat", "lstat", "ftruncate", "truncate", "fsync", "fdatasync", "lseek", "open", "close", "write",
          "read", "fdopen", "access", "unlink", "remove", "getpid", "pwrite", "sync", "rename",
          "makedirs", "mkdir", "listdir", "getcwd", "chdir", "system", "popen", "kill", "mkfifo",
          "posix_fadvise", "posix_fallocate", "replace", "pipe", "dup", "dup2", "isatty", "utime", "chmod"):
    delegate("os." + n, "os_" + n)
for n in ("exists", "isfile", "isdir", "realpath", "abspath", "getsize", "islink", "ismount", "samefile", "lexists"):
    delegate("os.path." + n, "path_" + n)


def _fsconv(to_bytes):
    def fn(ctx, a, k):
        v = a[0]
        if isinstance(v, str):
            return v.encode("utf-8", "surrogateescape") if to_bytes else v
        if isinstance(v, bytes):
            return v if to_bytes else v.decode("utf-8", "surrogateescape")
        if isinstance(v, SStr):
            return mkstr(parts_of(v), to_bytes)
        if isinstance(v, (Model, Opaque)):
            ctx.interp.unsupported("os.fsdecode of %r" % (v,))
        ctx.interp.throw("TypeError", "expected str, bytes or os.PathLike object")
    return fn


EXT["os.fsdecode"] = Builtin("os.fsdecode", _fsconv(False))
EXT["os.fsencode"] = Builtin("os.fsencode", _fsconv(True))
EXT["sys.byteorder"] = "little"


@ext("os.major")
def _major(ctx, dev):
    if isinstance(dev, int):
        return _os.major(dev)
    if isinstance(dev, Opaque):
        return SInt(ctx.new_int("major", 0))
    return ctx.interp.wrap_int(z3.Function("dev_major", z3.IntSort(), z3.IntSort())(int_term(dev)))


@ext("os.minor")
def _minor(ctx, dev):
    if isinstance(dev, int):
        return _os.minor(dev)
    if isinstance(dev, Opaque):
        return SInt(ctx.new_int("minor", 0))
    return ctx.interp.wrap_int(z3.Function("dev_minor", z3.IntSort(), z3.IntSort())(int_term(dev)))


def _path_fn(name):
    f = getattr(_os.path, name)

    def fn(ctx, a, k):
        if all(concrete(x) for x in a):
            from .builtins_ import native_call
            return native_call(ctx.interp, f, a, k)
        for x in a:
            if x is None or is_intlike(x):
                ctx.interp.throw("TypeError", "expected str, bytes or os.PathLike object")
        w = getattr(ctx.world, "path_" + name, None)
        if w is not None:
            return w(ctx, *a, **k)
        key = (name,) + tuple(repr(x) for x in a)
        tab = ctx.memo.setdefault("pathfn", {})
        if key not in tab:
            def h():
                return mkstr([Hole(T.fresh_txt(name), "any", info=(name, a))])
            tab[key] = (h(), h()) if name in ("split", "splitext", "splitdrive") else h()
        return tab[key]
    return fn


for n in ("join", "basename", "dirname", "normpath", "split", "splitext", "expanduser",
          "commonprefix", "isabs", "relpath", "normcase", "expandvars"):
    EXT["os.path." + n] = Builtin("os.path." + n, _path_fn(n))


class Environ(Model):
    typename = "environ"

    def getitem(self, ctx, k):
        w = getattr(ctx.world, "environ", None)
        if w is not None:
            return w(ctx, k)
        return mkstr([Hole(z3.Const("env:%s" % (k,), T.Txt))])

    def m_get(self, ctx, k, d=None):
        if ctx.choose(2, "environ"):
            return d
        return self.getitem(ctx, k)

    def m_copy(self, ctx):
        return self

    def contains(self, ctx, x):
        return free_bool(ctx, "env")


EXT["os.environ"] = lambda ctx: ctx.memo.setdefault("environ", None) or ctx.memo.__setitem__(
    "environ", Environ(ctx)) or ctx.memo["environ"]


@ext("os.getenv")
def _getenv(ctx, k, d=None):
    if ctx.choose(2, "getenv"):
        return d
    return mkstr([Hole(z3.Const("env:%s" % (k,), T.Txt))])


# --- stat, errno, struct ----------------------------------------------------
MODE_FN = {}
for n in ("S_ISREG", "S_ISBLK", "S_ISCHR", "S_ISFIFO", "S_ISDIR", "S_ISLNK", "S_ISSOCK"):
    def _mk(n):
        def fn(ctx, a, k):
            m = a[0]
            if isinstance(m, int):
                return getattr(_stat, n)(m)
            if isinstance(m, ModeVal):
                return m.test(ctx, n)
            if isinstance(m, Opaque):
                return free_bool(ctx, n)
            ctx.interp.unsupported("stat.%s of %r" % (n, m))
        return fn
    EXT["stat." + n] = Builtin("stat." + n, _mk(n))


class ModeVal(Model):
    """st_mode: the file kind is one of the S_IS* tests"""
    typename = "mode"

    def __init__(self, ctx, kind):
        Model.__init__(self, ctx, "mode")
        self.kind = kind         # concrete: 'reg','blk','chr','fifo','other'

    def test(self, ctx, n):
        return {"S_ISREG": "reg", "S_ISBLK": "blk", "S_ISCHR": "chr", "S_ISFIFO": "fifo",
                "S_ISDIR": "dir", "S_ISLNK": "lnk", "S_ISSOCK": "sock"}[n] == self.kind


for n in dir(_errno):
    if n.startswith("E") and isinstance(getattr(_errno, n), int):
        EXT["errno." + n] = getattr(_errno, n)
EXT["errno.errorcode"] = Opaque("errorcode")
EXT["struct.error"] = excls("struct.error", "Exception")


def _struct_fn(name):
    def fn(ctx, a, k):
        w = getattr(ctx.world, "struct_" + name, None)
        if w is not None:
            r = w(ctx, *a)
            if r is not NotImplemented:
                return r
        if all(concrete(x) for x in a):
            from .builtins_ import native_call
            return native_call(ctx.interp, getattr(_struct, name), a, k)
        ctx.interp.unsupported("struct.%s of symbolic data" % name)
    return fn


for n in ("pack", "unpack", "calcsize", "pack_into", "unpack_from"):
    EXT["struct." + n] = Builtin("struct." + n, _struct_fn(n))
delegate("fcntl.ioctl", "ioctl")
delegate("fcntl.flock", "flock")
delegate("array.array", "array_array")


# --- logging ---------------------------------------------------------------
class Logger(Model):
    typename = "Logger"

    def _log(self, level):
        def fn(ctx, *a, **k):
            f = getattr(ctx.world, "on_log", None)
            if f is not None:
                f(ctx, level, a)
            return None
        return fn

    def get_attribute(self, ctx, name):
        if name in ("debug", "info", "warning", "error", "exception", "critical", "log", "warn"):
            return Builtin("log." + name, lambda c, a, k: self._log(name)(c, *a, **k))
        if name in ("setLevel", "addHandler", "removeHandler", "setFormatter"):
            return Builtin("log." + name, lambda c, a, k: None)
        if name in ("isEnabledFor",):
            return Builtin("log." + name, lambda c, a, k: free_bool(c, "log"))
        return NotImplemented


def _logger(ctx):
    if "logger" not in ctx.memo:
        ctx.memo["logger"] = Logger(ctx)
    return ctx.memo["logger"]


EXT["logging.getLogger"] = Builtin("logging.getLogger", lambda c, a, k: _logger(c))
for n in ("debug", "info", "warning", "error", "exception", "critical"):
    EXT["logging." + n] = Builtin("logging." + n, lambda c, a, k, n=n: _logger(c)._log(n)(c, *a))
EXT["logging.addLevelName"] = Builtin("addLevelName", lambda c, a, k: None)
EXT["logging.basicConfig"] = Builtin("basicConfig", lambda c, a, k: None)
EXT["logging.StreamHandler"] = Builtin("StreamHandler", lambda c, a, k: _logger(c))
EXT["logging.Formatter"] = ClassVal("Formatter", [OBJ], {
    "__init__": Builtin("Formatter.__init__", lambda c, a, k: c.write_cell(a[0], "_fmt", "")),
    "format": Builtin("Formatter.format", lambda c, a, k: ""),
}, native=None)
for n in ("__init__", "format"):
    EXT["logging.Formatter"].ns[n].is_method = True
for n, v in (("DEBUG", 10), ("INFO", 20), ("WARNING", 30), ("ERROR", 40), ("CRITICAL", 50)):
    EXT["logging." + n] = v


# --- time ------------------------------------------------------------------
class TimeVal(Model):
    typename = "datetime"
    closed = False

    def model_arith(self, ctx, op, a, b):
        return TimeVal(ctx, "time")

    def model_cmp(self, ctx, op, a, b):
        return free_bool(ctx, "time")

    def model_eq(self, ctx, o):
        return free_bool(ctx, "time")

    def m_total_seconds(self, ctx):
        return SReal(T.fresh_real("secs"))

    def truth(self, ctx):
        return free_bool(ctx, "time")

    def get_attribute(self, ctx, name):
        if name in ("seconds", "microseconds", "days"):
            return SInt(ctx.new_int(name, 0))
        return NotImplemented


def _timeval(ctx, a, k):
    if "timeval" not in ctx.memo:
        ctx.memo["timeval"] = TimeVal(ctx, "time")
    return ctx.memo["timeval"]


EXT["datetime.datetime.now"] = Builtin("now", _timeval)
EXT["datetime.datetime.utcnow"] = Builtin("now", _timeval)
EXT["datetime.timedelta"] = Builtin("timedelta", _timeval)


def _clock(ctx, a, k):
    """strictly increasing clock"""
    r = T.fresh_real("clock")
    last = ctx.memo.get("clock")
    if last is not None:
        ctx.assume(r > last)
    ctx.memo["clock"] = r
    ctx.engine.assumed.add("time.time() is strictly increasing within a run")
    return SReal(r)


for n in ("time", "monotonic", "perf_counter"):
    EXT["time." + n] = Builtin("time." + n, _clock)
EXT["time.sleep"] = Builtin("sleep", lambda c, a, k: None)
EXT["time.strftime"] = Builtin("strftime", lambda c, a, k: mkstr([Hole(T.fresh_txt("time"))]))


# --- six, typing, sys, misc ----------------------------------------------------
def _reraise(ctx, a, k):
    ip = ctx.interp
    v = a[1] if len(a) > 1 else None
    if v is None:
        v = ip.call(a[0], [], {})
    if not isinstance(v, Obj):
        ip.unsupported("reraise of %r" % (v,))
    raise IRaise(v)


EXT["six.reraise"] = Builtin("six.reraise", _reraise)
EXT["six.PY3"] = True
EXT["six.PY2"] = False
EXT["six.moves.queue"] = ExtModule("queue")
EXT["six.moves._thread"] = ExtModule("_thread")
EXT["six.moves.urllib"] = ExtModule("urllib")
EXT["six.moves.urllib.parse"] = ExtModule("urllib.parse")
EXT["six.moves.urllib.request"] = ExtModule("urllib.request")
EXT["six.moves.urllib.error"] = ExtModule("urllib.error")
EXT["six.moves.urllib.error.URLError"] = lambda ctx: EXT["urllib.error.URLError"]
EXT["six.moves.http_client"] = ExtModule("http.client")
EXT["six.string_types"] = (BUILTINS["str"],)
EXT["six.integer_types"] = (BUILTINS["int"],)
EXT["six.text_type"] = BUILTINS["str"]
EXT["six.binary_type"] = BUILTINS["bytes"]
EXT["urllib.error.URLError"] = excls("URLError", "OSError")
EXT["urllib.error.HTTPError"] = excls("HTTPError", EXT["urllib.error.URLError"])
EXT["http.client.HTTPException"] = excls("HTTPException", "Exception")
EXT["http.client.InvalidURL"] = excls("InvalidURL", EXT["http.client.HTTPException"])
EXT["http.client.BadStatusLine"] = excls("BadStatusLine", EXT["http.client.HTTPException"])
EXT["http.client.UnknownProtocol"] = excls("UnknownProtocol", EXT["http.client.HTTPException"])
EXT["socket.timeout"] = BUILTINS["TimeoutError"]
for n in ("Optional", "Union", "List", "Tuple", "Any", "Dict", "Iterable", "Iterator", "Callable",
          "Generator", "NamedTuple", "TYPE_CHECKING", "BinaryIO", "IO", "TextIO"):
    EXT["typing." + n] = Opaque("typing")
EXT["__future__.annotations"] = None
EXT["__future__.print_function"] = None
EXT["contextlib.contextmanager"] = Builtin("contextlib.contextmanager", None)
EXT["functools.partial"] = Builtin("partial", lambda c, a, k: Builtin(
    "partial", lambda c2, a2, k2: c2.interp.call(a[0], list(a[1:]) + list(a2), dict(k, **k2))))
EXT["functools.wraps"] = Builtin("wraps", lambda c, a, k: Builtin("w", lambda c2, a2, k2: a2[0]))
EXT["functools.lru_cache"] = Builtin("lru_cache", lambda c, a, k: (
    a[0] if a and isinstance(a[0], FuncVal) else Builtin("w", lambda c2, a2, k2: a2[0])))


@ext("sys.exc_info")
def _exc_info(ctx):
    if not ctx.exc_stack:
        return (None, None, None)
    e = ctx.exc_stack[-1]
    return (e.cls, e, Opaque("tb"))


@ext("sys.exit")
def _sys_exit(ctx, code=None):
    ctx.interp.throw("SystemExit", code)


EXT["sys.modules"] = lambda ctx: SysModules(ctx)
EXT["sys.argv"] = lambda ctx: ctx.world.argv(ctx)
EXT["sys.maxsize"] = 2 ** 63 - 1
EXT["sys.version_info"] = (3, 12, 3, "final", 0)
EXT["sys.platform"] = "linux"


class SysModules(Model):
    typename = "modules"

    def getitem(self, ctx, k):
        return ctx.interp.modules.get(k) or Opaque("module")


class Stream(Model):
    typename = "stream"

    def m_write(self, ctx, s):
        f = getattr(ctx.world, "on_stream", None)
        if f is not None:
            f(ctx, self, s)
        return None

    def m_flush(self, ctx):
        return None

    def m_isatty(self, ctx):
        f = getattr(ctx.world, "isatty", None)
        if f is not None:
            return f(ctx, self)
        return free_bool(ctx, "isatty")

    def get_attribute(self, ctx, name):
        if name == "buffer":
            return ctx.world.stdin_buffer(ctx)
        if name == "fileno":
            return Builtin("fileno", lambda c, a, k: 2)
        return NotImplemented


def _stream(name):
    def f(ctx):
        if name not in ctx.memo:
            ctx.memo[name] = Stream(ctx, name)
        return ctx.memo[name]
    return f


for n in ("stdin", "stdout", "stderr"):
    EXT["sys." + n] = _stream(n)

EXT["traceback.format_exc"] = Builtin("format_exc", lambda c, a, k: mkstr([Hole(T.fresh_txt("tb"), "lines")]))
EXT["traceback.print_exc"] = Builtin("print_exc", lambda c, a, k: None)
EXT["traceback.format_stack"] = Builtin("format_stack", lambda c, a, k: IList(c, []))
EXT["io.UnsupportedOperation"] = ClassVal("UnsupportedOperation", [BUILTINS["OSError"], BUILTINS["ValueError"]],
                                          {}, native=Native(None))
for n in ("FileIO", "BytesIO", "StringIO", "BufferedReader", "open", "BufferedWriter", "TextIOWrapper"):
    delegate("io." + n, "io_" + n)
for n in ("TemporaryFile", "NamedTemporaryFile", "mkstemp", "mkdtemp"):
    delegate("tempfile." + n, "temp_" + n)
for n in ("copyfileobj", "copy", "copyfile", "which", "rmtree", "move"):
    delegate("shutil." + n, "shutil_" + n)
for n in ("Popen", "check_output", "call", "check_call", "run"):
    delegate("subprocess." + n, "sp_" + n)
EXT["subprocess.PIPE"] = -1
EXT["subprocess.DEVNULL"] = -3
EXT["subprocess.STDOUT"] = -2
EXT["subprocess.CalledProcessError"] = excls("CalledProcessError", "Exception")
delegate("builtins.open", "open")
BUILTINS["open"] = EXT["builtins.open"]
for n in ("new", "sha1", "sha256", "md5", "sha512", "sha224", "sha384"):
    delegate("hashlib." + n, "hashlib_" + n)
EXT["hashlib.algorithms_available"] = Opaque("algorithms")
EXT["hashlib.algorithms_guaranteed"] = Opaque("algorithms")
delegate("hashlib.file_digest", "hashlib_file_digest")
delegate("hmac.compare_digest", "compare_digest", lambda ctx, a, b: eq(ctx.interp, a, b))
delegate("mmap.mmap", "mmap_mmap")
for n in ("ACCESS_COPY", "ACCESS_READ", "ACCESS_WRITE", "MAP_PRIVATE", "MAP_SHARED", "PROT_READ", "PROT_WRITE"):
    EXT["mmap." + n] = Opaque("mmap." + n) if False else ("mmap." + n)
EXT["xml.etree.ElementTree.ParseError"] = excls("ParseError", "SyntaxError")
for n in ("parse", "fromstring", "iterparse"):
    delegate("xml.etree.ElementTree." + n, "et_" + n)
delegate("queue.Queue", "queue_Queue")
delegate("queue.SimpleQueue", "queue_Queue")
EXT["queue.Empty"] = excls("Empty", "Exception")
EXT["queue.Full"] = excls("Full", "Exception")
delegate("_thread.start_new_thread", "start_new_thread")
EXT["_thread.error"] = BUILTINS["RuntimeError"]
delegate("threading.Thread", "threading_Thread")
delegate("threading.Event", "threading_Event")
delegate("threading.Lock", "threading_Lock")
EXT["netrc.NetrcParseError"] = excls("NetrcParseError", "Exception")
delegate("netrc.netrc", "netrc_netrc")
delegate("urllib.parse.urlparse", "urlparse")
delegate("urllib.parse.urlunparse", "urlunparse")
delegate("urllib.parse.urlsplit", "urlparse")
delegate("urllib.parse.unquote", "urlunquote")
delegate("urllib.parse.quote", "urlquote")
for n in ("HTTPPasswordMgrWithDefaultRealm", "HTTPBasicAuthHandler", "build_opener", "install_opener",
          "urlopen", "Request", "HTTPPasswordMgr", "ProxyHandler"):
    delegate("urllib.request." + n, "url_" + n)
delegate("argparse.ArgumentParser", "argparse_ArgumentParser")
delegate("shlex.quote", "shlex_quote")
delegate("shlex.split", "shlex_split")
delegate("signal.signal", "signal_signal")
EXT["signal.SIGINT"] = 2
EXT["signal.SIGTERM"] = 15
delegate("copy.copy", "copy_copy")


# --- re ------------------------------------------------------------------------
class Pattern(Model):
    typename = "Pattern"

    def __init__(self, ctx, pat, flags=0):
        Model.__init__(self, ctx, "pattern")
        self.pat = pat
        self.flags = flags

    def _run(self, ctx, how, s):
        return regex(ctx, self.pat, s, how, self.flags)

    def m_match(self, ctx, s):
        return self._run(ctx, "match", s)

    def m_search(self, ctx, s):
        return self._run(ctx, "search", s)

    def m_fullmatch(self, ctx, s):
        return self._run(ctx, "fullmatch", s)


def regex(ctx, pat, s, how, flags=0):
    """match with holes replaced by generic representatives: a decimal hole is a
    digit string, an opaque word is a private-use character.  Valid for patterns
    whose character classes do not tell apart members of those classes."""
    ip = ctx.interp
    if isinstance(s, Opaque) or isinstance(s, SBytes):
        ip.unsupported("regex on unknown text")
    if s is None:
        ip.throw("TypeError", "expected string or bytes-like object")
    isb = is_bytes(s)
    text = ""
    table = {}
    for p in parts_of(s):
        if isinstance(p, str):
            text += p
        elif isinstance(p, IntHole):
            if ctx.branch(T.I(p.t) < 0):
                text += "-"
                tok = "9%07d9" % len(table)
                table[tok] = IntHole(T.norm(-p.t))
            else:
                tok = "9%07d9" % len(table)
                table[tok] = p
            text += tok
        elif p.kind in ("word", "hex", "ws"):
            tok = chr(0xE000 + len(table)) if p.kind != "ws" else " "
            if p.kind != "ws":
                table[tok] = p
            text += tok
        else:
            hook = getattr(ctx.world, "regex_hole", None)
            if hook is not None:
                r = hook(ctx, pat, s, how)
                if r is not NotImplemented:
                    return r
            ip.unsupported("regex on text of unknown structure")
    pp = pat.decode("latin1") if isinstance(pat, bytes) else pat
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = getattr(_re, how)(pp, text, flags)
    except _re.error as e:
        ip.unsupported("bad regex %s" % e)
    if m is None:
        return None
    return Match(ctx, m, table, isb)


class Match(Model):
    typename = "Match"

    def __init__(self, ctx, m, table, isb):
        Model.__init__(self, ctx, "match")
        self.m, self.table, self.isb = m, table, isb

    def back(self, ctx, g):
        if g is None:
            return None
        out = []
        rest = g
        while rest:
            best = None
            for tok in self.table:
                j = rest.find(tok)
                if j >= 0 and (best is None or j < best[0]):
                    best = (j, tok)
            if best is None:
                out.append(rest)
                break
            out.append(rest[:best[0]])
            out.append(self.table[best[1]])
            rest = rest[best[0] + len(best[1]):]
        return mkstr(out, self.isb)

    def m_group(self, ctx, *idx):
        idx = idx or (0,)
        vals = [self.back(ctx, self.m.group(i)) for i in idx]
        return vals[0] if len(vals) == 1 else tuple(vals)

    def m_groups(self, ctx, default=None):
        return tuple(self.back(ctx, g) if g is not None else default for g in self.m.groups())

    def m_groupdict(self, ctx):
        return IDict(ctx, [(k, self.back(ctx, v)) for k, v in self.m.groupdict().items()])

    def getitem(self, ctx, i):
        return self.m_group(ctx, i)

    def truth(self, ctx):
        return True


EXT["re.compile"] = Builtin("re.compile", lambda c, a, k: Pattern(c, a[0], *(a[1:])))
for n in ("match", "search", "fullmatch"):
    EXT["re." + n] = Builtin("re." + n, lambda c, a, k, n=n: regex(
        c, a[0].pat if isinstance(a[0], Pattern) else a[0], a[1], n))
for n in ("IGNORECASE", "MULTILINE", "DOTALL", "VERBOSE", "I", "M", "S", "X"):
    EXT["re." + n] = int(getattr(_re, n))
EXT["re.error"] = excls("re.error", "Exception")


class Fd(Model):
    """file descriptor of an open file model"""
    typename = "int"

    def __init__(self, ctx, f):
        Model.__init__(self, ctx, "fd")
        self.file = f

    def to_str(self, ctx):
        return mkstr([Hole(T.fresh_txt("fd"), "word")])

    def model_eq(self, ctx, o):
        if isinstance(o, Fd):
            return o.file is self.file
        if isinstance(o, int):
            return False if o < 0 else free_bool(ctx, "fd")
        return False

    def model_cmp(self, ctx, op, a, b):
        return free_bool(ctx, "fd")

    def truth(self, ctx):
        return True


def file_of(ctx, x):
    if isinstance(x, Fd):
        return x.file
    if isinstance(x, Model) and hasattr(x, "is_file"):
        return x
    if isinstance(x, Obj):
        # file-like wrapper with fileno()
        r = ctx.interp.call(ctx.interp.getattr(x, "fileno"), [], {})
        return file_of(ctx, r)
    if x is None:
        ctx.interp.throw("TypeError", "an integer is required (got type NoneType)")
    ctx.interp.unsupported("descriptor %r" % (x,))
