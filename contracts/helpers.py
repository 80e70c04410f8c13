"""C20: file system refusal and block size (BmapHelpers, Filemap)."""
from .common import *
from .filemap import FilemapWorld, ImageFile, StatRes

ZFS_PARAM = "/sys/module/zfs/parameters/zfs_dmu_offset_next_sync"
TAGS = ("C20",)


class SimpleCM(Model):
    def m___enter__(self, ctx):
        return self

    def m___exit__(self, ctx, *a):
        f = getattr(self, "m_close", None)
        if f is not None:
            f(ctx)
        return False


class Proc(SimpleCM):
    typename = "Popen"

    def __init__(self, ctx, out, rc, text):
        Model.__init__(self, ctx, "df")
        self.out, self.rc, self.text = out, rc, text
        self.attrs["done"] = False

    def conv(self, v):
        if self.text:
            return v.decode() if isinstance(v, bytes) else mkstr(parts_of(v), False)
        return v

    def m_communicate(self, ctx, *a, **k):
        ctx.write_cell(self, "done", True)
        quiet = self.rc == 0 or ctx.choose(2, "message on stderr")
        return (self.conv(self.out), self.conv(b"" if quiet else b"df: cannot\n"))

    def m_wait(self, ctx, *a, **k):
        return self.rc

    m_poll = m_wait

    def m_close(self, ctx):
        return None

    def get_attribute(self, ctx, name):
        if name == "returncode":
            return self.rc
        if name in ("stdout", "stderr") and self.attrs.get("run"):
            return self.conv(self.out if name == "stdout" else b"")
        return NotImplemented


class ParamFile(SimpleCM):
    """text file with the given lines"""
    typename = "file"
    is_file = True

    def __init__(self, ctx, world, lines):
        Model.__init__(self, ctx, "zfs parameter")
        self.w, self.lines = world, lines
        self.attrs.update(i=0, closed=False)
        self.bytes_ = False

    def conv(self, v):
        if self.bytes_:
            return v.encode() if isinstance(v, str) else mkstr(parts_of(v), True)
        return v

    def _fail(self, ctx):
        if ctx.choose(2, "read of the parameter"):
            self.w.unreadable = True
            self.w.fail(ctx)

    def m_readline(self, ctx, n=-1):
        self._fail(ctx)
        i = self.attrs["i"]
        ctx.write_cell(self, "i", i + 1)
        return self.conv(self.lines[i] if i < len(self.lines) else "")

    def m_read(self, ctx, n=-1):
        self._fail(ctx)
        out = []
        for x in self.lines[self.attrs["i"]:]:
            out.extend(parts_of(x))
        ctx.write_cell(self, "i", len(self.lines))
        return self.conv(mkstr(out))

    def m_readlines(self, ctx):
        self._fail(ctx)
        return IList(ctx, [self.conv(x) for x in self.lines[self.attrs["i"]:]])

    def m_close(self, ctx):
        ctx.write_cell(self, "closed", True)

    def iterate(self, ctx, body, node, fr):
        for x in self.lines[self.attrs["i"]:]:
            ctx.write_cell(self, "i", self.attrs["i"] + 1)
            body(self.conv(x))
        return None


class HelperWorld(World):
    """one image on a file system of any type; the output of df has one of the
    shapes enumerated in df_output(), with arbitrary names"""

    def __init__(self, ctx):
        World.__init__(self, ctx)
        self.path = mkstr([Hole(z3.Const("path", T.Txt), "nonempty")])
        self.real = mkstr([Hole(z3.Const("real_path", T.Txt), "nonempty")])
        self.known = None            # type found by df: None until asked
        self.unreadable = False
        self.noparam = None
        self.valid = None            # contents of the parameter file: None (not asked), False or term
        self.openfail = False

    def path_realpath(self, ctx, p, **k):
        self.must_be_path(ctx, p)
        return self.real

    path_abspath = path_realpath

    def must_be_path(self, ctx, p):
        ok = is_text(p) and (rope_same(p, self.path) or rope_same(p, self.real))
        ctx.prove("the file system queried is that of the image", ok, TAGS)

    # -- df -------------------------------------------------------------
    def df_output(self, ctx):
        head = "Filesystem     Type     1K-blocks     Used Available Use% Mounted on\n"
        wd = lambda n: Hole(z3.Const(n, T.Txt), "word")         # noqa
        ws = lambda: Hole(T.fresh_txt("ws"), "ws")         # noqa
        tail = [ws(), IntHole(ctx.new_int("kblocks", 0)), ws(), IntHole(ctx.new_int("used", 0)), "   ",
                IntHole(ctx.new_int("avail", 0)), "   9% /", wd("mount")]
        c = ctx.choose(13, "output of df")
        if c < 5:
            self.known = "other" if c == 4 else "zfs"
            t = ("zfs", "ZFS", "Zfs", "zfs", None)[c]
            if t is None:
                h = wd("fs_type")
                low = z3.Function("lowered", T.Txt, T.Txt)(h.t)
                up = z3.Function("uppered", T.Txt, T.Txt)(h.t)
                ctx.solver.add(z3.And(low != txt_term(ctx, "zfs"), h.t != txt_term(ctx, "zfs"),
                                      up != txt_term(ctx, "ZFS"), h.t != txt_term(ctx, "ZFS")))
                t = h
            parts = [head, wd("device"), ws(), t] + tail + ["\n"]
            if c == 3:
                parts.append("other ext4 1 1 1 1% /other\n")
            return mkstr(parts, True), 0
        if c in (5, 6, 7, 8):
            self.known = "other" if c < 8 else "other"
            t = ("ext4", "btrfs", "fuse.zfs", "zfs2")[c - 5]
            return mkstr([head, wd("device"), ws(), t] + tail + ["\n"], True), 0
        self.known = "undetermined"
        if c == 9:
            return b"", 1
        if c == 10:
            return head.encode(), 1
        if c == 11:
            return mkstr([head, wd("device"), "\n"], True), 1
        return mkstr([head, "\n"], True), 1

    def _df(self, ctx, args, k):
        if isinstance(args, IList):
            items = args.attrs["items"]
        elif isinstance(args, tuple):
            items = list(args)
        else:
            ctx.interp.unsupported("process %r" % (args,))
        names = [x for x in items if isinstance(x, str)]
        if not names or names[0].split("/")[-1] != "df" or not (
                {"-T", "--print-type", "-PT", "-TP"} & set(names)) or set(names[1:]) - {
                    "-T", "--print-type", "-PT", "-TP", "--", "-P", "--portability"}:
            ctx.interp.unsupported("process %r" % (items,))
        self.must_be_path(ctx, items[-1])
        text = any(ctx.interp.truth(k[x]) for x in ("text", "universal_newlines", "encoding") if x in k)
        if ctx.choose(2, "df available"):
            self.known = "undetermined"
            self.fail(ctx, 2, "FileNotFoundError")
        out, rc = self.df_output(ctx)
        return out, rc, text

    def sp_Popen(self, ctx, args, *a, **k):
        return Proc(ctx, *self._df(ctx, args, k))

    def sp_run(self, ctx, args, *a, **k):
        out, rc, text = self._df(ctx, args, k)
        if rc and ctx.interp.truth(k.get("check", False)):
            ctx.interp.throw(EXT["subprocess.CalledProcessError"], rc)
        p = Proc(ctx, out, rc, text)
        p.attrs["run"] = True
        return p

    def sp_check_output(self, ctx, args, *a, **k):
        out, rc, text = self._df(ctx, args, k)
        if rc:
            ctx.interp.throw(EXT["subprocess.CalledProcessError"], rc)
        return Proc(ctx, out, rc, text).conv(out)

    # -- the zfs parameter ------------------------------------------------
    def _param(self, ctx, p):
        ctx.prove("the parameter asked for is zfs_dmu_offset_next_sync", p == ZFS_PARAM, TAGS)

    def path_isfile(self, ctx, p):
        self._param(ctx, p)
        if self.noparam is None:
            self.noparam = bool(ctx.choose(2, "parameter file missing"))
        return not self.noparam

    path_exists = path_isfile

    def os_access(self, ctx, p, m, **k):
        return self.path_isfile(ctx, p)

    def open(self, ctx, p, mode="r", *a, **k):
        self._param(ctx, p)
        ctx.prove("the parameter is only read", mode in ("r", "rt", "rb"), TAGS)
        if self.noparam is None:
            self.noparam = bool(ctx.choose(2, "parameter file missing"))
        if self.noparam:
            self.fail(ctx, 2, "FileNotFoundError")
        if ctx.choose(2, "parameter file opened"):
            self.openfail = True
            self.fail(ctx, 13, "PermissionError")
        n = ctx.new_int("parameter")
        c = ctx.choose(5, "contents of the parameter file")
        self.valid = n == 1 if c < 3 else False
        h = IntHole(n)
        lines = ([mkstr([h, "\n"])], [mkstr([h])], [mkstr([" ", h, " \n"])], ["Y\n"], [])[c]
        f = ParamFile(ctx, self, lines)
        f.bytes_ = "b" in mode
        return f

    def io_open(self, ctx, *a, **k):
        return self.open(ctx, *a, **k)


def rope_same(a, b):
    pa, pb = parts_of(a), parts_of(b)
    return len(pa) == len(pb) and all(x == y if isinstance(x, str) or isinstance(y, str) else x.same(y)
                                      for x, y in zip(pa, pb))


@unit("helpers.compat", ["C20"], expect=("zfs allowed", "zfs refused", "other allowed", "undetermined",
                                         "zfs parameter unusable"))
def compat(ctx, var):
    """is_compatible_file_system with everything below it"""
    ip, w = make(ctx, HelperWorld)
    mod = ip.import_module("bmaptools.BmapHelpers")
    st, v = outcome(ip, lambda: call(ip, mod.attrs["is_compatible_file_system"], w.path))
    ctx.prove("the type of the file system is queried", w.known is not None, TAGS)
    if w.known == "undetermined":
        ctx.prove("an undetermined type is an error", st == "raise", TAGS)
        if st == "raise" and not isexc(ip, v, "OSError"):
            ctx.prove("an undetermined type is reported by the module's error: %s" % excname(v),
                      isexc(ip, v, mod.attrs["Error"], EXT["subprocess.CalledProcessError"]), TAGS)
        ctx.engine.cover("undetermined")
        return
    if w.known == "other":
        ctx.prove("a file system other than zfs is allowed%s" % (": " + excname(v) if st == "raise" else ""),
                  st == "ok" and ip.truth(v), TAGS)
        ctx.engine.cover("other allowed")
        return
    if st == "raise":
        ctx.prove("zfs with an unusable parameter is refused by the module's error: %s" % excname(v),
                  isexc(ip, v, mod.attrs["Error"]), TAGS)
        ctx.prove("zfs with a usable parameter is no error: %s" % excname(v),
                  w.openfail or w.unreadable or w.noparam or w.valid is False, TAGS)
        ctx.engine.cover("zfs parameter unusable")
        return
    if ip.truth(v):
        ctx.prove("zfs is only allowed when its parameter file holds 1",
                  w.valid if w.valid is not None and not w.noparam and not w.unreadable else False, TAGS)
        ctx.engine.cover("zfs allowed")
    else:
        bad = w.noparam or w.openfail or w.unreadable or w.valid is False
        ctx.prove("zfs with the parameter set to 1 is allowed",
                  True if bad else z3.Not(w.valid) if w.valid is not None else False, TAGS)
        ctx.engine.cover("zfs refused")


# ---------------------------------------------------------------------------
class IoctlRes(Model):
    typename = "bytes"

    def __init__(self, ctx, v):
        Model.__init__(self, ctx, "ioctl result")
        self.v = v

    def length(self, ctx):
        return 4


class BlkFile(Model):
    typename = "file"
    is_file = True

    def m_fileno(self, ctx):
        return Fd(ctx, self)


class BlkWorld(World):
    def __init__(self, ctx):
        World.__init__(self, ctx)
        self.bs, self.blk = ctx.new_int("figetbsz", 0, 2 ** 31 - 1), ctx.new_int("st_blksize", 1, 2 ** 31 - 1)
        self.file = BlkFile(ctx, "image")
        self.state = None
        self.fstat_failed = False

    def ioctl(self, ctx, f, req, arg=0, mutate=True):
        ctx.prove("the block size query is FIGETBSZ on the image", file_of(ctx, f) is self.file and req == 2, TAGS)
        if not (isinstance(arg, bytes) and len(arg) == 4):
            ctx.interp.unsupported("ioctl argument %r" % (arg,))
        self.state = "failed" if ctx.choose(2, "FIGETBSZ") else "ok"
        if self.state == "failed":
            self.fail(ctx, 25)
        return IoctlRes(ctx, self.bs)

    def struct_unpack(self, ctx, fmt, b):
        if isinstance(b, IoctlRes):
            if fmt not in ("I", "=I", "@I", "i", "=i", "@i", "<I", "<i"):
                ctx.interp.unsupported("struct format %r" % (fmt,))
            return (SInt(b.v),)
        return NotImplemented

    def os_fstat(self, ctx, fd):
        ctx.prove("the file asked for its preferred block size is the image", file_of(ctx, fd) is self.file, TAGS)
        if ctx.choose(2, "fstat"):
            self.fstat_failed = True
            self.fail(ctx)
        st = StatRes(ctx, "stat")
        st.attrs["st_size"] = SInt(ctx.new_int("size", 0))
        st.attrs["st_blksize"] = SInt(self.blk)
        st.attrs["st_blocks"] = SInt(ctx.new_int("st_blocks", 0))
        st.attrs["st_mode"] = ModeVal(ctx, "reg")
        return st


@unit("helpers.blocksize", ["C20"], expect=("reported", "fallback", "failed"))
def blocksize(ctx, var):
    ip, w = make(ctx, BlkWorld)
    mod = ip.import_module("bmaptools.BmapHelpers")
    st, v = outcome(ip, lambda: call(ip, mod.attrs["get_block_size"], w.file))
    if st == "raise":
        ctx.prove("a failing block size query is an I/O error: %s" % excname(v), isexc(ip, v, "OSError"), TAGS)
        ctx.prove("a block size that can be had is returned", w.fstat_failed, TAGS)
        ctx.prove("the preferred block size is only asked for when the file system does not tell its block size",
                  True if w.state == "failed" else w.bs == 0, TAGS)
        ctx.engine.cover("failed")
        return
    t = T.I(int_term(v))
    ctx.prove("the file system is asked for its block size", w.state is not None, TAGS)
    if w.state == "failed":
        ctx.prove("the preferred block size is used if the query fails", t == w.blk, TAGS)
        ctx.engine.cover("fallback")
    else:
        ctx.prove("the block size is the one the file system reports, the preferred one only if that is zero",
                  t == z3.If(w.bs == 0, w.blk, w.bs), TAGS)
        if ctx.solver.prove(w.bs >= 1)[0] == "valid":
            ctx.engine.cover("reported")


# ---------------------------------------------------------------------------
class BaseWorld(FilemapWorld):
    def __init__(self, ctx):
        FilemapWorld.__init__(self, ctx, TAGS)
        self.compat = self.bsq = None
        self.failed = False

    def fail(self, ctx, *a, **k):
        self.failed = True
        FilemapWorld.fail(self, ctx, *a, **k)


def base_setup(eng):
    def block_size(ip, f, a, k):
        w = ip.ctx.world
        x = a[0] if a else list(k.values())[0]
        ip.ctx.prove("the block size is asked for on the image", file_of(ip.ctx, x) is w.the_file(ip.ctx), TAGS)
        w.bsq = True
        if ip.ctx.choose(2, "get_block_size"):
            w.fail(ip.ctx)
        return sint(w.bs)

    def compat(ip, f, a, k):
        w = ip.ctx.world
        ip.ctx.prove("the file system checked is that of the image", len(a) == 1 and is_text(a[0]) and
                     rope_same(a[0], w.path), TAGS)
        c = ip.ctx.choose(3, "file system")
        w.compat = (True, False, "undetermined")[c]
        if c == 2:
            ip.throw(ip.import_module("bmaptools.BmapHelpers").attrs["Error"], "fs")
        return w.compat

    def fstype(ip, f, a, k):
        if ip.ctx.choose(2, "fs type known"):
            ip.throw(ip.import_module("bmaptools.BmapHelpers").attrs["Error"], "fs")
        return mkstr([Hole(T.fresh_txt("fstype"), "nonempty")])
    eng.contracts["BmapHelpers.get_block_size"] = Contract(block_size)
    eng.contracts["BmapHelpers.is_compatible_file_system"] = Contract(compat)
    eng.contracts["BmapHelpers.get_file_system_type"] = Contract(fstype)


@unit("helpers.refusal", ["C20"], base_setup, expect=("allowed", "refused", "undetermined"),
      variants=("FilemapFiemap", "FilemapSeek"))
def refusal(ctx, var):
    """constructing a map object enforces the verdict about the file system"""
    ip, w = make(ctx, BaseWorld)
    mod = ip.import_module("bmaptools.Filemap")
    base = mod.attrs[var].mro[1]
    helpers = ip.import_module("bmaptools.BmapHelpers")
    w.path = mkstr([Hole(z3.Const("path", T.Txt), "nonempty")])
    given = None
    if ctx.choose(2, "image given as"):
        given = ImageFile(ctx, "image", w.path)
        given.attrs["mode"] = "rb"
    w.the_file = lambda c: given if given is not None else (c.memo.get("opened") or [None])[-1]
    # the part of the constructor that is common to both kinds
    init, _ = base.lookup("__init__")
    obj = Obj(ctx, mod.attrs[var])
    st, v = outcome(ip, lambda: ip.call(BoundMethod(init, obj), [given if given is not None else w.path], {}))
    if st == "ok":
        ctx.prove("a map is only made on a compatible file system", w.compat is True, TAGS)
        ctx.prove("the block size used is the one reported", w.bsq is True and
                  T.I(int_term(ip.getattr(obj, "block_size"))) == w.bs, TAGS)
        ctx.engine.cover("allowed")
    else:
        ctx.prove("a map on a compatible file system is not refused: %s" % excname(v),
                  w.compat is not True or w.failed, TAGS)
        ctx.prove("refusals are reported by the documented errors: %s" % excname(v),
                  isexc(ip, v, mod.attrs["Error"], helpers.attrs["Error"]), TAGS)
        if w.compat is False:
            ctx.engine.cover("refused")
        if w.compat == "undetermined":
            ctx.engine.cover("undetermined")
