"""C17 C18 C19: block device destinations (BmapBdevCopy), kernel tuning knobs
(SysfsChange) and the splash-screen pipe (set_psplash_pipe)."""
from .common import *
from .copy import Stat
from .parse import ParseWorld, Quiet, parse_setup


class Bdev(Quiet):
    """block device: the kernel's file position is a cell"""

    def __init__(self, ctx, cap):
        Quiet.__init__(self, ctx, "destination", "blk")
        self.cap = cap
        self.attrs["kpos"] = 0

    def m_seek(self, ctx, off, whence=0):
        return ctx.world.lseek(ctx, self, off, whence)

    def m_tell(self, ctx):
        return ctx.read_cell(self, "kpos")


class BdevWorld(ParseWorld):
    def __init__(self, ctx):
        ParseWorld.__init__(self, ctx, "blk")
        self.cap = T.keep(z3.Int("capacity"))
        ctx.assume(self.cap >= 0)
        ctx.assume(z3.And(self.major == 2, self.minor == 0))
        self.dest = Bdev(ctx, self.cap)
        self.envfail = False

    def lseek(self, ctx, f, off, whence):
        if ctx.choose(2, "lseek"):
            self.envfail = True
            self.fail(ctx)
        o = T.I(int_term(off))
        if not isinstance(whence, int) or whence not in (0, 1, 2):
            ctx.interp.unsupported("whence")
        base = {0: z3.IntVal(0), 1: T.I(int_term(ctx.read_cell(f, "kpos"))), 2: self.cap}[whence]
        p = T.norm(base + o)
        ctx.write_cell(f, "kpos", sint(p))
        return sint(p)

    def os_lseek(self, ctx, fd, off, whence):
        f = file_of(ctx, fd)
        if f is not self.dest:
            ctx.interp.unsupported("lseek")
        return self.lseek(ctx, f, off, whence)

    def path_exists(self, ctx, p):
        return bool(ctx.choose(2, "exists"))

    path_isdir = path_exists

    def path_realpath(self, ctx, p):
        return p


def bdev_setup(eng):
    parse_setup(eng)
    eng.contracts["BmapCopy.BmapCopy._verify_bmap_checksum"] = Contract(lambda ip, f, a, k: None)


@unit("bdev.capacity", ["C17"], bdev_setup, expect=("accepted", "too small refused"),
      variants=("bmap", "bmap and size", "size", "unknown"))
def capacity(ctx, var):
    ip, w = make(ctx, BdevWorld)
    mod = ip.import_module("bmaptools.BmapCopy")
    er = mod.attrs["Error"]
    bmap = w.map if var.startswith("bmap") else None
    size = None
    known = True
    if var == "bmap and size":
        size = SInt(w.size)
    elif var == "size":
        ctx.assume(w.size >= 1)
        size = SInt(w.size)
    elif var == "unknown":
        known = False
    if bmap is not None:
        ctx.assume(w.bc == w.q)
        ctx.assume(w.known)
    k, obj = outcome(ip, lambda: ip.call(mod.attrs["BmapBdevCopy"], [w.image, w.dest, bmap, size], {}))
    if w.malformed:
        raise PathEnd("malformed")
    if k == "raise":
        name = excname(obj)
        if not known:
            ctx.prove("an image of unknown size is not refused: %s" % name, w.envfail, ("C17",))
            return
        ctx.prove("an image that fits is not refused: %s" % name, z3.Or(w.envfail, w.size > w.cap), ("C17",))
        ctx.prove("a device that is too small is refused with the module's error: %s" % name, isexc(ip, obj, er), ("C17",))
        if not w.envfail:
            ctx.engine.cover("too small refused")
        return
    ctx.engine.cover("accepted")
    if known:
        ctx.prove("an image larger than the device is refused", w.size <= w.cap, ("C17",))
        ctx.prove("a failing capacity query is an error", z3.Or(not w.envfail, w.size == 0), ("C17",))
    ctx.prove("the write position is left at the start of the device",
              T.I(int_term(ctx.read_cell(w.dest, "kpos"))) == 0, ("C17",))


# --- knobs -------------------------------------------------------------------
class Knob(Owner):
    def __init__(self, ctx, name, wanted):
        Owner.__init__(self, ctx, "knob:" + name)
        self.name = name
        self.wanted = wanted
        self.old = z3.Const("setting_" + name, T.Txt)
        self.oldtext = mkstr([Hole(self.old, "word")])
        self.attrs.update(value=self.oldtext, changed=False, read=False, badrestore=False, envread=False)
        self.form = None
        self.forms = (5, 0)

    def contents(self, ctx):
        """what the kernel shows: the value, or all options with the value in brackets"""
        if self.form is None:
            n, base = self.forms
            self.form = base + (ctx.choose(n, "contents of " + self.name) if n > 1 else 0)
        v = Hole(self.old, "word")
        o = lambda i: Hole(z3.Const("option%d_%s" % (i, self.name), T.Txt), "word")         # noqa
        ctx.engine.cover("plain value" if self.form == 0 else "options")
        return mkstr([[v, "\n"], ["[", v, "]\n"], [o(0), " [", v, "]\n"], ["[", v, "] ", o(0), "\n"],
                      [o(0), " [", v, "] ", o(1), " ", o(2), "\n"]][self.form])


class KnobFile(Model):
    typename = "file"
    is_file = True

    def __init__(self, ctx, knob, mode):
        Model.__init__(self, ctx, "knobfile")
        self.knob, self.mode = knob, mode
        self.attrs.update(pending=None, open=True)

    def m_read(self, ctx, n=-1):
        if self.mode == "w":
            ctx.interp.throw(EXT["io.UnsupportedOperation"], "not readable")
        ctx.world.may_fail(ctx, self.knob, "read")
        ctx.write_cell(self.knob, "read", True)
        return self.knob.contents(ctx)

    m_readline = m_read

    def m_write(self, ctx, v):
        if self.mode == "r":
            ctx.interp.throw(EXT["io.UnsupportedOperation"], "not writable")
        if not is_text(v):
            ctx.interp.throw("TypeError", "write() argument must be str")
        k = self.knob
        ctx.prove("a setting that could not be read is not written (%s)" % k.name,
                  ctx.read_cell(k, "read") is True, ("C18",))
        ctx.prove("a setting that has the wanted value is not written (%s)" % k.name,
                  z3.Not(text_bool(ctx, k.oldtext, k.wanted)), ("C18",))
        ctx.write_cell(self, "pending", v)
        ctx.world.may_fail(ctx, k, "write")
        return SInt(ctx.new_int("written", 0))

    def m_flush(self, ctx):
        self.commit(ctx)

    def commit(self, ctx):
        v = ctx.read_cell(self, "pending")
        if v is None:
            return
        ctx.write_cell(self, "pending", None)
        ctx.world.may_fail(ctx, self.knob, "flush")
        ctx.write_cell(self.knob, "value", v)
        ctx.write_cell(self.knob, "changed", True)

    def m_close(self, ctx):
        if ctx.read_cell(self, "open") is True:
            ctx.write_cell(self, "open", False)
            self.commit(ctx)

    def m___enter__(self, ctx):
        return self

    def m___exit__(self, ctx, *a):
        if a and a[0] is not None:
            # the failed write is not retried
            ctx.write_cell(self, "pending", None)
        self.m_close(ctx)
        return False


def text_bool(ctx, a, b):
    r = text_eq(ctx, a, b)
    return r.t if isinstance(r, SBool) else z3.BoolVal(bool(r))


class KnobWorld(BdevWorld):
    def __init__(self, ctx):
        BdevWorld.__init__(self, ctx)
        self.knobs = {"bdi/max_ratio": Knob(ctx, "max_ratio", "1"), "queue/scheduler": Knob(ctx, "scheduler", "none")}
        self.copies = 0
        self.inner = None
        self.restfail = []

    def may_fail(self, ctx, knob, what):
        if ctx.choose(2, "%s %s" % (what, knob.name)):
            if self.copies:
                self.restfail.append(knob.name)
            cls = "PermissionError" if what == "open" else "OSError"
            self.fail(ctx, 13 if what == "open" else 22, cls)

    def open(self, ctx, path, mode="r", *a, **k):
        ps = parts_of(path)
        tail = ps[-1] if isinstance(ps[-1], str) else ""
        for sfx, knob in self.knobs.items():
            if tail.endswith("/" + sfx) and isinstance(ps[0], str) and ps[0].startswith("/sys/dev/block/"):
                if mode not in ("r", "rt", "w", "wt"):
                    ctx.interp.unsupported("mode of a knob")
                self.may_fail(ctx, knob, "open")
                return KnobFile(ctx, knob, mode[0])
        ctx.interp.unsupported("open of %r" % (path,))

    def inner_copy(self, ip, f, a, k):
        ctx = self.ctx
        self.copies += 1
        ctx.prove("the copy is made once", self.copies == 1, ("C18", "C01"))
        names = ("self", "sync", "verify")
        d = dict(zip(names, a))
        d.update(k)
        s, v = d.get("sync", True), d.get("verify", True)
        ctx.prove("the synchronisation request is passed on", s is self.sync, ("C07", "C18"))
        ctx.prove("the verification request is passed on", v is self.verify, ("C03", "C18"))
        c = ctx.choose(3, "copy outcome")
        if c == 0:
            ctx.engine.cover("copy succeeded")
            return None
        er = ip.import_module("bmaptools.BmapCopy").attrs["Error"]
        e = ip.make_exc([er, ip.builtins["KeyboardInterrupt"]][c - 1], "inner")
        e.attrs["errno"] = 5
        self.inner = e
        ctx.engine.cover(["", "copy failed", "copy interrupted"][c])
        raise IRaise(e)


def knob_setup(eng):
    parse_setup(eng)
    eng.contracts["BmapCopy.BmapCopy.copy"] = Contract(
        lambda ip, f, a, k: ip.ctx.world.inner_copy(ip, f, a, k))


@unit("bdev.knobs", ["C18", "C07", "C03"], knob_setup,
      expect=("plain value", "options", "copy succeeded", "copy failed", "copy interrupted", "restored", "restore failed"),
      variants=("plain", "[v]", "a [v]", "[v] a", "a [v] b c", "ratio lists options"))
def knobs(ctx, var):
    """var: how the scheduler is shown"""
    ip, w = make(ctx, KnobWorld)
    i = ("plain", "[v]", "a [v]", "[v] a", "a [v] b c", "ratio lists options").index(var)
    w.knobs["queue/scheduler"].forms = (1, i if i < 5 else 0)
    w.knobs["bdi/max_ratio"].forms = (1, 0) if i < 5 else (1, 4)
    mod = ip.import_module("bmaptools.BmapCopy")
    er = mod.attrs["Error"]
    k, obj = outcome(ip, lambda: ip.call(mod.attrs["BmapBdevCopy"], [w.image, w.dest, None, None], {}))
    if k == "raise":
        raise PathEnd("refused")
    w.sync, w.verify = free_bool(ctx, "sync"), free_bool(ctx, "verify")
    k, v = outcome(ip, lambda: method(ip, obj, "copy", w.sync, w.verify))
    name = excname(v) if k == "raise" else ""
    failed = False
    for kn in w.knobs.values():
        ch = ctx.read_cell(kn, "changed")
        if ch is not True:
            continue
        if kn.name in w.restfail:
            failed = True
            continue
        ctx.engine.cover("restored")
        ctx.prove("the previous setting is restored (%s)" % kn.name,
                  text_bool(ctx, ctx.read_cell(kn, "value"), kn.oldtext), ("C18",))
    ctx.prove("the copy is made although settings cannot be changed: %s" % name, w.copies == 1, ("C18", "C01"))
    if failed:
        ctx.engine.cover("restore failed")
        ctx.prove("failing to restore a setting is an error: %s" % name, k == "raise" and isexc(ip, v, er), ("C18",))
    elif w.inner is not None:
        ctx.prove("a failure of the copy is passed on: %s" % name, k == "raise" and v is w.inner, ("C18", "C06"))
    else:
        ctx.prove("a successful copy is a success: %s" % name, k == "ok", ("C18",))


@unit("bdev.knobs.reraise", ["C18"], expect=("raises", "enters"))
def reraise_knob(ctx, var):
    """SysfsChange on its own, with I/O errors not suppressed"""
    ip, w = make(ctx, KnobWorld)
    mod = ip.import_module("bmaptools.BmapCopy")
    kn = w.knobs["queue/scheduler"]
    w.knobs = {"queue/scheduler": kn}
    k, obj = outcome(ip, lambda: ip.call(mod.attrs["SysfsChange"], ["/sys/dev/block/8:0/queue/scheduler", kn.wanted],
                                         {"suppress_ioerrors": False}))
    if k == "raise":
        ctx.prove("the constructor has no effect: %s" % excname(obj), False, ("C18",))
        return
    k, v = outcome(ip, lambda: method(ip, obj, "__enter__"))
    if k == "raise":
        ctx.engine.cover("raises")
        ctx.prove("an I/O error is raised unchanged: %s" % excname(v), isexc(ip, v, "OSError"), ("C18",))
        ctx.prove("a failed change leaves the setting alone", text_bool(ctx, ctx.read_cell(kn, "value"), kn.oldtext), ("C18",))
        return
    ctx.engine.cover("enters")
    w.copies = 1
    k, v = outcome(ip, lambda: method(ip, obj, "__exit__", None, None, None))
    if kn.name in w.restfail:
        ctx.prove("failing to restore a setting is an error", k == "raise" and isexc(ip, v, mod.attrs["Error"]), ("C18",))
        return
    ctx.prove("leaving does not fail", k == "ok", ("C18",))
    ctx.prove("the previous setting is restored", text_bool(ctx, ctx.read_cell(kn, "value"), kn.oldtext), ("C18",))


# --- splash-screen pipe -------------------------------------------------------------
class SplashWorld(ParseWorld):
    def __init__(self, ctx):
        ParseWorld.__init__(self, ctx)
        self.kind = ["fifo", "reg", "blk", "chr", "dir", "sock", None][ctx.choose(7, "kind of path")]
        self.warned = False

    def path_exists(self, ctx, p):
        return self.kind is not None

    def path_isfile(self, ctx, p):
        return self.kind == "reg"

    def os_stat(self, ctx, p, **k):
        if self.kind is None:
            self.fail(ctx, 2, "FileNotFoundError")
        st = Stat(ctx, "stat")
        st.attrs["st_mode"] = ModeVal(ctx, self.kind)
        return st

    os_lstat = os_stat

    def on_log(self, ctx, level, a):
        if level in ("warning", "warn", "error"):
            self.warned = True


@unit("splash.pipe", ["C19"], expect=("used", "refused"))
def splash(ctx, var):
    ip, w = make(ctx, SplashWorld)
    mod = ip.import_module("bmaptools.BmapCopy")
    obj = ip.call(mod.attrs["BmapCopy"], [w.image, w.dest, None, None], {})
    path = mkstr([Hole(z3.Const("pipe", T.Txt), "nonempty")])
    before = {n: v for n, v in obj.attrs.items()}
    k, v = outcome(ip, lambda: method(ip, obj, "set_psplash_pipe", path))
    ctx.prove("a problem with the splash-screen pipe is ignored%s" % (": " + excname(v) if k == "raise" else ""),
              k == "ok", ("C19",))
    if k != "ok":
        return
    changed = [n for n in obj.attrs if not _same(before.get(n), obj.attrs[n])]
    if w.kind == "fifo":
        ctx.engine.cover("used")
        ctx.prove("a pipe is used for progress updates", len(changed) == 1 and _same(obj.attrs[changed[0]], path), ("C19",))
    else:
        ctx.engine.cover("refused")
        ctx.prove("a path that is not a pipe is refused (%s)" % w.kind, not changed, ("C19",))
        ctx.prove("refusing a path that is not a pipe is reported (%s)" % w.kind, w.warned, ("C19",))


def _same(a, b):
    return a is b or (isinstance(a, SStr) and isinstance(b, SStr) and a.same(b)) or (
        isinstance(a, (int, str, type(None))) and type(a) is type(b) and a == b) or (
        isinstance(a, SInt) and isinstance(b, SInt) and a.t.eq(b.t))
