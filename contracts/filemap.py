"""C08, C09: block maps from the FIEMAP ioctl and from SEEK_DATA/SEEK_HOLE.

Kernel contracts (assumed): FIEMAP reports the extents intersecting the asked
byte window in increasing order, at most as many as the buffer is said to hold,
in the documented binary layout; SEEK_DATA/SEEK_HOLE return the first offset at
or after the given one that is data/hole (end of file counts as a hole), ENXIO
from the end on."""
import os
import struct as _struct
from .common import *


class ImageFile(Model):
    typename = "file"
    is_file = True

    def __init__(self, ctx, name="image", path=None):
        Model.__init__(self, ctx, name)
        self.dyn["name"] = path if path is not None else mkstr([Hole(z3.Const("path", T.Txt), "nonempty")])
        self.attrs["closed"] = False
        # the kernel's file position, which a buffered file object relies on
        self.koff0 = ctx.new_int("koff", 0)
        self.attrs["koff"] = SInt(self.koff0)

    def m_fileno(self, ctx):
        return ctx.world.fd(ctx, self)

    def m_flush(self, ctx):
        if ctx.choose(2, "flush"):
            ctx.world.fail(ctx)

    def m_close(self, ctx):
        ctx.write_cell(self, "closed", True)


class StatRes(Model):
    typename = "stat_result"
    closed = True
    real = (os.stat_result,)


class Buf(Model):
    """mutable byte buffer shared with the kernel"""
    typename = "array"

    def __init__(self, ctx, size):
        Model.__init__(self, ctx, "buf")
        self.size = size
        self.attrs["i0"] = 0
        self.attrs["n"] = 0
        self.attrs["valid"] = False

    def no_inv(self, name):
        return name[0] == "h"

    def getitem(self, ctx, i):
        if not isinstance(i, SliceVal) or i.step is not None:
            ctx.interp.unsupported("buffer index")
        lo = i.lo if i.lo is not None else 0
        hi = i.hi if i.hi is not None else self.size
        return BufSlice(ctx, self, int_term(lo), int_term(hi))

    def length(self, ctx):
        return self.size


class BufSlice(Model):
    typename = "array"

    def __init__(self, ctx, buf, lo, hi):
        Model.__init__(self, ctx, "slice")
        self.buf, self.lo, self.hi = buf, T.I(lo), T.I(hi)

    def m_tobytes(self, ctx):
        return self


SIZES = {"Q": 8, "q": 8, "L": 4, "I": 4, "l": 4, "i": 4, "H": 2, "B": 1}


def layout(fmt):
    """[(offset, size)] of a '=' or '<' struct format, None if not supported"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not fmt or fmt[0] not in "=<":
        return None
    out, off, num = [], 0, ""
    for c in fmt[1:]:
        if c.isdigit():
            num += c
            continue
        if c not in SIZES:
            return None
        for _ in range(int(num) if num else 1):
            out.append((off, SIZES[c]))
            off += SIZES[c]
        num = ""
    return out


class FilemapWorld(World):
    def __init__(self, ctx, tags, direction="mapped"):
        World.__init__(self, ctx)
        self.tags = tags
        self.bs = T.keep(z3.Int("bs"))
        self.size = T.keep(z3.Int("size"))
        self.bc = T.keep(z3.Int("blocks"))
        self.KB = T.keep(z3.Int("KB"))          # an arbitrary block of the window
        self.ws = T.keep(z3.Int("win_start"))
        self.wc = T.keep(z3.Int("win_count"))
        self.MAPPED = z3.Function("mapped", z3.IntSort(), z3.BoolSort())
        self.direction = direction
        s = ctx.solver
        T.set_positive(self.bs)
        ctx.assume(z3.And(self.bs >= 1, self.bs <= 2 ** 31, self.size >= 0, self.size < 2 ** 63 - 2 ** 32))
        q, r = s.floordiv(self.size + self.bs - 1, self.bs)
        ctx.assume(self.bc == q)
        s.register(self.bc, self.bs)
        ctx.assume(z3.And(self.ws >= 0, self.wc >= 0, self.ws + self.wc <= self.bc))
        ctx.assume(z3.And(self.KB >= self.ws, self.KB < self.ws + self.wc))
        for t in (self.KB, self.KB + 1, self.ws, self.ws + self.wc, self.wc):
            s.register(t, self.bs)
        self.blocks = [self.KB]
        self.univ = []
        self.probe = "real"
        self.errors = set()

    # uninterpreted block map with instantiation of universal facts
    def mapped(self, b):
        return self.MAPPED(b)

    def block_term(self, b):
        b = T.norm(b)
        for x in self.blocks:
            if x.eq(b):
                return b
        T.keep(b)
        self.blocks.append(b)
        self.ctx.solver.register(b, self.bs)
        for u in self.univ:
            self.ctx.assume(u(b))
        return b

    def forall(self, u):
        self.univ.append(u)
        for b in list(self.blocks):
            self.ctx.assume(u(b))

    def P(self, b):
        m = self.mapped(b)
        return m if self.direction == "mapped" else z3.Not(m)

    def fd(self, ctx, f):
        k = ("fd", f.label)
        if k not in ctx.memo:
            ctx.memo[k] = Fd(ctx, f)
        return ctx.memo[k]

    def open(self, ctx, path, mode="r", *a, **k):
        if ctx.choose(2, "open"):
            self.fail(ctx)
        f = ImageFile(ctx, "opened", path)
        f.attrs["mode"] = mode
        ctx.memo.setdefault("opened", []).append(f)
        return f

    def os_fstat(self, ctx, fd):
        f = file_of(ctx, fd)
        if ctx.choose(2, "fstat"):
            self.fail(ctx)
        st = StatRes(ctx, "stat")
        st.attrs["st_size"] = sint(self.size)
        st.attrs["st_blksize"] = sint(self.bs)
        st.attrs["st_mode"] = ModeVal(ctx, "reg")
        return st

    def os_fsync(self, ctx, fd):
        if ctx.choose(2, "fsync"):
            self.fail(ctx)
        return None

    os_fdatasync = os_fsync

    def os_sync(self, ctx):
        return None


def helper_contracts(eng):
    def block_size(ip, f, a, k):
        if ip.ctx.choose(2, "get_block_size"):
            ip.ctx.world.fail(ip.ctx)
        return sint(ip.ctx.world.bs)

    def compat(ip, f, a, k):
        c = ip.ctx.choose(2, "fs type known")
        if c:
            ip.throw(ip.import_module("bmaptools.BmapHelpers").attrs["Error"], "fs")
        return not ip.ctx.choose(2, "compatible")

    def fstype(ip, f, a, k):
        if ip.ctx.choose(2, "fs type known"):
            ip.throw(ip.import_module("bmaptools.BmapHelpers").attrs["Error"], "fs")
        return mkstr([Hole(T.fresh_txt("fstype"), "nonempty")], True)
    eng.contracts["BmapHelpers.get_block_size"] = Contract(block_size)
    eng.contracts["BmapHelpers.is_compatible_file_system"] = Contract(compat)
    eng.contracts["BmapHelpers.get_file_system_type"] = Contract(fstype)


# ---------------------------------------------------------------------------
# FIEMAP
FIEMAP_NR = 0xC020660B


class FiemapWorld(FilemapWorld):
    def __init__(self, ctx, tags, direction="mapped"):
        FilemapWorld.__init__(self, ctx, tags, direction)
        self.NE = T.keep(z3.Int("extents"))
        self.ext = IvSeq(ctx, "extent", self.NE, self.KB, lo=z3.IntVal(0))
        self.ext.base()

        def hook(i):
            ctx.solver.add(z3.Implies(z3.And(i >= 0, i < self.NE),
                                      ctx.solver.mul(self.ext.Lf(i) + 1, self.bs) < 2 ** 64))
        self.ext.hook.append(hook)
        hook(self.ext.j)
        ctx.assume(self.MAPPED(self.KB) == self.ext.cov)
        self.buf = None

    def array_array(self, ctx, tc, init=None):
        n = None
        if isinstance(init, IList):
            n = len(ctx.read_cell(init, "items"))
        elif isinstance(init, bytes):
            n = len(init)
        elif type(init).__name__ == "BigList":
            n = init.n
        if tc not in ("B", "b") or n is None:
            ctx.interp.unsupported("array")
        return Buf(ctx, n)

    def builtins_bytearray(self, ctx, n):
        return Buf(ctx, n)

    def struct_pack_into(self, ctx, fmt, buf, off, *vals):
        ip = ctx.interp
        if not isinstance(buf, Buf) or not isinstance(fmt, str):
            return NotImplemented
        lay = layout(fmt)
        if lay is None or not isinstance(off, int):
            ip.unsupported("struct format %r" % (fmt,))
        if len(lay) != len(vals):
            ip.throw(EXT["struct.error"], "wrong number of items")
        if off + sum(s for _, s in lay) > buf.size:
            ip.throw(EXT["struct.error"], "buffer too small")
        new = []
        for (o, s), v in zip(lay, vals):
            t = int_term(v)
            if not ctx.branch(z3.And(T.I(t) >= 0, T.I(t) < 2 ** (8 * s))):
                ip.throw(EXT["struct.error"], "argument out of range")
            new.append((off + o, s, sint(t)))
        for o, s, v in new:
            ctx.write_cell(buf, "h%d_%d" % (o, s), v)
        return None

    def header(self, ctx, buf):
        out = {}
        for n in list(buf.attrs):
            if n[0] == "h" and "_" in n:
                o, s = n[1:].split("_")
                v = ctx.read_cell(buf, n)
                if v is not UNBOUND:
                    out[(int(o), int(s))] = v
        return out

    def ioctl(self, ctx, f, req, arg=0, mutate=True):
        ip = ctx.interp
        if req == 2:
            ip.unsupported("block size query outside its contract")
        file_of(ctx, f)
        if not isinstance(arg, Buf) or not mutate:
            ip.unsupported("ioctl argument")
        ctx.prove("FIEMAP request number", req == FIEMAP_NR if isinstance(req, int) else False,
                  self.tags)
        w = ctx.choose(4, "FIEMAP ioctl")
        if w == 1:
            self.errors.add("unsupported")
            self.fail(ctx, 95)
        if w == 2:
            self.errors.add("unsupported")
            self.fail(ctx, 25)
        if w == 3:
            self.errors.add("failed")
            e = ctx.new_int("errno", 1)
            ctx.assume(z3.And(e != 95, e != 25))
            self.fail(ctx, SInt(e))
        h = self.header(ctx, arg)
        try:
            start, length = int_term(h[(0, 8)]), int_term(h[(8, 8)])
            flags, cap = h[(16, 4)], int_term(h[(24, 4)])
        except KeyError:
            ctx.prove("struct fiemap request fields are laid out as documented", False, self.tags)
            raise PathEnd("layout")
        cap = T.I(cap)
        start, length = T.I(start), T.I(length)
        ctx.prove("extent buffer holds the announced number of extents",
                  z3.And(cap >= 1, 32 + 56 * cap <= T.I(int_term(arg.size))), self.tags)
        ctx.prove("only documented, result-neutral FIEMAP flags",
                  flags in (0, 1) if isinstance(flags, int) else False, self.tags)
        s = ctx.solver
        i0, n = ctx.new_int("i0", 0), ctx.new_int("n", 0)
        ctx.assume(z3.And(n <= cap, i0 + n <= self.NE, i0 <= self.NE))
        end = start + length

        def eb(i):        # end byte of extent i
            return s.mul(self.ext.L(i) + 1, self.bs)

        def sb(i):
            return s.mul(self.ext.F(i), self.bs)
        # i0: first extent ending after the window start
        ctx.assume(z3.Implies(i0 > 0, eb(i0 - 1) <= start))
        ctx.assume(z3.Implies(i0 < self.NE, eb(i0) > start))
        ctx.assume(z3.Implies(n > 0, sb(i0 + n - 1) < end))
        ctx.assume(z3.Implies(z3.And(n < cap, i0 + n < self.NE), sb(i0 + n) >= end))
        ctx.write_cell(arg, "i0", SInt(i0))
        ctx.write_cell(arg, "n", SInt(n))
        ctx.write_cell(arg, "valid", True)
        self.buf = arg
        return 0

    def field(self, ctx, buf, off, size):
        """value of the little-endian field at byte offset `off`"""
        ip = ctx.interp
        i0, n = int_term(ctx.read_cell(buf, "i0")), int_term(ctx.read_cell(buf, "n"))
        off = T.norm(T.I(off))
        lin, c = T.linform(off)
        if not lin and c < 32:
            if ctx.read_cell(buf, "valid") is not True:
                h = self.header(ctx, buf)
                return h.get((c, size), 0)
            if (c, size) == (20, 4):
                return sint(n)
            h = self.header(ctx, buf)
            if (c, size) in h:
                return h[(c, size)]
            return sint(ctx.new_int("raw", 0, 2 ** (8 * size) - 1))
        c -= 32
        if any(k % 56 for k, _ in lin.values()):
            ip.unsupported("symbolic offset into the extent buffer")
        k = T.from_lin({i: (v // 56, a) for i, (v, a) in lin.items()}, c // 56)
        rem = c % 56
        # content is only defined for the extents the kernel filled in
        okk = z3.And(k >= 0, k < T.I(n))
        i = T.norm(T.I(i0) + k)
        self.ext.at(i - 1)
        if (rem, size) == (0, 8):
            v = ctx.solver.mul(self.ext.F(i), self.bs)
        elif (rem, size) == (16, 8):
            v = ctx.solver.mul(self.ext.L(i) + 1 - self.ext.F(i), self.bs)
        else:
            return sint(ctx.new_int("raw", 0, 2 ** (8 * size) - 1))
        if ctx.branch(okk):
            return sint(v)
        return sint(ctx.new_int("stale", 0, 2 ** (8 * size) - 1))

    def struct_unpack(self, ctx, fmt, data):
        ip = ctx.interp
        if not isinstance(data, (BufSlice, Buf)):
            return NotImplemented
        lay = layout(fmt)
        if lay is None:
            ip.unsupported("struct format %r" % (fmt,))
        if isinstance(data, Buf):
            data = BufSlice(ctx, data, 0, data.size)
        total = sum(s for _, s in lay)
        ln = T.norm(data.hi - data.lo)
        # slices are clipped at the end of the buffer
        fits = z3.And(ln == total, data.lo >= 0, data.hi <= T.I(int_term(data.buf.size)))
        if not ctx.branch(z3.simplify(fits)):
            ip.throw(EXT["struct.error"], "unpack requires a buffer of %d bytes" % total)
        return tuple(self.field(ctx, data.buf, data.lo + o, s) for o, s in lay)

    def struct_unpack_from(self, ctx, fmt, data, off=0):
        lay = layout(fmt)
        if lay is None or not isinstance(data, Buf):
            return NotImplemented
        total = sum(s for _, s in lay)
        return self.struct_unpack(ctx, fmt, BufSlice(ctx, data, T.I(int_term(off)),
                                                     T.norm(T.I(int_term(off)) + total)))


def interval_hints(world):
    """candidate invariants relating integer cells to the coverage of KB"""
    def h(ctx, view):
        out = []
        w = world(ctx)
        if w is None or "cov" not in ctx.G.attrs:
            return out
        KB = w.KB
        P = w.P(KB)

        def cov():
            v = ctx.G.attrs["cov"]
            return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))

        def last():
            return T.I(int_term(ctx.G.attrs["last"]))
        ints = [(k, th) for k, th in view.ints]
        out.append((("cov=>P",), lambda: z3.Implies(cov(), P)))
        out.append((("cov=>",), lambda: z3.Implies(cov(), KB <= last())))
        scaled = getattr(w, "byte_cells", False)
        s = ctx.solver
        for k, x in ints:
            out.append((("below", k), lambda x=x: z3.Implies(z3.And(P, KB < x()), cov())))
            out.append((("below=", k), lambda x=x: z3.Implies(z3.And(P, KB <= x()), cov())))
            out.append((("gap", k), lambda x=x: x() >= last() + 2))
            if scaled:
                out.append((("belowb", k), lambda x=x: z3.Implies(
                    z3.And(P, s.mul(KB, w.bs) < x()), cov())))
                out.append((("al", k), lambda x=x: s.floordiv(x(), w.bs)[1] == 0))
                out.append((("nl", k), lambda x=x: x() >= s.mul(last() + 1, w.bs)))
        return out
    return h


def ext_hints(ctx, view):
    """links between extent numbers, their bounds and KB"""
    out = []
    w = ctx.world
    if not isinstance(w, FiemapWorld) or "cov" not in ctx.G.attrs or w.buf is None:
        return out
    KB, P, E = w.KB, w.P(w.KB), w.ext

    def cov():
        v = ctx.G.attrs["cov"]
        return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))

    def i0():
        return T.I(int_term(w.buf.attrs["i0"]))
    for k, c in view.ints:
        for k2, x in view.ints:
            if k2 == k:
                continue
            out.append((("xF", k, k2), lambda c=c, x=x: z3.Implies(
                c() > 0, x() == E.Ff(i0() + c() - 1))))
            out.append((("xN", k, k2), lambda c=c, x=x: z3.Implies(
                c() > 0, x() == E.Lf(i0() + c() - 1) + 1 - E.Ff(i0() + c() - 1))))
            out.append((("xL", k, k2), lambda c=c, x=x: z3.Implies(
                c() > 0, x() >= E.Lf(i0() + c() - 1))))
        if w.direction == "mapped":
            out.append((("xi", k), lambda c=c: z3.Implies(
                z3.And(P, E.j < i0() + c()), cov())))
        else:
            pass
        out.append((("xl", k), lambda c=c: z3.Implies(
            c() > 0, T.I(int_term(ctx.G.attrs["last"])) <= E.Lf(i0() + c() - 1))))
    return out


def fiemap_setup(eng):
    helper_contracts(eng)
    eng.scales.append(lambda ctx: [])
    eng.anchors.append(lambda ctx: [("KB", ctx.world.KB), ("we", ctx.world.ws + ctx.world.wc)])
    eng.hints.append(interval_hints(lambda c: c.world))
    eng.hints.append(ext_hints)


def make_filemap(ctx, ip, w, cls, tags):
    """construct the real class; returns the object or ends the path"""
    m = ip.import_module("bmaptools.Filemap")
    img = ImageFile(ctx)
    w.image = img
    st, o = outcome(ip, lambda: ip.call(m.attrs[cls], [img], {}))
    if st == "raise":
        helpers = ip.import_module("bmaptools.BmapHelpers")
        allowed = (m.attrs["Error"], m.attrs["ErrorNotSupp"], helpers.attrs["Error"])
        if "failed" in w.errors:
            allowed += ("OSError",)
        ctx.prove("%s constructor raises only the documented errors: %s" % (cls, excname(o)),
                  isexc(ip, o, *allowed), tags)
        if isexc(ip, o, m.attrs["ErrorNotSupp"]):
            ctx.prove("%s reports lack of support only if the system lacks it: %s" % (cls, excname(o)),
                      "unsupported" in w.errors, tags)
        ctx.engine.cover(cls + " refused")
        raise PathEnd("refused")
    return m, o


def check_windows(ctx, ip, w, m, o, tags, merged):
    """consume the ranges produced for the window and check them"""
    name = "get_mapped_ranges" if w.direction == "mapped" else "get_unmapped_ranges"
    ctx.gset("cov", False)
    ctx.gset("last", sint(w.ws - 1))
    ctx.gset("any", False)

    def unmoved():
        ctx.prove("%s leaves the file position of the image alone" % name,
                  T.I(int_term(ctx.read_cell(w.image, "koff"))) == w.image.koff0, ("C10",))

    def body(v):
        items = ip.to_list(v)
        ctx.prove("%s yields pairs" % name, len(items) == 2, tags)
        a, b = T.I(int_term(items[0])), T.I(int_term(items[1]))
        last = T.I(int_term(ctx.g("last")))
        unmoved()
        ctx.prove("%s: first <= last" % name, a <= b, tags)
        ctx.prove("%s: within the window" % name, z3.And(a >= w.ws, b < w.ws + w.wc), tags)
        ctx.prove("%s: increasing and disjoint" % name, a > last, tags)
        if merged:
            anyv = ctx.g("any")
            t = anyv.t if isinstance(anyv, SBool) else z3.BoolVal(anyv)
            ctx.prove("%s: consecutive ranges are merged" % name,
                      z3.Implies(t, a > last + 1), tags)
        inn = z3.And(a <= w.KB, w.KB <= b)
        ctx.prove("%s: every block yielded is %s" % (name, w.direction),
                  z3.Implies(inn, w.P(w.KB)), tags)
        c = ctx.g("cov")
        ct = c.t if isinstance(c, SBool) else z3.BoolVal(bool(c))
        ctx.gset("cov", wrapb(z3.Or(ct, inn)))
        ctx.gset("last", sint(b))
        ctx.gset("any", True)
        ctx.engine.cover(name + " yields")

    def run():
        g = method(ip, o, name, sint(w.ws), sint(w.wc))
        ip.iterate(g, body, ctx.cur_node, None)
    w.errors.clear()
    st, e = outcome(ip, run)
    if st == "raise":
        ctx.prove("%s raises only if the system query failed, with the module's error: %s" % (name, excname(e)),
                  isexc(ip, e, m.attrs["Error"], m.attrs["ErrorNotSupp"], "OSError") and bool(w.errors), tags)
        ctx.engine.cover(name + " fails")
        return
    c = ctx.g("cov")
    ct = c.t if isinstance(c, SBool) else z3.BoolVal(bool(c))
    ctx.prove("%s: every %s block of the window is yielded" % (name, w.direction),
              z3.Implies(w.P(w.KB), ct), tags)
    unmoved()
    ctx.engine.cover(name + " completes")


def raw_ranges_contract(eng):
    """contract of _do_get_mapped_ranges: increasing non-overlapping ranges of
    the window covering exactly its mapped blocks"""
    def fn(ip, f, args, kwargs):
        ctx, w = ip.ctx, ip.ctx.world
        n = ctx.new_int("nranges", 0)
        seq = IvSeq(ctx, "raw", n, w.KB, lo=w.ws, hi=w.ws + w.wc - 1)
        seq.base()
        start, count = int_term(args[1]), int_term(args[2])
        ctx.prove("raw ranges are asked for the window", z3.And(T.I(start) == w.ws, T.I(count) == w.wc),
                  w.tags)
        ctx.assume(seq.cov == w.MAPPED(w.KB))
        w.raw = seq

        def may_fail(ctx):
            if ctx.choose(2, "raw ranges fail"):
                w.errors.add("failed")
                m = ip.import_module("bmaptools.Filemap")
                ip.throw(m.attrs["Error"], "ioctl")
        it = SeqIter(ctx, n, lambda c, i: (sint(seq.F(i)), sint(seq.L(i))), "rawranges",
                     may_fail=may_fail, seq=seq)
        w.rawit = it
        return it
    return Contract(fn)


def raw_hints(ctx, view):
    out = []
    w = ctx.world
    seq = getattr(w, "raw", None)
    if seq is None or "cov" not in ctx.G.attrs:
        return out
    KB, P = w.KB, w.P(w.KB)

    def cov():
        v = ctx.G.attrs["cov"]
        return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))

    def i():
        return T.I(int_term(w.rawit.attrs["i"]))
    for k, x in view.ints:
        out.append((("rF", k), lambda x=x: x() == seq.Ff(i() - 1)))
        out.append((("rL", k), lambda x=x: x() == seq.Lf(i() - 1)))
        out.append((("rL1", k), lambda x=x: z3.Implies(i() > 0, x() == seq.Lf(i() - 1) + 1)))
        out.append((("rlast", k), lambda x=x: T.I(int_term(ctx.G.attrs["last"])) <= seq.Lf(i() - 1)))
        for k2, y in view.ints:
            if k2 == k:
                continue
            out.append((("in", k, k2), lambda x=x, y=y: z3.Implies(
                z3.And(x() <= KB, KB <= y()), P)))
            out.append((("pend", k, k2), lambda x=x, y=y: z3.Implies(
                z3.And(P, seq.j < i(), z3.Not(cov())), z3.And(x() <= KB, KB <= y()))))
    if w.direction == "mapped":
        out.append((("pend",), lambda: z3.Implies(z3.And(P, seq.j < i()), cov())))
    return out


def fiemap_user_setup(eng):
    fiemap_setup(eng)
    eng.hints.append(raw_hints)
    eng.contracts["Filemap.FilemapFiemap._do_get_mapped_ranges"] = raw_ranges_contract(eng)


def any_hint(ctx, view):
    out = []
    if "any" not in ctx.G.attrs:
        return out

    def a():
        v = ctx.G.attrs["any"]
        return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))

    def last():
        return T.I(int_term(ctx.G.attrs["last"]))
    for k, x in view.ints:
        out.append((("anygap", k), lambda x=x: z3.Implies(a(), x() > last() + 1)))
        out.append((("anynext", k), lambda x=x: z3.Implies(a(), x() > last())))
    w = ctx.world
    if hasattr(w, "ws"):
        out.append((("nany",), lambda: z3.Implies(z3.Not(a()), last() == w.ws - 1)))
    return out


def _fiemap_user(direction):
    def fn(ctx, variant):
        tags = ("C08",)
        ip, w = make(ctx, FiemapWorld, tags, direction)
        m, o = make_filemap(ctx, ip, w, "FilemapFiemap", tags)
        check_windows(ctx, ip, w, m, o, tags, True)
    return fn


def _user_setup(eng):
    fiemap_user_setup(eng)
    eng.hints.append(any_hint)


UNITS.append(Unit("fiemap.mapped", ["C08"], _fiemap_user("mapped"), _user_setup,
                  ("get_mapped_ranges yields", "get_mapped_ranges completes", "FilemapFiemap refused")))
UNITS.append(Unit("fiemap.unmapped", ["C08"], _fiemap_user("unmapped"), _user_setup,
                  ("get_unmapped_ranges yields", "get_unmapped_ranges completes")))


@unit("fiemap.raw", ["C08"], fiemap_setup, ("raw yields", "raw completes"))
def fiemap_raw(ctx, variant):
    """_do_get_mapped_ranges against the contract its callers rely on"""
    tags = ("C08",)
    ip, w = make(ctx, FiemapWorld, tags)
    m, o = make_filemap(ctx, ip, w, "FilemapFiemap", tags)
    ctx.gset("cov", False)
    ctx.gset("last", sint(w.ws - 1))
    if not ip.hasattr(o, "_do_get_mapped_ranges"):
        raise Unsupported("the class has no _do_get_mapped_ranges")

    def body(v):
        items = ip.to_list(v)
        a, b = T.I(int_term(items[0])), T.I(int_term(items[1]))
        ctx.prove("raw ranges: first <= last", a <= b, tags)
        ctx.prove("raw ranges: within the window", z3.And(a >= w.ws, b < w.ws + w.wc), tags)
        ctx.prove("raw ranges: increasing and disjoint", a > T.I(int_term(ctx.g("last"))), tags)
        inn = z3.And(a <= w.KB, w.KB <= b)
        ctx.prove("raw ranges: only mapped blocks", z3.Implies(inn, w.P(w.KB)), tags)
        c = ctx.g("cov")
        ct = c.t if isinstance(c, SBool) else z3.BoolVal(bool(c))
        ctx.gset("cov", wrapb(z3.Or(ct, inn)))
        ctx.gset("last", sint(b))
        ctx.engine.cover("raw yields")
    w.errors.clear()
    st, e = outcome(ip, lambda: ip.iterate(
        method(ip, o, "_do_get_mapped_ranges", sint(w.ws), sint(w.wc)), body, ctx.cur_node, None))
    if st == "raise":
        ctx.prove("raw ranges raise only if the ioctl failed: %s" % excname(e),
                  isexc(ip, e, m.attrs["Error"], m.attrs["ErrorNotSupp"]) and bool(w.errors), tags)
        return
    c = ctx.g("cov")
    ct = c.t if isinstance(c, SBool) else z3.BoolVal(bool(c))
    ctx.prove("raw ranges: every mapped block is covered", z3.Implies(w.P(w.KB), ct), tags)
    ctx.engine.cover("raw completes")


@unit("fiemap.query", ["C08"], fiemap_setup, ("query mapped", "query unmapped"))
def fiemap_query(ctx, variant):
    tags = ("C08",)
    ip, w = make(ctx, FiemapWorld, tags)
    m, o = make_filemap(ctx, ip, w, "FilemapFiemap", tags)
    w.errors.clear()
    which = ctx.choose(2, "query")
    name = ("block_is_mapped", "block_is_unmapped")[which]
    st, v = outcome(ip, lambda: method(ip, o, name, sint(w.KB)))
    if st == "raise":
        ctx.prove("%s raises only if the ioctl failed: %s" % (name, excname(v)),
                  isexc(ip, v, m.attrs["Error"], m.attrs["ErrorNotSupp"]) and bool(w.errors), tags)
        return
    t = ip.truth(v)
    ctx.prove("%s agrees with the block map" % name,
              w.MAPPED(w.KB) == z3.BoolVal(t != bool(which)), tags)
    ctx.engine.cover("query mapped" if not which else "query unmapped")


# ---------------------------------------------------------------------------
# SEEK_DATA / SEEK_HOLE
class TmpFile(ImageFile):
    pass


class SeekWorld(FilemapWorld):
    byte_cells = True

    def __init__(self, ctx, tags, direction="mapped"):
        FilemapWorld.__init__(self, ctx, tags, direction)
        self.support = ("real", "stub", "einval")[ctx.choose(3, "SEEK_HOLE support")]

    def temp_TemporaryFile(self, ctx, mode="w+b", *a, **k):
        if ctx.choose(2, "tempfile"):
            self.errors.add("unsupported")
            self.fail(ctx)
        f = TmpFile(ctx, "tmp", "tmp")
        f.attrs["size"] = 0
        d = k.get("dir")
        img = ctx.world.image.dyn["name"]
        same = False
        if d is not None:
            want = EXT["os.path.dirname"].fn(ctx, [img], {})
            same = is_text(d) and text_eq(ctx, d, want)
            if not isinstance(same, bool):
                same = z3.is_true(z3.simplify(same))
        f.same = bool(same)
        if f.same:
            f.support = self.support
        else:
            f.support = ("real", "stub", "einval")[ctx.choose(3, "other file system")]
        return f

    temp_NamedTemporaryFile = temp_TemporaryFile

    def os_ftruncate(self, ctx, fd, n):
        f = file_of(ctx, fd)
        if not isinstance(f, TmpFile):
            ctx.prove("the image is not truncated", False, self.tags)
            raise PathEnd("image truncated")
        if ctx.choose(2, "ftruncate"):
            self.errors.add("unsupported")
            self.fail(ctx)
        ctx.write_cell(f, "size", n)

    def os_lseek(self, ctx, fd, off, whence):
        f = file_of(ctx, fd)
        ip = ctx.interp
        off = T.I(int_term(off))
        if whence == 1 and T.norm(off).eq(z3.IntVal(0)):
            return ctx.read_cell(f, "koff")
        if whence == 0:
            # a valid position of a regular file: cannot fail
            if ctx.branch(off < 0):
                self.fail(ctx, 22)
            ctx.write_cell(f, "koff", sint(off))
            return sint(off)
        if whence not in (3, 4):
            ip.unsupported("lseek whence %r" % (whence,))
        r = self.seek_hole(ctx, f, off, whence)
        ctx.write_cell(f, "koff", r)
        return r

    def seek_hole(self, ctx, f, off, whence):
        ip = ctx.interp
        support = f.support if isinstance(f, TmpFile) else self.support
        w = ctx.choose(2, "lseek failure")
        if w:
            self.errors.add("failed")
            e = ctx.new_int("errno", 1)
            ctx.assume(z3.And(e != 6, e != 22))
            self.fail(ctx, SInt(e))
        if support == "einval":
            self.errors.add("unsupported")
            self.fail(ctx, 22)
        if ctx.branch(off < 0):
            self.fail(ctx, 22)
        if isinstance(f, TmpFile):
            size = T.I(int_term(ctx.read_cell(f, "size")))
            if support == "stub":
                self.errors.add("unsupported")
            if ctx.branch(off >= size):
                self.fail(ctx, 6)
            if support == "stub":
                return sint(off if whence == 3 else size)
            if whence == 3:
                self.fail(ctx, 6)
            return sint(off)
        if ctx.branch(off >= self.size):
            self.fail(ctx, 6)
        if support == "stub":
            return sint(off if whence == 3 else self.size)
        s = ctx.solver
        b0 = self.block_term(s.floordiv(off, self.bs)[0])
        here = self.MAPPED(b0) if whence == 3 else z3.Not(self.MAPPED(b0))
        if ctx.branch(here):
            return sint(off)
        want = (lambda b: self.MAPPED(b)) if whence == 3 else (lambda b: z3.Not(self.MAPPED(b)))
        if ctx.choose(2, "another one follows"):
            # none up to the end of the file
            self.forall(lambda c: z3.Implies(z3.And(c >= b0, c < self.bc), z3.Not(want(c))))
            ctx.prune()
            if whence == 3:
                self.fail(ctx, 6)
            return sint(self.size)
        b = ctx.new_int("blk")
        ctx.assume(z3.And(b > b0, b < self.bc))
        self.block_term(b)
        ctx.assume(want(b))
        self.forall(lambda c: z3.Implies(z3.And(c >= b0, c < b), z3.Not(want(c))))
        return sint(s.mul(b, self.bs))


def seek_setup(eng):
    helper_contracts(eng)
    eng.scales.append(lambda ctx: [ctx.world.bs])
    eng.anchors.append(lambda ctx: [("we", ctx.world.ws + ctx.world.wc)])
    eng.hints.append(interval_hints(lambda c: c.world))


def _seek_unit(direction):
    def fn(ctx, variant):
        tags = ("C09",)
        ip, w = make(ctx, SeekWorld, tags, direction)
        m, o = make_filemap(ctx, ip, w, "FilemapSeek", tags)
        ctx.prove("a stub or missing SEEK_HOLE implementation is refused", w.support == "real", tags)
        check_windows(ctx, ip, w, m, o, tags, False)
    return fn


UNITS.append(Unit("seek.mapped", ["C09", "C10"], _seek_unit("mapped"), seek_setup,
                  ("get_mapped_ranges yields", "get_mapped_ranges completes", "FilemapSeek refused")))
UNITS.append(Unit("seek.unmapped", ["C09"], _seek_unit("unmapped"), seek_setup,
                  ("get_unmapped_ranges yields", "get_unmapped_ranges completes")))


@unit("seek.query", ["C09"], seek_setup, ("query mapped", "query unmapped"))
def seek_query(ctx, variant):
    tags = ("C09",)
    ip, w = make(ctx, SeekWorld, tags)
    m, o = make_filemap(ctx, ip, w, "FilemapSeek", tags)
    w.errors.clear()
    which = ctx.choose(2, "query")
    name = ("block_is_mapped", "block_is_unmapped")[which]
    st, v = outcome(ip, lambda: method(ip, o, name, sint(w.KB)))
    if st == "raise":
        ctx.prove("%s raises only if lseek failed: %s" % (name, excname(v)), bool(w.errors), tags)
        return
    t = ip.truth(v)
    ctx.prove("%s agrees with the block map" % name,
              w.MAPPED(w.KB) == z3.BoolVal(t != bool(which)), tags)
    ctx.engine.cover("query mapped" if not which else "query unmapped")


@unit("filemap.select", ["C09"], helper_contracts,
      ("fiemap chosen", "seek chosen", "error propagated"))
def filemap_select(ctx, variant):
    """filemap(): the seek method only if FIEMAP is reported as not supported"""
    tags = ("C09",)
    ip, w = make(ctx, SelectWorld, tags)
    m = ip.import_module("bmaptools.Filemap")
    w.image = ImageFile(ctx)
    st, v = outcome(ip, lambda: ip.call(m.attrs["filemap"], [w.image], {}))
    fie = w.fiemap
    if st == "ok":
        isf = isinstance(v, Obj) and v.cls is m.attrs["FilemapFiemap"]
        iss = isinstance(v, Obj) and v.cls is m.attrs["FilemapSeek"]
        ctx.prove("filemap() returns one of the two implementations", isf or iss, tags)
        ctx.prove("the extent-based method is used when it is supported",
                  not iss or fie == "unsupported", tags)
        ctx.prove("the extent-based method is not used when it is not supported",
                  not isf or fie == "ok", tags)
        if iss:
            ctx.prove("the seek-based method is only used where it is supported", w.support == "real", tags)
        ctx.engine.cover("fiemap chosen" if isf else "seek chosen")
    else:
        if fie in ("failed",):
            ctx.engine.cover("error propagated")
            ctx.prove("an error of the extent query is reported, not treated as lack of support",
                      isexc(ip, v, m.attrs["Error"]), tags)
        helpers = ip.import_module("bmaptools.BmapHelpers")
        ctx.prove("filemap() raises only the documented errors: %s" % excname(v),
                  isexc(ip, v, m.attrs["Error"], m.attrs["ErrorNotSupp"], helpers.attrs["Error"]) or
                  "failed" in w.errors and isexc(ip, v, "OSError"), tags)


class SelectWorld(SeekWorld):
    """both interfaces"""

    def __init__(self, ctx, tags):
        SeekWorld.__init__(self, ctx, tags)
        self.fiemap = None
        self.NE = None

    array_array = FiemapWorld.array_array
    struct_pack_into = FiemapWorld.struct_pack_into
    struct_unpack = FiemapWorld.struct_unpack

    def field(self, ctx, buf, off, size):
        return sint(ctx.new_int("raw", 0, 2 ** (8 * size) - 1))

    def ioctl(self, ctx, f, req, arg=0, mutate=True):
        w = ctx.choose(4, "FIEMAP ioctl")
        if w == 0:
            self.fiemap = self.fiemap or "ok"
            ctx.write_cell(arg, "valid", True)
            return 0
        if w in (1, 2):
            self.fiemap = "unsupported"
            self.fail(ctx, (95, 25)[w - 1])
        self.fiemap = "failed"
        e = ctx.new_int("errno", 1)
        ctx.assume(z3.And(e != 95, e != 25))
        self.fail(ctx, SInt(e))
