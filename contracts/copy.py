"""C01 C02 C03 C06 C07 C19: copying an image (BmapCopy.copy, _get_data,
_get_block_ranges, _get_batches, sync, _update_progress).

The reader thread and the writer are verified separately against a contract of
the stream between them: every item the reader puts satisfies the item facts,
the end marker satisfies the end facts (each fact is proved at every put), the
queue is FIFO and lossless (assumed), so the writer may rely on them.

K is an arbitrary byte of the image (block KB, offset KR), R an arbitrary range
index: what is proved about them holds for every byte and every range."""
import os
from xml.etree import ElementTree

from .common import *

MIB = 1024 * 1024


class Stat(Model):
    typename = "stat_result"
    closed = True
    real = (os.stat_result,)


class Image(Model):
    """file-like image: read() returns all bytes asked for unless the end is reached"""
    typename = "file"
    is_file = True

    def __init__(self, ctx):
        Model.__init__(self, ctx, "image")
        self.dyn["name"] = mkstr([Hole(z3.Const("imgpath", T.Txt), "nonempty")])
        self.attrs["pos"] = 0

    def m_seek(self, ctx, off, whence=0):
        w = ctx.world
        w.reader_touch(ctx, "seek")
        if whence != 0:
            ctx.interp.unsupported("image seek with whence")
        w.env(ctx, "image seek", reader=True)
        p = T.I(int_term(off))
        if w.layout != "arb":
            ctx.prove("the image is only ever positioned forward", p >= T.I(int_term(ctx.read_cell(self, "pos"))),
                      ("C01", "C02", "C06"))
        ctx.write_cell(self, "pos", sint(p))
        return off

    def m_tell(self, ctx):
        return ctx.read_cell(self, "pos")

    def m_read(self, ctx, n=-1):
        w = ctx.world
        w.reader_touch(ctx, "read")
        w.env(ctx, "image read", reader=True, generic=True)
        if n is None or isinstance(n, int) and n < 0:
            ctx.interp.unsupported("image read of everything")
        n = T.I(int_term(n))
        ctx.prove("a read asks for at least one byte", n >= 1, ("C01", "C02", "C06"))
        pos = T.I(int_term(ctx.read_cell(self, "pos")))
        if not ctx.branch(pos < w.IMG):
            return b""
        got = T.fresh_int("got")
        ctx.assume(z3.And(got <= n, got <= w.IMG - pos, z3.Or(got == n, got == w.IMG - pos)))
        ctx.assume(got >= 1)
        ctx.write_cell(self, "pos", sint(pos + got))
        return SBytes("img", pos, got)


class Dest(Model):
    """destination: a user-level buffer in front of the kernel's file"""
    typename = "file"
    is_file = True

    def __init__(self, ctx, kind):
        Model.__init__(self, ctx, "dest")
        self.kind = kind
        self.dyn["name"] = mkstr([Hole(z3.Const("destpath", T.Txt), "nonempty")])
        self.attrs.update(pos=0, size=SInt(ctx.new_int("oldsize", 0)), pend=0, udirty=False, kdirty=False,
                          written=False, since=0, truncated=False)

    def _i(self, ctx, n):
        return T.I(int_term(ctx.read_cell(self, n)))

    def m_fileno(self, ctx):
        return ctx.world.fd(ctx, self)

    def m_seek(self, ctx, off, whence=0):
        ctx.world.writer_touch(ctx)
        if whence != 0:
            ctx.interp.unsupported("destination seek with whence")
        ctx.world.env(ctx, "destination seek")
        ctx.write_cell(self, "pos", sint(T.I(int_term(off))))
        return off

    def m_tell(self, ctx):
        return ctx.read_cell(self, "pos")

    def m_write(self, ctx, buf):
        w = ctx.world
        w.writer_touch(ctx)
        pos = self._i(ctx, "pos")
        if buf == b"" and isinstance(buf, bytes):
            return 0
        if not isinstance(buf, SBytes):
            ctx.prove("only image data is written to the destination", False, ("C01", "C02"))
            raise PathEnd("foreign data")
        off, n = T.I(buf.off), T.I(buf.len)
        ctx.prove("data goes to the offset it came from", z3.And(buf.src == "img", pos == off), ("C01", "C02"))
        inb = z3.And(w.K >= off, w.K < off + n)
        if w.fmt.startswith("bmap"):
            ctx.prove("only bytes of mapped blocks are written", z3.Implies(inb, w.mapped), ("C01",))
        if w.dest_kind == "blk":
            # blocks written since the last synchronisation, this batch included
            since = self._i(ctx, "since")
            nblk = w.ceil(n)
            ctx.prove("at most the watermark and one batch are written between synchronisations",
                      ctx.solver.mul(since + nblk, w.bs) <= 6 * MIB + z3.If(w.bs > MIB, w.bs, z3.IntVal(MIB)), ("C07",))
            ctx.write_cell(self, "since", sint(since + nblk))
        w.env(ctx, "destination write")
        ctx.engine.cover("writes")
        ctx.write_cell(self, "written", wrapb(z3.Or(w.btrue(ctx.read_cell(self, "written")), inb)))
        pend = self._i(ctx, "pend")
        ctx.write_cell(self, "pend", sint(z3.If(pend > off + n, pend, off + n)))
        ctx.write_cell(self, "udirty", True)
        ctx.write_cell(self, "kdirty", True)
        ctx.write_cell(self, "pos", sint(pos + n))
        return sint(n)

    def m_flush(self, ctx):
        ctx.world.writer_touch(ctx)
        ctx.world.env(ctx, "destination flush")
        pend, size = self._i(ctx, "pend"), self._i(ctx, "size")
        ctx.write_cell(self, "size", sint(z3.If(pend > size, pend, size)))
        ctx.write_cell(self, "pend", 0)
        u, k = ctx.world.btrue(ctx.read_cell(self, "udirty")), ctx.world.btrue(ctx.read_cell(self, "kdirty"))
        ctx.write_cell(self, "kdirty", wrapb(z3.Or(u, k)))
        ctx.write_cell(self, "udirty", False)

    def truncate(self, ctx, n):
        w = ctx.world
        w.writer_touch(ctx)
        if n is None:
            ctx.interp.throw("TypeError", "an integer is required")
        n = T.I(int_term(n))
        w.env(ctx, "destination resize")
        ctx.prove("only regular files are resized", self.kind == "reg", ("C01", "C02"))
        ctx.prove("the destination is only resized to the image size", w.is_image_size(ctx, n), ("C01", "C02"))
        ctx.write_cell(self, "size", sint(n))
        ctx.write_cell(self, "truncated", True)
        ctx.write_cell(self, "kdirty", True)
        ctx.write_cell(self, "written", wrapb(z3.And(w.btrue(ctx.read_cell(self, "written")), w.K < n)))

    def m_truncate(self, ctx, n=None):
        self.m_flush(ctx)
        self.truncate(ctx, n)
        return n

    def fsync(self, ctx):
        w = ctx.world
        w.writer_touch(ctx)
        if self.kind == "null":
            # the null device refuses fsync
            w.fail_kind = "sync"
            ctx.gset("cfail", True)
            w.fail(ctx, 22)
        w.env(ctx, "destination synchronisation")
        ctx.write_cell(self, "kdirty", False)
        ctx.write_cell(self, "since", 0)


class Text(Model):
    """XML element"""
    typename = "Element"
    closed = True
    real = (ElementTree.Element,)

    def __init__(self, ctx, text=None, attrib=None, kids=None, tag=None):
        Model.__init__(self, ctx, "elem")
        self.dyn["text"] = text
        self.dyn["attrib"] = attrib
        self.dyn["tag"] = tag
        self.kids = kids

    def m_findall(self, ctx, name):
        if self.kids is None or name != "Range":
            return IList(ctx, [])
        return self.kids(ctx)

    m_iter = m_findall
    m_iterfind = m_findall

    def m_get(self, ctx, k, d=None):
        a = self.dyn["attrib"]
        if a is None:
            return d
        return a.m_get(ctx, k, d)

    def iterate(self, ctx, body, node, fr):
        if self.kids is None:
            ctx.interp.unsupported("children of element")
        return self.kids(ctx).iterate(ctx, body, node, fr)


class Attribs(Model):
    typename = "dict"

    def __init__(self, ctx, table):
        Model.__init__(self, ctx, "attrib")
        self.table = table             # name -> (present Bool, value)

    def has(self, ctx, k):
        if not isinstance(k, str) or k not in self.table:
            return False
        return ctx.branch(self.table[k][0])

    def contains(self, ctx, x):
        if not isinstance(x, str) or x not in self.table:
            return False
        return wrapb(self.table[x][0])

    def getitem(self, ctx, k):
        if self.has(ctx, k):
            return self.table[k][1]
        ctx.interp.throw("KeyError", k)

    def m_get(self, ctx, k, d=None):
        return self.table[k][1] if self.has(ctx, k) else d


class Tree(Model):
    typename = "ElementTree"
    closed = True
    real = (ElementTree.ElementTree,)

    def __init__(self, ctx, elems, version):
        Model.__init__(self, ctx, "tree")
        self.elems = elems
        self.ver = version

    def m_getroot(self, ctx):
        e = Text(ctx, None, Attribs(ctx, {"version": (z3.BoolVal(True), self.ver)}), tag="bmap")
        e.m_find = self.m_find
        return e

    def m_find(self, ctx, name):
        f = self.elems.get(name)
        if f is None:
            return None
        if callable(f):
            f = self.elems[name] = f(ctx)
        return f

    def m_findtext(self, ctx, name, default=None):
        e = self.m_find(ctx, name)
        return default if e is None else e.dyn["text"]


class Hash(Model):
    typename = "hash"

    def __init__(self, ctx, alg):
        Model.__init__(self, ctx, "hash")
        self.alg = alg
        self.attrs.update(started=False, bad=False, off=0, len=0)

    def m_update(self, ctx, buf):
        w = ctx.world
        if isinstance(buf, bytes) and buf == b"":
            return None
        h = getattr(w, "hash_update", None)
        if h is not None and not isinstance(buf, SBytes):
            return h(ctx, self, buf)
        if not isinstance(buf, SBytes) or buf.src != "img":
            ctx.interp.unsupported("hash of %r" % (buf,))
        st = w.btrue(ctx.read_cell(self, "started"))
        off, ln = T.I(int_term(ctx.read_cell(self, "off"))), T.I(int_term(ctx.read_cell(self, "len")))
        bad = w.btrue(ctx.read_cell(self, "bad"))
        if ctx.branch(st):
            ctx.write_cell(self, "bad", wrapb(z3.Or(bad, T.I(buf.off) != off + ln)))
            ctx.write_cell(self, "len", sint(ln + T.I(buf.len)))
        else:
            ctx.write_cell(self, "off", sint(T.I(buf.off)))
            ctx.write_cell(self, "len", sint(T.I(buf.len)))
            ctx.write_cell(self, "started", True)

    def m_hexdigest(self, ctx):
        w = ctx.world
        h = getattr(w, "hash_digest", None)
        if h is not None:
            r = h(ctx, self)
            if r is not NotImplemented:
                return r
        if ctx.branch(w.btrue(ctx.read_cell(self, "bad"))):
            return mkstr([Hole(T.fresh_txt("digest"), "hex")])
        off, ln = T.I(int_term(ctx.read_cell(self, "off"))), T.I(int_term(ctx.read_cell(self, "len")))
        return mkstr([Hole(DIG(self.alg, off, ln), "hex")])

    def m_copy(self, ctx):
        h = Hash(ctx, self.alg)
        for a in ("started", "bad", "off", "len"):
            h.attrs[a] = ctx.read_cell(self, a)
        return h


DIG = z3.Function("DIGEST", T.Txt, z3.IntSort(), z3.IntSort(), T.Txt)
CHK = z3.Function("recorded_checksum", z3.IntSort(), T.Txt)
HAS = z3.Function("has_checksum", z3.IntSort(), z3.BoolSort())
SINGLE = z3.Function("single_block_form", z3.IntSort(), z3.BoolSort())
PSUM = z3.Function("blocks_before", z3.IntSort(), z3.IntSort())


class Queue(Model):
    typename = "Queue"

    def m_put(self, ctx, item, block=True, timeout=None):
        if block is not True or timeout is not None:
            if ctx.choose(2, "queue full"):
                ctx.interp.throw(EXT["queue.Full"])
        ctx.world.put(ctx, item)

    def m_put_nowait(self, ctx, item):
        return self.m_put(ctx, item, False)

    def m_get(self, ctx, block=True, timeout=None):
        if block is not True or timeout is not None:
            if ctx.choose(2, "queue empty"):
                ctx.interp.throw(EXT["queue.Empty"])
        return ctx.world.get(ctx)

    def m_get_nowait(self, ctx):
        return self.m_get(ctx, False)

    def m_task_done(self, ctx):
        return None

    def m_qsize(self, ctx):
        return SInt(ctx.new_int("qsize", 0))

    def m_empty(self, ctx):
        return free_bool(ctx, "qempty")

    m_full = m_empty


class Thread(Model):
    typename = "Thread"

    def m_start(self, ctx):
        ctx.world.start(ctx, self.target, self.args)

    def m_join(self, ctx, timeout=None):
        ctx.prove("the writer waits for the reader only after the end of its stream",
                  ctx.world.btrue(ctx.g("gend")), ("C06",))

    def m_is_alive(self, ctx):
        return free_bool(ctx, "alive")

    def get_attribute(self, ctx, name):
        if name in ("daemon", "name"):
            return True
        return NotImplemented


class CopyWorld(World):
    """layout: 'sane' ranges increasing and disjoint, 'arb' arbitrary"""

    def __init__(self, ctx, fmt, dest_kind="reg", progress=False, layout="sane"):
        World.__init__(self, ctx)
        self.fmt, self.dest_kind, self.progress, self.layout = fmt, dest_kind, progress, layout
        self.quiet = True
        self.fail_kind = None
        self.role = None
        s = ctx.solver
        I = lambda n: T.keep(z3.Int(n))         # noqa
        self.bs = z3.IntVal(4096) if fmt == "nobmap" else I("bs")
        if fmt != "nobmap":
            T.set_positive(self.bs)
        self.IMG = I("imglen")
        self.KB, self.KR = I("KB"), I("KR")
        ctx.assume(z3.And(self.bs >= 1, self.IMG >= 0, self.KB >= 0, self.KR >= 0, self.KR < self.bs))
        s.register(self.KB, self.bs)
        self.K = T.keep(T.norm(s.mul(self.KB, self.bs) + self.KR))
        self.consistent = T.keep(z3.Bool("consistent"))
        self.alg = z3.Const("checksum_type", T.Txt)
        self.size = I("image_size")
        self.bc = I("blocks_cnt")
        self.mc = I("mapped_cnt")
        self.NR = I("ranges")
        self.R = I("R")
        self.mapped = None
        self.nobad = z3.BoolVal(True) if layout == "sane" else T.keep(z3.Bool("no_bad_range"))
        ctx.assume(z3.Implies(self.consistent, self.nobad))
        ctx.assume(self.size >= 0)
        q, _ = s.floordiv(self.size + self.bs - 1, self.bs)
        self.q_bc = T.keep(T.norm(q))
        if fmt == "nobmap":
            self.iv = None
            ctx.assume(self.bc == q)
            s.register(self.bc, self.bs)
            ctx.assume(z3.Implies(self.consistent, self.IMG == self.size))
            self.total = self.bc
            qi, _ = s.floordiv(self.IMG + self.bs - 1, self.bs)
            self.ibc = I("image_blocks")
            ctx.assume(self.ibc == qi)
            s.register(self.ibc, self.bs)
        else:
            ctx.assume(z3.And(self.mc >= 0, self.NR >= 0))
            if progress:
                s.register(z3.IntVal(100), self.mc)
            s.register(self.bc, self.bs)
            ctx.assume(self.bc == q)
            self.iv = RangeSeq(ctx, self)
            ctx.assume(z3.And(self.R >= 0, self.R < self.NR))
            self.total = PSUM(self.NR)
            ctx.assume(PSUM(z3.IntVal(0)) == 0)
            self.agree = T.keep(self.mc == self.total)
            ctx.assume(z3.Implies(self.consistent, z3.And(self.agree, self.IMG == self.size)))
            self.iv.at(self.R)
            self.mapped = self.iv.cov if layout == "sane" else T.keep(z3.Bool("K_mapped"))
        self.image = Image(ctx)
        self.dest = Dest(ctx, dest_kind)
        for n in ("pfail", "errput", "closed", "sentK", "gerr", "gend", "gK", "cfail"):
            ctx.G.attrs[n] = False
        for n in ("nb", "nby", "gnb", "gnby", "lastpct"):
            ctx.G.attrs[n] = 0

    # -- helpers --
    def btrue(self, v):
        return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))

    def gi(self, n):
        return T.I(int_term(self.ctx.g(n)))

    def gb(self, n):
        return self.btrue(self.ctx.g(n))

    def ceil(self, n):
        q, _ = self.ctx.solver.floordiv(n + self.bs - 1, self.bs)
        return T.norm(q)

    def region(self, i):
        """byte offset and length of range i in the image"""
        m = self.ctx.solver.mul
        lo = m(self.iv.F(i), self.bs)
        hi = m(self.iv.L(i) + 1, self.bs)
        return lo, z3.If(hi <= self.IMG, hi, self.IMG) - lo

    def good(self, i):
        lo, n = self.region(i)
        return z3.Implies(HAS(i), CHK(i) == DIG(self.alg, T.norm(lo), n))

    def is_image_size(self, ctx, n):
        if self.fmt == "nobmap" and not self.known:
            return n == self.gi("gnby")
        return n == self.size

    def fd(self, ctx, f):
        k = ("fd", f.label)
        if k not in ctx.memo:
            ctx.memo[k] = Fd(ctx, f)
        return ctx.memo[k]

    def env(self, ctx, what, reader=False, generic=False):
        """the environment may fail here"""
        if self.quiet:
            return
        k = ctx.choose(3 if generic else 2, what)
        if not k:
            return
        ctx.gset("pfail" if reader else "cfail", True)
        self.fail_kind = what
        if k == 2:
            e = ctx.interp.make_exc("Exception", "foreign")
            e.attrs["__env__"] = True
            self.fail_kind = what + " (foreign)"
            raise IRaise(e)
        self.fail(ctx)

    def reader_touch(self, ctx, what):
        if self.role == "writer":
            ctx.prove("the writer does not use the image while the reader does", False, ("C06",))
        if self.layout == "arb" and not self.quiet and self.role == "reader":
            i = self.cur_range(ctx)
            if i is not None:
                ctx.prove("a range whose first block exceeds its last is rejected before it is acted upon",
                          self.iv.F(i) <= self.iv.L(i), ("C05", "C06"))

    def cur_range(self, ctx):
        its = [x for x in ctx.memo.get("seqiters", ()) if getattr(x, "is_ranges", False)]
        if not its:
            return None
        return T.norm(T.I(int_term(its[-1].attrs["i"])) - 1)

    def writer_touch(self, ctx):
        if self.role == "reader":
            ctx.prove("only the writer touches the destination", False, ("C06", "C01"))

    # -- operating system --
    def os_stat(self, ctx, path, **k):
        st = Stat(ctx, "stat")
        st.attrs["st_mode"] = ModeVal(ctx, "fifo")
        return st

    def os_fstat(self, ctx, fd):
        f = file_of(ctx, fd)
        st = Stat(ctx, "stat")
        kind = f.kind if isinstance(f, Dest) else "reg"
        st.attrs["st_mode"] = ModeVal(ctx, {"null": "chr"}.get(kind, kind))
        st.attrs["st_size"] = ctx.read_cell(f, "size") if isinstance(f, Dest) else sint(self.IMG)
        if kind == "null":
            import os as _o
            st.attrs["st_rdev"] = _o.makedev(1, 3)
        else:
            st.attrs["st_rdev"] = Opaque("rdev")
        return st

    def os_ftruncate(self, ctx, fd, n):
        file_of(ctx, fd).truncate(ctx, n)

    os_truncate = None

    def os_fsync(self, ctx, fd):
        file_of(ctx, fd).fsync(ctx)

    os_fdatasync = None

    def os_lseek(self, ctx, fd, off, whence):
        return SInt(ctx.new_int("bdev", 0))

    def path_exists(self, ctx, p):
        return True if self.quiet else bool(ctx.choose(2, "exists"))

    def os_open(self, ctx, path, flags=0, *a):
        # only the splash pipe is opened here
        if ctx.choose(2, "pipe open"):
            self.fail(ctx)
        return Fd(ctx, Pipe(ctx))

    def os_fdopen(self, ctx, fd, mode="r", *a, **k):
        return file_of(ctx, fd)

    def open(self, ctx, path, mode="r", *a, **k):
        if ctx.choose(2, "pipe open"):
            self.fail(ctx)
        return Pipe(ctx)

    # -- bmap --
    def et_parse(self, ctx, f):
        ws = lambda n: Hole(T.fresh_txt("ws"), "ws")         # noqa

        def num(t):
            return lambda c: Text(c, mkstr([ws(0), IntHole(t), ws(1)]))

        def word(t, kind="word"):
            return lambda c: Text(c, mkstr([ws(0), Hole(t, kind), ws(1)]))
        e = {"BlockSize": num(self.bs), "BlocksCount": num(self.bc), "MappedBlocksCount": num(self.mc),
             "ImageSize": num(self.size), "BlockMap": lambda c: Text(c, "\n", None, self.kids)}
        v = self.fmt[4:]
        if v in ("1.4", "2.0"):
            e["ChecksumType"] = word(self.alg)
            e["BmapFileChecksum"] = word(z3.Const("filechk", T.Txt), "hex")
        elif v == "1.3":
            e["BmapFileSHA1"] = word(z3.Const("filechk", T.Txt), "hex")
        return Tree(ctx, e, v)

    def kids(self, ctx):
        it = SeqIter(ctx, self.NR, self.element, "Range", seq=self.iv)
        it.is_ranges = True
        return it

    def element(self, ctx, i):
        iv = self.iv
        f, l = iv.F(i), iv.L(i)
        v = self.fmt[4:]
        ws = lambda: Hole(T.fresh_txt("ws"), "ws")        # noqa
        if ctx.branch(SINGLE(i)):
            text = mkstr([ws(), IntHole(f), ws()])
        else:
            text = mkstr([ws(), IntHole(f), ws(), "-", ws(), IntHole(l), ws()])
        tab = {}
        if v in ("2.0", "1.4"):
            tab["chksum"] = (HAS(i), mkstr([Hole(CHK(i), "nonempty")]))
        elif v == "1.3":
            tab["sha1"] = (HAS(i), mkstr([Hole(CHK(i), "nonempty")]))
        return Text(ctx, text, Attribs(ctx, tab), tag="Range")

    def hashlib_new(self, ctx, name, *a):
        t = txt_term(ctx, name)
        if self.role == "reader" or not self.quiet:
            ctx.prove("range checksums use the algorithm the map names", t == self.alg, ("C03",))
        h = Hash(ctx, self.alg)
        if a:
            h.m_update(ctx, a[0])
        return h

    def hashlib_sha1(self, ctx, *a):
        return self.hashlib_new(ctx, "sha1", *a)

    def hashlib_sha256(self, ctx, *a):
        return self.hashlib_new(ctx, "sha256", *a)

    # -- the stream between reader and writer --
    def queue_Queue(self, ctx, n=0):
        return Queue(ctx)

    def start_new_thread(self, ctx, fn, args=(), kwargs=None):
        self.start(ctx, fn, args)
        return SInt(ctx.new_int("tid"))

    def threading_Thread(self, ctx, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        t = Thread(ctx)
        t.target, t.args = target, args
        return t

    def start(self, ctx, fn, args):
        if self.role is not None:
            ctx.interp.unsupported("a second thread")
        self.fork_at = tuple(ctx.trace)
        self.fork_seq = ctx.next_seq()
        k = ctx.choose(2, "thread")
        if k == 1:
            self.role = "writer"
            if os.environ.get("COPY_ROLE") == "reader":
                raise PathEnd("reader only")
            self.summarise(ctx)
            self.wmark = len(ctx.wlog)
            return
        self.role = "reader"
        ip = ctx.interp
        mark = len(ctx.wlog)
        a = ctx.read_cell(args, "items") if isinstance(args, IList) else args
        ctx.rlog = set()
        kind, v = outcome(ip, lambda: ip.call(fn, list(a), {}))
        ctx.prove("the reader ends its stream on every path" + (": " + excname(v) if kind == "raise" else ""),
                  z3.And(self.gb("closed"), kind == "ok"), ("C06",))
        ctx.prove("every failure of the reader is handed to the writer",
                  z3.Implies(self.gb("pfail"), self.gb("errput")), ("C06",))
        ctx.engine.cover("reader ends")
        if len(ctx.trace) >= len(ctx.prefix):
            wr = {(o.label, n) for o, n in ctx.wlog[mark:] if o.seq < self.fork_seq and o is not ctx.G}
            rd = {(lab, n) for lab, seq, n in ctx.rlog if seq < self.fork_seq and lab != ctx.G.label}
            ctx.engine.path_results.append((tuple(ctx.trace), ("cells", wr, rd)))
        raise PathEnd("reader done")

    def env_terms(self):
        return dict(nb=self.gi("nb"), nby=self.gi("nby"), K=self.gb("sentK"), err=self.gb("errput"))

    def put(self, ctx, item):
        if self.role != "reader":
            ctx.interp.unsupported("put outside the reader")
        ctx.prove("nothing follows the end of the reader's stream", z3.Not(self.gb("closed")), ("C06",))
        rec = len(ctx.trace) >= len(ctx.prefix)
        if item is None:
            facts = self.end_facts(self.env_terms())
            if rec:
                self.record(ctx, ("end",), facts)
            ctx.gset("closed", True)
            return
        if not isinstance(item, tuple):
            ctx.interp.unsupported("queue item %r" % (item,))
        flat = self.flatten(ctx, item)
        bufs = [x for _, x in flat if isinstance(x, SBytes)]
        if not bufs:
            exc = [x for _, x in flat if isinstance(x, Obj) and x.cls.issub(ctx.interp.builtins["BaseException"])]
            if not exc:
                ctx.interp.unsupported("queue item %r" % (item,))
            exc = exc[0]
            ctx.prove("a consistent image and map never make the reader fail: %s" % excname(exc),
                      z3.Implies(self.consistent, self.gb("pfail")), ("C01", "C02", "C03"))
            er = ctx.interp.import_module("bmaptools.BmapCopy").attrs["Error"]
            if self.fail_kind == "image read":
                ctx.prove("a read error surfaces as the module's error", exc.cls.issub(er), ("C06",))
            if self.layout == "arb":
                i = self.cur_range(ctx)
                if i is not None:
                    ctx.prove("a bad range surfaces as the module's error: %s" % excname(exc),
                              z3.Implies(self.iv.F(i) > self.iv.L(i), exc.cls.issub(er)), ("C05",))
            ctx.gset("errput", True)
            ctx.engine.cover("reader fails")
            if rec:
                self.record(ctx, ("err", self.shape(ctx, item), self.clsname(exc.cls)), {})
            return
        buf = bufs[0]
        off, n = T.I(buf.off), T.I(buf.len)
        before = self.env_terms()
        nblk = self.ceil(n)
        ctx.gset("nb", sint(before["nb"] + nblk))
        ctx.gset("nby", sint(before["nby"] + n))
        inb = z3.And(self.K >= off, self.K < off + n)
        ctx.gset("sentK", wrapb(z3.Or(before["K"], inb)))
        ctx.engine.cover("reader delivers")
        if rec:
            self.record(ctx, ("item", self.shape(ctx, item)), self.item_facts(flat, buf, self.env_terms()))

    def clsname(self, cls):
        mod = getattr(cls, "module", None)
        return (getattr(mod, "name", None), cls.name)

    def flatten(self, ctx, item, path=()):
        out = []
        for i, x in enumerate(item):
            if isinstance(x, tuple):
                out += self.flatten(ctx, x, path + (i,))
            else:
                out.append((path + (i,), x))
        return out

    def shape(self, ctx, item):
        out = []
        for x in item:
            if isinstance(x, tuple):
                out.append(("t", self.shape(ctx, x)))
            elif isinstance(x, (str, bytes, bool)) or x is None:
                out.append(("c", x))
            elif isinstance(x, (int, SInt)):
                out.append(("i",))
            elif isinstance(x, SBytes):
                out.append(("b",))
            elif isinstance(x, Obj) and x.cls.issub(ctx.interp.builtins["BaseException"]):
                out.append(("e",))
            elif isinstance(x, ClassVal):
                out.append(("k",))
            elif isinstance(x, Opaque):
                out.append(("o",))
            else:
                ctx.interp.unsupported("component %r of a queue item" % (x,))
        return tuple(out)

    def record(self, ctx, shape, facts):
        good = {k for k, _ in ctx.filter_valid([(k, z3.simplify(f)) for k, f in facts.items()])}
        ok = {k: k in good for k in facts}
        ctx.engine.path_results.append((tuple(ctx.trace), ("put", shape, ok, self.path_note(ctx))))

    def path_note(self, ctx):
        return ctx.where()

    def item_facts(self, flat, buf, after):
        bs, mul = self.bs, self.ctx.solver.mul
        off, n = T.I(buf.off), T.I(buf.len)
        f = {"len>0": n > 0,
             "batch size": n <= z3.If(bs > MIB, bs, z3.IntVal(MIB)),
             "count": z3.Implies(self.consistent, after["nb"] <= self.total)}
        if self.mapped is not None:
            f["mapped"] = z3.Implies(z3.And(self.K >= off, self.K < off + n), self.mapped)
        for p, x in flat:
            if isinstance(x, (int, SInt)) and not isinstance(x, bool):
                t = T.I(int_term(x))
                f[("start", p)] = mul(t, bs) == off
                f[("end", p)] = z3.And(mul(t, bs) < off + n, off + n <= mul(t + 1, bs))
                f[("cnt", p)] = z3.And(mul(t - 1, bs) < n, n <= mul(t, bs))
                f[("offset", p)] = t == off
                f[("length", p)] = t == n
        return f

    def end_facts(self, e):
        bs, mul = self.bs, self.ctx.solver.mul
        ok = z3.Not(e["err"])
        f = {}
        if self.iv is not None:
            if self.layout == "sane":
                f["all mapped data delivered"] = z3.Implies(z3.And(ok, self.iv.cov, self.K < self.IMG), e["K"])
            if self.verify:
                f["checksums"] = z3.Implies(z3.And(ok, self.nobad, e["nb"] == self.total), self.good(self.R))
        else:
            if self.known:
                f["all data delivered"] = z3.Implies(z3.And(ok, self.K < self.IMG, self.KB < self.bc), e["K"])
                f["counts"] = z3.Implies(ok, e["nb"] == z3.If(self.ibc < self.bc, self.ibc, self.bc))
            else:
                f["all data delivered"] = z3.Implies(z3.And(ok, self.K < self.IMG), e["K"])
                f["bytes"] = z3.Implies(ok, e["nby"] == self.IMG)
                f["blocks"] = z3.Implies(ok, e["nb"] == self.ibc)
        f["consistent count"] = z3.Implies(z3.And(ok, self.consistent), e["nb"] == self.total)
        return f

    def summarise(self, ctx):
        """item shapes and the facts every put of that shape establishes"""
        P = self.fork_at
        items, cells = {}, [set(), set()]
        for tr, d in ctx.engine.path_results:
            if tr[:len(P)] != P or len(tr) <= len(P) or tr[len(P)] != 0:
                continue
            if d[0] == "cells":
                cells[0] |= d[1]
                cells[1] |= d[2]
                continue
            _, shape, ok, _ = d
            if shape not in items:
                items[shape] = dict(ok)
            else:
                for k in list(items[shape]):
                    if not ok.get(k):
                        items[shape][k] = False
        self.items = sorted(items.items(), key=lambda x: repr(x[0]))
        if ctx.engine.debug:
            for it in self.items:
                print("STREAM", it)
        self.reader_cells = cells
        if not any(s[0] == "end" for s, _ in self.items):
            # the reader never ends its stream: the missing obligation was reported there
            raise PathEnd("no end marker")
        if ctx.rlog is None:
            ctx.rlog = set()

    def race_check(self, ctx):
        """cells shared by the two threads are written by neither of them"""
        upto = self.sentinel_mark if self.sentinel_mark is not None else len(ctx.wlog)
        wr = {(o.label, n) for o, n in ctx.wlog[self.wmark:upto] if o.seq < self.fork_seq and o is not ctx.G}
        rd = self.rd_until or {(lab, n) for lab, seq, n in ctx.rlog if seq < self.fork_seq}
        own = {self.image.label, self.dest.label}
        pw, pr = self.reader_cells
        bad = sorted("%s.%s" % c for c in ((wr & (pw | pr)) | (rd & pw)) if c[0] not in own)
        ctx.prove("reader and writer share no mutable state but the queue%s" % (": " + ", ".join(bad) if bad else ""),
                  not bad, ("C06", "C01"))

    sentinel_mark = None
    rd_until = None

    def get(self, ctx):
        if self.role != "writer":
            ctx.interp.unsupported("get outside the writer")
        ctx.prove("the writer does not wait for data after the end of the stream", z3.Not(self.gb("gend")), ("C06",))
        k = ctx.choose(len(self.items), "item")
        shape, facts = self.items[k]
        if shape[0] == "end":
            ctx.gset("gend", True)
            self.sentinel_mark = len(ctx.wlog)
            self.rd_until = {(lab, n) for lab, seq, n in ctx.rlog if seq < self.fork_seq}
            ff = self.end_facts(dict(nb=self.gi("gnb"), nby=self.gi("gnby"), K=self.gb("gK"), err=self.gb("gerr")))
            for kk, f in ff.items():
                if facts.get(kk):
                    ctx.assume(f)
            ctx.prune()
            ctx.engine.cover("writer sees the end")
            return None
        if shape[0] == "err":
            ctx.gset("gerr", True)
            self.reader_error = shape[2]
            ctx.engine.cover("writer sees an error")
            return self.unshape(ctx, shape[1], shape[2])
        item = self.unshape(ctx, shape[1], None)
        flat = self.flatten(ctx, item)
        buf = [x for _, x in flat if isinstance(x, SBytes)][0]
        n = T.I(buf.len)
        ctx.assume(z3.And(T.I(buf.off) >= 0, n >= 1))
        nb0, nby0 = self.gi("gnb"), self.gi("gnby")
        ctx.gset("gnb", sint(nb0 + self.ceil(n)))
        ctx.gset("gnby", sint(nby0 + n))
        off = T.I(buf.off)
        ctx.gset("gK", wrapb(z3.Or(self.gb("gK"), z3.And(self.K >= off, self.K < off + n))))
        for kk, f in self.item_facts(flat, buf, dict(nb=self.gi("gnb"))).items():
            if facts.get(kk):
                ctx.assume(f)
        return item

    def unshape(self, ctx, shape, cls):
        out = []
        exc = None
        if cls is not None:
            exc = self.make_reader_exc(ctx, cls)
        for c in shape:
            if c[0] == "t":
                out.append(self.unshape(ctx, c[1], cls))
            elif c[0] == "c":
                out.append(c[1])
            elif c[0] == "i":
                out.append(SInt(ctx.new_int("item")))
            elif c[0] == "b":
                out.append(SBytes("img", ctx.new_int("item.off", 0), ctx.new_int("item.len", 0)))
            elif c[0] == "e":
                out.append(exc)
            elif c[0] == "k":
                out.append(exc.cls)
            else:
                out.append(Opaque("tb"))
        return tuple(out)

    def make_reader_exc(self, ctx, cls):
        if "reader_exc" not in ctx.memo:
            ip = ctx.interp
            mod, name = cls
            c = None
            if mod:
                c = ip.import_module(mod).attrs.get(name)
            if c is None:
                c = ip.builtins.get(name)
            if c is None:
                c = next((v for v in EXT.values() if isinstance(v, ClassVal) and v.name == name), None)
            if c is None:
                ip.unsupported("exception class %r" % (cls,))
            e = ip.make_exc(c, mkstr([Hole(T.fresh_txt("readermsg"))]))
            e.attrs["errno"] = Opaque("errno")
            e.attrs["strerror"] = mkstr([Hole(T.fresh_txt("strerror"))])
            ctx.memo["reader_exc"] = e
        return ctx.memo["reader_exc"]

    # -- progress --
    def on_stream(self, ctx, st, s):
        self.percent(ctx, s)

    def percent(self, ctx, s):
        if not self.progress:
            ctx.prove("no progress output unless asked for", False, ("C19",))
            return
        for p in parts_of(s):
            if isinstance(p, IntHole):
                t = T.I(p.t)
                last = self.gi("lastpct")
                ctx.prove("progress is between 0 and 100 percent", z3.And(t >= 0, t <= 100), ("C19",))
                ctx.prove("progress never decreases", t >= last, ("C19",))
                ctx.gset("lastpct", sint(t))
                ctx.engine.cover("percentage shown")


class Pipe(Model):
    typename = "file"
    is_file = True

    def __init__(self, ctx):
        Model.__init__(self, ctx, "pipe")

    def m_write(self, ctx, s):
        ctx.world.percent(ctx, s)
        if ctx.choose(2, "pipe write"):
            ctx.world.fail(ctx, None, "BrokenPipeError")

    def m_flush(self, ctx):
        if ctx.choose(2, "pipe flush"):
            ctx.world.fail(ctx, None, "BrokenPipeError")

    def m_close(self, ctx):
        if ctx.choose(2, "pipe close"):
            ctx.world.fail(ctx, None, "BrokenPipeError")

    def m___enter__(self, ctx):
        return self

    def m___exit__(self, ctx, *a):
        self.m_close(ctx)
        return False

    def m_fileno(self, ctx):
        return Fd(ctx, self)


class RangeSeq(IvSeq):
    """ranges of the map with prefix sums; with layout 'arb' nothing is known
    about them but that they are lists of non-negative numbers"""

    def __init__(self, ctx, w):
        self.w = w
        self.arb = w.layout == "arb"
        if self.arb:
            # no order, no disjointness
            self.ctx, self.name, self.n, self.k = ctx, "range", w.NR, w.KB
            self.Ff = z3.Function("range.first", z3.IntSort(), z3.IntSort())
            self.Lf = z3.Function("range.last", z3.IntSort(), z3.IntSort())
            self.idx, self.ids, self.hook = [], set(), []
            self.lo = self.hi = None
            self.gap = 0
            self.j = None
            self.cov = None
        else:
            IvSeq.__init__(self, ctx, "range", w.NR, w.KB, lo=z3.IntVal(0))
            self.base()
            self.extra(self.j)

    def at(self, i, reg=True):
        i = T.norm(T.I(i))
        if i.get_id() in self.ids:
            return i
        if self.arb:
            self.ids.add(i.get_id())
            T.keep(i)
            self.idx.append(i)
            c, w = self.ctx, self.w
            valid = z3.And(i >= 0, i < self.n)
            f, l = self.Ff(i), self.Lf(i)
            c.solver.add(z3.Implies(valid, z3.And(f >= 0, l >= 0)))
            # the blocks of every (proper) range are mapped
            if w.mapped is not None:
                c.solver.add(z3.Implies(z3.And(valid, f <= w.KB, w.KB <= l), w.mapped))
            else:
                c.solver.add(z3.Implies(z3.And(valid, f <= w.KB, w.KB <= l), z3.Bool("K_mapped")))
        else:
            IvSeq.at(self, i, reg)
        if hasattr(self, "cov"):
            self.extra(i)
        return i

    def extra(self, i):
        c, w = self.ctx, self.w
        valid = z3.And(i >= 0, i < self.n)
        f, l = self.Ff(i), self.Lf(i)
        for t in (f, l, l + 1):
            c.solver.register(t, w.bs)
        c.solver.add(z3.Implies(valid, z3.And(
            PSUM(i + 1) == PSUM(i) + l - f + 1, z3.Implies(z3.Not(SINGLE(i)), z3.BoolVal(True)),
            z3.Implies(SINGLE(i), f == l))))
        if not self.arb:
            c.solver.add(z3.Implies(valid, z3.And(PSUM(i) >= 0, PSUM(i + 1) <= PSUM(self.n))))
        else:
            # prefix sums of a list without bad ranges never decrease
            c.solver.add(z3.Implies(z3.And(valid, w.nobad), z3.And(
                f <= l, PSUM(i) >= 0, PSUM(i + 1) <= PSUM(self.n))))
        c.solver.add(z3.Implies(z3.And(valid, w.consistent), z3.And(f <= l, l < w.bc)))
        lo = c.solver.mul(f, w.bs)
        hi = c.solver.mul(l + 1, w.bs)
        n = z3.If(hi <= w.IMG, hi, w.IMG) - lo
        c.solver.add(z3.Implies(z3.And(valid, w.consistent, HAS(i)), CHK(i) == DIG(w.alg, T.norm(lo), n)))

    def theory(self, m, ev):
        return IvSeq.theory(self, m, ev)


def copy_hints(ctx, view):
    w = ctx.world
    out = []
    mul = ctx.solver.mul
    bs = w.bs

    def cell(o, n):
        return T.I(int_term(o.attrs[n]))
    img, dest, G = w.image, w.dest, ctx.G
    its = [it for it in ctx.memo.get("seqiters", ()) if getattr(it, "is_ranges", False)]
    it = its[-1] if its else None
    skip = {(img.label, "pos"), (G.label, "nb"), (G.label, "nby"), (G.label, "gnb"), (G.label, "gnby"),
            (G.label, "lastpct"), (dest.label, "pos"), (dest.label, "size"), (dest.label, "pend"),
            (dest.label, "since")}
    if w.role == "reader":
        xs = [(k, x) for k, x in view.ints if k not in skip and not (it is not None and k == (it.label, "i"))]
        xs += [(k, (lambda t=t: t)) for k, t in view.anchors if k[0] not in ("c", "h", "e")]
        nb = lambda: cell(G, "nb")           # noqa
        nby = lambda: cell(G, "nby")         # noqa
        pos = lambda: cell(img, "pos")       # noqa
        sentK = lambda: w.btrue(G.attrs["sentK"])      # noqa
        bools = ("closed", "errput", "pfail")
        hashes = [o for o in ctx.owners.values() if isinstance(o, Hash) and o.seq < view.seq0
                  and view.is_mod(o, "len")]
        if it is not None:
            i = lambda: T.I(int_term(it.attrs["i"]))      # noqa
            iv = w.iv
            inner = not view.is_mod(it, "i")
            if not inner:
                out.append((("nb<=", ), lambda: z3.And(nb() <= PSUM(i()), nb() >= 0)))
                out.append((("nb=",), lambda: z3.Implies(w.consistent, nb() == PSUM(i()))))
                if not iv.arb:
                    out.append((("K",), lambda: z3.Implies(z3.And(iv.cov, iv.j < i(), w.K < w.IMG), sentK())))
                    out.append((("pos",), lambda: z3.Or(z3.And(i() == 0, pos() == 0), z3.And(i() > 0, pos() <= mul(iv.Lf(iv.at(i() - 1)) + 1, bs)))))
                if w.verify:
                    out.append((("R",), lambda: z3.Implies(w.R < i(), z3.Or(w.good(w.R), nb() < PSUM(i())))))
                    out.append((("R2",), lambda: z3.Implies(w.R < i(), w.good(w.R))))
            else:
                c = lambda: iv.at(T.norm(i() - 1))           # noqa
                for k, x in xs:
                    out.append((("nb<=x", k), lambda x=x: nb() <= PSUM(c()) + x() - iv.Ff(c())))
                    out.append((("nb<=x", k, 1), lambda x=x: nb() <= PSUM(c()) + x()))
                    out.append((("nb=x", k), lambda x=x: z3.Implies(w.consistent, nb() == PSUM(c()) + x() - iv.Ff(c()))))
                    out.append((("nb=x", k, 1), lambda x=x: z3.Implies(w.consistent, nb() == PSUM(c()) + x())))
                    out.append((("x>=F", k), lambda x=x: z3.And(x() >= iv.Ff(c()), x() <= iv.Lf(c()) + 1)))
                    if not iv.arb:
                        out.append((("Kx", k), lambda x=x: z3.Implies(z3.And(
                            iv.cov, z3.Or(iv.j < c(), z3.And(iv.j == c(), w.KB < x())), w.K < w.IMG), sentK())))
                    out.append((("posx", k), lambda x=x: z3.Or(z3.And(pos() == mul(x(), bs), z3.Or(
                        pos() <= w.IMG, x() == iv.Ff(c()))),
                                                              z3.And(pos() == w.IMG, pos() < mul(x(), bs)))))
                for h in hashes:
                    hl, ho = (lambda h=h: cell(h, "len")), (lambda h=h: cell(h, "off"))
                    st = lambda h=h: w.btrue(h.attrs["started"])       # noqa
                    out.append((("hlen", h.label), lambda hl=hl: hl() == pos() - mul(iv.Ff(c()), bs)))
                    out.append((("hoff", h.label), lambda ho=ho, st=st: z3.Implies(st(), ho() == mul(iv.Ff(c()), bs))))
                    out.append((("hst", h.label), lambda hl=hl, st=st: st() == (hl() > 0)))
                    out.append((("hbad", h.label), lambda h=h: z3.Not(w.btrue(h.attrs["bad"]))))
        else:
            for k, x in xs:
                out.append((("nbymin", k), lambda x=x: nby() == z3.If(mul(x(), bs) <= w.IMG, mul(x(), bs), w.IMG)))
                out.append((("nbmin", k), lambda x=x: nb() == z3.If(x() <= w.ibc, x(), w.ibc)))
                out.append((("Kx0", k), lambda x=x: z3.Implies(z3.And(w.KB < x(), w.K < w.IMG), sentK())))
                out.append((("posx0", k), lambda x=x: z3.Or(pos() == mul(x(), bs),
                                                           z3.And(pos() == w.IMG, pos() < mul(x(), bs)))))
                out.append((("posle0", k), lambda x=x: pos() <= mul(x(), bs)))
                out.append((("x<=bc", k), lambda x=x: x() <= w.bc))
                for ka, a in view.anchors:
                    if ka[0] not in ("c", "h"):
                        out.append((("x<=a+1", k, ka), lambda x=x, a=a: x() <= a + 1))
        if it is not None and w.layout == "arb":
            out = [(k, (lambda th=th: z3.Implies(w.nobad, th())) if k[0][:2] in ("nb", "R", "R2") else th)
                   for k, th in out]
        return out
    # writer
    xs = [(k, x) for k, x in view.ints if k not in skip]
    since = lambda: cell(dest, "since")       # noqa
    if view.is_mod(dest, "written"):
        out.append((("wK",), lambda: z3.Implies(
            z3.And(w.btrue(G.attrs["gK"]), z3.BoolVal(True)), w.btrue(dest.attrs["written"]))))
    if view.is_mod(dest, "since"):
        wm = []
        for k, x in xs:
            out.append((("since=x", k), lambda x=x: since() == x()))
            for k2, y in xs:
                if k != k2:
                    out.append((("since=d", k, k2), lambda x=x, y=y: since() == x() - y()))
        out.append((("sincebound",), lambda: mul(since(), bs) <= 6 * MIB + z3.If(bs > MIB, bs, z3.IntVal(MIB))))
        out.append((("since0",), lambda: since() >= 0))
    if w.progress:
        last = lambda: cell(G, "lastpct")        # noqa
        for k, x in xs:
            out.append((("pct", k), lambda x=x: z3.Implies(w.mc > 0, z3.And(
                mul(last(), w.mc) <= 100 * x(), 100 * x() < mul(last() + 1, w.mc)))))
            out.append((("pct>=", k), lambda x=x: z3.Implies(w.mc > 0, z3.And(last() >= 0, mul(last(), w.mc) <= 100 * x()))))
    return out


def copy_setup(eng):
    eng.hints.append(copy_hints)
    eng.contracts["BmapCopy.BmapCopy._verify_bmap_checksum"] = Contract(lambda ip, f, a, k: None)
    eng.contracts["BmapHelpers.human_size"] = Contract(
        lambda ip, f, a, k: mkstr([Hole(T.fresh_txt("human"), "human")]))


class BmapFile(Model):
    typename = "file"
    is_file = True

    def __init__(self, ctx):
        Model.__init__(self, ctx, "bmap")
        self.dyn["name"] = mkstr([Hole(z3.Const("bmappath", T.Txt), "nonempty")])

    def m_fileno(self, ctx):
        return ctx.world.fd(ctx, self)

    def truth(self, ctx):
        return True


def run_copy(ctx, var):
    fmt, dest_kind, progress, layout, known, verify = var
    ip, w = make(ctx, CopyWorld, fmt, dest_kind, progress, layout)
    if progress:
        # what is written must not depend on progress reporting
        ctx.engine.tag_alias = {"C01": "C19", "C02": "C19", "C06": "C19"}
    w.known = known
    w.verify = verify
    if fmt == "bmap1.3":
        ctx.assume(w.alg == txt_term(ctx, "sha1"))
    mod = ip.import_module("bmaptools.BmapCopy")
    cls = mod.attrs["BmapBdevCopy" if dest_kind == "blk" else "BmapCopy"]
    w.bmapfile = BmapFile(ctx) if fmt != "nobmap" else None
    size = None
    if fmt == "nobmap" and known:
        ctx.assume(w.size >= 1)
        size = SInt(w.size)
    if fmt != "nobmap":
        ctx.assume(w.bc >= 1)
    k, obj = outcome(ip, lambda: ip.call(cls, [w.image, w.dest, w.bmapfile, size], {}))
    if k == "raise":
        raise PathEnd("constructor refused")
    if fmt == "nobmap" and ip.getattr(obj, "block_size") != 4096:
        ip.unsupported("another default block size")
    if progress:
        err = EXT["sys.stderr"](ctx)
        call(ip, ip.getattr(obj, "set_progress_indicator"), err, None)
        method(ip, obj, "set_psplash_pipe", mkstr([Hole(z3.Const("pipe", T.Txt), "nonempty")]))
    sync = free_bool(ctx, "sync") if not progress else True
    w.quiet = False
    tags = ("C02",) if fmt == "nobmap" else ("C01",)
    base = mod.attrs["BmapCopy"]
    copyf = ip.getattr(base, "copy")
    k, v = outcome(ip, lambda: ip.call(copyf, [obj], {"sync": sync, "verify": verify}))
    er = mod.attrs["Error"]
    w.race_check(ctx)
    dest = w.dest
    if k == "raise":
        name = excname(v)
        ctx.engine.cover("copy raises")
        ctx.prove("a consistent image and map are copied without error: %s" % name,
                  z3.Or(w.gb("cfail"), w.gb("gerr"), z3.Not(w.consistent)), tags)
        if w.fail_kind in ("destination write", "destination resize", "destination flush",
                           "destination synchronisation"):
            ctx.prove("an I/O failure (%s) surfaces as the module's error: %s" % (w.fail_kind, name),
                      isexc(ip, v, er), ("C06",))
        return
    ctx.engine.cover("copy succeeds")
    ctx.prove("success is not reported after a failed operation", z3.Not(w.gb("cfail")), ("C06",))
    ctx.prove("success is not reported after a reader failure", z3.Not(w.gb("gerr")), ("C06",))
    ctx.prove("success is only reported at the end of the reader's stream", w.gb("gend"), ("C06",) + tags)
    i = lambda n: T.I(int_term(ctx.read_cell(dest, n)))         # noqa
    b = lambda n: w.btrue(ctx.read_cell(dest, n))               # noqa
    if fmt != "nobmap":
        ctx.prove("as many blocks were copied as the map records", w.gi("gnb") == w.mc, ("C06", "C01"))
        if layout == "sane":
            ctx.prove("every byte of a mapped block that the image supplies was written",
                      z3.Implies(z3.And(w.agree, w.mapped, w.K < w.IMG,
                                        (w.K < w.size) if dest_kind == "reg" else z3.BoolVal(True)), b("written")), tags)
        if verify and fmt[4:] in ("1.3", "1.4", "2.0"):
            ctx.prove("every recorded range checksum matched",
                      z3.Implies(w.agree if layout == "sane" else z3.And(w.agree, w.nobad), w.good(w.R)), ("C03",))
        final = w.size
    elif known:
        ctx.prove("every byte the image supplies was written",
                  z3.Implies(z3.And(w.K < w.IMG, w.K < w.size), b("written")), tags)
        ctx.prove("an image shorter than stated by a block or more is an error", w.ibc >= w.bc, tags + ("C06",))
        final = w.size
    else:
        ctx.prove("every byte the image supplies was written", z3.Implies(w.K < w.IMG, b("written")), tags)
        final = w.IMG
        ctx.prove("the reported image size is the size of the data",
                  T.I(int_term(ip.getattr(obj, "image_size"))) == w.IMG, tags)
        ctx.prove("the reported block count matches the data",
                  T.I(int_term(ip.getattr(obj, "blocks_cnt"))) == w.ibc, tags)
    if dest_kind == "reg":
        fs = z3.If(i("pend") > i("size"), i("pend"), i("size"))
        ctx.prove("a regular destination ends up with exactly the image size", fs == final, tags)
    if not (sync is True or ctx.branch(sync.t)):
        if dest_kind != "null" or ctx.choose(2, "sync later"):
            k, v = outcome(ip, lambda: method(ip, obj, "sync"))
            if k == "raise":
                ctx.prove("a failing synchronisation surfaces as the module's error: %s" % excname(v),
                          isexc(ip, v, er) and bool(w.fail_kind), ("C06", "C07"))
                ctx.prove("synchronising fails only if the system call does", w.gb("cfail"), ("C07",))
                return
    if dest_kind != "null":
        ctx.prove("a failed synchronisation is reported", z3.Not(w.gb("cfail")), ("C06",))
        ctx.prove("all data left the file object's buffer", z3.Not(b("udirty")), ("C07",))
        ctx.prove("data and size were synchronised to the device", z3.Not(b("kdirty")), ("C07",))
    if progress and fmt != "nobmap":
        ctx.prove("progress reached 100 percent", z3.Implies(w.mc > 0, w.gi("lastpct") == 100), ("C19",))


COVERS = ("reader ends", "writes", "copy succeeds", "copy raises", "reader fails", "reader delivers",
          "writer sees the end", "writer sees an error")
ALLP = ["C01", "C02", "C03", "C05", "C06", "C07", "C19"]


def _mk(name, props, variants, covers=COVERS):
    UNITS.append(Unit(name, props, run_copy, copy_setup, covers, variants))


_mk("copy.bmap", ["C01", "C03", "C06", "C07"], [("bmap2.0", "reg", False, "sane", True, True)])
_mk("copy.bmap.noverify", ["C01", "C06"], [("bmap2.0", "null", False, "sane", True, False)])
_mk("copy.bmap.old", ["C01", "C03"], [("bmap1.3", "null", False, "sane", True, True), ("bmap1.2", "reg", False, "sane", True, True)])
_mk("copy.bmap.dev", ["C01", "C06", "C07"], [("bmap2.0", "blk", False, "sane", True, True)])
_mk("copy.bmap.any", ["C01", "C03", "C05", "C06"], [("bmap2.0", "reg", False, "arb", True, True)])
_mk("copy.plain", ["C02", "C06", "C07"], [("nobmap", "reg", False, "sane", True, True), ("nobmap", "reg", False, "sane", False, True),
                                         ("nobmap", "blk", False, "sane", False, True)])
_mk("copy.progress", ["C19"], [("bmap2.0", "reg", True, "sane", True, True), ("nobmap", "reg", True, "sane", False, True)],
    COVERS)
