"""C04 C05: loading a map (BmapCopy.__init__, _parse_bmap, _verify_bmap_checksum,
_set_image_size) for every version number and every header value, and
BmapHelpers.human_size for every size."""
from .common import *
from .copy import Text, Attribs, Tree, Stat, SINGLE, HAS, CHK

FD = z3.Function("FILE_DIGEST", T.Txt, z3.IntSort(), z3.IntSort(), T.Txt)     # algorithm, zeroed offset, zeroed length
DLEN = z3.Function("digest_length", T.Txt, z3.IntSort())
VALUE = "recorded checksum value"


class Quiet(Model):
    """image or destination: only its identity is used by the constructor"""
    typename = "file"
    is_file = True

    def __init__(self, ctx, name, kind="reg"):
        Model.__init__(self, ctx, name)
        self.what, self.kind = name, kind
        self.dyn["name"] = mkstr([Hole(z3.Const(name + "path", T.Txt), "nonempty")])

    def m_fileno(self, ctx):
        return Fd(ctx, self)

    def _no(self, ctx, op):
        ctx.prove("the map is validated before the %s is acted upon (%s)" % (self.what, op), False, ("C05", "C17"))
        raise PathEnd("acted upon")

    def m_write(self, ctx, *a):
        self._no(ctx, "write")

    def m_truncate(self, ctx, *a):
        self._no(ctx, "resize")

    def m_read(self, ctx, *a):
        self._no(ctx, "read")

    def m_seek(self, ctx, *a):
        return 0

    def m_tell(self, ctx):
        return 0

    def m_flush(self, ctx):
        return None


class MapFile(Model):
    """the bmap file object"""
    typename = "file"
    is_file = True

    def __init__(self, ctx):
        Model.__init__(self, ctx, "bmap")
        self.dyn["name"] = mkstr([Hole(z3.Const("bmappath", T.Txt), "nonempty")])

    def m_fileno(self, ctx):
        return Fd(ctx, self)

    def m_seek(self, ctx, off, whence=0):
        return off

    def m_tell(self, ctx):
        return SInt(ctx.new_int("bmappos", 0))

    def m_write(self, ctx, *a):
        ctx.prove("loading never modifies the map file", False, ("C04",))
        raise PathEnd("modified")

    m_truncate = m_write

    def m_flush(self, ctx):
        return None

    def m_readline(self, ctx, *a):
        return mkstr([Hole(T.fresh_txt("line"), "any")], True)

    def line(self, ctx, i):
        return mkstr([Hole(T.fresh_txt("line"), "any")], True)

    def iterate(self, ctx, body, node, fr):
        return self.m___iter__(ctx).iterate(ctx, body, node, fr)

    def m___iter__(self, ctx):
        return SeqIter(ctx, ctx.world.lines, self.line, "line")

    def truth(self, ctx):
        return True


class MMap(Model):
    typename = "mmap"

    def __init__(self, ctx, access):
        Model.__init__(self, ctx, "mmap")
        self.access = access
        self.attrs.update(zpos=0, zlen=0, bad=False, open=True)

    def m_find(self, ctx, sub, *a):
        w = ctx.world
        if a:
            ctx.interp.unsupported("find with bounds")
        if not is_bytes(sub):
            ctx.interp.throw("TypeError", "a bytes-like object is required")
        if isinstance(sub, SStr) and len(sub.parts) == 1 and isinstance(sub.parts[0], Hole) \
                and sub.parts[0].t.eq(w.filechk):
            return SInt(w.pos)
        r = ctx.new_int("found", -1)
        return SInt(r)

    def m_close(self, ctx):
        ctx.write_cell(self, "open", False)

    def m_flush(self, ctx, *a):
        return None

    def m___enter__(self, ctx):
        return self

    def m___exit__(self, ctx, *a):
        self.m_close(ctx)
        return False

    def length(self, ctx):
        return SInt(ctx.world.flen)

    def m_size(self, ctx):
        return SInt(ctx.world.flen)

    def setitem(self, ctx, i, v):
        w = ctx.world
        ip = ctx.interp
        if not isinstance(i, SliceVal) or i.step is not None:
            ip.unsupported("mmap store")
        ctx.prove("loading never modifies the map file", self.access == "mmap.ACCESS_COPY", ("C04",))
        a = T.I(int_term(i.lo)) if i.lo is not None else z3.IntVal(0)
        b = T.I(int_term(i.hi)) if i.hi is not None else w.flen
        if not ctx.branch(z3.And(0 <= a, a <= b, b <= w.flen)):
            ip.throw("IndexError", "mmap slice assignment is wrong size")
        if not is_bytes(v) or isinstance(v, SBytes):
            ip.unsupported("mmap store of %r" % (v,))
        if isinstance(v, bytes):
            zero = v == b"0" * len(v)
            n = z3.IntVal(len(v))
        else:
            p = v.parts
            zero = len(p) == 1 and isinstance(p[0], Hole) and p[0].info == ("rep", "0")
            n = txt_len(ctx, v)
        if not ctx.branch(n == b - a):
            ip.throw("IndexError", "mmap slice assignment is wrong size")
        if not zero:
            ctx.write_cell(self, "bad", True)
            return
        zl = T.I(int_term(ctx.read_cell(self, "zlen")))
        # only one zeroed region is tracked
        if ctx.branch(zl > 0):
            ctx.write_cell(self, "bad", True)
            return
        ctx.write_cell(self, "zpos", sint(a))
        ctx.write_cell(self, "zlen", sint(n))

    def getitem(self, ctx, i):
        if isinstance(i, SliceVal) and i.lo is None and i.hi is None and i.step is None:
            return self
        ctx.interp.unsupported("mmap load")

    def m_read(self, ctx, n=None):
        if n is not None:
            ctx.interp.unsupported("partial mmap read")
        return self


class FileHash(Model):
    typename = "hash"

    def __init__(self, ctx, alg):
        Model.__init__(self, ctx, "hash")
        self.alg = alg
        self.attrs.update(fed=None, n=0)

    def m_update(self, ctx, data):
        if data == b"" and isinstance(data, bytes):
            return None
        n = ctx.read_cell(self, "n")
        ctx.write_cell(self, "n", n + 1)
        if isinstance(data, MMap) and n == 0:
            ctx.write_cell(self, "fed", (data, ctx.read_cell(data, "zpos"), ctx.read_cell(data, "zlen"), ctx.read_cell(data, "bad")))
            return None
        ctx.write_cell(self, "fed", None)

    def m_hexdigest(self, ctx):
        w = ctx.world
        n = ctx.read_cell(self, "n")
        fed = ctx.read_cell(self, "fed")
        ln = DLEN(self.alg)
        ctx.solver.add(ln >= 1)
        if n == 1 and fed is not None and fed[3] is False:
            return mkstr([Hole(FD(self.alg, T.I(int_term(fed[1])), T.I(int_term(fed[2]))), "hex", length=ln)])
        return mkstr([Hole(T.fresh_txt("digest"), "hex", length=ln)])

    def get_attribute(self, ctx, name):
        if name == "digest_size":
            q = T.fresh_int("digest_size")
            ctx.solver.add(z3.And(DLEN(self.alg) == 2 * q, q >= 1))
            return SInt(q)
        if name == "name":
            return Opaque("hash name")
        return NotImplemented


class ParseWorld(World):
    def __init__(self, ctx, dest_kind="reg"):
        World.__init__(self, ctx)
        I = lambda n: T.keep(z3.Int(n))         # noqa
        s = ctx.solver
        self.major, self.minor = I("major"), I("minor")
        self.bs, self.bc, self.mc, self.size = I("bs"), I("blocks_cnt"), I("mapped_cnt"), I("image_size")
        T.set_positive(self.bs)
        ctx.assume(z3.And(self.bs >= 1, self.bc >= 0, self.mc >= 0, self.size >= 0, self.major >= 0, self.minor >= 0))
        # the formats that exist: 1.0 .. 1.4 and 2.0 onwards
        ctx.assume(z3.Or(z3.And(self.major == 1, self.minor <= 4), self.major >= 2))
        q, _ = s.floordiv(self.size + self.bs - 1, self.bs)
        self.q = T.keep(T.norm(q))
        self.alg = z3.Const("checksum_type", T.Txt)
        self.known = T.keep(z3.Bool("checksum_type_known"))
        self.filechk = z3.Const("recorded_file_checksum", T.Txt)
        self.flen, self.pos, self.lines = I("file_length"), I("checksum_offset"), I("lines")
        ctx.assume(z3.And(self.flen >= 1, self.lines >= 0, self.pos >= 0))
        self.named = T.keep(z3.Or(self.major > 1, z3.And(self.major == 1, self.minor == 4)))
        self.sha1 = T.keep(z3.And(self.major == 1, self.minor == 3))
        ctx.assume(z3.Implies(self.alg == txt_term(ctx, "sha1"), self.known))
        self.image = Quiet(ctx, "image")
        self.dest = Quiet(ctx, "destination", dest_kind)
        self.map = MapFile(ctx)
        self.malformed = False

    def theory_alg(self, ctx):
        return z3.If(self.sha1, txt_term(ctx, "sha1"), self.alg)

    def os_fstat(self, ctx, fd):
        f = file_of(ctx, fd)
        st = Stat(ctx, "stat")
        st.attrs["st_mode"] = ModeVal(ctx, getattr(f, "kind", "reg"))
        st.attrs["st_size"] = SInt(self.flen) if f is self.map else SInt(ctx.new_int("stsize", 0))
        st.attrs["st_rdev"] = Opaque("rdev")
        return st

    def _no(self, ctx, *a):
        ctx.prove("the map is validated before the destination is acted upon", False, ("C05",))
        raise PathEnd("acted upon")

    os_ftruncate = os_fsync = os_fdatasync = os_write = os_pwrite = os_unlink = os_truncate = _no
    os_remove = os_rename = os_replace = os_chmod = _no

    def path_getsize(self, ctx, p):
        return SInt(self.flen)

    def et_parse(self, ctx, f):
        if f is not self.map:
            ctx.interp.unsupported("parse of %r" % (f,))
        if ctx.choose(2, "well-formed"):
            self.malformed = True
            e = ctx.interp.make_exc(EXT["xml.etree.ElementTree.ParseError"], mkstr([Hole(T.fresh_txt("xmlerr"))]))
            e.attrs["position"] = (SInt(ctx.new_int("line", 1)), SInt(ctx.new_int("column", 0)))
            e.attrs["code"] = SInt(ctx.new_int("code", 0))
            raise IRaise(e)
        ws = lambda: Hole(T.fresh_txt("ws"), "ws")         # noqa

        def num(t):
            return lambda c: Text(c, mkstr([ws(), IntHole(t), ws()]))
        e = {"BlockSize": num(self.bs), "BlocksCount": num(self.bc), "MappedBlocksCount": num(self.mc),
             "ImageSize": num(self.size), "BlockMap": lambda c: Text(c, "\n")}
        # the checksum value stands in the file, first at offset pos
        n = z3.Function("text_length", T.Txt, z3.IntSort())(self.filechk)
        ctx.assume(z3.And(n >= 1, self.pos + n <= self.flen))
        # a digest has the length of its algorithm's digests
        a = self.theory_alg(ctx)
        ctx.assume(z3.Implies(self.filechk == FD(a, self.pos, DLEN(a)), n == DLEN(a)))
        val = lambda c: Text(c, mkstr([ws(), Hole(self.filechk, "hex", length=n), ws()]))         # noqa
        if ctx.branch(self.named):
            e["ChecksumType"] = lambda c: Text(c, mkstr([ws(), Hole(self.alg, "word"), ws()]))
            e["BmapFileChecksum"] = val
        elif ctx.branch(self.sha1):
            e["BmapFileSHA1"] = val
        return Tree(ctx, e, mkstr([IntHole(self.major), ".", IntHole(self.minor)]))

    def hashlib_new(self, ctx, name, *a):
        t = txt_term(ctx, name)
        sha1 = txt_term(ctx, "sha1")
        if not ctx.branch(z3.Or(z3.And(t == self.alg, self.known), t == sha1)):
            ctx.interp.throw("ValueError", "unsupported hash type")
        h = FileHash(ctx, t)
        ctx.solver.add(DLEN(sha1) == 40)
        if a:
            h.m_update(ctx, a[0])
        return h

    def hashlib_sha1(self, ctx, *a):
        return self.hashlib_new(ctx, "sha1", *a)

    def mmap_mmap(self, ctx, fd, n, *a, **k):
        if file_of(ctx, fd) is not self.map or n != 0:
            ctx.interp.unsupported("mmap")
        acc = k.get("access")
        if acc is None and a:
            ctx.interp.unsupported("mmap flags")
        return MMap(ctx, acc or "mmap.ACCESS_WRITE")


def parse_setup(eng):
    eng.contracts["BmapHelpers.human_size"] = Contract(
        lambda ip, f, a, k: mkstr([Hole(T.fresh_txt("human"), "human")]))


@unit("parse", ["C04", "C05"], parse_setup,
      expect=("loads", "refused", "malformed refused", "loads with checksum", "loads without checksum", "unknown algorithm refused"),
      variants=(False, True))
def parse(ctx, given):
    ip, w = make(ctx, ParseWorld)
    mod = ip.import_module("bmaptools.BmapCopy")
    er = mod.attrs["Error"]
    size = None
    if given:
        g = T.keep(z3.Int("given_size"))
        ctx.assume(g >= 1)
        size = SInt(g)
    k, obj = outcome(ip, lambda: ip.call(mod.attrs["BmapCopy"], [w.image, w.dest, w.map, size], {}))
    a = w.theory_alg(ctx)
    summed = z3.Or(w.named, w.sha1)
    good = w.filechk == FD(a, w.pos, DLEN(a))
    known = z3.Or(z3.Not(w.named), w.known)
    cons = w.bc == w.q
    sizeok = (g == w.size) if given else z3.BoolVal(True)
    if w.malformed:
        ctx.prove("a map that is not well-formed is refused", k == "raise", ("C05",))
        if k == "raise":
            ctx.prove("a map that is not well-formed is refused with the module's error: %s" % excname(obj),
                      isexc(ip, obj, er), ("C05",))
            ctx.engine.cover("malformed refused")
        return
    if k == "raise":
        ctx.engine.cover("refused")
        name = excname(obj)
        ctx.prove("a supported, consistent map with a correct checksum is accepted: %s" % name,
                  z3.Not(z3.And(w.major <= 2, cons, sizeok, known, z3.Implies(summed, good))), ("C05",))
        ctx.prove("a correct checksum is accepted: %s" % name,
                  z3.Not(z3.And(w.major <= 2, cons, sizeok, known, z3.Implies(summed, good))), ("C04",))
        iserr = isexc(ip, obj, er)
        ctx.prove("an unsupported version is refused with the module's error: %s" % name,
                  z3.Implies(w.major > 2, iserr), ("C05",))
        ctx.prove("an inconsistent block count is refused with the module's error: %s" % name,
                  z3.Implies(z3.And(w.major <= 2, z3.Not(cons)), iserr), ("C05",))
        ctx.prove("a different image size is refused with the module's error: %s" % name,
                  z3.Implies(z3.And(w.major <= 2, cons, known, z3.Implies(summed, good)), iserr), ("C05",))
        ctx.prove("an unknown checksum type is refused with the module's error: %s" % name,
                  z3.Implies(z3.And(w.major <= 2, cons, z3.Not(known)), iserr), ("C04",))
        if ctx.solver.prove(known)[0] != "valid":
            ctx.engine.cover("unknown algorithm refused")
        return
    ctx.engine.cover("loads")
    ctx.engine.cover("loads with checksum" if ctx.branch(summed) else "loads without checksum")
    ctx.prove("only supported versions load", w.major <= 2, ("C05",))
    ctx.prove("only a consistent block count loads", cons, ("C05",))
    ctx.prove("only a matching given image size loads", sizeok, ("C05",))
    ctx.prove("the checksum type is known", known, ("C04",))
    ctx.prove("the file's digest with the recorded value zeroed equals the recorded value",
              z3.Implies(summed, good), ("C04",))
    at = lambda n: ip.getattr(obj, n)         # noqa

    def same(n, t):
        v = at(n)
        ctx.prove("the reported %s is the map's" % n, (T.I(int_term(v)) == t) if v is not None else False, ("C05",))
    same("bmap_version_major", w.major)
    same("bmap_version_minor", w.minor)
    same("block_size", w.bs)
    same("blocks_cnt", w.bc)
    same("mapped_cnt", w.mc)
    same("image_size", w.size)
    same("mapped_size", ctx.solver.mul(w.mc, w.bs))
    ver = at("bmap_version")
    ctx.prove("the reported version is the map's", is_text(ver) and text_eq(ctx, ver, mkstr([IntHole(w.major), ".", IntHole(w.minor)])), ("C05",))
    p = at("mapped_percent")
    if ctx.branch(w.bc == 0):
        ctx.prove("an empty image is fully mapped", p == 100, ("C05",))
    else:
        q = getattr(p, "q", None)
        if q is None:
            if isinstance(p, SReal):
                ip.unsupported("percentage of unknown form")
            q = (T.I(int_term(p)), z3.IntVal(1))
        m = ctx.solver.mul
        ctx.prove("the mapped percentage is that of the map", m(q[0], w.bc) == m(m(w.mc, z3.IntVal(100)), q[1]), ("C05",))


@unit("parse.human_size", ["C05"], expect=("rendered",))
def human(ctx, var):
    """human_size() renders every size; it is called on every path that reports sizes"""
    ip, w = make(ctx, World)
    mod = ip.import_module("bmaptools.BmapHelpers")
    n = T.keep(z3.Int("size"))
    ctx.assume(n >= 0)
    k, v = outcome(ip, lambda: call(ip, mod.attrs["human_size"], SInt(n)))
    ctx.prove("every size can be rendered%s" % (": " + excname(v) if k == "raise" else ""), k == "ok", ("C05",))
    if k == "ok":
        ctx.prove("a size is rendered as text", is_text(v), ("C05",))
        ctx.engine.cover("rendered")
