"""C10 C11 C23: creating a map (BmapCreate).

The generated document is modelled as the text actually written: literals,
renderings of values and fields patched later.  Positions are real integers.
The elements written by the loop over the ranges are checked one by one, for an
arbitrary iteration; what a reader sees is decided by the real XML parser on
the text with a token standing for every symbolic value."""
import xml.etree.ElementTree as ET

from .common import *
from .copy import Hash, DIG, MIB

DLEN = z3.Function("digest_length", T.Txt, z3.IntSort())
HLEN = z3.Function("human_size_length", z3.IntSort(), z3.IntSort())
PS = z3.Function("blocks_in_ranges_before", z3.IntSort(), z3.IntSort())
FILLER = set(" 0or")


class Image(Model):
    """buffered image file: read() is only short at the end"""
    typename = "file"
    is_file = True

    def __init__(self, ctx, pos=0, owned=False):
        Model.__init__(self, ctx, "image")
        self.owned = owned
        self.dyn["name"] = ctx.world.image_path
        self.pos0 = pos
        self.attrs.update(pos=pos, closed=False)

    def _open(self, ctx):
        if ctx.read_cell(self, "closed") is not False:
            ctx.interp.throw("ValueError", "I/O operation on closed file")

    def m_fileno(self, ctx):
        return Fd(ctx, self)

    def m_tell(self, ctx):
        self._open(ctx)
        return ctx.read_cell(self, "pos")

    def m_seek(self, ctx, off, whence=0):
        self._open(ctx)
        if whence not in (0, 1, 2):
            ctx.interp.unsupported("seek whence")
        base = (z3.IntVal(0), T.I(int_term(ctx.read_cell(self, "pos"))), ctx.world.IMG)[whence]
        p = T.norm(base + T.I(int_term(off)))
        ctx.write_cell(self, "pos", sint(p))
        return sint(p)

    def m_read(self, ctx, n=-1):
        self._open(ctx)
        w = ctx.world
        pos = T.I(int_term(ctx.read_cell(self, "pos")))
        rest = T.norm(w.IMG - pos)
        if n is None or isinstance(n, int) and n < 0:
            n = rest
        n = T.I(int_term(n))
        if not ctx.branch(z3.And(pos < w.IMG, n != 0)):
            return b""
        if ctx.branch(n < 0):
            n = rest
        got = T.fresh_int("got")
        ctx.assume(got == z3.If(n <= rest, n, rest))
        ctx.assume(got >= 1)
        ctx.write_cell(self, "pos", sint(pos + got))
        return SBytes("img", pos, got)

    def m_flush(self, ctx):
        return None

    def m_close(self, ctx):
        ctx.write_cell(self, "closed", True)

    def _no(self, ctx, *a, **k):
        ctx.prove("the image is not modified", False, ("C10",))
        raise PathEnd("image modified")

    m_write = m_truncate = m_writelines = _no

    def m___enter__(self, ctx):
        return self

    def m___exit__(self, ctx, *a):
        self.m_close(ctx)
        return False

    def truth(self, ctx):
        return True


class Doc(Model):
    """the map file: a list of text parts, some overwritten later"""
    typename = "file"
    is_file = True

    def __init__(self, ctx, owned=False):
        Model.__init__(self, ctx, "doc")
        self.owned = owned
        self.dyn["name"] = ctx.world.bmap_path
        self.attrs.update(pos=0, end=0, closed=False, dirty=False)
        self.parts = []
        self.body = None              # the part standing for the elements of earlier iterations
        self.acc = None               # text written since the current range was delivered

    def _open(self, ctx):
        if ctx.read_cell(self, "closed") is not False:
            ctx.interp.throw("ValueError", "I/O operation on closed file")

    def i(self, ctx, n):
        return T.I(int_term(ctx.read_cell(self, n)))

    def m_fileno(self, ctx):
        return Fd(ctx, self)

    def m_tell(self, ctx):
        self._open(ctx)
        return ctx.read_cell(self, "pos")

    def m_seek(self, ctx, off, whence=0):
        self._open(ctx)
        if whence not in (0, 2) or whence == 2 and off != 0:
            ctx.interp.unsupported("seek in the map file")
        p = T.I(int_term(off)) if whence == 0 else self.i(ctx, "end")
        ctx.write_cell(self, "pos", sint(p))
        return sint(p)

    def m_read(self, ctx, n=-1):
        self._open(ctx)
        if not (n is None or isinstance(n, int) and n < 0):
            ctx.interp.unsupported("partial read of the map file")
        pos = self.i(ctx, "pos")
        ctx.write_cell(self, "pos", ctx.read_cell(self, "end"))
        if self.same(ctx, pos, self.i(ctx, "end")):
            return ""
        if not self.same(ctx, pos, z3.IntVal(0)):
            ctx.interp.unsupported("read from the middle of the map file")
        return mkstr(self.parts)

    def same(self, ctx, a, b):
        a, b = T.norm(a), T.norm(b)
        return a.eq(b) or ctx.solver.prove(a == b)[0] == "valid"

    def m_writelines(self, ctx, lines):
        for x in ctx.interp.to_list(lines):
            self.m_write(ctx, x)

    def m_write(self, ctx, s):
        self._open(ctx)
        if not is_text(s):
            ctx.interp.throw("TypeError", "write() argument must be str")
        n = txt_len(ctx, s)
        ctx.write_cell(self, "dirty", True)
        pos, end = self.i(ctx, "pos"), self.i(ctx, "end")
        if self.same(ctx, pos, end):
            self.parts = list(SStr(tuple(self.parts) + parts_of(s)).parts)
            if self.acc is not None:
                self.acc.extend(parts_of(s))
            e = sint(end + n)
            ctx.write_cell(self, "end", e)
            ctx.write_cell(self, "pos", e)
            return sint(n)
        ctx.prove("earlier text is not overwritten while the ranges are written", self.acc is None, ("C10", "C11"))
        self.patch(ctx, pos, s, n)
        ctx.write_cell(self, "pos", sint(pos + n))
        return sint(n)

    def patch(self, ctx, pos, s, n):
        """replace n characters at pos; only fillers may be replaced"""
        off = z3.IntVal(0)
        k = 0
        while not self.same(ctx, off, pos):
            if k == len(self.parts):
                ctx.prove("a value is patched in at the start of its field", False, ("C10", "C11"))
                raise PathEnd("patched elsewhere")
            p = self.parts[k]
            if isinstance(p, str):
                d = T.norm(pos - off)
                if z3.is_int_value(d) and 0 < d.as_long() < len(p):
                    self.parts[k:k + 1] = [p[:d.as_long()], p[d.as_long():]]
                    p = self.parts[k]
            off = T.norm(off + txt_len(ctx, SStr((p,))))
            k += 1
        before, rest = self.parts[:k], self.parts[k:]
        room = []
        while rest:
            p = rest[0]
            if isinstance(p, str):
                m = 0
                while m < len(p) and p[m] in FILLER:
                    m += 1
                if m:
                    room.append(p[:m])
                if m < len(p):
                    rest[0] = p[m:]
                    break
                rest.pop(0)
            elif isinstance(p, Hole) and isinstance(p.info, tuple) and p.info[0] in ("rep", "filler") \
                    and set(p.info[1]) <= FILLER:
                room.append(rest.pop(0))
            else:
                break
        total = txt_len(ctx, SStr(room)) if room else z3.IntVal(0)
        ctx.prove("a value patched in fits the space reserved for it", n <= total, ("C10", "C11"))
        # what remains of the reserved space
        left = []
        used = z3.IntVal(0)
        while room:
            p = room[0]
            ln = txt_len(ctx, SStr((p,)))
            if ctx.solver.prove(used + ln <= n)[0] != "valid":
                break
            used = T.norm(used + ln)
            room.pop(0)
        if not self.same(ctx, used, n):
            chars = set()
            for p in room:
                chars |= set(p) if isinstance(p, str) else set(p.info[1])
            kind = "ws" if chars <= set(" ") else "any"
            room = [Hole(T.fresh_txt("left"), kind, length=T.norm(total - n), info=("filler", "".join(sorted(chars))))]
        self.parts = list(SStr(tuple(before) + parts_of(s)).parts) + room + rest
        # keep the patched text apart from its surroundings
        ctx.memo.setdefault("patches", []).append(s)

    def m_truncate(self, ctx, n=None):
        ctx.interp.unsupported("truncation of the map file")

    def m_flush(self, ctx):
        self._open(ctx)
        w = ctx.world
        if ctx.choose(2, "flush"):
            w.envfail = True
            w.fail(ctx)
        ctx.write_cell(self, "dirty", False)

    def m_close(self, ctx):
        ctx.write_cell(self, "dirty", False)
        ctx.write_cell(self, "closed", True)

    def m_readable(self, ctx):
        return True

    def m___enter__(self, ctx):
        return self

    def m___exit__(self, ctx, *a):
        self.m_close(ctx)
        return False

    def truth(self, ctx):
        return True

    # -- the ranges --
    def begin(self, ctx):
        self.body = Hole(T.fresh_txt("elements"), "any", length=T.fresh_int("elements_len"), info=("BODY",))
        self.start = self.i(ctx, "end")

    def head(self, ctx):
        """at a loop head: everything since begin() is the body"""
        ctx.assume(self.body.length == self.i(ctx, "end") - self.start)
        if self.body not in self.parts:
            self.parts.append(self.body)


class Digest(Hash):
    """hash object for image bytes and for the document"""

    def __init__(self, ctx, alg):
        Hash.__init__(self, ctx, alg)
        self.docs = []
        ctx.memo.setdefault("digests", []).append(self)

    def m_update(self, ctx, buf):
        if is_bytes(buf) and not isinstance(buf, SBytes) and buf != b"":
            self.docs.append(parts_of(buf))
            return None
        return Hash.m_update(self, ctx, buf)

    def m_hexdigest(self, ctx):
        ln = DLEN(self.alg)
        ctx.solver.add(ln >= 1)
        if self.docs:
            parts = SStr(sum(self.docs, ())).parts
            bad = ctx.world.btrue(ctx.read_cell(self, "started"))
            h = Hole(T.fresh_txt("document_digest"), "hex", length=ln, info=("doc", self.alg, parts))
            if ctx.branch(bad):
                h = Hole(T.fresh_txt("mixed_digest"), "hex", length=ln)
            return mkstr([h])
        r = Hash.m_hexdigest(self, ctx)
        p = r.parts[0]
        return mkstr([Hole(p.t, "hex", length=ln)])

    def get_attribute(self, ctx, name):
        if name == "digest_size":
            q = T.fresh_int("digest_size")
            ctx.solver.add(z3.And(DLEN(self.alg) == 2 * q, q >= 1))
            return SInt(q)
        return NotImplemented


class Ranges(SeqIter):
    """the mapped ranges of the image, in order"""
    is_ranges = True

    def next_(self, ctx, default=None):
        ctx.interp.unsupported("ranges taken one by one")

    def iterate(self, ctx, body, node, fr):
        w = ctx.world
        doc = w.doc
        doc.begin(ctx)
        box = {}

        def test():
            i = T.I(int_term(ctx.read_cell(self, "i")))
            self._reg(i)
            w.psum(i)
            doc.head(ctx)
            if ctx.choose(2, "range query fails"):
                w.envfail = True
                m = ctx.interp.import_module("bmaptools.Filemap")
                raise IRaise(ctx.interp.call(m.attrs["Error"], ["query failed"], {}))
            if ctx.branch(i < self.n):
                box["i"] = i
                ctx.write_cell(self, "i", sint(i + 1))
                return True
            return False

        def run():
            i = box["i"]
            doc.acc = []
            try:
                body(self.item(ctx, i))
            except BaseException as e:
                if type(e).__name__ in ("ContinueX", "BreakX"):
                    w.check_element(ctx, i, doc.acc)
                raise
            w.check_element(ctx, i, doc.acc)
            doc.acc = None
        if not isinstance(ctx.read_cell(self, "i"), SInt):
            ctx.write_cell(self, "i", SInt(T.I(int_term(ctx.read_cell(self, "i")))))
        return ctx.cut_loop(node, test, run, "seq")


class Map(Model):
    """what Filemap.filemap() returns"""
    typename = "filemap"

    def m_get_mapped_ranges(self, ctx, start, count):
        w = ctx.world
        ctx.prove("the ranges of the whole image are asked for",
                  z3.And(T.I(int_term(start)) == 0, T.I(int_term(count)) == w.bc), ("C10",))

        def item(c, i):
            return (sint(w.iv.F(i)), sint(w.iv.L(i)))
        it = Ranges(ctx, w.N, item, "ranges", seq=w.iv)
        w.ranges = it
        return it


class CreateWorld(World):
    def __init__(self, ctx):
        World.__init__(self, ctx)
        I = lambda n: T.keep(z3.Int(n))         # noqa
        s = ctx.solver
        self.envfail = False
        self.bs, self.IMG, self.bc, self.N, self.KB = I("bs"), I("image_size"), I("blocks_cnt"), I("ranges"), I("KB")
        T.set_positive(self.bs)
        ctx.assume(z3.And(self.bs >= 1, self.bs <= 2 ** 31, self.IMG >= 0, self.IMG < 2 ** 63 - 2 ** 32, self.N >= 0))
        # a one-byte image on a file system with blocks above 512 KiB is left out
        ctx.assume(z3.Or(self.IMG != 1, self.bs <= 2 ** 19))
        q, _ = s.floordiv(self.IMG + self.bs - 1, self.bs)
        ctx.assume(self.bc == q)
        s.register(self.bc, self.bs)
        self.iv = IvSeq(ctx, "ranges", self.N, self.KB, lo=0, hi=self.bc - 1, touching=True)
        self.iv.base()
        ctx.assume(PS(z3.IntVal(0)) == 0)
        self.alg0 = z3.Const("checksum_type", T.Txt)
        self.known = T.keep(z3.Bool("checksum_type_known"))
        self.image_path = mkstr([Hole(z3.Const("imgpath", T.Txt), "nonempty")])
        self.bmap_path = mkstr([Hole(z3.Const("bmappath", T.Txt), "nonempty")])
        self.image = self.doc = None
        self.opened = []
        self.alg = None

    def btrue(self, v):
        return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))

    def psum(self, i):
        c = self.ctx
        i = T.norm(T.I(i))
        for j in (i - 1, i):
            j = T.norm(j)
            self.iv.at(j)
            for t in (self.iv.Ff(j), self.iv.Lf(j), self.iv.Lf(j) + 1):
                c.solver.register(T.norm(t), self.bs)
            c.solver.add(z3.Implies(z3.And(j >= 0, j < self.N),
                                    PS(T.norm(j + 1)) == PS(j) + self.iv.Lf(j) - self.iv.Ff(j) + 1))

    def hashlib_new(self, ctx, name, *a):
        t = txt_term(ctx, name)
        if not ctx.branch(self.known):
            ctx.interp.throw("ValueError", "unsupported hash type")
        h = Digest(ctx, t)
        if a:
            h.m_update(ctx, a[0])
        return h

    def open(self, ctx, path, mode="r", *a, **k):
        if not is_text(path):
            ctx.interp.unsupported("open of %r" % (path,))
        mode = mode if isinstance(mode, str) else "r"
        if is_text(path) and text_eq_(ctx, path, self.image_path):
            if ctx.choose(2, "open image"):
                self.envfail = True
                self.fail(ctx)
            if any(c in mode for c in "wa+x"):
                ctx.prove("the image is only opened for reading", False, ("C10",))
                raise PathEnd("image opened for writing")
            f = self.image = Image(ctx, owned=True)
        elif text_eq_(ctx, path, self.bmap_path):
            if ctx.choose(2, "open map"):
                self.envfail = True
                self.fail(ctx)
            ctx.prove("the map file is started afresh", "w" in mode and "+" in mode and "b" not in mode, ("C11",))
            f = self.doc = Doc(ctx, owned=True)
        else:
            ctx.interp.unsupported("open of %r" % (path,))
        self.opened.append(f)
        return f

    # -- what a reader sees --
    def tokens(self, parts):
        """text with one private character per symbolic value; table"""
        table, out = {}, []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
                continue
            if isinstance(p, Hole) and p.info and p.info[0] == "BODY":
                out.append("<Range> - </Range>")
                continue
            if isinstance(p, Hole) and (p.kind == "ws" or p.info and p.info[0] in ("rep", "filler") and set(p.info[1]) <= set(" ")):
                out.append(" ")
                continue
            c = chr(0xE000 + len(table))
            table[c] = p
            out.append(c)
        return "".join(out), table

    def check_element(self, ctx, i, acc):
        text, table = self.tokens(acc)
        tags = ("C10", "C11")
        try:
            e = ET.fromstring("<B>" + text + "</B>")
        except ET.ParseError:
            ctx.prove("an element of the map is well-formed", False, tags)
            return
        kids = list(e)
        one = len(kids) == 1 and kids[0].tag == "Range" and len(kids[0]) == 0 and \
            not (e.text or "").strip() and not (kids[0].tail or "").strip()
        ctx.prove("exactly one Range element is written for every mapped range", one, tags)
        if not one:
            return
        r = kids[0]
        F, L = self.iv.F(i), self.iv.L(i)
        num = [x.strip() for x in (r.text or "").strip().split("-")]

        def val(x):
            p = table.get(x)
            if isinstance(p, IntHole):
                return T.I(p.t)
            return z3.IntVal(int(x)) if x.isdigit() else None
        vals = [val(x) for x in num]
        ok = len(vals) in (1, 2) and None not in vals
        ctx.prove("a Range element names one block or the first and last of several", ok, tags)
        if ok:
            ctx.prove("a Range element names the blocks of its range", z3.And(vals[0] == F, vals[-1] == L), tags)
        extra = set(r.attrib) - {"chksum"}
        ctx.prove("a Range element carries no attribute but its checksum", not extra, tags)
        if not self.include:
            ctx.prove("without checksums no range carries one", not r.attrib, ("C10",))
        else:
            d = table.get(r.attrib.get("chksum"))
            ctx.prove("with checksums every range carries a digest", isinstance(d, Hole) and d.kind == "hex", ("C10",))
            if isinstance(d, Hole):
                m = ctx.solver.mul
                lo, hi = m(F, self.bs), m(L + 1, self.bs)
                n = z3.If(hi <= self.IMG, hi, self.IMG) - lo
                want = DIG(self.alg, T.norm(lo), T.norm(n))
                g = d.t
                if g.decl().eq(DIG):
                    ctx.prove("the digest of a range is that of exactly its bytes",
                              z3.And(g.arg(0) == self.alg, g.arg(1) == lo, g.arg(2) == n), ("C10",))
                else:
                    ctx.prove("the digest of a range is that of exactly its bytes", g == want, ("C10",))
        ctx.engine.cover("several blocks" if len(num) == 2 else "one block")

    def check_doc(self, ctx):
        tags = ("C11",)
        both = ("C10", "C11")
        parts = list(self.doc.parts)
        text, table = self.tokens(parts)
        try:
            root = ET.fromstring(text.encode("utf-8"))
        except ET.ParseError:
            ctx.prove("the document is well-formed", False, tags)
            return
        ctx.prove("the document is well-formed", True, tags)
        ctx.prove("the document is a bmap of version 2.0", root.tag == "bmap" and root.attrib.get("version") == "2.0", tags)
        bms = root.findall("BlockMap")
        ctx.prove("the elements are inside the BlockMap element",
                  len(bms) == 1 and [(x.tag, x.text) for x in bms[0]] == [("Range", " - ")] and
                  len(root.findall(".//Range")) == 1 if self.doc.body in parts else len(bms) == 1, both)

        def field(name):
            es = root.findall(name)
            ctx.prove("the document states %s once" % name, len(es) == 1 and len(es[0]) == 0, both)
            if len(es) != 1:
                return None
            t = (es[0].text or "").strip()
            return t

        def number(name, want):
            t = field(name)
            if t is None:
                return
            p = table.get(t)
            v = T.I(p.t) if isinstance(p, IntHole) else z3.IntVal(int(t)) if t.isdigit() else None
            ctx.prove("%s is that of the image" % name, False if v is None else v == want, both)
        number("ImageSize", self.IMG)
        number("BlockSize", self.bs)
        number("BlocksCount", self.bc)
        number("MappedBlocksCount", PS(self.N))
        t = field("ChecksumType")
        if t is not None:
            p = table.get(t)
            ctx.prove("the named checksum type is the one used",
                      isinstance(p, Hole) and text_eq_(ctx, mkstr([p]), self.algtext), tags)
        t = field("BmapFileChecksum")
        if t is None:
            return
        d = table.get(t)
        info = d.info if isinstance(d, Hole) else None
        ctx.prove("the recorded file checksum is a digest of the document", bool(info) and info[0] == "doc", tags)
        if info and info[0] == "doc":
            ctx.prove("the file checksum is computed with the named algorithm", info[1] == self.alg, tags)
            want = []
            for p in parts:
                if p is d:
                    want.append(Hole(z3.Const("zeroes", T.Txt), "rep", length=d.length, info=("rep", "0")))
                else:
                    want.append(p)
            ctx.prove("the file checksum is that of the final contents with its field zeroed",
                      self.same_text(ctx, SStr(want).parts, info[2]), tags)

    def same_text(self, ctx, a, b):
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return False
                continue
            if isinstance(x, Hole) and isinstance(y, Hole) and x.info and y.info and x.info[0] == y.info[0] == "rep":
                if x.info[1] != y.info[1]:
                    return False
                fs.append(T.I(x.length) == T.I(y.length))
                continue
            if not x.same(y):
                return False
        return z3.And(fs) if fs else True


def text_eq_(ctx, a, b):
    r = text_eq(ctx, a, b)
    if isinstance(r, bool):
        return r
    if isinstance(r, SBool):
        r = r.t
    return ctx.solver.prove(r)[0] == "valid"


def human_len(ctx, t):
    """length of human_size(t): proved by unit create.human"""
    t = T.norm(T.I(t))
    n = HLEN(t)
    ctx.solver.add(z3.And(z3.Implies(t == 1, n == 6),
                          z3.Implies(z3.And(t >= 0, t != 1, t < 2 ** 50), z3.And(n >= 7, n <= 10)),
                          z3.Implies(z3.And(t >= 0, t <= 2 ** 19), n <= 9),
                          z3.Implies(z3.And(t >= 2 ** 50, t < 2 ** 53), n <= 10),
                          z3.Implies(z3.And(t >= 2 ** 50, t < 2 ** 63 + 2 ** 33), z3.And(n >= 10, n <= 13))))
    return n


def human_contract(ip, f, a, k):
    v = a[0] if a else k["size"]
    if not isinstance(v, (int, SInt)):
        return mkstr([Hole(T.fresh_txt("human"), "human")])
    t = T.norm(T.I(int_term(v)))
    ip.ctx.prove("sizes are not negative", t >= 0, ("C10", "C11"))
    fn = z3.Function("human_size", z3.IntSort(), T.Txt)
    return mkstr([Hole(fn(t), "human", length=human_len(ip.ctx, t), info=("human", t))])


def filemap_contract(ip, f, a, k):
    ctx = ip.ctx
    w = ctx.world
    m = ip.import_module("bmaptools.Filemap")
    ctx.prove("the map of the image is queried", a and a[0] is w.image, ("C10",))
    r = ctx.choose(3, "filemap")
    if r:
        w.envfail = w.mapfail = True
        raise IRaise(ip.call(m.attrs[("Error", "ErrorNotSupp")[r - 1]], ["not possible"], {}))
    o = Map(ctx, "filemap")
    o.dyn["image_size"] = SInt(w.IMG)
    o.dyn["block_size"] = SInt(w.bs)
    o.dyn["blocks_cnt"] = SInt(w.bc)
    return o


def create_hints(ctx, view):
    w = ctx.world
    out = []
    if not isinstance(w, CreateWorld) or w.image is None:
        return out
    it = getattr(w, "ranges", None)
    if it is not None and view.is_mod(it, "i"):
        ri = lambda: T.I(int_term(it.attrs["i"]))         # noqa
        for k, x in view.ints:
            out.append((("ps", k), lambda x=x: x() == PS(ri())))
            out.append((("psl", k), lambda x=x: z3.Implies(ri() > 0, x() <= w.iv.Lf(T.norm(ri() - 1)) + 1)))
            out.append((("psn", k), lambda x=x: x() >= 0))
    if view.is_mod(w.image, "pos"):
        P0 = view.L.entry_map.get((w.image.label, "pos"))
        if P0 is not None:
            pos = lambda: T.I(int_term(w.image.attrs["pos"]))         # noqa
            mn = lambda t: z3.If(t <= w.IMG, t, w.IMG)         # noqa
            for k, x in view.counts:
                if k[0] == w.image.label:
                    continue
                out.append((("mp", k), lambda x=x: pos() == mn(P0 + x())))
                out.append((("mq", k), lambda x=x: pos() == mn(x())))
                for kb, ln, _ in view.byte_strings:
                    b0 = view.L.entry_blen.get(kb)
                    if b0 is not None:
                        out.append((("mb", k, kb), lambda x=x, ln=ln, q=P0 - b0: pos() == q + x() + ln()))
                for ka, a in view.anchors:
                    if ka[0] not in ("c", "h", "e"):
                        out.append((("mr", k, ka), lambda x=x, a=a: pos() == mn(P0 + z3.If(x() <= a, x(), a))))
            for h in ctx.memo.get("digests", ()):
                if view.is_mod(h, "len"):
                    st = lambda h=h: w.btrue(h.attrs["started"])         # noqa
                    hl = lambda h=h: T.I(int_term(h.attrs["len"]))         # noqa
                    ho = lambda h=h: T.I(int_term(h.attrs["off"]))         # noqa
                    out.append((("hs", h.label), lambda: z3.Implies(st(), z3.And(ho() == P0, hl() == pos() - P0))))
                    out.append((("hn", h.label), lambda: z3.Implies(z3.Not(st()), pos() == P0)))
                    for k, ln, starts in view.byte_strings:
                        b0 = view.L.entry_blen.get(k)
                        if b0 is not None:
                            # what was read ahead before the loop
                            out.append((("ha", k, h.label), lambda hl=hl, ho=ho, st=st, ln=ln, s=starts, q=P0 - b0: z3.And(
                                z3.Implies(st(), z3.And(ho() == q, hl() == pos() - q - ln(), s(q + hl()))),
                                z3.Implies(z3.Not(st()), z3.And(pos() == q + ln(), s(q))))))
                        out.append((("he", k), lambda ln=ln: z3.Implies(ln() == 0, pos() >= w.IMG)))
                        for kx, x in view.ints:
                            for ka, a in view.anchors:
                                if ka[0] not in ("c", "h", "e") and kx[0] != w.image.label:
                                    out.append((("he", k, kx, ka), lambda ln=ln, x=x, a=a: z3.Implies(
                                        ln() == 0, z3.Or(pos() >= w.IMG, x() >= a))))
                    out.append((("hb", h.label), lambda h=h: z3.Not(w.btrue(h.attrs["bad"]))))
    return out


def create_setup(eng):
    eng.contracts["BmapHelpers.human_size"] = Contract(human_contract)
    eng.contracts["Filemap.filemap"] = Contract(filemap_contract)
    eng.hints.append(create_hints)
    eng.anchors.append(lambda ctx: [("bc", ctx.world.bc)])
    eng.scales.append(lambda ctx: [])


def build(ctx, ip, w, image, bmap):
    """construct the real BmapCreate; ends the path when it refuses"""
    mod = ip.import_module("bmaptools.BmapCreate")
    cs = mkstr([Hole(w.alg0, "word")])
    w.algtext = ip.call(ip.getattr(cs, "lower"), [], {})
    w.alg = txt_term(ctx, w.algtext)
    w.mapfail = False
    st, o = outcome(ip, lambda: ip.call(mod.attrs["BmapCreate"], [image, bmap, cs], {}))
    if st == "raise":
        ctx.prove("the constructor raises only the module's error: %s" % excname(o),
                  isexc(ip, o, mod.attrs["Error"]), ("C10",))
        ctx.prove("an image is refused only if it is empty, its map cannot be queried or opening failed: %s" % excname(o),
                  z3.Or(w.envfail, z3.Not(w.known), w.IMG == 0), ("C10",))
        if not w.envfail and ctx.solver.prove(w.IMG == 0)[0] == "valid":
            ctx.engine.cover("empty image refused")
    else:
        ctx.prove("an image of size zero is refused", w.IMG >= 1, ("C10",))
        ctx.prove("an unknown checksum type is refused", w.known, ("C11",))
        ctx.prove("a failing map query is an error", not w.envfail, ("C10",))
    return mod, st, o


@unit("create.generate", ["C10", "C11"], create_setup, expect=("generated", "one block", "several blocks"),
      variants=(True, False))
def generate(ctx, include):
    ip, w = make(ctx, CreateWorld)
    w.include = include
    p0 = ctx.new_int("image_pos", 0)
    w.image = Image(ctx, SInt(p0))
    w.doc = Doc(ctx)
    mod, st, o = build(ctx, ip, w, w.image, w.doc)
    if st == "raise":
        raise PathEnd("refused")
    args = [] if include else [False]
    if include and ctx.choose(2, "explicit"):
        args = [True]
    st, v = outcome(ip, lambda: method(ip, o, "generate", *args))
    if st == "raise":
        ctx.prove("generating a map fails only if the environment fails: %s" % excname(v), w.envfail, ("C10", "C11"))
        return
    ctx.prove("a failure while generating is not silent", not w.envfail, ("C10", "C11"))
    ctx.prove("every range of the image was listed", T.I(int_term(ctx.read_cell(w.ranges, "i"))) == w.N
              if hasattr(w, "ranges") else False, ("C10",))
    w.check_doc(ctx)
    ctx.prove("the read position of the image is restored",
              T.I(int_term(ctx.read_cell(w.image, "pos"))) == p0, ("C10",))
    ctx.prove("the document is flushed", w.doc.attrs["dirty"] is False, ("C11",))
    ctx.prove("files handed in by the caller stay open",
              ctx.read_cell(w.image, "closed") is False and ctx.read_cell(w.doc, "closed") is False, ("C10",))
    m = ip.getattr(o, "mapped_cnt")
    ctx.prove("the reported mapped count is the sum of the range lengths", T.I(int_term(m)) == PS(w.N), ("C10",))
    ctx.engine.cover("generated")


@unit("create.own", ["C10", "C11", "C23"], create_setup,
      expect=("constructed", "constructor failed", "empty image refused"),
      variants=("object/object", "object/path", "path/object", "path/path"))
def own(ctx, var):
    ip, w = make(ctx, CreateWorld)
    img, bm = var.split("/")
    if img == "object":
        w.image = Image(ctx, SInt(ctx.new_int("image_pos", 0)))
    if bm == "object":
        w.doc = Doc(ctx)
    image = w.image or w.image_path
    bmap = w.doc or w.bmap_path
    mod = ip.import_module("bmaptools.BmapCreate")
    # an instance whose constructor raised is destroyed as well
    cls = mod.attrs["BmapCreate"]
    inst = []
    nat = ip.builtins["object"]
    hold = Obj(ctx, cls)
    cs = mkstr([Hole(w.alg0, "word")])
    w.algtext = ip.call(ip.getattr(cs, "lower"), [], {})
    w.alg = txt_term(ctx, w.algtext)
    init, _ = cls.lookup("__init__")
    st, v = outcome(ip, lambda: ip.call(BoundMethod(init, hold), [image, bmap, cs], {}))
    if st == "raise":
        ctx.prove("the constructor raises only the module's error: %s" % excname(v), isexc(ip, v, mod.attrs["Error"]), ("C10",))
        ctx.prove("an image is refused only if it is empty, its map cannot be queried or opening failed: %s" % excname(v),
                  z3.Or(w.envfail, z3.Not(w.known), w.IMG == 0), ("C10",))
        ctx.engine.cover("constructor failed")
        if not w.envfail and ctx.solver.prove(w.IMG == 0)[0] == "valid":
            ctx.engine.cover("empty image refused")
    else:
        ctx.prove("an image of size zero is refused", w.IMG >= 1, ("C10",))
        ctx.prove("an unknown checksum type is refused", w.known, ("C11",))
        ctx.prove("a failing map query is an error", not w.envfail, ("C10",))
        ctx.engine.cover("constructed")
        for n in ("image", "bmap"):
            f = w.image if n == "image" else w.doc
            ctx.prove("the %s is open while it is in use" % n, ctx.read_cell(f, "closed") is False, ("C23",))
    d, _ = cls.lookup("__del__")
    if d is not None:
        k, e = outcome(ip, lambda: ip.call(BoundMethod(d, hold), [], {}))
        ctx.prove("destroying the object raises nothing%s" % (": " + excname(e) if k == "raise" else ""), k == "ok", ("C23",))
    if img == "object":
        ctx.prove("an image object handed in stays open", ctx.read_cell(w.image, "closed") is False, ("C23",))
    if bm == "object":
        ctx.prove("a map object handed in stays open", ctx.read_cell(w.doc, "closed") is False, ("C23",))
    for f in w.opened:
        ctx.prove("a file opened from a path is closed when the object goes away",
                  ctx.read_cell(f, "closed") is True, ("C23",))


@unit("create.human", ["C11"], expect=("rendered",))
def human(ctx, var):
    """length of human_size(): the contract used for the reserved space"""
    ip, w = make(ctx, World)
    mod = ip.import_module("bmaptools.BmapHelpers")
    n = T.keep(z3.Int("size"))
    ctx.assume(z3.And(n >= 0, n < 2 ** 63 + 2 ** 33))
    k, v = outcome(ip, lambda: call(ip, mod.attrs["human_size"], SInt(n)))
    ctx.prove("every size can be rendered", k == "ok" and is_text(v), ("C11",))
    if k != "ok":
        return
    ln = txt_len(ctx, v)
    f = z3.And(z3.Implies(n == 1, ln == 6),
               z3.Implies(z3.And(n != 1, n < 2 ** 50), z3.And(ln >= 7, ln <= 10)),
               z3.Implies(n <= 2 ** 19, ln <= 9),
               z3.Implies(z3.And(n >= 2 ** 50, n < 2 ** 53), ln <= 10),
               z3.Implies(n >= 2 ** 50, z3.And(ln >= 10, ln <= 13)))
    ctx.prove("the rendered size has the length the layout relies on", f, ("C11",))
    for p in parts_of(v):
        ctx.prove("a rendered size can stand in a comment", "--" not in p and "<" not in p if isinstance(p, str)
                  else isinstance(p, (IntHole, RealHole)), ("C11",))
    ctx.engine.cover("rendered")
