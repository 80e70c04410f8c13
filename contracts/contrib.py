"""C21: the standalone writer script contrib/bmap_write.py, run as a whole.

Image, output and the elements of the map enter with the contracts of
contracts/copy.py; K is an arbitrary byte of the image."""
from .common import *
from .copy import CopyWorld, Image, Dest, BmapFile, PSUM
from .helpers import rope_same

TAGS = ("C21",)


class CImage(Image):
    def __init__(self, ctx):
        Image.__init__(self, ctx)
        self.attrs["closed"] = False

    def m_seek(self, ctx, off, whence=0):
        w = ctx.world
        if whence != 0:
            ctx.interp.unsupported("image seek with whence")
        w.env(ctx, "image seek")
        ctx.write_cell(self, "pos", sint(T.I(int_term(off))))
        return off

    def m_fileno(self, ctx):
        return ctx.world.fd(ctx, self)

    def m_close(self, ctx):
        ctx.write_cell(self, "closed", True)

    def m___enter__(self, ctx):
        return self

    def m___exit__(self, ctx, *a):
        self.m_close(ctx)
        return False


class COut(Dest):
    def m_flush(self, ctx):
        if ctx.read_cell(self, "udirty") is not False:
            Dest.m_flush(self, ctx)

    def truncate(self, ctx, n):
        w = ctx.world
        if n is None:
            ctx.interp.unsupported("truncate at the current position")
        n = T.I(int_term(n))
        if ctx.choose(2, "resize"):
            # not every output can be resized
            ctx.gset("noresize", True)
            w.fail(ctx, 22)
        ctx.prove("the output is only resized to the recorded size", n == w.size, TAGS)
        ctx.write_cell(self, "size", sint(n))
        ctx.write_cell(self, "kdirty", True)
        ctx.write_cell(self, "written", wrapb(z3.And(w.btrue(ctx.read_cell(self, "written")), w.K < n)))

    def m_close(self, ctx):
        self.m_flush(ctx)

    def m___enter__(self, ctx):
        return self

    def m___exit__(self, ctx, *a):
        self.m_close(ctx)
        return False


class ContribWorld(CopyWorld):
    def __init__(self, ctx):
        CopyWorld.__init__(self, ctx, "bmap2.0", "reg", False, "sane")
        self.quiet = False
        self.image = CImage(ctx)
        self.dest = COut(ctx, "reg")
        self.dest.attrs["size"] = 0
        ctx.G.attrs["noresize"] = False
        P = lambda n: mkstr([Hole(z3.Const(n, T.Txt), "nonempty")])        # noqa
        self.raw, self.out, self.root, self.extn = P("raw_path"), P("out_path"), P("raw_root"), mkstr(
            [Hole(z3.Const("raw_ext", T.Txt))])
        self.bmap = mkstr(list(parts_of(self.root)) + [".bmap"])
        self.argc = None
        self.missing = set()
        self.opened = set()
        self.openfail = False
        ctx.assume(z3.And(txt_term(ctx, self.raw) != txt_term(ctx, self.out),
                          txt_term(ctx, self.bmap) != txt_term(ctx, self.out)))

    def argv(self, ctx):
        if "argv" not in ctx.memo:
            self.argc = (3, 1, 2, 4)[ctx.choose(4, "arguments")]
            prog = mkstr([Hole(z3.Const("prog", T.Txt), "nonempty")])
            ctx.memo["argv"] = IList(ctx, [prog, self.raw, self.out, "extra"][:self.argc])
        return ctx.memo["argv"]

    def which(self, ctx, p):
        for n in ("raw", "out", "bmap"):
            if is_text(p) and rope_same(p, getattr(self, n)):
                return n
        ctx.prove("only the image, its map and the output are used", False, TAGS)
        raise PathEnd("other file")

    def path_splitext(self, ctx, p):
        if self.which(ctx, p) != "raw":
            ctx.interp.unsupported("splitext of another path")
        return (self.root, self.extn)

    def path_isfile(self, ctx, p):
        n = self.which(ctx, p)
        k = ("isfile", n)
        if k not in ctx.memo:
            ctx.memo[k] = not ctx.choose(2, "isfile")
            if not ctx.memo[k]:
                self.missing.add(n)
        return ctx.memo[k]

    path_exists = path_isfile

    def open(self, ctx, p, mode="r", *a, **k):
        n = self.which(ctx, p)
        ctx.prove("files are opened in the proper mode",
                  mode in {"raw": ("rb",), "bmap": ("r", "rb", "rt"), "out": ("wb", "wb+", "w+b", "xb")}[n], TAGS)
        if ctx.choose(2, "open"):
            self.openfail = True
            ctx.gset("cfail", True)
            self.fail(ctx)
        if n in self.opened:
            ctx.interp.unsupported("opened twice")
        self.opened.add(n)
        return {"raw": self.image, "out": self.dest, "bmap": BmapFile(ctx)}[n]

    io_open = open

    def et_parse(self, ctx, f):
        if is_text(f):
            ctx.prove("the map is the one that belongs to the image", self.which(ctx, f) == "bmap", TAGS)
        elif not isinstance(f, BmapFile):
            ctx.interp.unsupported("parse of %r" % (f,))
        if ctx.choose(2, "well-formed"):
            ctx.gset("cfail", True)
            ctx.interp.throw(EXT["xml.etree.ElementTree.ParseError"], "malformed")
        self.parsed = True
        return CopyWorld.et_parse(self, ctx, f)

    def reader_touch(self, ctx, what):
        pass

    writer_touch = lambda self, ctx: None       # noqa

    def on_stream(self, ctx, st, s):
        pass


def contrib_hints(ctx, view):
    w = ctx.world
    if not isinstance(w, ContribWorld):
        return []
    out = []
    its = [it for it in ctx.memo.get("seqiters", ()) if getattr(it, "is_ranges", False)]
    it = its[-1] if its else None
    img, dest, iv, mul, bs = w.image, w.dest, w.iv, ctx.solver.mul, w.bs
    cell = lambda o, n: T.I(int_term(o.attrs[n]))       # noqa
    if it is None:
        return []
    i = lambda: T.I(int_term(it.attrs["i"]))        # noqa
    wr = lambda: w.btrue(dest.attrs["written"])         # noqa
    out.append((("pend",), lambda: z3.Implies(w.consistent, z3.And(cell(dest, "pend") <= w.IMG, cell(dest, "size") <= w.IMG))))
    out.append((("size",), lambda: z3.Or(w.gb("noresize"), z3.Not(w.consistent), cell(dest, "size") == w.size)))
    out.append((("nofail",), lambda: z3.Not(z3.Or(w.gb("cfail"), w.gb("pfail")))))
    if view.is_mod(it, "i"):
        out.append((("K",), lambda: z3.Implies(z3.And(iv.cov, iv.j < i(), w.K < w.IMG), wr())))
        return out
    c = lambda: iv.at(T.norm(i() - 1))           # noqa
    skip = {(img.label, "pos"), (dest.label, "pos"), (dest.label, "size"), (dest.label, "pend"), (dest.label, "since")}
    pos, opos = (lambda: cell(img, "pos")), (lambda: cell(dest, "pos"))
    out.append((("opos",), lambda: opos() == pos()))
    for k, x in view.ints:
        if k in skip:
            continue
        for kind in range(4):
            def blk(x=x, kind=kind):
                F, L = iv.Ff(c()), iv.Lf(c())
                return (F + x(), x(), L + 1 - x(), x() + 1)[kind]
            out.append((("rng", k, kind), lambda blk=blk: z3.And(blk() >= iv.Ff(c()), blk() <= iv.Lf(c()) + 1)))
            out.append((("pos", k, kind), lambda blk=blk: z3.Or(
                z3.And(pos() == mul(blk(), bs), z3.Or(pos() <= w.IMG, blk() == iv.Ff(c()))),
                z3.And(pos() < mul(blk(), bs), z3.Or(pos() == w.IMG, z3.And(
                    pos() == mul(iv.Ff(c()), bs), pos() >= w.IMG))))))
            out.append((("K", k, kind), lambda blk=blk: z3.Implies(z3.And(
                iv.cov, w.K < w.IMG, z3.Or(iv.j < c(), z3.And(iv.j == c(), w.KB < blk()))), wr())))
    return out


def contrib_setup(eng):
    eng.hints.append(contrib_hints)
    eng.tag_alias = {"C01": "C21", "C02": "C21"}


@unit("contrib.script", ["C21"], contrib_setup, expect=("succeeded", "refused", "failed", "writes"))
def script(ctx, var):
    ip, w = make(ctx, ContribWorld)
    w.parsed = False
    st, v = outcome(ip, lambda: ip.import_module("contrib.bmap_write", "__main__"))
    bad_args = w.argc is not None and w.argc != 3 or bool(w.missing & {"raw", "bmap"})
    if st == "raise" and isexc(ip, v, "SystemExit"):
        a = v.attrs.get("args")
        code = a[0] if a else None
        fail = code not in (0, None, False)
        if bad_args:
            ctx.prove("a refused run ends with a failure", fail, TAGS)
            ctx.prove("a refused run does not touch the output", "out" not in w.opened, TAGS)
            ctx.engine.cover("refused")
            return
        if fail:
            ctx.prove("the script fails only if its environment fails", w.gb("cfail"), TAGS)
            return
        st = "ok"
    ctx.prove("a run with a wrong number of arguments or missing files is refused",
              not bad_args or st == "raise" and "out" not in w.opened, TAGS)
    if st == "raise":
        ctx.prove("the script fails only if its environment fails or the map does not fit the image: %s" % excname(v),
                  z3.Or(z3.BoolVal(bool(bad_args)), w.gb("cfail"), w.gb("pfail"), z3.Not(w.consistent)), TAGS)
        ctx.engine.cover("failed")
        return
    ctx.prove("a failing read, write or synchronisation is not silent", z3.Not(z3.Or(w.gb("cfail"), w.gb("pfail"))), TAGS)
    ctx.prove("the output is written", "out" in w.opened and w.parsed, TAGS)
    d = w.dest
    ctx.prove("all mapped data of the image is written",
              z3.Implies(z3.And(w.iv.cov, w.K < w.IMG, w.consistent), w.btrue(d.attrs["written"])), TAGS)
    size = T.I(int_term(d.attrs["size"]))
    ctx.prove("the output has the recorded size", z3.Or(w.gb("noresize"), z3.Not(w.consistent), size == w.size), TAGS)
    ctx.prove("the output was flushed and synchronised when the script succeeds",
              z3.And(z3.Not(w.btrue(d.attrs["udirty"])), z3.Not(w.btrue(d.attrs["kdirty"]))), TAGS)
    ctx.engine.cover("succeeded")
