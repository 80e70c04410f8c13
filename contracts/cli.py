"""C15 C16 C17 (and the create command of C10, C11): the command line (bmaptools/CLI.py).

main() is executed with the classes behind it (TransRead, BmapCopy, BmapCreate)
replaced by their contracts: a constructor fails with any of its errors or gives
an object whose operations fail or succeed.  Everything outside, argument lists
included, is arbitrary.  The real argparse parses argument lists in which every
path is a placeholder for an arbitrary text."""
import argparse
import ast
import contextlib
import io
import os

from pyvc.builtins_ import rope_key, without_suffix, prefix_atom
from .common import *
from .helpers import SimpleCM, rope_same

T15, T16, T17 = ("C15",), ("C16",), ("C17",)
FLAGS = ("quiet", "debug", "bmap", "nobmap", "bmap_sig", "no_sig_verify", "no_verify", "psplash_pipe")
OPTION = {"quiet": "-q", "debug": "-d", "bmap": "--bmap", "nobmap": "--nobmap", "bmap_sig": "--bmap-sig",
          "no_sig_verify": "--no-sig-verify", "no_verify": "--no-verify", "psplash_pipe": "--psplash-pipe"}
VALUED = ("bmap", "bmap_sig", "psplash_pipe")
PLACE = {"image": "\ue001image", "dest": "\ue001dest", "bmap": "\ue001bmap", "bmap_sig": "\ue001sig",
         "psplash_pipe": "\ue001pipe", "output": "\ue001out"}
EXT["gpg"] = lambda ctx: ctx.world.gpg_module(ctx)
EXT["gpg.Context"] = Builtin("gpg.Context", lambda c, a, k: c.world.gpg_Context(c, *a, **k))
_gpgerr = ClassVal("GPGMEError", [BUILTINS["Exception"]], {
    "getstring": Builtin("GPGMEError.getstring", lambda c, a, k: mkstr([Hole(T.fresh_txt("gpgmsg"))])),
    "getcode": Builtin("GPGMEError.getcode", lambda c, a, k: SInt(c.new_int("gpgcode")))}, native=None)
for _n in ("getstring", "getcode"):
    _gpgerr.ns[_n].is_method = True
EXT["gpg.errors.GPGMEError"] = _gpgerr
EXT["gpg.errors.BadSignatures"] = ClassVal("BadSignatures", [BUILTINS["Exception"]], {}, native=None)
EXT["gpg.errors.KeyNotFound"] = ClassVal("KeyNotFound", [_gpgerr], {}, native=None)
for _n, _v in (("VALID", 1), ("GREEN", 2), ("RED", 4), ("KEY_REVOKED", 16), ("KEY_EXPIRED", 32), ("SIG_EXPIRED", 64),
               ("KEY_MISSING", 128), ("CRL_MISSING", 256), ("CRL_TOO_OLD", 512), ("BAD_POLICY", 1024), ("SYS_ERROR", 2048)):
    EXT["gpg.constants.SIGSUM_" + _n] = _v
BITS = 13


def never(ctx, f):
    return ctx.solver.prove(z3.Not(f))[0] == "valid"


# ---------------------------------------------------------------------------
class Named(SimpleCM):
    """anything open; answers who it is through wrappers"""
    is_file = True

    def __init__(self, ctx, label):
        Model.__init__(self, ctx, label)
        self.attrs.update(pos=0, shut=False)

    def get_attribute(self, ctx, name):
        if name == "vp_identity":
            return self
        if name == "closed":
            return ctx.read_cell(self, "shut")
        return NotImplemented

    def truth(self, ctx):
        return True

    def alive(self, ctx):
        if ctx.read_cell(self, "shut"):
            ctx.interp.throw("ValueError", "I/O operation on closed file")

    def m_close(self, ctx):
        ctx.write_cell(self, "shut", True)

    def m_tell(self, ctx):
        self.alive(ctx)
        return ctx.read_cell(self, "pos")

    def m_seek(self, ctx, off, whence=0):
        self.alive(ctx)
        if whence == 1 and off == 0:
            return ctx.read_cell(self, "pos")
        if whence != 0:
            off = SInt(ctx.new_int("pos", 0))
        self.flushed(ctx)
        ctx.write_cell(self, "pos", off)
        return off

    def flushed(self, ctx):
        pass

    def m_flush(self, ctx):
        self.alive(ctx)
        self.flushed(ctx)

    def m_fileno(self, ctx):
        self.alive(ctx)
        return Fd(ctx, self)

    def whole(self, ctx):
        """what a reader of this object gets from now on: the key of a complete file, or None"""
        p = ctx.read_cell(self, "pos")
        return self.key if isinstance(p, int) and p == 0 and not ctx.read_cell(self, "shut") else None


class Reader(Named):
    """an open TransRead object: contract of the class (C12, C13, C22)"""
    typename = "TransRead"

    def __init__(self, ctx, key, path, url, role):
        Named.__init__(self, ctx, "reader of " + role)
        self.key, self.path, self.url, self.role = key, path, url, role
        self.size_t = ctx.new_int("length", 0)
        self.sized = not url and not (role == "image" and ctx.world.pick("size", 2))

    def m_read(self, ctx, n=-1):
        self.alive(ctx)
        if ctx.world.pick("read", 2):
            raise IRaise(ctx.world.trans_error(ctx))
        p = T.I(int_term(ctx.read_cell(self, "pos")))
        left = T.norm(self.size_t - p)
        if n is None or isinstance(n, int) and n < 0:
            ctx.write_cell(self, "pos", sint(self.size_t))
            return SBytes(self.label, p, left)
        got = T.fresh_int("got")
        n = T.I(int_term(n))
        ctx.assume(z3.And(got >= 0, got <= n, got <= left, z3.Implies(z3.And(n > 0, left > 0), got > 0)))
        ctx.write_cell(self, "pos", sint(p + got))
        return SBytes(self.label, p, got)

    def get_attribute(self, ctx, name):
        if name == "name":
            return self.path
        if name == "is_url":
            return self.url
        if name == "is_compressed":
            return free_bool(ctx, "compressed")
        if name == "size":
            return SInt(self.size_t) if self.sized else None
        return Named.get_attribute(self, ctx, name)

    def m_readable(self, ctx):
        return True


class Tmp(Named):
    """a temporary file; key is what it holds once it was filled"""
    typename = "file"

    def __init__(self, ctx, text, named):
        Named.__init__(self, ctx, "temporary file")
        self.key, self.text = None, text
        self.size_t = ctx.new_int("length", 0)
        self.attrs["dirty"] = False
        self.name = mkstr([Hole(T.fresh_txt("tmpname"), "nonempty")]) if named else SInt(ctx.new_int("fd", 3))
        ctx.world.tmps.append(self)

    m_read = Reader.m_read

    def fill(self, ctx, key):
        p = ctx.read_cell(self, "pos")
        self.key = key if self.key is None and isinstance(p, int) and p == 0 else ("mixed",)
        ctx.write_cell(self, "dirty", True)
        ctx.write_cell(self, "pos", sint(self.size_t))

    def m_write(self, ctx, data):
        self.alive(ctx)
        self.fill(ctx, ctx.world.bytes_key(ctx, data))
        return SInt(ctx.new_int("n", 0))

    def flushed(self, ctx):
        ctx.write_cell(self, "dirty", False)

    def whole(self, ctx):
        return None if ctx.read_cell(self, "dirty") else Named.whole(self, ctx)

    def get_attribute(self, ctx, name):
        return self.name if name == "name" else Named.get_attribute(self, ctx, name)


class Raw(Named):
    """io.FileIO of a name"""
    typename = "FileIO"

    def __init__(self, ctx, key):
        Named.__init__(self, ctx, "raw file")
        self.key = key
        self.size_t = ctx.new_int("length", 0)

    m_read = Reader.m_read


class Dest(Named):
    typename = "file"

    def __init__(self, ctx, path, writable, excl):
        Named.__init__(self, ctx, "destination")
        self.path, self.writable, self.excl = path, writable, excl

    def get_attribute(self, ctx, name):
        return self.path if name == "name" else Named.get_attribute(self, ctx, name)

    def m_close(self, ctx):
        ctx.write_cell(self, "shut", True)
        if ctx.world.pick("dest close", 2):
            ctx.world.fail(ctx, 5)

    def m_write(self, ctx, *a):
        ctx.prove("only the copy writes to the destination", False, T16)

    def m_truncate(self, ctx, *a):
        ctx.prove("only the copy changes the size of the destination", False, T16)


class ListOf(Model):
    """a sequence of unknown length"""
    typename = "list"
    closed = True
    real = (list,)

    def __init__(self, ctx, n, item, label):
        Model.__init__(self, ctx, label)
        self.n, self.item = n, item

    def truth(self, ctx):
        return SBool(self.n > 0)

    def length(self, ctx):
        return SInt(self.n)

    def iterate(self, ctx, body, node, fr):
        return SeqIter(ctx, self.n, self.item, self.label).iterate(ctx, body, node, fr)

    def getitem(self, ctx, i):
        i = T.I(int_term(i))
        if ctx.branch(i < 0):
            i = T.norm(i + self.n)
        if not ctx.branch(z3.And(i >= 0, i < self.n)):
            ctx.interp.throw("IndexError", "list index out of range")
        return self.item(ctx, i)


class Summary(Model):
    """the summary bits of a signature"""
    typename = "int"

    def __init__(self, ctx, w, i, mask=None):
        Model.__init__(self, ctx, "summary")
        self.w, self.i, self.mask = w, i, mask

    def term(self):
        return z3.Sum([z3.If(self.w.bit(self.i, b), 2 ** b, 0) for b in range(BITS)
                       if self.mask is None or self.mask >> b & 1] + [z3.IntVal(0)])

    def model_arith(self, ctx, op, a, b):
        o = b if a is self else a
        if type(op).__name__ == "BitAnd" and isinstance(o, int) and not isinstance(o, bool) and 0 <= o < 2 ** BITS:
            return SInt(T.norm(Summary(ctx, self.w, self.i, o & (2 ** BITS - 1 if self.mask is None else self.mask)).term()))
        ctx.interp.unsupported("operation on the summary of a signature")

    def model_eq(self, ctx, o):
        return wrapb(self.term() == T.I(int_term(o)))

    def model_cmp(self, ctx, op, a, b):
        ctx.interp.unsupported("comparison of the summary of a signature")

    def truth(self, ctx):
        return SBool(self.term() != 0)


class Ns(Model):
    typename = "Namespace"
    closed = True

    def set_attribute(self, ctx, name, v):
        ctx.write_cell(self, name, v)


def plain(v):
    """a Python value for the real argparse"""
    if isinstance(v, SStr):
        return "".join(p if isinstance(p, str) else "?" for p in v.parts)
    if isinstance(v, IList):
        return [plain(x) for x in v.attrs["items"]]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return v


class Parser(Model):
    """the real argparse object behind it"""
    typename = "ArgumentParser"

    def __init__(self, ctx, real):
        Model.__init__(self, ctx, "argument parser")
        self.real = real

    def call(self, ctx, name, a, k):
        for v in list(a) + list(k.values()):
            if isinstance(v, (FuncVal, Builtin, BoundMethod)) and name != "set_defaults" or isinstance(v, Model):
                ctx.interp.unsupported("argparse with a function as an argument")
        types = {BUILTINS["str"]: str, BUILTINS["int"]: int}
        k = {x: types.get(v, v) if isinstance(v, (ClassVal, Builtin)) and name == "add_argument" else plain(v)
             for x, v in k.items()}
        try:
            return getattr(self.real, name)(*[plain(x) for x in a], **k)
        except Exception as e:            # noqa
            ctx.interp.unsupported("argparse: %s" % e)

    def get_attribute(self, ctx, name):
        if name in ("add_argument", "set_defaults"):
            return Builtin(name, lambda c, a, k: self.call(c, name, a, k) and None)
        if name in ("add_subparsers", "add_parser", "add_mutually_exclusive_group", "add_argument_group"):
            return Builtin(name, lambda c, a, k: Parser(c, self.call(c, name, a, k)))
        if name == "error":
            return Builtin(name, lambda c, a, k: c.interp.throw("SystemExit", 2))
        return NotImplemented

    def set_attribute(self, ctx, name, v):
        setattr(self.real, name, plain(v))

    def m_parse_args(self, ctx, args=None, ns=None):
        if ns is not None:
            ctx.interp.unsupported("parse_args into a namespace")
        argv = ctx.world.arguments if args is None else [ctx.world.unhole(ctx, x) for x in ctx.interp.to_list(args)]
        try:
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                r = self.real.parse_args(argv)
        except SystemExit as e:
            ctx.interp.throw("SystemExit", e.code)
        except Exception as e:        # noqa
            ctx.interp.unsupported("argparse: %s" % e)
        m = Ns(ctx, "args")
        m.attrs.update({n: ctx.world.hole_of(v) for n, v in vars(r).items()})
        return m


class Writer(Model):
    """a BmapCopy or BmapBdevCopy object: contract of the classes (C01-C07, C17-C19)"""
    typename = "BmapCopy"

    def __init__(self, ctx, image, dest, bmap, size, blk):
        Model.__init__(self, ctx, "writer")
        self.image, self.dest, self.bmap, self.size, self.blk = image, dest, bmap, size, blk
        i = lambda n: SInt(ctx.new_int(n, 0))         # noqa
        t = lambda n: mkstr([Hole(T.fresh_txt(n), "nonempty")])       # noqa
        self.attrs["mapped_size"] = i("mapped_size") if bmap is not None else None
        if bmap is not None:
            self.attrs.update(bmap_version=t("version"), blocks_cnt=i("blocks"), block_size=i("block_size"), image_size=i("size"),
                              image_size_human=t("human"), mapped_cnt=i("mapped"), mapped_size_human=t("mhuman"),
                              mapped_percent=SReal(T.fresh_real("percent")))
        else:
            self.attrs.update(bmap_version=None, blocks_cnt=None, block_size=4096, image_size=size, image_size_human=None,
                              mapped_cnt=None, mapped_size_human=None, mapped_percent=100)

    def m_set_progress_indicator(self, ctx, f, fmt):
        return None

    def m_set_psplash_pipe(self, ctx, p):
        return None

    def m_copy(self, ctx, sync=True, verify=True):
        w = ctx.world
        w.gate(ctx, self, verify)
        w.copied = False
        w.raising(ctx, "copy", w.copy_error(ctx), w.trans_error(ctx))
        w.copied = True
        if self.attrs["mapped_size"] is None:
            ctx.write_cell(self, "mapped_size", SInt(ctx.new_int("mapped_size", 0)))
        if ctx.interp.truth(sync):
            w.synced = True

    def m_sync(self, ctx):
        w = ctx.world
        w.synced = False
        w.raising(ctx, "sync", w.copy_error(ctx))
        w.synced = True


class Creator(Model):
    typename = "BmapCreate"

    def __init__(self, ctx):
        Model.__init__(self, ctx, "creator")
        self.attrs.update(mapped_cnt=SInt(ctx.new_int("mapped", 0)), blocks_cnt=SInt(ctx.new_int("blocks", 0)),
                          image_size_human=mkstr([Hole(T.fresh_txt("human"), "nonempty")]))

    def m_generate(self, ctx, include_checksums=True):
        w = ctx.world
        v = ctx.interp.truth(include_checksums)
        ctx.prove("range checksums are generated unless they are disabled", v == (not w.opts["no_checksum"]), ("C10",))
        w.raising(ctx, "generate", w.create_error(ctx))
        w.generated = True
        w.output.doc = True
        ctx.write_cell(w.output, "pos", SInt(ctx.new_int("pos", 0)))


class Out(Named):
    typename = "file"

    def __init__(self, ctx, path):
        Named.__init__(self, ctx, "output")
        self.path = path
        self.doc = False
        self.document = mkstr([Hole(T.fresh_txt("document"), "nonempty")])

    def m_read(self, ctx, n=-1):
        self.alive(ctx)
        p = ctx.read_cell(self, "pos")
        if self.doc and isinstance(p, int) and p == 0 and n == -1:
            ctx.write_cell(self, "pos", SInt(ctx.new_int("end", 0)))
            return self.document
        return mkstr([Hole(T.fresh_txt("part"))])

    def m_getvalue(self, ctx):
        return self.document if self.doc else ""


# ---------------------------------------------------------------------------
class CliWorld(World):
    """flags: options that may be given; open_: what may go more than one way"""

    def __init__(self, ctx, flags=(), fixed=(), open_=(), command="copy"):
        World.__init__(self, ctx)
        self.open_ = set(open_)
        self.command = command
        self.paths = {n: mkstr([Hole(z3.Const("path_" + n, T.Txt), "nonempty")]) for n in PLACE}
        self.stem = z3.Function("stem", z3.IntSort(), T.Txt)
        self.E = z3.Function("map exists", z3.IntSort(), z3.BoolSort())
        self.bare = z3.Function("without extension", z3.IntSort(), z3.BoolSort())
        self.j = ctx.new_int("J", 0)
        self.vj = T.keep(z3.Bool("J is a candidate"))
        self.steps = []
        ctx.G.attrs.update(tries=0, strips=0)
        ctx.assume(txt_term(ctx, self.paths["image"]) == self.stem(z3.IntVal(0)))
        self.step(0)
        self.openables, self.tmps, self.records, self.readers = {}, [], [], []
        self.dest_opened = self.copied = self.synced = self.generated = False
        self.envfail = []
        self.maps_opened = 0
        self.output = None
        self.once = {}
        self.kind = ("reg", "blk", "chr")[self.pick("dest kind", 3)]
        self.urls = {r: bool(self.pick(r + " url", 2)) for r in ("image", "bmap", "sig")}
        self.opts = {n: n in fixed for n in FLAGS + ("no_checksum", "output")}
        for n in flags:
            self.opts[n] = bool(ctx.choose(2, "option " + n))
        argv = []
        for n in ("quiet", "debug"):
            if self.opts[n]:
                argv.append(OPTION[n])
        argv.append(command)
        if command == "copy":
            for n in FLAGS[2:]:
                if self.opts[n]:
                    argv.append(OPTION[n])
                    if n in VALUED:
                        argv.append(PLACE[n])
            argv += [PLACE["image"], PLACE["dest"]]
        else:
            if self.opts["no_checksum"]:
                argv.append("--no-checksum")
            if self.opts["output"]:
                argv += ["-o", PLACE["output"]]
            argv.append(PLACE["image"])
        self.arguments = argv

    def pick(self, what, n):
        return self.ctx.choose(n, what) if what in self.open_ else 0

    def argv(self, ctx):
        return IList(ctx, ["bmaptool"] + [self.hole_of(x) for x in self.arguments])

    def hole_of(self, v):
        for n, p in PLACE.items():
            if v == p:
                return self.paths[n]
        return v

    def unhole(self, ctx, v):
        for n, p in self.paths.items():
            if is_text(v) and rope_same(v, p):
                return PLACE[n]
        if not isinstance(v, str):
            ctx.interp.unsupported("argument %r" % (v,))
        return v

    # --- failures ----------------------------------------------------------
    def raising(self, ctx, what, *errs):
        """fails with one of the module's errors, or with something else"""
        n = self.pick(what, len(errs) + 4)
        if not n:
            return
        self.envfail.append(what)
        ctx.engine.cover(what + " fails")
        if n <= len(errs):
            raise IRaise(errs[n - 1])
        n -= len(errs)
        if n == 1:
            ctx.interp.throw("KeyboardInterrupt")
        if n == 2:
            ctx.interp.throw("MemoryError")
        if what == "copy" or what == "sync" or what == "generate":
            self.fail(ctx, 5)
        ctx.interp.throw("RuntimeError", "anything")

    def error(self, ctx, module):
        e = ctx.interp.make_exc(self.modules[module].attrs["Error"], mkstr([Hole(T.fresh_txt("message"))]))
        return e

    def copy_error(self, ctx):
        return self.error(ctx, "BmapCopy")

    def create_error(self, ctx):
        return self.error(ctx, "BmapCreate")

    def trans_error(self, ctx):
        return self.error(ctx, "TransRead")

    # --- names ----------------------------------------------------------
    def step(self, k):
        """registers a position in the chain of names"""
        k = T.norm(T.I(k))
        if not any(k.eq(s) for s in self.steps):
            self.steps.append(T.keep(k))
            c = self.ctx
            c.solver.add(z3.Implies(z3.And(self.vj, k >= 0, k < self.j), z3.Not(self.bare(k))))
            c.solver.add(z3.Implies(z3.And(k >= 0, self.bare(k)), self.stem(k + 1) == self.stem(k)))
        return k

    def position(self, ctx, h):
        """k if h is the image path without its last k extensions"""
        if not isinstance(h, Hole):
            return None
        t, s = T.I(int_term(ctx.g("tries"))), T.I(int_term(ctx.g("strips")))
        ks = [T.norm(k) for k in (s, t, s - 1, t - 1, s + 1, t + 1, z3.IntVal(0))] + self.steps
        for k in ks:
            if h.t.eq(self.stem(k)):
                return self.step(k)
        for k in ks[:7]:
            if never(ctx, h.t != self.stem(k)):
                return self.step(k)
        return None

    def path_splitext(self, ctx, p):
        parts = list(parts_of(p))
        k = self.position(ctx, parts[0]) if len(parts) == 1 else None
        if k is None:
            tab = ctx.memo.setdefault("pathfn", {})
            key = ("splitext", repr(p))
            if key not in tab:
                tab[key] = tuple(mkstr([Hole(T.fresh_txt("splitext"), "any", info=("splitext", (p,)))]) for _ in (1, 2))
            return tab[key]
        ctx.gset("strips", sint(k + 1))
        if ctx.branch(self.bare(k)):
            return p, ""
        self.step(k + 1)
        return (mkstr([Hole(self.stem(T.norm(k + 1)), "nonempty")]),
                mkstr([Hole(z3.Function("extension", z3.IntSort(), T.Txt)(k), "nonempty")]))

    def key(self, ctx, p):
        """which resource a path names"""
        if not is_text(p):
            return ("descriptor",) if not isinstance(p, SStr) else ("text", rope_key(p))
        for n, q in self.paths.items():
            if rope_same(p, q):
                return (n,)
        for t in self.tmps:
            if is_text(t.name) and rope_same(p, t.name):
                return ("tmp", t)
        parts = list(parts_of(p))
        for suf in (".asc", ".sig"):
            if isinstance(parts[-1], str) and parts[-1].endswith(suf):
                base = mkstr(parts[:-1] + [parts[-1][:-4]])
                return (suf, self.key(ctx, base))
        if len(parts) == 2 and parts[1] == ".bmap":
            k = self.position(ctx, parts[0])
            if k is not None:
                return ("map", str(k), k)
        return ("text", rope_key(p))

    def is_url(self, key):
        if key[0] in (".asc", ".sig"):
            return self.is_url(key[1])
        r = {"image": "image", "map": "image", "bmap": "bmap", "bmap_sig": "sig"}.get(key[0])
        return self.urls[r] if r else False

    def openable(self, ctx, key):
        if key[0] == "map":
            return ctx.branch(self.E(key[2]))
        k = repr(key[:2] if key[0] != "map" else key)
        if k not in self.openables:
            what = {"image": "image open", "bmap": "map open", "bmap_sig": "signature open", ".asc": "asc", ".sig": "sig"}
            if key[0] in (".asc", ".sig"):
                r = self.pick(key[0] + " exists", 2) == 1
            elif key[0] in what:
                r = self.pick(what[key[0]], 2) == 0
                if not r:
                    self.envfail.append(what[key[0]])
            else:
                r = bool(ctx.choose(2, "openable"))
            self.openables[k] = r
        return self.openables[k]

    # --- the classes behind ----------------------------------------------
    def TransRead(self, ctx, path):
        ip = ctx.interp
        key = self.key(ctx, path)
        if key[0] == "map":
            ctx.gset("tries", sint(T.norm(key[2] + 1)))
        if self.pick("reader crash", 2):
            self.envfail.append("reader crash")
            ip.throw("RuntimeError", "anything")
        if not self.openable(ctx, key):
            raise IRaise(self.trans_error(ctx))
        role = key[0]
        if role in ("map", "bmap"):
            self.maps_opened += 1
        r = Reader(ctx, key, path, self.is_url(key), role)
        self.readers.append(r)
        return r

    def make_writer(self, blk):
        def fn(ctx, a, k):
            names = ("image", "dest", "bmap", "image_size")
            k = {"f_" + n if False else n.replace("f_", ""): v for n, v in k.items()}
            args = dict(zip(names, a), **k)
            if set(args) - set(names) or len(a) > 4 or not {"image", "dest"} <= set(args):
                ctx.interp.unsupported("arguments of the writer")
            self.raising(ctx, "writer", self.copy_error(ctx))
            return Writer(ctx, args["image"], args["dest"], args.get("bmap"), args.get("image_size"), blk)
        return fn

    def BmapCreate(self, ctx, image, bmap, chksum_type="sha256"):
        ctx.prove("the map is created for the image that was named", is_text(image) and rope_same(image, self.paths["image"]), ("C10",))
        o = self.identity(ctx, bmap)
        ok = isinstance(o, Out) and not ctx.read_cell(o, "shut") and (
            o.path is not None and rope_same(o.path, self.paths["output"]) if self.opts["output"] else o.path is None)
        ctx.prove("the map is written to the output that was named", ok, ("C10",))
        self.raising(ctx, "creator", self.create_error(ctx))
        self.output = o
        return Creator(ctx)

    # --- files ----------------------------------------------------------
    def identity(self, ctx, v):
        if v is None or is_text(v) or isinstance(v, (int, SInt, bytes, SBytes, tuple)):
            return None
        st, r = outcome(ctx.interp, lambda: ctx.interp.getattr(v, "vp_identity"))
        return r if st == "ok" and isinstance(r, Model) else None

    def bytes_key(self, ctx, data):
        if isinstance(data, SBytes):
            for r in self.readers + self.tmps:
                if r.label == data.src and never(ctx, z3.Or(data.off != 0, data.len != r.size_t)):
                    return r.key
        return ("mixed",)

    def shutil_copyfileobj(self, ctx, src, dst, length=0):
        s, d = self.identity(ctx, src), self.identity(ctx, dst)
        if s is None or not isinstance(d, Tmp):
            ctx.interp.unsupported("copyfileobj")
        s.alive(ctx)
        d.alive(ctx)
        if self.pick("temporary copy", 2):
            self.envfail.append("temporary copy")
            raise IRaise(self.trans_error(ctx))
        d.fill(ctx, s.whole(ctx) or ("mixed",))
        ctx.write_cell(s, "pos", SInt(s.size_t))

    def tmp(self, ctx, mode, named):
        if self.pick("temporary file", 2):
            self.envfail.append("temporary file")
            self.fail(ctx, 28)
        if self.command == "create":
            return Out(ctx, None)
        return Tmp(ctx, "b" not in mode, named)

    def temp_NamedTemporaryFile(self, ctx, mode="w+b", *a, **k):
        return self.tmp(ctx, mode, True)

    def temp_TemporaryFile(self, ctx, mode="w+b", *a, **k):
        return self.tmp(ctx, mode, False)

    def io_FileIO(self, ctx, name, mode="r", *a, **k):
        if not is_text(name) or mode not in ("r", "rb"):
            ctx.interp.unsupported("io.FileIO(%r, %r)" % (name, mode))
        key = self.key(ctx, name)
        if key[0] == "tmp":
            t = key[1]
            if ctx.read_cell(t, "shut"):
                self.fail(ctx, 2, "FileNotFoundError")
            return Raw(ctx, None if ctx.read_cell(t, "dirty") else t.key)
        if self.is_url(key) or not self.openable(ctx, key) or self.pick("raw open", 2):
            self.fail(ctx, 2, "FileNotFoundError")
        return Raw(ctx, key)

    def io_BytesIO(self, ctx, *a):
        return Tmp(ctx, False, False)

    def io_StringIO(self, ctx, *a):
        return Out(ctx, None)

    def open(self, ctx, path, mode="r", *a, **k):
        if isinstance(path, str) and path.startswith("/proc/"):
            if self.pick("proc", 2):
                self.fail(ctx, 2, "FileNotFoundError")
            return ProcFile(ctx)
        key = self.key(ctx, path)
        if key == ("dest",):
            return self.open_dest(ctx, path, any(c in mode for c in "wa+x"), False)
        if key == ("output",):
            if self.pick("output open", 2):
                self.envfail.append("output open")
                self.fail(ctx, 13)
            ctx.prove("the output file can be read back and starts out empty", "w" in mode and "+" in mode, ("C10",))
            return Out(ctx, path)
        if "r" in mode and "+" not in mode:
            if self.is_url(key) or not self.openable(ctx, key):
                self.fail(ctx, 2, "FileNotFoundError")
            return Raw(ctx, key)
        ctx.prove("no other file is opened for writing", False, T16)
        raise PathEnd("opened")

    io_open = open

    def contradiction(self):
        o = self.opts
        return o["nobmap"] and o["bmap"] or o["bmap_sig"] and o["no_sig_verify"] or o["quiet"] and o["debug"]

    def open_dest(self, ctx, path, writable, excl):
        ctx.prove("contradictory options end the run before the destination is opened", not self.contradiction(), T16)
        self.dest_opened = True
        if self.pick("exclusive open" if excl else "dest open", 2):
            self.envfail.append("dest open")
            ctx.engine.cover("busy" if excl else "dest open fails")
            self.fail(ctx, 16)
        return Dest(ctx, path, writable, excl)

    def os_open(self, ctx, path, flags, mode=0o777, **k):
        if self.key(ctx, path) != ("dest",) or not isinstance(flags, int):
            ctx.interp.unsupported("os.open")
        d = self.open_dest(ctx, path, bool(flags & (os.O_WRONLY | os.O_RDWR)), bool(flags & os.O_EXCL))
        return Fd(ctx, d)

    def os_fdopen(self, ctx, fd, mode="r", *a, **k):
        f = file_of(ctx, fd)
        if self.pick("fdopen", 2):
            self.envfail.append("fdopen")
            self.fail(ctx, 12)
        d = Dest(ctx, f.path, f.writable and any(c in mode for c in "wa+"), f.excl)
        return d

    def os_close(self, ctx, fd):
        file_of(ctx, fd).m_close(ctx)

    def os_fstat(self, ctx, fd):
        f = file_of(ctx, fd)
        if not isinstance(f, Dest):
            ctx.interp.unsupported("fstat")
        return self.statof(ctx)

    def os_stat(self, ctx, path, **k):
        if self.key(ctx, path) != ("dest",):
            ctx.interp.unsupported("stat")
        if self.pick("stat", 2):
            self.envfail.append("stat")
            self.fail(ctx, 2, "FileNotFoundError")
        return self.statof(ctx)

    def statof(self, ctx):
        m = Model(ctx, "stat")
        m.typename = "stat_result"
        m.dyn["st_mode"] = ModeVal(ctx, self.kind)
        m.dyn["st_size"] = SInt(ctx.new_int("st_size", 0))
        return m

    def path_exists(self, ctx, p):
        key = self.key(ctx, p)
        if key == ("dest",):
            return not self.pick("dest exists", 2)
        if self.is_url(key):
            return False
        return self.openable(ctx, key)

    path_isfile = path_lexists = path_exists

    def isatty(self, ctx, s):
        return bool(self.pick("isatty", 2))

    # --- gpg ----------------------------------------------------------
    def gpg_module(self, ctx):
        if "gpg" not in self.once:
            self.once["gpg"] = self.pick("gpg module", 2)
        if self.once["gpg"]:
            self.envfail.append("gpg module")
            ctx.interp.throw("ImportError", "No module named 'gpg'")
        return ExtModule("gpg")

    def bit(self, i, b):
        return z3.Function("summary bit %d" % b, z3.IntSort(), z3.BoolSort())(i)

    def gpg_fail(self, ctx):
        self.envfail.append("gpg")
        raise IRaise(ctx.interp.make_exc(_gpgerr, "code"))

    def gpg_Context(self, ctx, *a, **k):
        if self.pick("gpg context", 2):
            self.gpg_fail(ctx)
        return Gpg(ctx)

    def signature(self, ctx, i):
        m = Model(ctx, "signature")
        m.typename = "Signature"
        m.dyn["summary"] = Summary(ctx, self, i)
        m.dyn["fpr"] = mkstr([Hole(T.fresh_txt("fpr"), "nonempty")])
        m.dyn["validity"] = SInt(ctx.new_int("validity", 0))

        def attr(c, name):
            if name == "status":
                return SInt(c.new_int("status", 0))
            return NotImplemented
        m.get_attribute = attr
        return m

    # --- what must hold ----------------------------------------------------
    def gate(self, ctx, wr, verify):
        """at the moment the copy starts"""
        o = self.opts
        if self.command != "copy":
            ctx.prove("nothing but the copy command copies", False, T16)
            return
        ctx.engine.cover("copies")
        v = ctx.interp.truth(verify)
        ctx.prove("checksums are verified unless that is disabled", v == (not o["no_verify"]), T16)
        ctx.prove("nothing is copied if options contradict each other", not self.contradiction(), T16)
        img, dst, m = (self.identity(ctx, x) for x in (wr.image, wr.dest, wr.bmap))
        ctx.prove("the image copied is the one named", isinstance(img, Reader) and img.key == ("image",)
                  and img.whole(ctx) is not None, T16)
        ok = isinstance(dst, Dest) and not ctx.read_cell(dst, "shut") and dst.writable
        ctx.prove("the destination written is the one named", ok, T16)
        if self.kind == "blk":
            ctx.engine.cover("block device")
            ctx.prove("a block device is written through an exclusive descriptor", ok and dst.excl, T17)
            ctx.prove("a block device is written by the class for block devices", wr.blk, T17)
        else:
            ctx.prove("the class for block devices is only used for these", not wr.blk, T17)
        if isinstance(img, Reader):
            s = wr.size
            same = s is None or img.sized and isinstance(s, SInt) and never(ctx, s.t != img.size_t)
            ctx.prove("the size given for the image is its size", same, T16)
            if self.kind == "blk":
                ctx.prove("a known image size is compared to the capacity", s is not None or not img.sized or wr.bmap is not None, T17)
        if wr.bmap is None:
            ctx.prove("without a map nothing is copied unless that was allowed", o["nobmap"], T16)
            ctx.prove("a map that was asked for is used", not o["bmap"], T16)
            ctx.prove("nothing is copied if a signature was given but there is no map", not o["bmap_sig"], T15)
            ctx.engine.cover("copies without a map")
            return
        ctx.engine.cover("copies with a map")
        ctx.prove("the map is not used if it was ruled out", not o["nobmap"], T16)
        key = m.whole(ctx) if m is not None else None
        ctx.prove("the map handed over is complete and at its start", key is not None and key != ("mixed",), T16)
        if key is None:
            return
        if o["bmap"]:
            ctx.prove("the map used is the one that was named", key == ("bmap",), T16)
            path = self.paths["bmap"]
        else:
            ctx.prove("the map used is one found next to the image", key[0] == "map", T16)
            if key[0] != "map":
                return
            k = key[2]
            ctx.prove("the map used is the first one that exists", z3.Implies(self.j < k, z3.Not(self.E(self.j))), T16)
            ctx.prove("the map used is named after the image, its extensions stripped one after the other",
                      z3.And(k >= 0, z3.Implies(self.j < k, z3.Not(self.bare(self.j)))), T16)
            ctx.engine.cover("discovered")
            path = [r for r in self.readers if r.key == key][-1].path
        same = text_eq(ctx, path, self.paths["image"])
        ctx.prove("a map path equal to the image path is refused", z3.Not(same.t) if isinstance(same, SBool) else not same, T16)
        self.signed(ctx, key)

    def signed(self, ctx, key):
        """the map with this key was checked as requested"""
        o = self.opts
        if o["no_sig_verify"]:
            ctx.engine.cover("not verified")
            return
        if o["bmap_sig"]:
            want = [("bmap_sig",)]
        else:
            want = [k for k in ((".asc", key), (".sig", key)) if self.openable(ctx, k)]
            if not want:
                ctx.engine.cover("no signature")
                return
        good = [r for r in self.records if r["sig"] in want]
        ctx.prove("nothing is copied unless the signature was verified", bool(good), T15)
        ctx.prove("the signature was verified against the map that is used", any(r["data"] == key for r in good), T15)
        if good:
            ctx.prove("nothing is copied unless every signature is valid", z3.Implies(
                z3.And(self.j < good[-1]["n"]), self.bit(self.j, 0)), T15)
            ctx.engine.cover("verified")

    def on_log(self, ctx, level, a):
        txt = "".join(p for p in parts_of(a[0]) if isinstance(p, str)) if a and is_text(a[0]) else ""
        if "copying time" in txt or "copying speed" in txt:
            ctx.prove("success is only reported after the destination was synchronised", bool(self.copied and self.synced), T16)
            ctx.engine.cover("success message")

    def on_stream(self, ctx, s, txt):
        if s is ctx.memo.get("stdout"):
            self.printed = getattr(self, "printed", []) + [txt]


class ProcFile(SimpleCM):
    typename = "file"

    def __init__(self, ctx):
        Model.__init__(self, ctx, "procfile")

    def iterate(self, ctx, body, node, fr):
        if "proc" not in ctx.world.open_:
            return body(mkstr([Hole(T.fresh_txt("line")), "\n"]))
        n = ctx.new_int("lines", 0)
        return SeqIter(ctx, n, lambda c, i: mkstr([Hole(T.fresh_txt("line")), "\n"]), "lines").iterate(ctx, body, node, fr)

    def m_close(self, ctx):
        pass

    def m_read(self, ctx, n=-1):
        return mkstr([Hole(T.fresh_txt("proc"))])


class Gpg(SimpleCM):
    typename = "Context"

    def __init__(self, ctx):
        Model.__init__(self, ctx, "gpg context")

    def m_verify(self, ctx, signed_data, signature=None, sink_data=None):
        w = ctx.world
        d, s = (w.identity(ctx, x) for x in (signed_data, signature))
        keys = [x.whole(ctx) if x is not None and hasattr(x, "whole") else
                w.bytes_key(ctx, v) if isinstance(v, SBytes) else None for x, v in ((d, signed_data), (s, signature))]
        out = w.pick("verification", 4)
        if out == 1:
            w.gpg_fail(ctx)
        if out == 2:
            w.envfail.append("bad signatures")
            raise IRaise(ctx.interp.make_exc(EXT["gpg.errors.BadSignatures"], "bad"))
        if out == 3:
            w.envfail.append("gpg")
            w.fail(ctx, 5)
        n = ctx.new_int("signatures", 0)
        w.records.append({"data": keys[0], "sig": keys[1], "n": n})
        r = Model(ctx, "verify result")
        r.typename = "VerifyResult"
        r.dyn["signatures"] = ListOf(ctx, n, w.signature, "signatures")
        return (Opaque("plaintext"), r)

    def m_get_key(self, ctx, fpr, secret=False):
        w = ctx.world
        if w.pick("key", 2):
            w.envfail.append("key")
            raise IRaise(ctx.interp.make_exc(EXT["gpg.errors.KeyNotFound"], "no key"))
        uid = Model(ctx, "uid")
        uid.dyn.update(name=mkstr([Hole(T.fresh_txt("name"))]), email=mkstr([Hole(T.fresh_txt("email"))]))
        k = Model(ctx, "key")
        n = ctx.new_int("uids", 0)
        k.dyn["uids"] = ListOf(ctx, n, lambda c, i: uid, "uids")
        return k


# ---------------------------------------------------------------------------
def report_contract(ip, f, a, k):
    """print_error_with_tb(): proved by cli.report; the message must fit its arguments"""
    if len(a) > 1:
        ip.binop(ast.Mod(), a[0], tuple(a[1:]))
    return None


def cli_hints(ctx, view):
    w = ctx.world
    if not isinstance(w, CliWorld):
        return []
    out = []
    g = lambda n: T.I(int_term(ctx.g(n)))           # noqa
    for k, x in view.ints:
        out.append((("sigs", k), lambda x=x: z3.Implies(w.j < x(), w.bit(w.j, 0))))
        out.append((("maps", k), lambda x=x: z3.And(x() >= 0, z3.Implies(w.j < x(), z3.Not(w.E(w.j))))))
        out.append((("exts", k), lambda x=x: z3.Implies(w.j < x(), z3.Not(w.bare(w.j)))))
        for kb, b in view.bools:
            out.append((("last", k, kb), lambda x=x, b=b: z3.Implies(z3.And(w.j < x(), w.bare(w.j)), b())))
    for fr in ctx.frames:
        for n, v in list(fr.attrs.items()):
            if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], Hole):
                for c in ("tries", "strips"):
                    for off in (0, -1):
                        def th(fr=fr, n=n, c=c, off=off):
                            v = fr.attrs[n]
                            if not isinstance(v, SStr) or len(v.parts) != 1 or not isinstance(v.parts[0], Hole):
                                raise TypeError
                            w.step(g(c) + off)
                            return v.parts[0].t == w.stem(T.norm(g(c) + off))
                        out.append((("stem", fr.label, n, c, off), th))
    return out


def cli_setup(eng):
    eng.hints.append(cli_hints)
    eng.contracts["CLI.print_error_with_tb"] = Contract(report_contract)
    for n in ("human_size", "human_time"):
        eng.contracts["BmapHelpers." + n] = Contract(lambda ip, f, a, k: mkstr([Hole(T.fresh_txt("human"), "human")]))
    EXT["argparse.ArgumentParser"] = Builtin("ArgumentParser", make_parser)


def make_parser(ctx, a, k):
    return Parser(ctx, argparse.ArgumentParser(*[plain(x) for x in a], **{n: plain(v) for n, v in k.items()}))


def load(ctx, ip, w):
    """the command line module on top of the contracts of the others"""
    w.modules = {n: ip.import_module("bmaptools." + n) for n in ("TransRead", "BmapCopy", "BmapCreate")}
    m = w.modules
    m["TransRead"].attrs["TransRead"] = Builtin("TransRead", lambda c, a, k: c.world.TransRead(c, *a, **k))
    m["BmapCopy"].attrs["BmapCopy"] = Builtin("BmapCopy", w.make_writer(False))
    m["BmapCopy"].attrs["BmapBdevCopy"] = Builtin("BmapBdevCopy", w.make_writer(True))
    m["BmapCreate"].attrs["BmapCreate"] = Builtin("BmapCreate", lambda c, a, k: c.world.BmapCreate(c, *a, **k))
    return ip.import_module("bmaptools.CLI")


def status(ip, st, v):
    """exit status of sys.exit(main())"""
    if st == "raise":
        if not isexc(ip, v, "SystemExit"):
            return 1
        a = v.attrs.get("args") or (None,)
        v = v.attrs.get("code", a[0])
    if v is None or v is False or isinstance(v, int) and v == 0:
        return 0
    return 1


def run(ctx, prepare=None, kind=None, **k):
    ip, w = make(ctx, CliWorld, **k)
    if prepare:
        prepare(w)
    if kind:
        w.kind = kind
    mod = load(ctx, ip, w)
    st, v = outcome(ip, lambda: call(ip, mod.attrs["main"]))
    code = status(ip, st, v)
    if w.command == "copy":
        if code == 0:
            ctx.prove("the exit status is only zero if the copy succeeded", w.copied, T16)
            ctx.prove("the exit status is only zero if the destination was synchronised", w.synced, T16)
            ctx.engine.cover("succeeds")
        else:
            ctx.engine.cover("fails")
        ctx.prove("contradictory options fail", not w.contradiction() or code != 0, T16)
    return ip, w, code, (excname(v) if st == "raise" else "")


def unroll_setup(eng):
    """few candidates for the map: the loops are executed as they are, except over sequences of unknown length"""
    cli_setup(eng)
    eng.unroll = lambda ctx, node, extra: extra != "seq"


def short_names(w):
    """at most two names to try"""
    w.ctx.assume(z3.Or(w.bare(z3.IntVal(0)), w.bare(z3.IntVal(1))))


@unit("cli.options", ["C15", "C16", "C17"], unroll_setup, variants=tuple(
    tuple(n for n, b in (("quiet", q), ("debug", d), ("psplash_pipe", p), ("no_sig_verify", g)) if b)
    for q in (0, 1) for d in (0, 1) for p in (0, 1) for g in (0, 1)),
      expect=("copies", "copies with a map", "copies without a map", "succeeds", "fails", "success message", "discovered"))
def options(ctx, var):
    """all combinations of options in an environment where little fails"""
    ip, w, code, name = run(ctx, flags=("bmap", "nobmap", "bmap_sig", "no_verify"), fixed=var, prepare=short_names)
    o = w.opts
    if not w.contradiction() and o["nobmap"] and not o["bmap_sig"]:
        ctx.prove("an image is copied without a map if that was allowed: %s" % name, code == 0, T16)


@unit("cli.failures", ["C16", "C17"], unroll_setup, variants=tuple((f, k) for f in (("bmap",), ("nobmap", "no_verify"), ("quiet",), ("bmap", "bmap_sig"))
                                                                  for k in ("reg", "blk")),
      expect=("copies", "succeeds", "fails", "copy fails", "sync fails", "writer fails", "dest open fails", "busy"))
def failures(ctx, var):
    """every operation may fail"""
    fixed, kind = var
    run(ctx, fixed=fixed, kind=kind, prepare=short_names, open_=(
        "size", "read", "dest close", "image open", "map open", "signature open", "reader crash", "copy", "sync", "writer", "dest open",
        "exclusive open", "fdopen", "stat", "dest exists"))


@unit("cli.memory", ["C16"], unroll_setup, variants=(("nobmap",), ("bmap",)),
      expect=("copies", "succeeds", "fails", "copy fails", "sync fails", "writer fails"))
def memory(ctx, var):
    """the copy fails in any way, with the report of the memory usage and with progress on a terminal"""
    run(ctx, flags=("quiet", "debug"), fixed=var, prepare=short_names, open_=("copy", "sync", "writer", "proc", "isatty"))


@unit("cli.signature", ["C15"], unroll_setup, variants=tuple((f, u) for f in (("bmap",), ("bmap", "bmap_sig"), ("bmap_sig",), ())
                                                            for u in (False, True)),
      expect=("copies", "fails", "verified", "no signature"))
def signature(ctx, var):
    """the signature check with all its outcomes; local or remote map and signature"""
    fixed, url = var
    run(ctx, flags=("no_sig_verify",), fixed=fixed, prepare=short_names, open_=(
        ".asc exists", ".sig exists", "gpg module", "gpg context", "verification", "key", "raw open", "temporary file", "temporary copy",
        "signature open") + (("image url", "bmap url", "sig url") if url else ()))


@unit("cli.discovery", ["C16"], cli_setup, variants=(False, True), expect=("copies", "fails", "discovered"))
def discovery(ctx, var):
    """a map is looked for under any number of names"""
    ip, w, code, name = run(ctx, flags=("no_sig_verify",), open_=("image url",) if var else ())
    if code != 0 and not w.maps_opened:
        ctx.prove("a map is found if there is one: %s" % name, z3.Not(z3.And(w.vj, w.E(w.j))), T16)
        ctx.engine.cover("no map")


@unit("cli.report", ["C16"], expect=("reported",), variants=(True, False))
def report(ctx, var):
    """print_error_with_tb() ends for any trace and any message that fits its arguments"""
    ip, w = make(ctx, CliWorld)
    mod = load(ctx, ip, w)
    msg = mkstr([Hole(z3.Const("message", T.Txt))]) if not var else "%s: %s"
    args = [mkstr([Hole(T.fresh_txt("arg"))]), mkstr([Hole(T.fresh_txt("arg"))])] if var else []
    if ctx.choose(2, "exception"):
        ctx.exc_stack.append(ip.make_exc("OSError", "x"))
    st, v = outcome(ip, lambda: call(ip, mod.attrs["print_error_with_tb"], msg, *args))
    ctx.prove("reporting an error does not fail%s" % (": " + excname(v) if st == "raise" else ""), st == "ok", T16)
    st, v = outcome(ip, lambda: call(ip, mod.attrs["error_out"], msg, *args))
    ctx.prove("ending with an error ends the program with a nonzero status", st == "raise" and status(ip, st, v) != 0, T16)
    ctx.engine.cover("reported")


@unit("cli.create", ["C10", "C16"], unroll_setup, expect=("created", "fails"))
def create(ctx, var):
    """the create command"""
    ip, w, code, name = run(ctx, flags=("quiet", "output", "no_checksum"), command="create", open_=(
        "temporary file", "output open", "creator", "generate"))
    ctx.prove("the exit status tells whether the map was created: %s" % name, (code == 0) == (not w.envfail and w.generated), ("C10",))
    if code == 0:
        ctx.engine.cover("created")
        if not w.opts["output"]:
            txt = getattr(w, "printed", [])
            ctx.prove("the map is printed if no output is named", len(txt) >= 1 and is_text(txt[0])
                      and rope_same(mkstr([p for t in txt for p in parts_of(t)]), w.output.document), ("C10",))
    else:
        ctx.engine.cover("fails")


USAGE = ((), ("copy",), ("copy", "image"), ("frobnicate",), ("copy", "image", "dest", "--frobnicate"), ("copy", "--bmap"),
         ("copy", "image", "dest", "extra"), ("create",))


@unit("cli.usage", ["C16"], cli_setup, variants=USAGE)
def usage(ctx, var):
    """command lines argparse refuses"""
    ip, w = make(ctx, CliWorld)
    w.arguments = [PLACE.get(x, x) for x in var]
    mod = load(ctx, ip, w)
    st, v = outcome(ip, lambda: call(ip, mod.attrs["main"]))
    ctx.prove("a wrong command line fails", status(ip, st, v) != 0, T16)
    ctx.prove("a wrong command line opens nothing", not w.dest_opened and not w.readers, T16)
