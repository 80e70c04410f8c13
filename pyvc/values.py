"""Values of the symbolic Python semantics."""
import z3
from . import terms as T


class Unsupported(Exception):
    """the source uses something outside the verified subset"""

    def __init__(self, msg, node=None):
        Exception.__init__(self, msg)
        self.node = node


class PathEnd(BaseException):
    def __init__(self, why=""):
        self.why = why


class IRaise(Exception):
    """an exception of the interpreted program"""

    def __init__(self, exc):
        self.exc = exc


class SInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SInt(%s)" % self.t


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SBool(%s)" % self.t


class SReal:
    __slots__ = ("t", "q")

    def __init__(self, t, q=None):
        self.t = t
        self.q = q          # (numerator, denominator) as integer terms, when known

    def __repr__(self):
        return "SReal(%s)" % self.t


# ---- text ------------------------------------------------------------------
class IntHole:
    """decimal rendering of an integer term"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def same(self, o):
        return isinstance(o, IntHole) and T.norm(self.t).eq(T.norm(o.t))

    def __repr__(self):
        return "<%s>" % self.t


class Hole:
    """unknown text: z3 term of sort Txt or String.
    kind: 'ws' (only blanks), 'hex' (hex digits), 'human' (human size), 'any'"""
    __slots__ = ("t", "kind", "length", "info")

    def __init__(self, t, kind="any", length=None, info=None):
        self.t = t
        self.kind = kind
        self.length = length
        self.info = info

    def same(self, o):
        return isinstance(o, Hole) and self.t.eq(o.t)

    def __repr__(self):
        return "<%s:%s>" % (self.kind, self.t)


class RealHole:
    """'%.<prec>f' rendering of a real"""
    __slots__ = ("t", "prec")

    def __init__(self, t, prec):
        self.t = t
        self.prec = prec

    def same(self, o):
        return isinstance(o, RealHole) and self.t.eq(o.t) and self.prec == o.prec

    def __repr__(self):
        return "<%.1f>" if False else "<real %s>" % self.t


class SStr:
    """rope: literal strings and holes"""
    __slots__ = ("parts", "is_bytes")

    def __init__(self, parts, is_bytes=False):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)
        self.is_bytes = is_bytes

    def same(self, o):
        if not isinstance(o, SStr) or len(o.parts) != len(self.parts):
            return False
        for a, b in zip(self.parts, o.parts):
            if isinstance(a, str) or isinstance(b, str):
                if a != b:
                    return False
            elif not a.same(b):
                return False
        return True

    def __repr__(self):
        return "SStr%r" % (self.parts,)


def mkstr(parts, is_bytes=False):
    s = SStr(parts, is_bytes)
    if len(s.parts) == 0:
        return b"" if is_bytes else ""
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0].encode("latin1") if is_bytes else s.parts[0]
    return s


def parts_of(v):
    if isinstance(v, str):
        return (v,)
    if isinstance(v, bytes):
        return (v.decode("latin1"),)
    return v.parts


class SBytes:
    """bytes [off, off+len) of a source; content of byte i is src(off+i)"""
    __slots__ = ("src", "off", "len")

    def __init__(self, src, off, length):
        self.src = src
        self.off = off
        self.len = length

    def __repr__(self):
        return "SBytes(%s,%s,%s)" % (self.src, self.off, self.len)


class Opaque:
    """an arbitrary value the property does not depend on"""

    def __init__(self, what="?"):
        self.what = what

    def __repr__(self):
        return "Opaque(%s)" % self.what


class Lazy:
    """havocked cell whose shape is decided when first read"""
    __slots__ = ("shapes", "name", "loop", "blen", "some", "val", "src")

    def __init__(self, shapes, name, loop=None):
        self.shapes = shapes
        self.name = name
        self.some = self.val = None    # None or a value: which one, and the value
        self.src = None            # the loop it was havocked for
        self.blen = None           # its length if it is a byte string in any case
        self.loop = loop           # loop to peel when this local, perhaps unbound, is read


class Unbound:
    def __repr__(self):
        return "Unbound"


UNBOUND = Unbound()


class Owner:
    """something with mutable cells"""

    def __init__(self, ctx, label):
        self.label = ctx.label(label + ctx.site())
        self.seq = ctx.next_seq()
        self.attrs = {}
        ctx.owners[self.label] = self

    def no_inv(self, name):
        """no invariant candidates for this cell"""
        return False

    def raw_set(self, name, v):
        self.attrs[name] = v


class Frame(Owner):
    def __init__(self, ctx, func, globs, parent=None):
        Owner.__init__(self, ctx, "frame:" + (func.qualname if func else "<mod>"))
        self.func = func
        self.globs = globs
        self.parent = parent          # enclosing function frame (closure)
        self.caller = None
        self.yield_handler = None
        self.locals_names = set()
        self.global_names = set()
        self.nonlocal_names = set()


class Obj(Owner):
    def __init__(self, ctx, cls, label=None):
        Owner.__init__(self, ctx, label or ("obj:" + cls.name))
        self.cls = cls

    def __repr__(self):
        return "<Obj %s %s>" % (self.cls.name, self.label)


class Model(Owner):
    """instance of an external (modelled) type; methods are m_<name>(ctx, ...)"""
    typename = "model"
    real = ()            # the classes it stands for: their other attributes are not modelled

    def __init__(self, ctx, label=None):
        Owner.__init__(self, ctx, label or ("model:" + self.typename))
        self.dyn = {}        # read-only python-side attributes

    def get(self, ctx, name):
        return ctx.read_cell(self, name)

    def set(self, ctx, name, v):
        ctx.write_cell(self, name, v)

    def __repr__(self):
        return "<%s %s>" % (self.typename, self.label)


class Stale(Model):
    """an object made by an earlier iteration; that it exists is all that is known about it"""

    def used(self, ctx, *a, **k):
        ctx.interp.unsupported("use of an object made by an earlier iteration")

    get_attribute = set_attribute = truth = getitem = setitem = iterate = call = length = contains = used
    model_eq = model_arith = model_cmp = isinstance_of = used


class IList(Owner):
    def __init__(self, ctx, items):
        Owner.__init__(self, ctx, "list")
        self.attrs["items"] = list(items)


class IDict(Owner):
    def __init__(self, ctx, items=()):
        Owner.__init__(self, ctx, "dict")
        self.attrs["items"] = list(items)   # list of (key, value)


class ISet(Owner):
    """a set of known size; its order is not known"""
    def __init__(self, ctx, items=()):
        Owner.__init__(self, ctx, "set")
        self.attrs["items"] = list(items)


class ClassVal:
    def __init__(self, name, bases, ns, module=None, native=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.native = native
        self.mro = self._mro()

    def _mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro:
                if c not in out:
                    out.append(c)
        # keep simple C3-like order for single inheritance / mixins
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return "<class %s>" % self.name


class FuncVal:
    def __init__(self, node, module, qualname, closure=None, cls=None, defaults=None,
                 kwdefaults=None):
        self.node = node
        self.module = module
        self.qualname = qualname
        self.closure = closure
        self.cls = cls
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.kind = "function"
        self.is_gen = False

    def __repr__(self):
        return "<func %s>" % self.qualname


class BoundMethod:
    def __init__(self, func, obj):
        self.func = func
        self.obj = obj

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.obj)


class Builtin:
    """modelled callable: fn(ctx, args, kwargs)"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class ModuleVal(Owner):
    def __init__(self, ctx, name, path=None):
        Owner.__init__(self, ctx, "module:" + name)
        self.name = name
        self.path = path


class ExtModule:
    """module outside the repository"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name


class GenVal(Owner):
    """suspended call of a generator function (uncontracted)"""

    def __init__(self, ctx, func, frame):
        Owner.__init__(self, ctx, "gen:" + func.qualname)
        self.func = func
        self.frame = frame
        self.attrs["state"] = "new"


class GenExp(Owner):
    def __init__(self, ctx, node, frame):
        Owner.__init__(self, ctx, "genexp")
        self.node = node
        self.frame = frame


class SRange:
    def __init__(self, start, stop, step):
        self.start = start
        self.stop = stop
        self.step = step


class SliceVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SuperVal:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class PropertyVal:
    def __init__(self, fget):
        self.fget = fget


class StaticMethod:
    def __init__(self, f):
        self.f = f


class ClassMethod:
    def __init__(self, f):
        self.f = f
