"""Shared pieces of the verification units."""
import os
import z3
from pyvc import terms as T
from pyvc.values import *
from pyvc.core import Engine, Ctx
from pyvc.interp import Interp
from pyvc.models import World, EXT, BUILTINS, Fd, ModeVal, file_of
from pyvc.builtins_ import int_term, txt_term, text_eq, free_bool, wrapb, is_text, is_bytes, concrete, eq, txt_len, to_str

REPO = os.environ.get("VERIF_REPO", "/repo")


ASSUMPTIONS = {}        # property -> assumptions of its units
GENERAL_ASSUMPTIONS = [
    "integers are mathematical (Python integers are unbounded); sizes handed to the kernel are below 2^63",
    "no MemoryError, RecursionError or asynchronous exception except where a unit models an interrupt",
    "log calls and str() of exceptions have no side effects",
    "python -O is not used (assert statements are executed)",
]


class Unit:
    """one verification unit: fn(ctx) runs the real code against contracts"""

    def __init__(self, name, props, fn, setup=None, expect=(), variants=(None,), budget=None,
                 bounded=False):
        self.name, self.props, self.fn, self.setup = name, tuple(props), fn, setup
        self.expect = tuple(expect)       # covers that must be reached
        self.variants = tuple(variants)
        self.budget = budget
        self.bounded = bounded


UNITS = []


def unit(name, props, setup=None, expect=(), variants=(None,), budget=None):
    def d(fn):
        UNITS.append(Unit(name, props, fn, setup, expect, variants, budget))
        return fn
    return d


def make(ctx, world_cls=World, *a, **k):
    """interpreter and environment of a path"""
    ip = Interp(ctx, REPO, EXT, BUILTINS)
    if seqiter_hints not in ctx.engine.hints:
        ctx.engine.hints.append(seqiter_hints)
    w = world_cls(ctx, *a, **k)
    ctx.world = w
    return ip, w


def sint(t):
    if isinstance(t, int):
        return t
    t = T.norm(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t)


def call(ip, f, *a, **k):
    return ip.call(f, list(a), k)


def method(ip, o, name, *a, **k):
    return ip.call(ip.getattr(o, name), list(a), k)


def outcome(ip, fn):
    """('ok', value) or ('raise', exc)"""
    try:
        return "ok", fn()
    except IRaise as e:
        return "raise", e.exc


def isexc(ip, exc, *classes):
    for c in classes:
        if isinstance(c, str):
            c = ip.builtins[c]
        if exc.cls.issub(c):
            return True
    return False


def excname(exc):
    a = exc.attrs.get("args")
    return "%s%s raised at %s" % (exc.cls.name, repr(a)[:200], exc.attrs.get("__where__"))


class Contract:
    """contract of a function of the repository, used at its call sites"""

    def __init__(self, fn, when=None):
        self.fn, self.when = fn, when

    def applies(self, ip, f, args, kwargs):
        return self.when is None or self.when(ip, f, args, kwargs)

    def call(self, ip, f, args, kwargs):
        return self.fn(ip, f, args, kwargs)


class IvSeq:
    """mathematical sequence of disjoint increasing intervals [F(i), L(i)],
    0 <= i < N, and one Skolem point K located in it at index J when covered"""

    def __init__(self, ctx, name, n, k, lo=None, hi=None, touching=True, strict=True):
        self.ctx, self.name, self.n, self.k = ctx, name, n, k
        self.Ff = z3.Function(name + ".first", z3.IntSort(), z3.IntSort())
        self.Lf = z3.Function(name + ".last", z3.IntSort(), z3.IntSort())
        self.idx = []
        self.lo, self.hi = lo, hi
        self.gap = 1 if touching else 2
        self.strict = strict
        self.j = T.fresh_int(name + ".J")
        self.hook = []
        self.ids = set()
        ctx.solver.theories.append(self.theory)
        self.cov = T.keep(z3.And(self.j >= 0, self.j < n, self.Ff(self.j) <= k,
                                 k <= self.Lf(self.j)))
        self.at(self.j, False)

    def at(self, i, reg=True):
        """register an index term; adds the facts about it"""
        i = T.norm(T.I(i))
        if i.get_id() in self.ids:
            return i
        self.ids.add(i.get_id())
        T.keep(i)
        c = self.ctx
        valid = z3.And(i >= 0, i < self.n)
        f, l = self.Ff(i), self.Lf(i)
        fs = [f <= l]
        if self.lo is not None:
            fs.append(f >= self.lo)
        if self.hi is not None:
            fs.append(l <= self.hi)
        c.solver.add(z3.Implies(valid, z3.And(fs)))
        self.idx.append(i)
        # location of K:  J is the first interval ending at or after K
        c.solver.add(z3.Implies(z3.And(valid, i < self.j), l < self.k))
        c.solver.add(z3.Implies(z3.And(valid, i >= self.j), l >= self.k))
        c.solver.add(z3.Implies(z3.And(valid, i > self.j), f > self.k))
        for h in self.hook:
            h(i)
        return i

    def theory(self, m, ev):
        """violated instances of: earlier intervals end before later ones start"""
        nv = ev(self.n)
        vals = []
        for i in self.idx:
            iv = ev(i)
            if iv is not None and nv is not None and 0 <= iv < nv:
                vals.append((iv, ev(self.Ff(i)), ev(self.Lf(i)), i))
        vals.sort(key=lambda x: x[0])
        out = []
        for (a, fa, la, i), (b, fb, lb, j) in zip(vals, vals[1:]):
            if a < b and la + self.gap > fb:
                out.append(z3.Implies(z3.And(i >= 0, i < j, j < self.n),
                                      self.Lf(i) + self.gap <= self.Ff(j)))
        return out

    def base(self):
        self.ctx.assume(z3.And(self.j >= 0, self.j <= self.n, self.n >= 0))

    def F(self, i):
        i = self.at(i)
        return self.Ff(i)

    def L(self, i):
        i = self.at(i)
        return self.Lf(i)


class SeqIter(Model):
    """iterator over a mathematical sequence; item(ctx, i) makes the value"""
    typename = "iterator"

    def __init__(self, ctx, n, item, name="seq", on_next=None, may_fail=None, seq=None):
        Model.__init__(self, ctx, name)
        self.n, self.item = n, item
        self.attrs["i"] = 0
        self.on_next = on_next
        self.may_fail = may_fail
        self.ivs = seq
        ctx.memo.setdefault("seqiters", []).append(self)

    def _reg(self, i):
        if self.ivs is not None:
            self.ivs.at(T.norm(T.I(i)) - 1)
            self.ivs.at(i)

    def next_(self, ctx, default=None):
        i = T.I(int_term(ctx.read_cell(self, "i")))
        self._reg(i)
        if self.may_fail is not None:
            self.may_fail(ctx)
        if ctx.branch(T.norm(i) < self.n):
            ctx.write_cell(self, "i", sint(i + 1))
            return self.item(ctx, i)
        ctx.interp.throw("StopIteration")

    def m___next__(self, ctx):
        return self.next_(ctx)

    def m_close(self, ctx):
        return None

    def iterate(self, ctx, body, node, fr):
        box = {}

        def test():
            i = T.I(int_term(ctx.read_cell(self, "i")))
            self._reg(i)
            if self.may_fail is not None:
                self.may_fail(ctx)
            if ctx.branch(i < self.n):
                box["i"] = i
                ctx.write_cell(self, "i", sint(i + 1))
                return True
            return False

        def run():
            body(self.item(ctx, box["i"]))
        if not isinstance(ctx.read_cell(self, "i"), SInt):
            ctx.write_cell(self, "i", SInt(T.I(int_term(ctx.read_cell(self, "i")))))
        return ctx.cut_loop(node, test, run, "seq")

    def truth(self, ctx):
        return True


def ints_of(view):
    return view.ints


def seqiter_hints(ctx, view):
    out = []
    for it in ctx.memo.get("seqiters", ()):
        if view.is_mod(it, "i"):
            out.append((("sq", it.label), lambda it=it: z3.And(
                T.I(int_term(it.attrs["i"])) <= it.n, T.I(int_term(it.attrs["i"])) >= 0)))
            i0 = view.L.entry_map.get((it.label, "i"))
            for k, x in view.ints:
                ex = view.L.entry_map.get(k)
                if i0 is not None and ex is not None and k != (it.label, "i"):
                    out.append((("sq0", it.label, k), lambda it=it, x=x, ex=ex, i0=i0: z3.Implies(
                        T.I(int_term(it.attrs["i"])) == i0, x() == ex)))
            for k, b in view.bools:
                for neg in (False, True):
                    out.append((("sqb", it.label, k, neg), lambda it=it, b=b, neg=neg, i0=i0: z3.Implies(
                        T.I(int_term(it.attrs["i"])) == i0, z3.Not(b()) if neg else b())))
    return out
