"""Built-in operations, string formatting, built-in functions and exceptions."""
import ast
import operator
import re as _re
import z3
from . import terms as T
from .values import *
from .interp import ListIter, CONTROL
from .core import BreakX

# ---------------------------------------------------------------------------
# text as terms
EMPTY = z3.Function("txt_empty", T.Txt, z3.BoolSort())
TLEN = z3.Function("txt_len", T.Txt, z3.IntSort())
DIGITS = z3.Function("digits", z3.IntSort(), z3.IntSort())
DECIMAL = z3.Function("decimal", z3.IntSort(), T.Txt)


def lit_txt(ctx, s):
    tab = ctx.memo.setdefault("lits", {})
    if s not in tab:
        c = z3.Const("lit:%r" % s, T.Txt)
        for o in tab.values():
            ctx.solver.add(c != o)
        ctx.solver.add(EMPTY(c) == z3.BoolVal(s == ""))
        ctx.solver.add(TLEN(c) == len(s))
        tab[s] = c
    return tab[s]


def txt_term(ctx, v):
    """z3 Txt term for a text value, memoised by structure"""
    if isinstance(v, str):
        return lit_txt(ctx, v)
    if isinstance(v, bytes):
        return lit_txt(ctx, v.decode("latin1"))
    if len(v.parts) == 1 and isinstance(v.parts[0], Hole):
        return v.parts[0].t
    if len(v.parts) == 1 and isinstance(v.parts[0], IntHole):
        return DECIMAL(v.parts[0].t)
    key = ("rope", rope_key(v))
    tab = ctx.memo.setdefault("ropes", {})
    if key not in tab:
        tab[key] = T.fresh_txt("rope")
    return tab[key]


def rope_key(v):
    out = []
    for p in parts_of(v):
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, IntHole):
            out.append(("i", str(T.norm(p.t) if z3.is_expr(p.t) else p.t)))
        elif isinstance(p, RealHole):
            out.append(("r", str(p.t), p.prec))
        else:
            out.append(("h", str(p.t)))
    return tuple(out)


def txt_empty(ctx, v):
    if isinstance(v, str):
        return z3.BoolVal(v == "")
    fs = []
    for p in v.parts:
        if isinstance(p, str) or isinstance(p, (IntHole, RealHole)):
            return z3.BoolVal(False)
        if p.kind in ("hex", "human", "nonempty", "word"):
            return z3.BoolVal(False)
        t = p.t
        e = EMPTY(t)
        ctx.solver.add(e == (t == lit_txt(ctx, "")))
        fs.append(e)
    return z3.And(fs) if fs else z3.BoolVal(True)


def txt_len(ctx, v):
    if isinstance(v, (str, bytes)):
        return z3.IntVal(len(v))
    tot = []
    for p in v.parts:
        if isinstance(p, str):
            tot.append(z3.IntVal(len(p)))
        elif isinstance(p, IntHole):
            tot.append(digits(ctx, p.t))
        elif isinstance(p, Hole) and p.length is not None:
            tot.append(T.I(p.length))
        elif isinstance(p, RealHole):
            key = ("rlen", str(p.t), p.prec)
            tab = ctx.memo.setdefault("rlens", {})
            if key not in tab:
                ln = tab[key] = ctx.new_int("rlen", lo=1)
                if p.prec is not None and p.prec <= 6:
                    # an extra digit may come from rounding up
                    base = p.prec + (1 if p.prec else 0)
                    fs = [z3.Implies(p.t >= 0, ln >= 1 + base)]
                    if p.prec:
                        fs.append(z3.Implies(z3.And(p.t >= 0, p.t <= 100), ln <= 3 + base))
                        fs.append(z3.Implies(z3.And(p.t >= 0, p.t <= 900), ln <= 3 + base))
                        fs.append(z3.Implies(z3.And(p.t >= 0, p.t < 1024), ln <= 4 + base))
                        fs.append(z3.Implies(z3.And(p.t >= 0, p.t <= 9900), ln <= 4 + base))
                        fs.append(z3.Implies(p.t >= 1000, ln >= 4 + base))
                        fs.append(z3.Implies(z3.And(p.t >= 0, p.t <= 10 ** 7 - 1), ln <= 7 + base))
                    ctx.solver.add(z3.And(fs))
            tot.append(tab[key])
        else:
            ln = TLEN(p.t)
            ctx.solver.add(ln >= 0)
            ctx.solver.add((ln == 0) == EMPTY(p.t))
            tot.append(ln)
    return T.norm(z3.Sum(tot)) if tot else z3.IntVal(0)


def digits(ctx, t):
    """number of characters of the decimal rendering; monotone on naturals"""
    t = T.norm(T.I(t))
    tab = ctx.memo.setdefault("digits", [])
    for u in tab:
        if u.eq(t):
            return DIGITS(t)
    s = ctx.solver
    s.add(DIGITS(t) >= 1)
    s.add(z3.Implies(z3.And(t >= 0, t < 10), DIGITS(t) == 1))
    for k in (2, 3, 4):
        s.add(z3.Implies(z3.And(t >= 0, t < 10 ** k), DIGITS(t) <= k))
    for u in tab:
        s.add(z3.Implies(z3.And(0 <= u, u <= t), z3.And(DIGITS(u) <= DIGITS(t), DIGITS(t) - DIGITS(u) <= t - u)))
        s.add(z3.Implies(z3.And(0 <= t, t <= u), z3.And(DIGITS(t) <= DIGITS(u), DIGITS(u) - DIGITS(t) <= u - t)))
    T.keep(t)
    tab.append(t)
    return DIGITS(t)


def is_text(v):
    return isinstance(v, (str, SStr)) and not (isinstance(v, SStr) and v.is_bytes)


def is_bytes(v):
    return isinstance(v, (bytes, SBytes)) or (isinstance(v, SStr) and v.is_bytes)


def is_num(v):
    return isinstance(v, (int, float, SInt, SReal, SBool))


def is_intlike(v):
    return isinstance(v, (int, SInt, SBool))


def int_term(v):
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise TypeError(v)


def real_term(v):
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, float):
        return z3.RealVal(repr(v)) if "e" not in repr(v) else z3.RealVal("%.30f" % v)
    return z3.ToReal(int_term(v))


def wrap(ip, t):
    return ip.wrap_int(t)


def wrapb(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def free_bool(ctx, why=""):
    return SBool(T.fresh_bool(why or "free"))


# ---------------------------------------------------------------------------
# equality and ordering
def eq(ip, a, b):
    ctx = ip.ctx
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return free_bool(ctx, "opaque_eq")
    if is_num(a) and is_num(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        if isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)):
            return wrapb(real_term(a) == real_term(b))
        if isinstance(a, SBool) and isinstance(b, (SBool, bool)):
            return wrapb(a.t == (b.t if isinstance(b, SBool) else z3.BoolVal(b)))
        if isinstance(b, SBool) and isinstance(a, bool):
            return wrapb(b.t == z3.BoolVal(a))
        return wrapb(T.norm(int_term(a)) == T.norm(int_term(b)))
    if is_text(a) and is_text(b) or (is_bytes(a) and is_bytes(b)
                                     and not isinstance(a, SBytes) and not isinstance(b, SBytes)):
        return text_eq(ctx, a, b)
    if isinstance(a, SBytes) or isinstance(b, SBytes):
        x, y = (a, b) if isinstance(a, SBytes) else (b, a)
        if isinstance(y, bytes) and len(y) == 0:
            return wrapb(x.len == 0)
        if isinstance(y, SBytes) and x.src == y.src and x.src != "?" and \
                T.norm(x.off).eq(T.norm(y.off)) and T.norm(x.len).eq(T.norm(y.len)):
            return True
        if is_bytes(y):
            hook = getattr(ctx.world, "bytes_eq", None)
            if hook is not None:
                r = hook(ctx, x, y)
                if r is not NotImplemented:
                    return r
            return free_bool(ctx, "bytes_eq")
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not ip.truth(eq(ip, x, y)):
                return False
        return True
    if isinstance(a, IList) and isinstance(b, IList):
        return eq(ip, tuple(ctx.read_cell(a, "items")), tuple(ctx.read_cell(b, "items")))
    if a is None or b is None:
        return False
    if isinstance(a, (Obj, Model)) or isinstance(b, (Obj, Model)):
        for x, y in ((a, b), (b, a)):
            f = getattr(x, "model_eq", None)
            if f is not None:
                return f(ctx, y)
            if isinstance(x, Obj):
                m, _ = x.cls.lookup("__eq__")
                if isinstance(m, FuncVal):
                    return ip.call(BoundMethod(m, x), [y], {})
            if isinstance(x, Model) and any(c.__eq__ is not object.__eq__ for c in x.real):
                ip.unsupported("equality of %r" % (x,))
        return False
    if isinstance(a, (ISet, IDict)) and isinstance(b, (ISet, IDict)):
        if isinstance(a, IDict) or isinstance(b, IDict):
            ip.unsupported("equality of dictionaries")
        return len(ctx.read_cell(a, "items")) == len(ctx.read_cell(b, "items")) and \
            SET_METHODS["issubset"](ip, a, [b], {})
    if isinstance(a, (ClassVal, FuncVal, Builtin, BoundMethod, ExtModule, ModuleVal)):
        return a is b
    if type(a) in (int, str, bytes, bool, float, tuple) and type(b) in (int, str, bytes, bool, float, tuple):
        return a == b
    if (is_text(a) or is_num(a) or is_bytes(a) or isinstance(a, tuple)) and \
            (is_text(b) or is_num(b) or is_bytes(b) or isinstance(b, tuple)):
        return False
    return free_bool(ctx, "eq")


def text_eq(ctx, a, b):
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        return a == b
    pa, pb = list(parts_of(a)), list(parts_of(b))
    # cancel common prefix / suffix
    def cancel(x, y):
        while x and y:
            p, q = x[0], y[0]
            if isinstance(p, str) and isinstance(q, str):
                n = min(len(p), len(q))
                if p[:n] != q[:n]:
                    return False
                x[0], y[0] = p[n:], q[n:]
                if not x[0]:
                    x.pop(0)
                if not y[0]:
                    y.pop(0)
            elif not isinstance(p, str) and not isinstance(q, str) and p.same(q):
                x.pop(0)
                y.pop(0)
            else:
                break
        return True
    if not cancel(pa, pb):
        return False

    def rev(l):
        return [p[::-1] if isinstance(p, str) else p for p in reversed(l)]
    pa, pb = rev(pa), rev(pb)
    if not cancel(pa, pb):
        return False
    pa, pb = rev(pa), rev(pb)
    if not pa and not pb:
        return True
    if len(pa) == 1 and len(pb) == 1:
        p, q = pa[0], pb[0]
        if isinstance(p, IntHole) and isinstance(q, IntHole):
            return wrapb(p.t == q.t)
        for x, y in ((p, q), (q, p)):
            if isinstance(x, IntHole) and isinstance(y, str):
                if _re.fullmatch(r"0|-?[1-9][0-9]*", y):
                    return wrapb(x.t == int(y))
                return False
            if isinstance(x, Hole) and isinstance(y, str):
                if x.kind == "ws" and y.strip():
                    return False
                if x.kind == "hex" and not _re.fullmatch(r"[0-9a-f]+", y):
                    return False
    sa, sb = mkstr(pa), mkstr(pb)
    for x, y in ((sa, sb), (sb, sa)):
        if x == "":
            return wrapb(txt_empty(ctx, y))
    return wrapb(txt_term(ctx, sa) == txt_term(ctx, sb))


def contains(ip, c, x):
    ctx = ip.ctx
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, bytes) and isinstance(x, (bytes, int)):
        return x in c
    if isinstance(c, ISet):
        items = ctx.read_cell(c, "items")
    else:
        items = ip.concrete_items(c) if not isinstance(c, (str, bytes)) else None
    if items is not None:
        for i in items:
            if ip.truth(eq(ip, i, x)):
                return True
        return False
    if isinstance(c, SRange):
        if c.step == 1:
            return wrapb(z3.And(int_term(c.start) <= int_term(x), int_term(x) < int_term(c.stop)))
    if isinstance(c, Model):
        m = getattr(c, "contains", None)
        if m is not None:
            return m(ctx, x)
    if is_text(c) or isinstance(c, SBytes):
        if x == "" or x == b"":
            return True
        if isinstance(x, str):
            for p in parts_of(c) if not isinstance(c, SBytes) else ():
                if isinstance(p, str) and x in p:
                    return True
        key = ("in", rope_key(c) if not isinstance(c, SBytes) else id(c), repr(x))
        tab = ctx.memo.setdefault("contains", {})
        if key not in tab:
            tab[key] = T.fresh_bool("contains")
        return SBool(tab[key])
    if isinstance(c, Opaque):
        return free_bool(ctx, "in")
    if c is None or is_num(c):
        ip.throw("TypeError", "argument is not iterable")
    ip.unsupported("'in' on %r" % (c,))


_ORD = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


def compare(ip, op, a, b):
    ctx = ip.ctx
    if isinstance(op, ast.Is):
        return is_(ip, a, b)
    if isinstance(op, ast.IsNot):
        r = is_(ip, a, b)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))
    if isinstance(op, ast.Eq):
        return eq(ip, a, b)
    if isinstance(op, ast.NotEq):
        r = eq(ip, a, b)
        if isinstance(r, bool):
            return not r
        if isinstance(r, SBool):
            return SBool(z3.Not(r.t))
        return not ip.truth(r)
    if isinstance(op, ast.In):
        return contains(ip, b, a)
    if isinstance(op, ast.NotIn):
        r = contains(ip, b, a)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.t))
    f = _ORD[type(op)]
    if is_num(a) and is_num(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return f(a, b)
        if isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)):
            return wrapb(f(real_term(a), real_term(b)))
        return wrapb(f(T.norm(int_term(a)), T.norm(int_term(b))))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return free_bool(ctx, "cmp")
    if (is_text(a) and is_text(b)) or (is_bytes(a) and is_bytes(b)):
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
            return f(a, b)
        return free_bool(ctx, "strcmp")
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if ip.truth(eq(ip, x, y)):
                continue
            return compare(ip, op, x, y)
        return f(len(a), len(b))
    for x in (a, b):
        if isinstance(x, Model) and hasattr(x, "model_cmp"):
            return x.model_cmp(ctx, op, a, b)
    if all(x is None or is_num(x) or is_text(x) or is_bytes(x) or isinstance(x, (tuple, IList, IDict))
           or isinstance(x, Obj) and not has_operators(x) for x in (a, b)) and \
            (type(a) is not type(b) or not isinstance(a, IList)):
        ip.throw("TypeError", "'%s' not supported between these operands" % type(op).__name__)
    ip.unsupported("ordering of %r and %r" % (a, b))


def is_(ip, a, b):
    if a is None or b is None:
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return free_bool(ip.ctx, "is")
        return a is b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return eq(ip, a, b)
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and \
            not isinstance(a, bool) and not isinstance(b, bool):
        return eq(ip, a, b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return a is b


# ---------------------------------------------------------------------------
# arithmetic
def has_operators(o):
    return any(not isinstance(k, str) or k.startswith("__") and k not in ("__init__", "__del__", "__enter__", "__exit__",
               "__iter__", "__next__", "__doc__", "__module__", "__qualname__") for c in o.cls.mro for k in c.ns)


def binop(ip, op, a, b):
    ctx = ip.ctx
    if isinstance(op, ast.Mod) and (is_text(a) or (is_bytes(a) and not isinstance(a, SBytes))):
        return percent(ip, a, b)
    if is_num(a) and is_num(b):
        return arith(ip, op, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if isinstance(op, ast.Add) and (is_text(a) or is_text(b)):
            return concat(ip, to_str(ip, a), to_str(ip, b))
        return Opaque("arith")
    if isinstance(op, ast.Add):
        if is_text(a) and is_text(b):
            return concat(ip, a, b)
        if is_bytes(a) and is_bytes(b):
            return bconcat(ip, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, IList) and isinstance(b, IList):
            return IList(ctx, ctx.read_cell(a, "items") + ctx.read_cell(b, "items"))
    if isinstance(a, ISet) and isinstance(b, ISet) and type(op).__name__ in SET_OPS:
        return SET_OPS[type(op).__name__](ip, a, [b], {})
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if is_intlike(y):
                if isinstance(x, (str, bytes)) and isinstance(y, int):
                    return x * y
                if isinstance(x, (str, bytes)):
                    # repeated text of symbolic length
                    if len(x) == 1:
                        c = x if isinstance(x, str) else x.decode("latin1")
                        h = Hole(z3.Function("rep", z3.IntSort(), z3.IntSort(), T.Txt)(
                            z3.IntVal(ord(c)), y.t), "ws" if c.isspace() else "rep",
                            length=y.t, info=("rep", c))
                        return SStr([h], isinstance(x, bytes))
                if isinstance(x, IList) and isinstance(y, int):
                    items = ctx.read_cell(x, "items")
                    if len(items) * y > 2000:
                        return BigList(ctx, items, len(items) * y)
                    return IList(ctx, items * y)
                if isinstance(x, tuple) and isinstance(y, int):
                    return x * y
    if isinstance(op, ast.Sub):
        for x in (a, b):
            if isinstance(x, Model) and hasattr(x, "model_arith"):
                return x.model_arith(ctx, op, a, b)
    for x in (a, b):
        if isinstance(x, Model) and hasattr(x, "model_arith"):
            return x.model_arith(ctx, op, a, b)
    if isinstance(op, ast.BitOr) and isinstance(a, ClassVal):
        return Opaque("type union")
    if all(v is None or is_num(v) or is_text(v) or is_bytes(v) or isinstance(v, (tuple, IList, ISet, IDict))
           or isinstance(v, Obj) and not has_operators(v) for v in (a, b)) and \
            not (isinstance(a, IDict) and isinstance(b, IDict)) and not isinstance(a, ISet):
        ip.throw("TypeError", "unsupported operand types for %s" % type(op).__name__)
    ip.unsupported("operator %s on %r, %r" % (type(op).__name__, a, b))


class BigList(Model):
    typename = "list"

    def __init__(self, ctx, items, n):
        Model.__init__(self, ctx)
        self.n = n


def concat(ip, a, b):
    return mkstr(parts_of(a) + parts_of(b))


def bconcat(ip, a, b):
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a + b
    if isinstance(a, bytes) and not a:
        return b
    if isinstance(b, bytes) and not b:
        return a
    if isinstance(a, SBytes) and isinstance(b, SBytes):
        ctx = ip.ctx
        if a.src == b.src and a.src != "?":
            if ctx.solver.prove(T.norm(a.off + a.len) == T.norm(b.off))[0] == "valid":
                return SBytes(a.src, a.off, T.norm(a.len + b.len))
            if ctx.solver.prove(a.len == 0)[0] == "valid":
                return b
            if ctx.solver.prove(b.len == 0)[0] == "valid":
                return a
        return SBytes("?", z3.IntVal(0), T.norm(a.len + b.len))
    if isinstance(a, SBytes) or isinstance(b, SBytes):
        la = a.len if isinstance(a, SBytes) else txt_len(ip.ctx, a)
        lb = b.len if isinstance(b, SBytes) else txt_len(ip.ctx, b)
        return SBytes("?", z3.IntVal(0), T.norm(la + lb))
    return mkstr(parts_of(a) + parts_of(b), True)


_PY = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
       ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Div: operator.truediv,
       ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
       ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor}


def arith(ip, op, a, b):
    ctx = ip.ctx
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try:
            return _PY[type(op)](a, b)
        except ZeroDivisionError:
            ip.throw("ZeroDivisionError", "division by zero")
        except (OverflowError, ValueError) as e:
            ip.throw(type(e).__name__, str(e))
    isreal = isinstance(a, (float, SReal)) or isinstance(b, (float, SReal))
    if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
        zero = eq(ip, b, 0)
        if ip.truth(zero):
            ip.throw("ZeroDivisionError", "division by zero")
    if isinstance(op, ast.Div) or isreal:
        ra, rb = real_term(a), real_term(b)
        ctx.engine.assumed.add("floating point is treated as exact real arithmetic")
        if isinstance(op, ast.Add):
            return SReal(ra + rb)
        if isinstance(op, ast.Sub):
            return SReal(ra - rb)
        if isinstance(op, ast.Mult):
            if z3.is_rational_value(z3.simplify(ra)) or z3.is_rational_value(z3.simplify(rb)):
                return SReal(z3.simplify(ra * rb), quot(ctx, a, b, "*"))
            return real_mul(ctx, ra, rb)
        if isinstance(op, ast.Div):
            if z3.is_rational_value(z3.simplify(rb)):
                return SReal(ra / rb, quot(ctx, a, b, "/"))
            r = real_div(ctx, a, b, ra, rb)
            r.q = quot(ctx, a, b, "/")
            return r
        if isinstance(op, ast.FloorDiv):
            if z3.is_rational_value(z3.simplify(rb)):
                return SReal(z3.ToReal(z3.ToInt(ra / rb)))
            return SReal(T.fresh_real("fdiv"))
        if isinstance(op, ast.Mod):
            return SReal(T.fresh_real("fmod"))
        ip.unsupported("real operator")
    ta, tb = int_term(a), int_term(b)
    if isinstance(op, ast.Add):
        return wrap(ip, ta + tb)
    if isinstance(op, ast.Sub):
        return wrap(ip, ta - tb)
    if isinstance(op, ast.Mult):
        return wrap(ip, ctx.solver.mul(ta, tb))
    if isinstance(op, ast.FloorDiv):
        return wrap(ip, ctx.solver.floordiv(ta, tb)[0])
    if isinstance(op, ast.Mod):
        return wrap(ip, ctx.solver.floordiv(ta, tb)[1])
    if isinstance(op, ast.LShift) and isinstance(b, int) and b >= 0:
        return wrap(ip, ctx.solver.mul(ta, z3.IntVal(2 ** b)))
    if isinstance(op, ast.RShift) and isinstance(b, int) and b >= 0:
        return wrap(ip, ctx.solver.floordiv(ta, z3.IntVal(2 ** b))[0])
    if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b <= 3:
        r = z3.IntVal(1)
        for _ in range(b):
            r = ctx.solver.mul(r, ta)
        return wrap(ip, r)
    if isinstance(op, ast.BitAnd):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int) and x >= 0 and (x & (x + 1)) == 0:
                return wrap(ip, ctx.solver.floordiv(int_term(y), z3.IntVal(x + 1))[1])
        return bit_fun(ctx, "bitand", ta, tb)
    if isinstance(op, ast.BitOr):
        return bit_fun(ctx, "bitor", ta, tb)
    if isinstance(op, ast.BitXor):
        return bit_fun(ctx, "bitxor", ta, tb)
    ip.unsupported("integer operator %s" % type(op).__name__)


def bit_fun(ctx, name, a, b):
    f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.IntSort())
    r = f(a, b)
    ctx.solver.add(z3.Implies(z3.And(a >= 0, b >= 0), r >= 0))
    return SInt(r)


def quot(ctx, a, b, op):
    """the exact quotient of integers a real expression stands for"""
    def q(v):
        if isinstance(v, SReal):
            return v.q
        if isinstance(v, float):
            if not v.is_integer():
                return None
            v = int(v)
        return int_term(v), z3.IntVal(1)
    qa, qb = q(a), q(b)
    if qa is None or qb is None:
        return None
    m = ctx.solver.mul
    if op == "*":
        return T.norm(m(qa[0], qb[0])), T.norm(m(qa[1], qb[1]))
    return T.norm(m(qa[0], qb[1])), T.norm(m(qa[1], qb[0]))


def real_mul(ctx, ra, rb):
    r = T.fresh_real("rmul")
    ctx.solver.add(z3.Implies(z3.And(ra >= 0, rb >= 0), r >= 0))
    return SReal(r)


def real_div(ctx, a, b, ra, rb):
    """quotient with facts: sign, comparison with 0 and 1, exactness on equality,
    monotonicity over quotients with the same divisor"""
    r = T.fresh_real("rdiv")
    s = ctx.solver
    s.add(z3.Implies(rb > 0, z3.And((r >= 0) == (ra >= 0), (r <= 1) == (ra <= rb),
                                    (r == 1) == (ra == rb), (r == 0) == (ra == 0),
                                    (r <= 100) == (ra <= 100 * rb))))
    tab = ctx.memo.setdefault("rdivs", [])
    for (oa, ob, o) in tab:
        if ob.eq(rb):
            s.add(z3.Implies(rb > 0, z3.And((oa <= ra) == (o <= r), (oa == ra) == (o == r))))
    T.keep(ra)
    T.keep(rb)
    tab.append((ra, rb, r))
    return SReal(r)


# ---------------------------------------------------------------------------
# text rendering
def to_str(ip, v):
    ctx = ip.ctx
    if isinstance(v, (str,)):
        return v
    if isinstance(v, SStr):
        if v.is_bytes:
            return mkstr(("b'",) + v.parts + ("'",))
        return v
    if v is None or isinstance(v, (bool, int, float, bytes)):
        return str(v)
    if isinstance(v, SInt):
        return mkstr([IntHole(v.t)])
    if isinstance(v, SReal):
        return mkstr([RealHole(v.t, None)])
    if isinstance(v, SBool):
        return "True" if ip.truth(v) else "False"
    if isinstance(v, Obj):
        m, _ = v.cls.lookup("__str__")
        if isinstance(m, FuncVal):
            return ip.call(BoundMethod(m, v), [], {})
        if v.cls.issub(ip.exc_class("BaseException")):
            args = v.attrs.get("args", ())
            if len(args) == 1:
                return to_str(ip, args[0])
            if not args and not v.attrs.get("__open_attrs__"):
                return ""
            return mkstr([Hole(T.fresh_txt("excmsg"), "nonempty")])
        return mkstr([Hole(T.fresh_txt("str"))])
    if isinstance(v, Model):
        f = getattr(v, "to_str", None)
        if f is not None:
            return f(ctx)
    return mkstr([Hole(T.fresh_txt("str"))])


def to_repr(ip, v):
    if isinstance(v, (str, bytes, int, float, bool)) or v is None:
        return repr(v)
    if is_text(v):
        return mkstr(("'",) + parts_of(v) + ("'",))
    return to_str(ip, v)


_FMT = _re.compile(r"%(\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(\.(?P<prec>\*|\d+))?(?P<c>[a-zA-Z%])")


def percent(ip, fmt, args):
    ctx = ip.ctx
    isb = is_bytes(fmt)
    if isinstance(args, tuple):
        argl = list(args)
        single = False
    else:
        argl = [args]
        single = True
    mapping = args if isinstance(args, IDict) else None
    out = []
    ai = 0
    used_key = False
    for p in parts_of(fmt):
        if not isinstance(p, str):
            out.append(p)
            continue
        pos = 0
        while True:
            j = p.find("%", pos)
            if j < 0:
                out.append(p[pos:])
                break
            out.append(p[pos:j])
            m = _FMT.match(p, j)
            if m is None:
                ip.throw("ValueError", "incomplete format")
            pos = m.end()
            c = m.group("c")
            if c == "%":
                out.append("%")
                continue
            if m.group("key") is not None:
                if mapping is None:
                    ip.throw("TypeError", "format requires a mapping")
                v = getitem(ip, mapping, m.group("key"))
                used_key = True
            else:
                if "*" in (m.group("width") or "") or "*" in (m.group("prec") or ""):
                    ip.unsupported("'*' in format")
                if ai >= len(argl):
                    ip.throw("TypeError", "not enough arguments for format string")
                v = argl[ai]
                ai += 1
            out.extend(parts_of(fmt_one(ip, c, m, v)))
    if ai < len(argl) and not used_key and not (single and isinstance(args, (IDict,))):
        if not (single and mapping is not None):
            ip.throw("TypeError", "not all arguments converted during string formatting")
    return mkstr(out, isb)


def fmt_one(ip, c, m, v):
    flags, width, prec = m.group("flags"), m.group("width"), m.group("prec")
    if c in "diu":
        if isinstance(v, Opaque):
            return pad(ip, mkstr([Hole(T.fresh_txt("num"), "nonempty")]), flags, width)
        if not is_num(v):
            ip.throw("TypeError", "%%%s format: a real number is required" % c)
        if isinstance(v, (int, float)) and not flags and not width and not prec:
            return "%d" % v
        if isinstance(v, SReal):
            v = trunc(ip, v)
        if isinstance(v, SBool):
            v = SInt(int_term(v))
        if isinstance(v, (int, float)):
            return ("%" + flags + (width or "") + ("." + prec if prec else "") + c) % v
        return pad(ip, mkstr([IntHole(v.t)]), flags, width)
    if c in "fFeEgG":
        if isinstance(v, Opaque):
            return mkstr([Hole(T.fresh_txt("num"), "nonempty")])
        if not is_num(v):
            ip.throw("TypeError", "must be real number")
        if isinstance(v, (int, float)):
            return ("%" + flags + (width or "") + ("." + prec if prec is not None else "") + c) % v
        return pad(ip, mkstr([RealHole(real_term(v), int(prec) if prec else 6)]), flags, width)
    if c in "sra":
        s = to_repr(ip, v) if c in "ra" else to_str(ip, v)
        if prec is not None:
            return mkstr([Hole(T.fresh_txt("cut"))])
        return pad(ip, s, flags, width)
    if c in "xXo":
        if not is_intlike(v):
            ip.throw("TypeError", "%%%s format: an integer is required" % c)
        if isinstance(v, int):
            return ("%" + flags + (width or "") + c) % v
        return mkstr([Hole(T.fresh_txt("hex"), "nonempty")])
    if c == "c":
        if isinstance(v, (int, str)):
            return "%c" % v
        return mkstr([Hole(T.fresh_txt("chr"))])
    ip.throw("ValueError", "unsupported format character '%s'" % c)


def pad(ip, s, flags, width):
    if not width:
        return s
    if isinstance(s, str):
        w = int(width)
        return s.ljust(w) if "-" in flags else s.rjust(w)
    n = int(width)
    ln = txt_len(ip.ctx, s)
    ext = ip.ctx.solver.minmax(z3.IntVal(n) - ln, z3.IntVal(0), False)
    h = Hole(T.fresh_txt("pad"), "ws" if "0" not in flags else "rep", length=ext)
    return mkstr(parts_of(s) + (h,)) if "-" in flags else mkstr((h,) + parts_of(s))


def format_spec(ip, v, spec):
    if spec is None or spec == "":
        return to_str(ip, v)
    if isinstance(spec, str):
        if isinstance(v, (int, float, str)):
            try:
                return format(v, spec)
            except (ValueError, TypeError) as e:
                ip.throw(type(e).__name__, str(e))
        m = _re.fullmatch(r"(\d*)(?:\.(\d+))?([dfsu]?)", spec)
        if m:
            c = m.group(3)
            if c == "d" and not is_intlike(v) and not isinstance(v, Opaque):
                ip.throw("ValueError", "Unknown format code 'd'")
            if c == "f" and not is_num(v) and not isinstance(v, Opaque):
                ip.throw("ValueError", "Unknown format code 'f'")
            if c == "s" and not is_text(v):
                ip.throw("ValueError", "Unknown format code 's'")
            if c == "f":
                if is_num(v):
                    return mkstr([RealHole(real_term(v), int(m.group(2) or 6))])
            elif not m.group(1):
                return to_str(ip, v)
    if v is None:
        ip.throw("TypeError", "unsupported format string passed to NoneType.__format__")
    return mkstr([Hole(T.fresh_txt("fmt"))])


def trunc(ip, v):
    if isinstance(v, SReal):
        if v.q is not None:
            n, d = v.q
            if ip.ctx.solver.prove(z3.And(n >= 0, d > 0))[0] == "valid":
                return SInt(T.norm(ip.ctx.solver.floordiv(n, d)[0]))
        t = z3.simplify(v.t)
        if ip.ctx.solver.prove(t >= 0)[0] == "valid":
            return SInt(T.keep(z3.ToInt(t)))
        if ip.ctx.branch(t >= 0):
            return SInt(T.keep(z3.ToInt(t)))
        return SInt(T.keep(-z3.ToInt(-t)))
    return v


def to_int(ip, v, base=10):
    ctx = ip.ctx
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, SInt)):
        return v
    if isinstance(v, SBool):
        return SInt(int_term(v))
    if isinstance(v, float):
        return int(v)
    if isinstance(v, SReal):
        return trunc(ip, v)
    if isinstance(v, (str, bytes)):
        try:
            return int(v, base) if base != 10 else int(v)
        except ValueError as e:
            ip.throw("ValueError", str(e))
    if isinstance(v, SStr):
        parts = [p for p in v.parts]
        while parts and (isinstance(parts[0], Hole) and parts[0].kind == "ws" or
                         isinstance(parts[0], str) and not parts[0].strip()):
            parts.pop(0)
        while parts and (isinstance(parts[-1], Hole) and parts[-1].kind == "ws" or
                         isinstance(parts[-1], str) and not parts[-1].strip()):
            parts.pop()
        parts = [p.strip() if isinstance(p, str) else p for p in parts]
        if len(parts) == 1 and isinstance(parts[0], IntHole):
            return SInt(parts[0].t) if not isinstance(parts[0].t, int) else parts[0].t
        if any(isinstance(p, str) and _re.search(r"[^0-9+_\s-]", p) for p in parts):
            ip.throw("ValueError", "invalid literal for int()")
        tab = ctx.memo.setdefault("ints", {})
        key = rope_key(v)
        if key not in tab:
            tab[key] = (T.fresh_bool("isint"), T.fresh_int("intof"))
        ok, val = tab[key]
        if ctx.branch(ok):
            return SInt(val)
        ip.throw("ValueError", "invalid literal for int()")
    if isinstance(v, Opaque):
        if ctx.choose(2, "int of opaque"):
            ip.throw("ValueError", "invalid literal for int()")
        return SInt(ctx.new_int("int"))
    if isinstance(v, Model) and hasattr(v, "to_int"):
        return v.to_int(ctx)
    ip.throw("TypeError", "int() argument must be a string or a number")


def to_float(ip, v):
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, (SInt, SBool)):
        return SReal(z3.ToReal(int_term(v)), (T.norm(int_term(v)), z3.IntVal(1)))
    if isinstance(v, SReal):
        return v
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError as e:
            ip.throw("ValueError", str(e))
    if is_text(v) or isinstance(v, Opaque):
        if ip.ctx.choose(2, "float of text"):
            ip.throw("ValueError", "could not convert string to float")
        return SReal(T.fresh_real("float"))
    if isinstance(v, Model) and hasattr(v, "to_real"):
        return v.to_real(ip.ctx)
    ip.throw("TypeError", "float() argument")


# ---------------------------------------------------------------------------
# subscripts
def _pos(ip, i, n):
    return i


def getitem(ip, o, i):
    ctx = ip.ctx
    if isinstance(o, Model) and hasattr(o, "tuple_items"):
        o = tuple(o.tuple_items(ctx))
    if isinstance(o, (tuple, str, bytes)):
        if isinstance(i, SliceVal):
            if all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                return o[i.lo:i.hi:i.step]
            if isinstance(o, (str, bytes)):
                return mkstr([Hole(T.fresh_txt("slice"))], isinstance(o, bytes))
            ip.unsupported("symbolic slice of a tuple")
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                ip.throw("IndexError", "index out of range")
        if isinstance(i, SInt):
            n = len(o)
            if ip.truth(wrapb(z3.Or(i.t >= n, i.t < -n))):
                ip.throw("IndexError", "index out of range")
            for k in range(n):
                if ip.truth(wrapb(z3.Or(i.t == k, i.t == k - n))):
                    return o[k]
            raise PathEnd("index")
        ip.throw("TypeError", "indices must be integers")
    if isinstance(o, IList):
        items = ctx.read_cell(o, "items")
        if isinstance(i, SliceVal):
            if all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                return IList(ctx, items[i.lo:i.hi:i.step])
            ip.unsupported("symbolic slice of a list")
        return getitem(ip, tuple(items), i)
    if isinstance(o, IDict):
        for k, v in ctx.read_cell(o, "items"):
            if ip.truth(eq(ip, k, i)):
                return v
        ip.throw("KeyError", i)
    if isinstance(o, SStr):
        if isinstance(i, SliceVal):
            return str_slice(ip, o, i)
        h = mkstr([Hole(T.fresh_txt("chr"), "nonempty")], o.is_bytes)
        if ip.truth(wrapb(T.I(int_term(i)) >= txt_len(ctx, o))):
            ip.throw("IndexError", "string index out of range")
        return h
    if isinstance(o, SBytes):
        if isinstance(i, SliceVal):
            return bytes_slice(ip, o, i)
        if ip.truth(wrapb(int_term(i) >= o.len)):
            ip.throw("IndexError", "index out of range")
        return SInt(ctx.new_int("byte", 0, 255))
    if isinstance(o, Model):
        f = getattr(o, "getitem", None)
        if f is not None:
            return f(ctx, i)
    if isinstance(o, Obj):
        m, _ = o.cls.lookup("__getitem__")
        if m is not None:
            return ip.call(BoundMethod(m, o), [i], {})
        if ip.lacks(o, "__getitem__"):
            ip.throw("TypeError", "object is not subscriptable")
    if isinstance(o, Opaque):
        return Opaque(o.what + "[]")
    if o is None or is_num(o):
        ip.throw("TypeError", "object is not subscriptable")
    if isinstance(o, (ClassVal, ExtModule)):
        return Opaque("typing")
    if isinstance(o, SRange):
        return binop(ip, ast.Add(), o.start, binop(ip, ast.Mult(), i, o.step))
    ip.unsupported("subscript of %r" % (o,))


def clamp(ip, x, n):
    """Python slice bound clamping to [0, n]"""
    t = int_term(x)
    if ip.truth(wrapb(t < 0)):
        t = t + n
        if ip.truth(wrapb(t < 0)):
            return z3.IntVal(0)
        return T.norm(t)
    if ip.truth(wrapb(t > n)):
        return n
    return T.norm(t)


def bytes_slice(ip, o, s):
    if s.step is not None and s.step != 1:
        return SBytes("?", z3.IntVal(0), ip.ctx.new_int("len", 0))
    lo = z3.IntVal(0) if s.lo is None else clamp(ip, s.lo, o.len)
    hi = o.len if s.hi is None else clamp(ip, s.hi, o.len)
    ln = T.norm(hi - lo)
    if not ip.truth(wrapb(ln >= 0)):
        ln = z3.IntVal(0)
    return SBytes(o.src, T.norm(o.off + lo), ln)


def str_slice(ip, o, s):
    if s.lo in (None, 0) and s.hi is None and s.step in (None, 1):
        return o
    p = o.parts
    if s.step in (None, 1):
        if isinstance(s.lo, int) and s.lo >= 0 and s.hi is None and isinstance(p[0], str) \
                and len(p[0]) >= s.lo:
            return mkstr((p[0][s.lo:],) + p[1:], o.is_bytes)
        if s.lo in (None, 0) and isinstance(s.hi, int) and s.hi >= 0 and isinstance(p[0], str) \
                and len(p[0]) >= s.hi:
            return mkstr((p[0][:s.hi],), o.is_bytes)
        if s.lo in (None, 0) and isinstance(s.hi, int) and s.hi < 0 and isinstance(p[-1], str) \
                and len(p[-1]) >= -s.hi:
            return mkstr(p[:-1] + (p[-1][:s.hi],), o.is_bytes)
        if isinstance(s.lo, int) and s.lo < 0 and s.hi is None and isinstance(p[-1], str) and \
                len(p[-1]) >= -s.lo:
            return mkstr((p[-1][s.lo:],), o.is_bytes)
    return mkstr([Hole(T.fresh_txt("slice"))], o.is_bytes)


def setitem(ip, o, i, v):
    ctx = ip.ctx
    if isinstance(o, IDict):
        items = ctx.read_cell(o, "items")
        for j, (k, _) in enumerate(items):
            if ip.truth(eq(ip, k, i)):
                ctx.write_cell(o, "items", items[:j] + [(k, v)] + items[j + 1:])
                return
        ctx.write_cell(o, "items", items + [(i, v)])
        return
    if isinstance(o, IList):
        items = list(ctx.read_cell(o, "items"))
        if isinstance(i, int):
            try:
                items[i] = v
            except IndexError:
                ip.throw("IndexError", "list assignment index out of range")
            ctx.write_cell(o, "items", items)
            return
        ip.unsupported("list store at symbolic index")
    if isinstance(o, Model):
        f = getattr(o, "setitem", None)
        if f is not None:
            return f(ctx, i, v)
    if isinstance(o, (tuple, str, bytes, SStr, SBytes)):
        ip.throw("TypeError", "object does not support item assignment")
    ip.unsupported("item assignment on %r" % (o,))


# ---------------------------------------------------------------------------
# attributes of plain values
def concrete(v):
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return True
    if isinstance(v, tuple):
        return all(concrete(x) for x in v)
    return False


def native_call(ip, f, args, kwargs):
    try:
        r = f(*args, **kwargs)
    except Exception as e:            # pylint: disable=broad-except
        n = type(e).__name__
        if n in ip.builtins and isinstance(ip.builtins[n], ClassVal):
            ip.throw(n, *[a for a in e.args if concrete(a)])
        ip.unsupported("native exception %s" % n)
    return lift(ip, r)


def lift(ip, r):
    if isinstance(r, list):
        return IList(ip.ctx, [lift(ip, x) for x in r])
    if isinstance(r, dict):
        return IDict(ip.ctx, [(k, lift(ip, v)) for k, v in r.items()])
    if isinstance(r, tuple):
        return tuple(lift(ip, x) for x in r)
    return r


def unlist(ip, v):
    if isinstance(v, IList):
        return [unlist(ip, x) for x in ip.ctx.read_cell(v, "items")]
    return v


def value_attr(ip, o, name):
    ctx = ip.ctx
    if is_text(o) or (is_bytes(o) and not isinstance(o, SBytes)):
        if isinstance(o, SStr):
            if not hasattr(str if not o.is_bytes else bytes, name):
                ip.throw("AttributeError", "no attribute '%s'" % name)
        elif not hasattr(o, name):
            ip.throw("AttributeError", "no attribute '%s'" % name)
        return Builtin("str." + name, lambda c, a, k: str_method(ip, o, name, a, k))
    if isinstance(o, IList):
        f = LIST_METHODS.get(name)
        if f is None:
            ip.throw("AttributeError", "'list' object has no attribute '%s'" % name) \
                if not hasattr(list, name) else ip.unsupported("list." + name)
        return Builtin("list." + name, lambda c, a, k: f(ip, o, a, k))
    if isinstance(o, IDict):
        f = DICT_METHODS.get(name)
        if f is None:
            ip.throw("AttributeError", "'dict' object has no attribute '%s'" % name) \
                if not hasattr(dict, name) else ip.unsupported("dict." + name)
        return Builtin("dict." + name, lambda c, a, k: f(ip, o, a, k))
    if isinstance(o, ISet):
        f = SET_METHODS.get(name)
        if f is None:
            ip.throw("AttributeError", "'set' object has no attribute '%s'" % name) \
                if not hasattr(set, name) else ip.unsupported("set." + name)
        return Builtin("set." + name, lambda c, a, k: f(ip, o, a, k))
    if isinstance(o, tuple):
        if name == "index" or name == "count":
            def fn(c, a, k):
                cnt = 0
                for i, x in enumerate(o):
                    if ip.truth(eq(ip, x, a[0])):
                        if name == "index":
                            return i
                        cnt += 1
                if name == "index":
                    ip.throw("ValueError", "not in tuple")
                return cnt
            return Builtin("tuple." + name, fn)
        if hasattr(tuple, name):
            ip.unsupported("tuple." + name)
        ip.throw("AttributeError", "'tuple' object has no attribute '%s'" % name)
    if isinstance(o, SBytes):
        if name in ("strip", "rstrip", "lstrip", "hex", "decode", "splitlines", "split",
                    "startswith", "endswith", "find"):
            if name == "decode":
                return Builtin("bytes.decode", lambda c, a, k: mkstr(
                    [Hole(T.fresh_txt("decoded"))]))
            if name in ("startswith", "endswith"):
                return Builtin(name, lambda c, a, k: free_bool(c, name))
        if not hasattr(bytes, name):
            ip.throw("AttributeError", "'bytes' object has no attribute '%s'" % name)
        ip.unsupported("bytes." + name)
    if isinstance(o, (int, float, SInt, SReal, SBool, bool)):
        if isinstance(o, (int, float)) and hasattr(o, name):
            v = getattr(o, name)
            if callable(v):
                return Builtin(name, lambda c, a, k: native_call(ip, v, a, k))
            return v
        if hasattr(float if isinstance(o, SReal) else int, name):
            ip.unsupported("number." + name)
        ip.throw("AttributeError", "number has no attribute '%s'" % name)
    if o is None and not hasattr(None, name):
        ip.throw("AttributeError", "'NoneType' object has no attribute '%s'" % name)
    if isinstance(o, (GenVal, GenExp)):
        if name == "close":
            return Builtin("gen.close", lambda c, a, k: None)
        if name == "__next__":
            return Builtin("gen.next", lambda c, a, k: b_next(c, [o], {}))
    if isinstance(o, BoundMethod) and name == "__name__":
        return ip.getattr(o.func, name)
    if isinstance(o, (Builtin, BoundMethod, FuncVal)) and name in ("__name__", "__doc__"):
        return "fn"
    ip.unsupported("attribute %s of %r" % (name, o))


class Lines(Model):
    """a list of any number of any lines"""
    typename = "list"
    closed = True
    real = (list,)

    def __init__(self, ctx, n):
        Model.__init__(self, ctx, "lines")
        self.n = n

    def length(self, ctx):
        return SInt(self.n)

    def truth(self, ctx):
        return wrapb(self.n > 0)

    def getitem(self, ctx, i):
        ip = ctx.interp
        if isinstance(i, SliceVal):
            if i.step not in (None, 1):
                ip.unsupported("slice with a step")
            lo = z3.IntVal(0) if i.lo is None else clamp(ip, i.lo, self.n)
            hi = self.n if i.hi is None else clamp(ip, i.hi, self.n)
            return Lines(ctx, T.norm(z3.If(hi > lo, hi - lo, 0)))
        i = T.I(int_term(i))
        if ip.truth(wrapb(z3.Or(i >= self.n, i < -self.n))):
            ip.throw("IndexError", "list index out of range")
        return mkstr([Hole(T.fresh_txt("line"), "any")])


def suffix_atom(ctx, v, suf):
    """truth of v.endswith(suf) for a text with unknown end"""
    tab = ctx.memo.setdefault("suffix", {})
    k = rope_key(v)
    d = tab.setdefault(k, {})
    if suf not in d:
        b = T.fresh_bool("endswith_%s" % suf)
        for s, ob in d.items():
            if z3.is_false(ob):
                if suf.endswith(s):
                    b = ob
                    break
            elif s.endswith(suf):
                ctx.solver.add(z3.Implies(ob, b))
            elif suf.endswith(s):
                ctx.solver.add(z3.Implies(b, ob))
            else:
                ctx.solver.add(z3.Not(z3.And(ob, b)))
        d[suf] = b
    return SBool(d[suf])


def prefix_atom(ctx, v, pre):
    tab = ctx.memo.setdefault("prefix", {})
    k = rope_key(v)
    d = tab.setdefault(k, {})
    if pre not in d:
        b = T.fresh_bool("startswith_%s" % pre)
        for s, ob in d.items():
            if s.startswith(pre):
                ctx.solver.add(z3.Implies(ob, b))
            elif pre.startswith(s):
                ctx.solver.add(z3.Implies(b, ob))
            else:
                ctx.solver.add(z3.Not(z3.And(ob, b)))
        d[pre] = b
    return SBool(d[pre])


def without_suffix(ctx, v, sufs):
    """assume that v ends in none of sufs"""
    f = z3.BoolVal(False)
    ctx.memo.setdefault("suffix", {}).setdefault(rope_key(v), {}).update((s, f) for s in sufs)


STRIPPED = z3.Function("stripped", T.Txt, T.Txt)
LOWERED = z3.Function("lowered", T.Txt, T.Txt)


def strip_rope(ip, o, chars=None, left=True, right=True):
    parts = list(parts_of(o))

    def blank(p):
        if isinstance(p, str):
            return not p.strip(chars)
        if isinstance(p, Hole):
            return p.kind == "ws" and (chars is None or set(chars) >= set(" "))
        return False
    if left:
        while parts and blank(parts[0]):
            parts.pop(0)
        if parts and isinstance(parts[0], str):
            parts[0] = parts[0].lstrip(chars)
    if right:
        while parts and blank(parts[-1]):
            parts.pop()
        if parts and isinstance(parts[-1], str):
            parts[-1] = parts[-1].rstrip(chars)
    if not parts:
        return ""
    # unknown ends
    ok = ("hex", "human", "word", "stripped", "rep")

    def settled(p):
        return not isinstance(p, Hole) or p.kind in ok
    if (not left or settled(parts[0])) and (not right or settled(parts[-1])):
        return mkstr(parts, isinstance(o, SStr) and o.is_bytes)
    if len(parts) == 1 and chars is None and left and right:
        h = parts[0]
        return SStr([Hole(STRIPPED(h.t), "stripped", info=h.info)], o.is_bytes)
    if len(parts) == 1 and isinstance(parts[0], Hole):
        h = parts[0]
        f = z3.Function("stripped:%s%s%s" % (chars, left, right), T.Txt, T.Txt)
        return mkstr([Hole(f(h.t), "any", info=("strip", chars, left and right, h.info))], isinstance(o, SStr) and o.is_bytes)
    return mkstr([Hole(T.fresh_txt("strip"), "any")], isinstance(o, SStr) and o.is_bytes)


def str_method(ip, o, name, a, k):
    ctx = ip.ctx
    isb = is_bytes(o)
    if isinstance(o, (str, bytes)):
        ua = [unlist(ip, x) for x in a]
        if name == "join" and isinstance(a[0], Lines):
            return mkstr([Hole(T.fresh_txt("joined"))])
        if name == "join":
            items = ip.to_list(a[0])
            if all(isinstance(x, type(o)) for x in items):
                return o.join(items)
        elif all(concrete(x) or isinstance(x, list) for x in ua) and all(concrete(v) for v in k.values()):
            if name == "encode" and isinstance(o, str):
                return native_call(ip, o.encode, ua, k)
            return native_call(ip, getattr(o, name), ua, k)
    sp = parts_of(o)
    if name == "join":
        items = ip.to_list(a[0])
        out = []
        for i, x in enumerate(items):
            if isb != is_bytes(x) and not isinstance(x, Opaque):
                ip.throw("TypeError", "sequence item: wrong type")
            if isinstance(x, SBytes):
                acc = b""
                for y in items:
                    acc = bconcat(ip, acc, y)
                return acc
            if i:
                out.extend(sp)
            out.extend(parts_of(to_str(ip, x) if isinstance(x, Opaque) else x))
        return mkstr(out, isb)
    if name in ("strip", "lstrip", "rstrip"):
        ch = a[0] if a else None
        if isinstance(ch, bytes):
            ch = ch.decode("latin1")
        return strip_rope(ip, o, ch, name != "rstrip", name != "lstrip")
    if name == "encode":
        if isb:
            ip.throw("AttributeError", "'bytes' object has no attribute 'encode'")
        return mkstr(sp, True)
    if name == "decode":
        if not isb:
            ip.throw("AttributeError", "'str' object has no attribute 'decode'")
        return mkstr(sp, False)
    if name == "endswith" or name == "startswith":
        sufs = a[0] if isinstance(a[0], tuple) else (a[0],)
        for s in sufs:
            if not isinstance(s, (str, bytes)):
                r = free_bool(ctx, name)
            else:
                if isinstance(s, bytes) != isb:
                    ip.throw("TypeError", "a bytes-like object is required")
                s2 = s.decode("latin1") if isinstance(s, bytes) else s
                r = _ends(ip, o, s2, name)
            if ip.truth(r):
                return True
        return False
    if name in ("lower", "upper") or name == "casefold" and not any(
            isinstance(p, Hole) and p.kind not in ("word", "hex") for p in sp):
        name = "lower" if name == "casefold" else name
        out = []
        for p in sp:
            if isinstance(p, str):
                out.append(getattr(p, name)())
            elif isinstance(p, Hole) and not (p.kind == "hex" and name == "lower"):
                if name == "lower":
                    h = Hole(LOWERED(p.t), p.kind, p.length, p.info)
                else:
                    h = Hole(z3.Function("uppered", T.Txt, T.Txt)(p.t), p.kind, p.length, p.info)
                out.append(h)
            else:
                out.append(p)
        return mkstr(out, isb)
    if name in ("split", "partition", "rsplit", "rpartition"):
        return split_rope(ip, o, name, a, k)
    if name in ("isdigit", "isspace", "isalpha", "isalnum", "isnumeric", "isdecimal"):
        if len(sp) == 1 and isinstance(sp[0], IntHole) and name in ("isdigit", "isnumeric", "isdecimal"):
            return wrapb(sp[0].t >= 0)
        return free_bool(ctx, name)
    if name == "splitlines":
        out, cur = [], []
        for p in sp:
            if isinstance(p, str):
                segs = p.split("\n")
                for i, s in enumerate(segs):
                    if i:
                        out.append(mkstr(cur, isb))
                        cur = []
                    cur.append(s)
            elif isinstance(p, Hole) and p.kind == "lines" and len(sp) == 1:
                return Lines(ctx, ctx.new_int("lines", 0))
            elif isinstance(p, Hole) and p.kind not in ("word", "hex", "human", "ws", "rep"):
                ip.unsupported("splitlines of unknown text")
            else:
                cur.append(p)
        if any(x != "" for x in cur):
            out.append(mkstr(cur, isb))
        return IList(ctx, out)
    if name in ("find", "index", "count"):
        r = ctx.new_int(name, lo=-1)
        ctx.assume(r <= txt_len(ctx, o))
        if name == "index":
            if ip.truth(wrapb(r < 0)):
                ip.throw("ValueError", "substring not found")
        return SInt(r)
    if name == "format":
        return mkstr([Hole(T.fresh_txt("format"))])
    if name in ("replace", "title", "capitalize", "ljust", "rjust", "center", "zfill",
                "expandtabs", "casefold", "swapcase", "translate", "removeprefix", "removesuffix"):
        return mkstr([Hole(T.fresh_txt(name))], isb)
    ip.unsupported("str.%s on symbolic text" % name)


def _ends(ip, o, s, name):
    ctx = ip.ctx
    parts = list(parts_of(o))
    if s == "":
        return True
    if name == "endswith":
        while parts and isinstance(parts[-1], str):
            p = parts.pop()
            if len(p) >= len(s):
                return p.endswith(s)
            if not s.endswith(p):
                return False
            s = s[:len(s) - len(p)]
        if not parts:
            return False
        if isinstance(parts[-1], IntHole) and not s[-1].isdigit():
            return False
        return suffix_atom(ctx, mkstr(parts), s)
    while parts and isinstance(parts[0], str):
        p = parts.pop(0)
        if len(p) >= len(s):
            return p.startswith(s)
        if not s.startswith(p):
            return False
        s = s[len(p):]
    if not parts:
        return False
    if isinstance(parts[0], IntHole) and not (s[0].isdigit() or s[0] == "-"):
        return False
    return prefix_atom(ctx, mkstr(parts), s)


def split_rope(ip, o, name, a, k):
    ctx = ip.ctx
    isb = is_bytes(o)
    sep = a[0] if a else k.get("sep")
    if isinstance(sep, bytes):
        sep = sep.decode("latin1")
    maxs = a[1] if len(a) > 1 else k.get("maxsplit", -1)
    if sep is not None and not isinstance(sep, str) or not isinstance(maxs, int):
        ip.unsupported("split with symbolic separator")
    if name in ("rsplit", "rpartition"):
        ip.unsupported("rsplit of symbolic text")
    if name == "partition":
        maxs = 1
    toks = []          # list of lists of parts
    cur = []
    n = 0
    started = sep is not None
    for pi, p in enumerate(parts_of(o)):
        if isinstance(p, str):
            rest = p
            while True:
                if sep is not None:
                    j = rest.find(sep) if (maxs < 0 or n < maxs) else -1
                    ln = len(sep)
                else:
                    m = _re.search(r"\s+", rest) if (maxs < 0 or n < maxs) else None
                    j, ln = (m.start(), m.end() - m.start()) if m else (-1, 0)
                if j < 0:
                    cur.append(rest)
                    break
                cur.append(rest[:j])
                if sep is not None or any(x != "" for x in cur):
                    toks.append(cur)
                    n += 1
                cur = []
                rest = rest[j + ln:]
        elif isinstance(p, IntHole):
            if sep is not None and not sep.isdigit() and (
                    not sep.startswith("-") or
                    ctx.solver.prove(p.t >= 0)[0] == "valid"):
                cur.append(p)
            elif sep is None:
                cur.append(p)
            else:
                ip.unsupported("separator may occur in a number")
        elif isinstance(p, RealHole):
            cur.append(p)
        elif p.kind == "ws" and sep is None:
            if any(x != "" for x in cur) and (maxs < 0 or n < maxs):
                toks.append(cur)
                n += 1
                cur = []
        elif p.kind in ("hex", "word", "human", "rep") and sep is not None or p.kind in ("hex", "word"):
            cur.append(p)
        elif p.kind == "ws":
            cur.append(p)
        elif maxs >= 0 and n >= maxs:
            cur.append(p)
        else:
            hook = getattr(ctx.world, "split_hole", None)
            r = hook(ctx, p, sep, maxs) if hook is not None else None
            if r is not None:
                return r
            return SymTokens(ctx, o, sep, maxs)
    if sep is not None or any(x != "" for x in cur):
        toks.append(cur)
    out = [mkstr(t, isb) for t in toks]
    if name == "partition":
        if len(out) == 2:
            return (out[0], sep, out[1])
        return (out[0] if out else "", "", "")
    return IList(ctx, out)


class SymTokens(Model):
    """pieces of a text whose contents are unknown: number and pieces unknown"""
    typename = "list"

    def __init__(self, ctx, src, sep, maxs):
        Model.__init__(self, ctx, "tokens")
        self.src = src
        self.n = ctx.new_int("ntok", 1 if sep is not None else 0)
        if isinstance(maxs, int) and maxs >= 0:
            ctx.assume(self.n <= maxs + 1)
        self.tok = {}
        self.nonempty = sep is None

    def length(self, ctx):
        return ctx.interp.wrap_int(self.n)

    def truth(self, ctx):
        return wrapb(self.n > 0)

    def getitem(self, ctx, i):
        ip = ctx.interp
        if not is_intlike(i):
            ip.unsupported("slice of tokens")
        t = int_term(i)
        if ip.truth(wrapb(z3.Or(t >= self.n, t < -self.n))):
            ip.throw("IndexError", "list index out of range")
        key = str(T.norm(t))
        if key not in self.tok:
            self.tok[key] = mkstr([Hole(T.fresh_txt("tok"), "word" if self.nonempty else "any")],
                                  isinstance(self.src, SStr) and self.src.is_bytes)
        return self.tok[key]

    def iterate(self, ctx, body, node, fr):
        cell = Owner(ctx, "tokiter")
        cell.attrs["i"] = 0

        def test():
            i = ctx.read_cell(cell, "i")
            return ctx.branch(int_term(i) < self.n)

        def run():
            i = ctx.read_cell(cell, "i")
            ctx.write_cell(cell, "i", ctx.interp.wrap_int(int_term(i) + 1))
            body(mkstr([Hole(T.fresh_txt("tok"))]))
        return ctx.cut_loop(node, test, run)

    def to_list(self, ctx):
        # bounded case split is not sound here; only small known counts
        for n in range(0, 4):
            if ctx.branch(self.n == n):
                return [self.getitem(ctx, i) for i in range(n)]
        ctx.interp.unsupported("list of unknown tokens")


# ---------------------------------------------------------------------------
# list / dict methods
def _l_append(ip, o, a, k):
    ip.ctx.write_cell(o, "items", ip.ctx.read_cell(o, "items") + [a[0]])


def _l_extend(ip, o, a, k):
    ip.ctx.write_cell(o, "items", ip.ctx.read_cell(o, "items") + ip.to_list(a[0]))


def _l_pop(ip, o, a, k):
    items = list(ip.ctx.read_cell(o, "items"))
    i = a[0] if a else -1
    if not isinstance(i, int):
        ip.unsupported("pop of symbolic index")
    try:
        v = items.pop(i)
    except IndexError:
        ip.throw("IndexError", "pop from empty list")
    ip.ctx.write_cell(o, "items", items)
    return v


def _l_insert(ip, o, a, k):
    items = list(ip.ctx.read_cell(o, "items"))
    items.insert(a[0], a[1])
    ip.ctx.write_cell(o, "items", items)


def _l_index(ip, o, a, k):
    for i, x in enumerate(ip.ctx.read_cell(o, "items")):
        if ip.truth(eq(ip, x, a[0])):
            return i
    ip.throw("ValueError", "not in list")


def _l_remove(ip, o, a, k):
    i = _l_index(ip, o, a, k)
    items = list(ip.ctx.read_cell(o, "items"))
    del items[i]
    ip.ctx.write_cell(o, "items", items)


LIST_METHODS = {
    "append": _l_append, "extend": _l_extend, "pop": _l_pop, "insert": _l_insert,
    "index": _l_index, "remove": _l_remove,
    "copy": lambda ip, o, a, k: IList(ip.ctx, ip.ctx.read_cell(o, "items")),
    "clear": lambda ip, o, a, k: ip.ctx.write_cell(o, "items", []),
    "reverse": lambda ip, o, a, k: ip.ctx.write_cell(o, "items", ip.ctx.read_cell(o, "items")[::-1]),
    "count": lambda ip, o, a, k: sum(1 for x in ip.ctx.read_cell(o, "items") if ip.truth(eq(ip, x, a[0]))),
}


def _d_get(ip, o, a, k):
    for kk, v in ip.ctx.read_cell(o, "items"):
        if ip.truth(eq(ip, kk, a[0])):
            return v
    return a[1] if len(a) > 1 else None


def _d_setdefault(ip, o, a, k):
    for kk, v in ip.ctx.read_cell(o, "items"):
        if ip.truth(eq(ip, kk, a[0])):
            return v
    v = a[1] if len(a) > 1 else None
    setitem(ip, o, a[0], v)
    return v


def _d_pop(ip, o, a, k):
    items = ip.ctx.read_cell(o, "items")
    for j, (kk, v) in enumerate(items):
        if ip.truth(eq(ip, kk, a[0])):
            ip.ctx.write_cell(o, "items", items[:j] + items[j + 1:])
            return v
    if len(a) > 1:
        return a[1]
    ip.throw("KeyError", a[0])


def _d_update(ip, o, a, k):
    for kk, v in (ip.ctx.read_cell(a[0], "items") if a else []):
        setitem(ip, o, kk, v)
    for kk, v in k.items():
        setitem(ip, o, kk, v)


DICT_METHODS = {
    "get": _d_get, "setdefault": _d_setdefault, "pop": _d_pop, "update": _d_update,
    "items": lambda ip, o, a, k: IList(ip.ctx, [tuple(x) for x in ip.ctx.read_cell(o, "items")]),
    "keys": lambda ip, o, a, k: IList(ip.ctx, [x[0] for x in ip.ctx.read_cell(o, "items")]),
    "values": lambda ip, o, a, k: IList(ip.ctx, [x[1] for x in ip.ctx.read_cell(o, "items")]),
    "copy": lambda ip, o, a, k: IDict(ip.ctx, ip.ctx.read_cell(o, "items")),
}


# ---------------------------------------------------------------------------
# built-in functions
def b_len(ctx, a, k):
    ip = ctx.interp
    v = a[0]
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, (IList, IDict, ISet)):
        return len(ctx.read_cell(v, "items"))
    if isinstance(v, SBytes):
        return ip.wrap_int(v.len)
    if isinstance(v, SStr):
        return ip.wrap_int(txt_len(ctx, v))
    if isinstance(v, Model):
        f = getattr(v, "length", None)
        if f is not None:
            return f(ctx)
        if v.closed and ip.lacks(v, "__len__"):
            ip.throw("TypeError", "object has no len()")
    if isinstance(v, Obj):
        m, _ = v.cls.lookup("__len__")
        if m is not None:
            return ip.call(BoundMethod(m, v), [], {})
        if ip.lacks(v, "__len__"):
            ip.throw("TypeError", "object has no len()")
    if isinstance(v, Opaque):
        return SInt(ctx.new_int("len", 0))
    if v is None or is_num(v):
        ip.throw("TypeError", "object has no len()")
    if isinstance(v, SRange) and v.step == 1:
        return ip.wrap_int(ctx.solver.minmax(int_term(v.stop) - int_term(v.start),
                                             z3.IntVal(0), False))
    ip.unsupported("len of %r" % (v,))


def b_minmax(is_min):
    def f(ctx, a, k):
        ip = ctx.interp
        items = ip.to_list(a[0]) if len(a) == 1 else a
        if k:
            if "default" in k and not items:
                return k["default"]
            ip.unsupported("min/max with key")
        if not items:
            ip.throw("ValueError", "min() arg is an empty sequence")
        m = items[0]
        for x in items[1:]:
            c = compare(ip, ast.Lt() if is_min else ast.Gt(), x, m)
            if ip.truth(c):
                m = x
        return m
    return f


def b_isinstance(ctx, a, k):
    ip = ctx.interp
    return isinst(ip, a[0], a[1])


def isinst(ip, v, c):
    if isinstance(c, tuple):
        return any(ip.truth(isinst(ip, v, x)) for x in c)
    if isinstance(c, Opaque) or isinstance(v, Opaque):
        return free_bool(ip.ctx, "isinstance")
    name = c.name if isinstance(c, (ClassVal, Builtin)) else None
    if isinstance(v, Obj):
        return isinstance(c, ClassVal) and v.cls.issub(c)
    if isinstance(v, Model):
        f = getattr(v, "isinstance_of", None)
        if f is not None:
            return f(ip.ctx, c)
        return name == v.typename or name == "object"
    py = {"int": (int, SInt, SBool), "str": (str,), "bytes": (bytes, SBytes), "float": (float, SReal),
          "bool": (bool, SBool), "tuple": (tuple,), "list": (IList,), "dict": (IDict,), "set": (ISet,),
          "object": (object,), "NoneType": (type(None),)}
    if isinstance(v, SStr):
        return name == ("bytes" if v.is_bytes else "str") or name == "object"
    if name in py:
        return isinstance(v, py[name])
    if isinstance(c, ClassVal):
        return False
    ip.unsupported("isinstance with %r" % (c,))


def b_next(ctx, a, k):
    ip = ctx.interp
    it = a[0]
    try:
        if isinstance(it, ListIter):
            items = ctx.read_cell(it.lst, "items") if isinstance(it.lst, IList) else it.lst
            pos = ctx.read_cell(it, "pos")
            if pos < len(items):
                ctx.write_cell(it, "pos", pos + 1)
                return items[pos]
            ip.throw("StopIteration")
        if isinstance(it, Model) and hasattr(it, "next_"):
            return it.next_(ctx)
        if isinstance(it, Obj):
            return ip.call(ip.getattr(it, "__next__"), [], {})
        if isinstance(it, (GenVal, GenExp)):
            ip.unsupported("next() on a generator without contract")
        if isinstance(it, (IList, tuple, str)):
            ip.throw("TypeError", "object is not an iterator")
    except IRaise as e:
        if len(a) > 1 and e.exc.cls.issub(ip.exc_class("StopIteration")):
            return a[1]
        raise
    ip.unsupported("next of %r" % (it,))


def b_iter(ctx, a, k):
    v = a[0]
    ip = ctx.interp
    if isinstance(v, (GenVal, GenExp, ListIter)):
        return v
    if isinstance(v, Model) and hasattr(v, "next_"):
        return v
    if len(a) == 2:
        return CallIter(ctx, a[0], a[1])
    if isinstance(v, (IList,)):
        return ListIter(ctx, v)
    items = ip.concrete_items(v)
    if items is not None:
        return ListIter(ctx, items)
    return v


class CallIter(Model):
    typename = "callable_iterator"

    def __init__(self, ctx, fn, sentinel):
        Model.__init__(self, ctx, "calliter")
        self.fn, self.sentinel = fn, sentinel

    def iterate(self, ctx, body, node, fr):
        ip = ctx.interp
        box = {}

        def test():
            box["v"] = ip.call(self.fn, [], {})
            return not ip.truth(eq(ip, box["v"], self.sentinel))
        return ctx.cut_loop(node, test, lambda: body(box["v"]))


class EnumIter(Model):
    typename = "enumerate"

    def __init__(self, ctx, inner, start):
        Model.__init__(self, ctx, "enumerate")
        self.inner = inner
        self.attrs["n"] = start

    def iterate(self, ctx, body, node, fr):
        ip = ctx.interp

        def run(v):
            n = ctx.read_cell(self, "n")
            ctx.write_cell(self, "n", binop(ip, ast.Add(), n, 1))
            body((n, v))
        return ip.iterate(self.inner, run, node, fr)


def b_enumerate(ctx, a, k):
    ip = ctx.interp
    start = a[1] if len(a) > 1 else k.get("start", 0)
    items = ip.concrete_items(a[0])
    if items is not None and isinstance(start, int):
        return IList(ctx, [(start + i, x) for i, x in enumerate(items)])
    if isinstance(a[0], Obj) and a[0].cls.lookup("__iter__")[0] is None:
        ip.throw("TypeError", "'%s' object is not iterable" % a[0].cls.name)
    return EnumIter(ctx, a[0], start)


def b_range(ctx, a, k):
    a = [int_arg(ctx, x) for x in a]
    if len(a) == 1:
        return SRange(0, a[0], 1)
    if len(a) == 2:
        return SRange(a[0], a[1], 1)
    if ctx.interp.truth(eq(ctx.interp, a[2], 0)):
        ctx.interp.throw("ValueError", "range() arg 3 must not be zero")
    return SRange(a[0], a[1], a[2])


def int_arg(ctx, v):
    if is_intlike(v):
        return v
    if isinstance(v, Opaque):
        return SInt(ctx.new_int("arg"))
    ctx.interp.throw("TypeError", "an integer is required")


def b_any(is_any):
    def f(ctx, a, k):
        ip = ctx.interp
        res = {"r": not is_any}

        def body(v):
            if ip.truth(v) == is_any:
                res["r"] = is_any
                raise BreakX()
        ip.iterate(a[0], body, ctx.cur_node, None)
        return res["r"]
    return f


def b_sum(ctx, a, k):
    ip = ctx.interp
    acc = a[1] if len(a) > 1 else k.get("start", 0)
    items = ip.concrete_items(a[0])
    if items is not None:
        for x in items:
            acc = binop(ip, ast.Add(), acc, x)
        return acc
    cell = Owner(ctx, "sum")
    cell.attrs["acc"] = acc

    def body(v):
        ctx.write_cell(cell, "acc", binop(ip, ast.Add(), ctx.read_cell(cell, "acc"), v))
    ip.iterate(a[0], body, ctx.cur_node, None)
    return ctx.read_cell(cell, "acc")


def b_getattr(ctx, a, k):
    ip = ctx.interp
    if not isinstance(a[1], str):
        ip.unsupported("getattr with symbolic name")
    try:
        return ip.getattr(a[0], a[1])
    except IRaise as e:
        if len(a) > 2 and e.exc.cls.issub(ip.exc_class("AttributeError")):
            return a[2]
        raise


def b_map(ctx, a, k):
    ip = ctx.interp
    items = ip.concrete_items(a[1])
    if items is None:
        ip.unsupported("map over symbolic sequence")
    return IList(ctx, [ip.call(a[0], [x], {}) for x in items])


def b_filter(ctx, a, k):
    ip = ctx.interp
    items = ip.to_list(a[1])
    return IList(ctx, [x for x in items if ip.truth(x if a[0] is None else ip.call(a[0], [x], {}))])


def b_zip(ctx, a, k):
    ip = ctx.interp
    ls = [ip.to_list(x) for x in a]
    return IList(ctx, list(zip(*ls)))


def b_divmod(ctx, a, k):
    ip = ctx.interp
    return (binop(ip, ast.FloorDiv(), a[0], a[1]), binop(ip, ast.Mod(), a[0], a[1]))


def b_round(ctx, a, k):
    v = a[0]
    if concrete(v) and all(concrete(x) for x in a):
        return round(*a)
    if isinstance(v, SInt):
        return v
    if isinstance(v, SReal):
        if len(a) > 1 and a[1] is not None:
            return SReal(T.fresh_real("round"))
        r = ctx.new_int("round")
        ctx.assume(z3.And(z3.ToReal(r) - v.t <= z3.RealVal("0.5"), v.t - z3.ToReal(r) <= z3.RealVal("0.5")))
        return SInt(r)
    ctx.interp.unsupported("round")


def b_abs(ctx, a, k):
    ip = ctx.interp
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if ip.truth(compare(ip, ast.GtE(), v, 0)):
        return v
    return binop(ip, ast.Sub(), 0, v)


def b_list(ctx, a, k):
    if not a:
        return IList(ctx, [])
    return IList(ctx, ctx.interp.to_list(a[0]))


def b_tuple(ctx, a, k):
    if not a:
        return ()
    return tuple(ctx.interp.to_list(a[0]))


def mkset(ip, items):
    s = ISet(ip.ctx)
    for x in items:
        SET_METHODS["add"](ip, s, [x], {})
    return s


def b_set(ctx, a, k):
    if a and isinstance(a[0], ISet):
        return ISet(ctx, ctx.read_cell(a[0], "items"))
    return mkset(ctx.interp, ctx.interp.to_list(a[0]) if a else ())


def _s_items(ip, v):
    return list(ip.ctx.read_cell(v, "items")) if isinstance(v, ISet) else ip.to_list(v)


def _s_find(ip, o, x):
    for j, y in enumerate(ip.ctx.read_cell(o, "items")):
        if ip.truth(eq(ip, y, x)):
            return j
    return None


def _s_add(ip, o, a, k):
    x = a[0]
    if isinstance(x, (IList, IDict, ISet)):
        ip.throw("TypeError", "unhashable type")
    if _s_find(ip, o, x) is None:
        ip.ctx.write_cell(o, "items", ip.ctx.read_cell(o, "items") + [x])


def _s_discard(ip, o, a, k, must=False):
    j = _s_find(ip, o, a[0])
    if j is not None:
        items = ip.ctx.read_cell(o, "items")
        ip.ctx.write_cell(o, "items", items[:j] + items[j + 1:])
    elif must:
        ip.throw("KeyError", a[0])


def _s_update(ip, o, a, k):
    for v in a:
        for x in _s_items(ip, v):
            _s_add(ip, o, [x], {})


def _s_copy(ip, o, a, k):
    return ISet(ip.ctx, ip.ctx.read_cell(o, "items"))


def _s_union(ip, o, a, k):
    r = _s_copy(ip, o, a, k)
    _s_update(ip, r, a, k)
    return r


def _s_without(ip, o, a, k):
    other = [mkset(ip, _s_items(ip, v)) for v in a]
    return ISet(ip.ctx, [x for x in ip.ctx.read_cell(o, "items")
                         if all(_s_find(ip, v, x) is None for v in other)])


def _s_meet(ip, o, a, k):
    other = [mkset(ip, _s_items(ip, v)) for v in a]
    return ISet(ip.ctx, [x for x in ip.ctx.read_cell(o, "items")
                         if all(_s_find(ip, v, x) is not None for v in other)])


SET_METHODS = {
    "add": _s_add, "discard": _s_discard, "remove": lambda ip, o, a, k: _s_discard(ip, o, a, k, True),
    "update": _s_update, "copy": _s_copy, "union": _s_union, "difference": _s_without,
    "intersection": _s_meet, "clear": lambda ip, o, a, k: ip.ctx.write_cell(o, "items", []),
    "issubset": lambda ip, o, a, k: not ip.ctx.read_cell(_s_without(ip, o, a, k), "items"),
    "issuperset": lambda ip, o, a, k: all(_s_find(ip, o, x) is not None for x in _s_items(ip, a[0])),
    "isdisjoint": lambda ip, o, a, k: not ip.ctx.read_cell(_s_meet(ip, o, a, k), "items"),
}
SET_OPS = {"BitOr": _s_union, "BitAnd": _s_meet, "Sub": _s_without}


def b_dict(ctx, a, k):
    d = IDict(ctx)
    ip = ctx.interp
    if a:
        if isinstance(a[0], IDict):
            d.attrs["items"] = list(ctx.read_cell(a[0], "items"))
        else:
            for kv in ip.to_list(a[0]):
                x, y = ip.to_list(kv)
                setitem(ip, d, x, y)
    for kk, v in k.items():
        setitem(ip, d, kk, v)
    return d


def b_str(ctx, a, k):
    if not a:
        return ""
    if len(a) > 1 or k:
        if is_bytes(a[0]) and not isinstance(a[0], SBytes):
            return mkstr(parts_of(a[0]))
        return mkstr([Hole(T.fresh_txt("decoded"))])
    return to_str(ctx.interp, a[0])


def b_bytes(ctx, a, k):
    if not a:
        return b""
    v = a[0]
    if isinstance(v, (bytes, SBytes)) or isinstance(v, SStr) and v.is_bytes:
        return v
    if is_text(v) and (len(a) > 1 or k):
        return mkstr(parts_of(v), True)
    if is_text(v):
        ctx.interp.throw("TypeError", "string argument without an encoding")
    if isinstance(v, int):
        return bytes(v)
    if isinstance(v, SInt):
        return SBytes("?", z3.IntVal(0), v.t)
    ctx.interp.unsupported("bytes()")


def b_sorted(ctx, a, k):
    ip = ctx.interp
    items = ip.to_list(a[0])
    if all(concrete(x) for x in items) and not k:
        return IList(ctx, sorted(items))
    if len(items) <= 1:
        return IList(ctx, items)
    ip.unsupported("sorted of symbolic items")


def b_reversed(ctx, a, k):
    return IList(ctx, ctx.interp.to_list(a[0])[::-1])


def b_type(ctx, a, k):
    v = a[0]
    ip = ctx.interp
    if isinstance(v, Obj):
        return v.cls
    for n in ("bool", "int", "str", "bytes", "float", "tuple", "list", "dict"):
        if isinst(ip, v, ip.builtins[n]) is True:
            return ip.builtins[n]
    return Opaque("type")


def b_print(ctx, a, k):
    w = ctx.world
    f = getattr(w, "on_print", None)
    if f is not None:
        f(ctx, a, k)
    return None


def b_issubclass(ctx, a, k):
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(isinstance(c, ClassVal) and a[0].issub(c) for c in cs)


def b_callable(ctx, a, k):
    return isinstance(a[0], (FuncVal, Builtin, BoundMethod, ClassVal)) or \
        isinstance(a[0], Obj) and a[0].cls.lookup("__call__")[0] is not None


def b_ord(ctx, a, k):
    if isinstance(a[0], (str, bytes)):
        return ord(a[0])
    return SInt(ctx.new_int("ord", 0))


EXC_TREE = {
    "BaseException": None, "Exception": "BaseException", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "GeneratorExit": "BaseException",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "BufferError": "Exception",
    "EOFError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
    "MemoryError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError",
    "OSError": "Exception", "BlockingIOError": "OSError", "ChildProcessError": "OSError",
    "ConnectionError": "OSError", "BrokenPipeError": "ConnectionError",
    "ConnectionAbortedError": "ConnectionError", "ConnectionRefusedError": "ConnectionError",
    "ConnectionResetError": "ConnectionError",
    "FileExistsError": "OSError", "FileNotFoundError": "OSError", "InterruptedError": "OSError",
    "IsADirectoryError": "OSError", "NotADirectoryError": "OSError", "PermissionError": "OSError",
    "ProcessLookupError": "OSError", "TimeoutError": "OSError",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "StopIteration": "Exception", "SyntaxError": "Exception", "SystemError": "Exception",
    "TypeError": "Exception", "ValueError": "Exception", "UnicodeError": "ValueError",
    "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
    "Warning": "Exception", "DeprecationWarning": "Warning", "UserWarning": "Warning",
    "RuntimeWarning": "Warning",
}


class Native:
    def __init__(self, construct=None):
        self.construct = construct


def make_builtins():
    B = {}
    obj = ClassVal("object", [], {}, native=Native(None))
    B["object"] = obj
    for n, p in EXC_TREE.items():
        B[n] = ClassVal(n, [B[p]] if p else [obj], {}, native=Native(None))
    B["IOError"] = B["EnvironmentError"] = B["OSError"]

    def btype(name, fn):
        B[name] = ClassVal(name, [obj], {}, native=Native(fn))
    btype("int", lambda c, a, k: to_int(c.interp, a[0], *(a[1:])) if a else 0)
    btype("float", lambda c, a, k: to_float(c.interp, a[0]) if a else 0.0)
    btype("str", b_str)
    btype("bytes", b_bytes)
    btype("bytearray", b_bytes)
    btype("bool", lambda c, a, k: (a[0] if isinstance(a[0], SBool) else c.interp.truth(a[0])) if a else False)
    btype("list", b_list)
    btype("tuple", b_tuple)
    btype("dict", b_dict)
    btype("set", b_set)
    btype("frozenset", b_set)
    btype("type", b_type)
    fns = {
        "len": b_len, "min": b_minmax(True), "max": b_minmax(False), "isinstance": b_isinstance,
        "issubclass": b_issubclass, "next": b_next, "iter": b_iter, "enumerate": b_enumerate,
        "range": b_range, "any": b_any(True), "all": b_any(False), "sum": b_sum,
        "getattr": b_getattr,
        "hasattr": lambda c, a, k: c.interp.hasattr(a[0], a[1]),
        "setattr": lambda c, a, k: c.interp.setattr(a[0], a[1], a[2]),
        "map": b_map, "filter": b_filter, "zip": b_zip, "divmod": b_divmod, "round": b_round,
        "abs": b_abs, "sorted": b_sorted, "reversed": b_reversed, "print": b_print,
        "repr": lambda c, a, k: to_repr(c.interp, a[0]),
        "callable": b_callable, "ord": b_ord,
        "chr": lambda c, a, k: chr(a[0]) if isinstance(a[0], int) else mkstr([Hole(T.fresh_txt("chr"), "nonempty")]),
        "id": lambda c, a, k: SInt(c.new_int("id", 1)),
        "hash": lambda c, a, k: SInt(c.new_int("hash")),
        "format": lambda c, a, k: format_spec(c.interp, a[0], a[1] if len(a) > 1 else None),
        "memoryview": lambda c, a, k: a[0],
        "pow": lambda c, a, k: binop(c.interp, ast.Pow(), a[0], a[1]),
    }
    for n, f in fns.items():
        B[n] = Builtin(n, f)
    for n in ("staticmethod", "classmethod", "property"):
        B[n] = Builtin(n, None)
    B["NotImplemented"] = Opaque("NotImplemented")
    B["Ellipsis"] = None
    B["__name__"] = "verified"
    B["__debug__"] = True
    return B
