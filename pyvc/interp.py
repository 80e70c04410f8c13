"""Symbolic interpreter of the Python subset used by the verified code.

Works directly on the ASTs of /repo's source files, parsed on every run."""
import ast
import builtins
import os
import warnings
import z3
from . import terms as T
from .values import *
from .core import RetryLoop, BreakX, ContinueX, ReturnX


class ConsumerExit(BaseException):
    """control leaves a generator through the consumer of its yield"""

    def __init__(self, inner):
        self.inner = inner


CONTROL = (BreakX, ContinueX, ReturnX, ConsumerExit)

_module_cache = {}


def _continues(stmts):
    """a continue statement of the loop these statements are the body of"""
    for s in stmts:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.While, ast.For)):
            if _continues(s.orelse):
                return True
            continue
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if _continues(getattr(s, f, [])):
                return True
        for h in getattr(s, "handlers", []) + getattr(s, "cases", []):
            if _continues(h.body):
                return True
    return False


class _Rotate(ast.NodeTransformer):
    """X; while c: B; X  becomes  while True: X; if not c: break; B  (the same
    execution, provided B has no continue): one arbitrary iteration then begins
    with what it works on"""

    def visit(self, node):
        self.generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b))
        return node

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.While) and not s.orelse and not _continues(s.body):
                for n in (3, 2, 1):
                    x, y = out[-n:], s.body[-n:]
                    if len(x) == n < len(s.body) and all(isinstance(v, (ast.Assign, ast.AugAssign, ast.Expr)) for v in x) \
                            and [ast.dump(v) for v in x] == [ast.dump(v) for v in y]:
                        end = ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], [])
                        w = ast.While(ast.Constant(True), x + [end] + s.body[:-n], [])
                        for v in (end, end.test, end.body[0]):
                            ast.copy_location(v, s.test)
                        ast.copy_location(w, s)
                        ast.copy_location(w.test, s)
                        del out[-n:]
                        s = w
                        break
            out.append(s)
        return out


def parse_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _module_cache:
        with open(path, "rb") as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _module_cache[key] = (_Rotate().visit(ast.parse(src, path)), src)
    return _module_cache[key]


def _assigned_names(fn):
    names, globs, nonl = set(), set(), set()

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.NamedExpr):
                    walk(c)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            target(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = fn.body if isinstance(fn.body, list) else []
    for s in body:
        walk(s)
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    return names - globs - nonl, globs, nonl


def _is_gen(fn):
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(walk(c) for c in ast.iter_child_nodes(n))
    return any(walk(s) for s in fn.body)


class Interp:
    def __init__(self, ctx, repo, ext, builtins):
        self.ctx = ctx
        ctx.interp = self
        self.repo = repo
        self.ext = ext                # dict: dotted name -> value or callable(ctx)->value
        self.builtins = builtins      # dict name -> value
        self.modules = {}

    # ------------------------------------------------------------------
    # errors of the interpreted program
    def exc_class(self, name):
        return self.builtins[name]

    def make_exc(self, cls, *args, **attrs):
        if isinstance(cls, str):
            cls = self.exc_class(cls)
        o = Obj(self.ctx, cls)
        o.attrs["args"] = tuple(args)
        for k, v in attrs.items():
            o.attrs[k] = v
        o.attrs["__where__"] = self.ctx.where()
        return o

    def throw(self, cls, *args, **attrs):
        raise IRaise(self.make_exc(cls, *args, **attrs))

    def unsupported(self, msg, node=None):
        raise Unsupported(msg, node or self.ctx.cur_node)

    # ------------------------------------------------------------------
    # modules
    def import_module(self, name, run_as=None):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, name.replace(".", "/") + ".py")
        if not os.path.isfile(path):
            pk = os.path.join(self.repo, name.replace(".", "/"), "__init__.py")
            if os.path.isfile(pk):
                path = pk
            else:
                return None
        m = ModuleVal(self.ctx, name, path)
        self.modules[name] = m
        m.attrs["__name__"] = run_as or name
        m.attrs["__file__"] = path
        tree, _ = parse_file(path)
        m.attrs["__doc__"] = ast.get_docstring(tree)
        fr = Frame(self.ctx, None, m)
        fr.attrs = m.attrs
        fr.is_module = True
        self.ctx.frames.append(fr)
        try:
            self.exec_block(tree.body, fr)
        finally:
            self.ctx.frames.pop()
        return m

    def import_name(self, dotted):
        """value for 'import dotted' (the full module)"""
        if dotted.split(".")[0] in ("bmaptools",):
            m = self.import_module(dotted)
            if m is None:
                self.throw("ImportError", "no module " + dotted)
            return m
        if dotted in self.ext:
            v = self.ext[dotted]
            if callable(v) and not isinstance(v, (Builtin,)):
                v = v(self.ctx)
            return v
        return ExtModule(dotted)

    def ext_attr(self, mod, name):
        full = mod.name + "." + name
        w = self.ctx.world
        if w is not None:
            f = w.ext_override(self.ctx, full)
            if f is not None:
                return f
        if full in self.ext:
            v = self.ext[full]
            if callable(v) and not isinstance(v, (Builtin, ClassVal)):
                v = v(self.ctx)
            return v
        pref = full + "."
        if any(k.startswith(pref) for k in self.ext):
            return ExtModule(full)
        self.unsupported("external name %s is not modelled" % full)

    # ------------------------------------------------------------------
    # statements
    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, n, fr):
        self.ctx.cur_node = n
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.unsupported("statement %s" % type(n).__name__, n)
        m(n, fr)

    def s_Expr(self, n, fr):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, fr)

    def s_Pass(self, n, fr):
        pass

    def s_Global(self, n, fr):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, n, fr):
        for a in n.names:
            if a.asname:
                v = self.import_name(a.name)
                self.store_name(a.asname, v, fr)
            else:
                top = a.name.split(".")[0]
                v = self.import_name(a.name)
                if "." in a.name:
                    v = self.import_name(top)
                self.store_name(top, v, fr)

    def s_ImportFrom(self, n, fr):
        mod = n.module or ""
        for a in n.names:
            if a.name == "*":
                self.unsupported("import *", n)
            v = None
            if mod.split(".")[0] == "bmaptools" or n.level:
                sub = self.import_module(mod + "." + a.name)
                if sub is not None:
                    v = sub
                else:
                    m = self.import_module(mod)
                    if m is None or a.name not in m.attrs:
                        self.throw("ImportError", "cannot import " + a.name)
                    v = m.attrs[a.name]
            else:
                m = self.import_name(mod)
                if isinstance(m, ExtModule):
                    v = self.ext_attr(m, a.name)
                else:
                    v = self.getattr(m, a.name)
            self.store_name(a.asname or a.name, v, fr)

    def s_FunctionDef(self, n, fr):
        f = self.make_func(n, fr)
        for d in reversed(n.decorator_list):
            dv = self.eval(d, fr)
            f = self.apply_decorator(dv, f)
        self.store_name(n.name, f, fr)

    def apply_decorator(self, dv, f):
        if isinstance(dv, Builtin):
            if dv.name == "staticmethod":
                return StaticMethod(f)
            if dv.name == "classmethod":
                return ClassMethod(f)
            if dv.name == "property":
                return PropertyVal(f)
            if dv.name == "contextlib.contextmanager":
                return Builtin("cm:" + f.qualname,
                               lambda ctx, a, k: CtxMgrGen(ctx, f, a, k))
        return self.call(dv, [f], {})

    def make_func(self, n, fr, name=None):
        name = name or n.name
        cls = getattr(fr, "class_name", None)
        if getattr(fr, "is_module", False):
            q = name
        elif cls:
            q = cls + "." + name
        else:
            q = (fr.func.qualname if fr.func else "") + ".<locals>." + name
        f = FuncVal(n, fr.globs, q)
        a = n.args
        f.defaults = [self.eval(d, fr) for d in a.defaults]
        f.kwdefaults = {x.arg: self.eval(d, fr)
                        for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if not hasattr(n, "_names"):
            if isinstance(n, ast.Lambda):
                n._names = _assigned_names(n)
                n._gen = False
            else:
                n._names = _assigned_names(n)
                n._gen = _is_gen(n)
        f.is_gen = n._gen
        if cls:
            f.closure = fr.parent
            f.cls = fr
        else:
            f.closure = None if getattr(fr, "is_module", False) else fr
        return f

    def s_ClassDef(self, n, fr):
        bases = []
        for b in n.bases:
            v = self.eval(b, fr)
            if not isinstance(v, ClassVal):
                self.unsupported("base class %r" % (v,), n)
            bases.append(v)
        cf = Frame(self.ctx, fr.func, fr.globs, None if getattr(fr, "is_module", False) else fr)
        cf.class_name = n.name
        self.exec_block(n.body, cf)
        cls = ClassVal(n.name, bases or [self.builtins["object"]], cf.attrs, fr.globs)
        for v in cf.attrs.values():
            for g in (v, getattr(v, "f", None), getattr(v, "fget", None)):
                if isinstance(g, FuncVal) and g.cls is cf:
                    g.cls = cls
        v = cls
        for d in reversed(n.decorator_list):
            v = self.call(self.eval(d, fr), [v], {})
        self.store_name(n.name, v, fr)

    def s_Return(self, n, fr):
        v = self.eval(n.value, fr) if n.value is not None else None
        raise ReturnX(v)

    def s_Assign(self, n, fr):
        v = self.eval(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, fr), fr)

    def s_AugAssign(self, n, fr):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
            new = self.inplace(n.op, old, self.eval(n.value, fr))
            self.store_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            new = self.inplace(n.op, old, self.eval(n.value, fr))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            old = self.getitem(o, i)
            new = self.inplace(n.op, old, self.eval(n.value, fr))
            self.setitem(o, i, new)
        else:
            self.unsupported("augmented target", n)

    def inplace(self, op, a, b):
        if isinstance(a, IList) and isinstance(op, ast.Add):
            self.ctx.write_cell(a, "items", self.ctx.read_cell(a, "items") + self.to_list(b))
            return a
        return self.binop(op, a, b)

    def s_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.store_name(t.id, UNBOUND, fr)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                self.delitem(o, self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, Owner):
                    o.attrs.pop(t.attr, None)
                else:
                    self.unsupported("del attribute", n)

    def s_If(self, n, fr):
        if self.truth(self.eval(n.test, fr)):
            self.exec_block(n.body, fr)
        else:
            self.exec_block(n.orelse, fr)

    def s_Assert(self, n, fr):
        if not self.truth(self.eval(n.test, fr)):
            msg = [self.eval(n.msg, fr)] if n.msg is not None else []
            self.ctx.cur_node = n
            self.throw("AssertionError", *msg)

    def s_Break(self, n, fr):
        raise BreakX()

    def s_Continue(self, n, fr):
        raise ContinueX()

    def s_Raise(self, n, fr):
        if n.exc is None:
            if not self.ctx.exc_stack:
                self.throw("RuntimeError", "No active exception to reraise")
            raise IRaise(self.ctx.exc_stack[-1])
        v = self.eval(n.exc, fr)
        if isinstance(v, ClassVal):
            v = self.call(v, [], {})
        if not isinstance(v, Obj) or not v.cls.issub(self.exc_class("BaseException")):
            if isinstance(v, Opaque):
                self.unsupported("raise of opaque value", n)
            self.throw("TypeError", "exceptions must derive from BaseException")
        v.attrs["__where__"] = self.ctx.where()
        if n.cause is not None:
            self.eval(n.cause, fr)
        raise IRaise(v)

    def s_Try(self, n, fr):
        ctx = self.ctx
        pending = None
        try:
            try:
                self.exec_block(n.body, fr)
            except IRaise as e:
                handled = False
                for h in n.handlers:
                    if self.exc_match(e.exc, h, fr):
                        handled = True
                        if h.name:
                            self.store_name(h.name, e.exc, fr)
                        ctx.exc_stack.append(e.exc)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            ctx.exc_stack.pop()
                            if h.name:
                                fr.attrs[h.name] = UNBOUND
                        break
                if not handled:
                    raise
            else:
                self.exec_block(n.orelse, fr)
        except (IRaise,) + CONTROL as e:
            pending = e
        if n.finalbody:
            if isinstance(pending, IRaise):
                ctx.exc_stack.append(pending.exc)
            try:
                self.exec_block(n.finalbody, fr)
            finally:
                if isinstance(pending, IRaise):
                    ctx.exc_stack.pop()
        if pending is not None:
            raise pending

    def exc_match(self, exc, h, fr):
        if h.type is None:
            return True
        t = self.eval(h.type, fr)
        return self.exc_isinstance(exc, t)

    def exc_isinstance(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_isinstance(exc, x) for x in t)
        if isinstance(t, ClassVal):
            return exc.cls.issub(t)
        if isinstance(t, Opaque):
            self.unsupported("except clause with unknown class")
        self.throw("TypeError", "catching classes that do not inherit from BaseException")

    def s_With(self, n, fr):
        self._with(n.items, n.body, fr)

    def _with(self, items, body, fr):
        if not items:
            self.exec_block(body, fr)
            return
        it = items[0]
        mgr = self.eval(it.context_expr, fr)
        if isinstance(mgr, CtxMgrGen):
            self._with_gen(mgr, it, items, body, fr)
            return
        enter = self.getattr(mgr, "__enter__")
        exit_ = self.getattr(mgr, "__exit__")
        v = self.call(enter, [], {})
        ctx = self.ctx
        pending = None
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            self._with(items[1:], body, fr)
        except IRaise as e:
            ctx.exc_stack.append(e.exc)
            try:
                r = self.call(exit_, [e.exc.cls, e.exc, Opaque("tb")], {})
            finally:
                ctx.exc_stack.pop()
            if not self.truth(r):
                raise
            return
        except CONTROL as e:
            pending = e
        self.call(exit_, [None, None, None], {})
        if pending is not None:
            raise pending

    def _with_gen(self, mgr, it, items, body, fr):
        state = {"n": 0, "pending": None}

        def handler(v):
            if state["n"]:
                self.throw("RuntimeError", "generator didn't stop")
            state["n"] = 1
            top = self.ctx.frames
            top.append(fr)
            try:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                self._with(items[1:], body, fr)
            except CONTROL as e:
                state["pending"] = e
            finally:
                top.pop()
            return None
        # exceptions of the body are thrown into the generator at its yield
        self.run_gen_body(mgr.func, mgr.args, mgr.kwargs, handler)
        if not state["n"]:
            self.throw("RuntimeError", "generator didn't yield")
        if state["pending"] is not None:
            raise state["pending"]

    def s_While(self, n, fr):
        def test():
            self.ctx.cur_node = n
            return self.truth(self.eval(n.test, fr))

        def body():
            self.exec_block(n.body, fr)
        broke = self.ctx.cut_loop(n, test, body)
        if not broke:
            self.exec_block(n.orelse, fr)

    def s_For(self, n, fr):
        it = self.eval(n.iter, fr)

        def body(v):
            self.assign(n.target, v, fr)
            self.exec_block(n.body, fr)
        broke = self.iterate(it, body, n, fr)
        if not broke:
            self.exec_block(n.orelse, fr)

    # ------------------------------------------------------------------
    # iteration
    def concrete_items(self, it):
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, list):
            return list(it)
        if isinstance(it, IList):
            return list(self.ctx.read_cell(it, "items"))
        if isinstance(it, IDict):
            return [k for k, _ in self.ctx.read_cell(it, "items")]
        if isinstance(it, ISet):
            left = list(self.ctx.read_cell(it, "items"))
            if len(left) > 4:
                self.unsupported("iteration over a set")
            out = []
            while left:
                out.append(left.pop(self.ctx.choose(len(left), "order of a set") if len(left) > 1 else 0))
            return out
        if isinstance(it, str):
            return list(it)
        if isinstance(it, bytes):
            return list(it)
        if isinstance(it, Model) and hasattr(it, "tuple_items"):
            return list(it.tuple_items(self.ctx))
        if isinstance(it, SRange) and all(isinstance(x, int) for x in (it.start, it.stop, it.step)):
            r = range(it.start, it.stop, it.step)
            if len(r) <= 64:
                return list(r)
        if isinstance(it, ListIter):
            items = self.ctx.read_cell(it.lst, "items") if isinstance(it.lst, IList) else it.lst
            pos = self.ctx.read_cell(it, "pos")
            if isinstance(pos, int):
                self.ctx.write_cell(it, "pos", len(items))
                return list(items[pos:])
        return None

    def iterate(self, it, body, node, fr):
        """returns True if left by break; body gets one item"""
        ctx = self.ctx
        items = self.concrete_items(it)
        if items is not None:
            for v in items:
                try:
                    body(v)
                except BreakX:
                    return True
                except ContinueX:
                    pass
            return False
        if isinstance(it, SRange):
            return self.iterate_range(it, body, node)
        if isinstance(it, GenVal):
            if ctx.read_cell(it, "state") != "new":
                self.unsupported("iteration of a started generator", node)
            ctx.write_cell(it, "state", "done")
            return self.invert_gen(it, body, fr)
        if isinstance(it, GenExp):
            return self.iterate_genexp(it, body, node, fr)
        if isinstance(it, Model) and hasattr(it, "iterate"):
            return it.iterate(ctx, body, node, fr)
        if isinstance(it, Obj):
            m, _ = it.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(self.call(BoundMethod(m, it), [], {}), body, node, fr)
            m, _ = it.cls.lookup("__next__")
            if m is not None:
                return self.iterate_next(it, body, node)
            if self.lacks(it, "__iter__") and it.cls.lookup("__getitem__")[1] is None:
                self.throw("TypeError", "'%s' object is not iterable" % it.cls.name)
        if it is None or isinstance(it, (int, SInt, SBool, float, SReal)):
            self.throw("TypeError", "object is not iterable")
        if isinstance(it, Model) and self.lacks(it, "__iter__"):
            self.throw("TypeError", "'%s' object is not iterable" % it.typename)
        self.unsupported("iteration over %r" % (it,), node)

    def iterate_next(self, it, body, node):
        nxt, _ = it.cls.lookup("__next__")
        box = {}

        def test():
            try:
                box["v"] = self.call(BoundMethod(nxt, it), [], {})
            except IRaise as e:
                if e.exc.cls.issub(self.exc_class("StopIteration")):
                    return False
                raise
            return True

        return self.ctx.cut_loop(node, test, lambda: body(box["v"]))

    def iterate_range(self, r, body, node):
        ctx = self.ctx
        cell = Owner(ctx, "range")
        cell.attrs["i"] = r.start
        step = r.step
        up = self.truth(self.compare_op(ast.Gt(), step, 0))
        box = {}

        def test():
            i = ctx.read_cell(cell, "i")
            c = self.compare_op(ast.Lt() if up else ast.Gt(), i, r.stop)
            if self.truth(c):
                box["v"] = i
                return True
            return False

        def run():
            v = box["v"]
            n = self.binop(ast.Add(), v, step)
            if not isinstance(step, int) or abs(step) != 1:
                # nobody can tell how far beyond the end it would have gone
                if self.truth(self.compare_op(ast.Gt() if up else ast.Lt(), n, r.stop)):
                    n = r.stop
            ctx.write_cell(cell, "i", n)
            body(v)
        return ctx.cut_loop(node, test, run)

    def invert_gen(self, g, body, fr):
        """run the generator's code, executing the consumer's body at every yield"""
        def handler(v):
            if fr is not None:
                self.ctx.frames.append(fr)
            try:
                body(v)
            except ContinueX:
                pass
            except (IRaise, BreakX, ReturnX, ConsumerExit) as e:
                raise ConsumerExit(e)
            finally:
                if fr is not None:
                    self.ctx.frames.pop()
            return None
        try:
            self.run_frame(g.func, g.frame, handler)
        except ConsumerExit as e:
            if isinstance(e.inner, BreakX):
                return True
            raise e.inner
        return False

    def run_gen_body(self, func, args, kwargs, handler):
        frame = self.bind(func, args, kwargs)
        return self.run_frame(func, frame, handler)

    def iterate_genexp(self, g, body, node, fr):
        gens = g.node.generators

        def level(i, _v=None):
            if i == len(gens):
                body(self.eval(g.node.elt, g.frame))
                return
            c = gens[i]
            src = self.eval(c.iter, g.frame) if i else g.first

            def inner(v):
                self.assign(c.target, v, g.frame)
                for cond in c.ifs:
                    if not self.truth(self.eval(cond, g.frame)):
                        return
                level(i + 1)
            b = self.iterate(src, inner, g.node, g.frame)
            if b:
                raise BreakX()
        try:
            level(0)
        except BreakX:
            return True
        return False

    def to_list(self, v):
        items = self.concrete_items(v)
        if items is not None:
            return items
        out = []
        if isinstance(v, (GenVal, GenExp)):
            # only generators whose iteration is concrete
            self.iterate(v, out.append, self.ctx.cur_node, None)
            return out
        if isinstance(v, Model) and hasattr(v, "to_list"):
            return v.to_list(self.ctx)
        self.unsupported("list of %r" % (v,))

    # ------------------------------------------------------------------
    # names
    def load_name(self, name, fr):
        f = fr
        ctx = self.ctx
        if f.func is not None or hasattr(f, "class_name"):
            names = getattr(f, "locals_names", ())
            if name in f.attrs:
                v = ctx.read_cell(f, name)
                if v is UNBOUND:
                    self.throw("UnboundLocalError",
                               "local variable '%s' referenced before assignment" % name)
                return v
            if name in names and name not in f.global_names and name not in f.nonlocal_names:
                self.throw("UnboundLocalError",
                           "local variable '%s' referenced before assignment" % name)
            if name not in f.global_names:
                p = f.parent
                while p is not None:
                    if not hasattr(p, "class_name") and name in p.attrs:
                        v = ctx.read_cell(p, name)
                        if v is UNBOUND:
                            self.throw("NameError", "free variable '%s' unbound" % name)
                        return v
                    p = p.parent
        m = fr.globs
        if name in m.attrs:
            v = ctx.read_cell(m, name)
            if v is not UNBOUND:
                return v
        if name in self.builtins:
            v = self.builtins[name]
            w = ctx.world
            if w is not None:
                o = w.ext_override(ctx, "builtins." + name)
                if o is not None:
                    return o
            return v
        self.throw("NameError", "name '%s' is not defined" % name)

    def store_name(self, name, v, fr):
        if fr.func is not None or hasattr(fr, "class_name"):
            if name in fr.global_names:
                self.ctx.write_cell(fr.globs, name, v)
                return
            if name in fr.nonlocal_names:
                p = fr.parent
                while p is not None:
                    if name in p.attrs or name in p.locals_names:
                        self.ctx.write_cell(p, name, v)
                        return
                    p = p.parent
            self.ctx.write_cell(fr, name, v)
        else:
            self.ctx.write_cell(fr.globs, name, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Opaque):
                for e in t.elts:
                    self.assign(e, Opaque(v.what), fr)
                return
            if v is None or isinstance(v, (int, SInt, SBool)):
                self.throw("TypeError", "cannot unpack non-iterable object")
            items = self.to_list(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw("ValueError", "not enough values to unpack")
                mid = items[i:len(items) - after]
                vals = items[:i] + [IList(self.ctx, mid)] + items[len(items) - after:]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(items) != len(t.elts):
                self.throw("ValueError", "wrong number of values to unpack")
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            self.unsupported("assignment target %s" % type(t).__name__, t)

    # ------------------------------------------------------------------
    # expressions
    def eval(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.unsupported("expression %s" % type(n).__name__, n)
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.load_name(n.id, fr)

    def e_Tuple(self, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out.extend(self.to_list(self.eval(e.value, fr)))
            else:
                out.append(self.eval(e, fr))
        return tuple(out)

    def e_List(self, n, fr):
        return IList(self.ctx, self.e_Tuple(n, fr))

    def e_Set(self, n, fr):
        from . import builtins_ as B
        return B.mkset(self, self.e_Tuple(n, fr))

    def e_Dict(self, n, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.extend(self.ctx.read_cell(self.eval(v, fr), "items"))
            else:
                items.append((self.eval(k, fr), self.eval(v, fr)))
        return IDict(self.ctx, items)

    def e_Attribute(self, n, fr):
        o = self.eval(n.value, fr)
        self.ctx.cur_node = n
        return self.getattr(o, n.attr)

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, SBool) else False
            if not isand and t:
                return v if not isinstance(v, SBool) else True
        return v

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        self.ctx.cur_node = n
        if isinstance(n.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return self.binop(ast.Sub(), 0, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert) and isinstance(v, int):
            return ~v
        self.unsupported("unary operator", n)

    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        self.ctx.cur_node = n
        return self.binop(n.op, a, b)

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = None
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(c, fr)
            self.ctx.cur_node = n
            r = self.compare_op(op, left, right)
            if i == len(n.ops) - 1:
                if res is None:
                    return r
                return r
            if not self.truth(r):
                return False
            left = right
        return res

    def e_IfExp(self, n, fr):
        if self.truth(self.eval(n.test, fr)):
            return self.eval(n.body, fr)
        return self.eval(n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr, "<lambda>")

    def e_JoinedStr(self, n, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, fr)
                if p.conversion == 114:
                    v = self.repr_(v)
                spec = None
                if p.format_spec is not None:
                    spec = self.e_JoinedStr(p.format_spec, fr)
                parts.extend(parts_of(self.format_spec(v, spec)))
        return mkstr(parts)

    def e_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        i = self.eval_index(n.slice, fr)
        self.ctx.cur_node = n
        return self.getitem(o, i)

    def e_Slice(self, n, fr):
        return self.eval_index(n, fr)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceVal(*[self.eval(x, fr) if x is not None else None
                              for x in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def comp_frame(self, fr):
        f = Frame(self.ctx, fr.func, fr.globs, fr)
        f.is_comp = True
        if fr.func is None:
            # module level: names resolve through globals
            class _F:
                qualname = "<comp>"
            f.func = _F()
        f.yield_handler = fr.yield_handler
        return f

    def comp(self, n, fr, elt):
        f = self.comp_frame(fr)
        out = []
        gens = n.generators

        def level(i):
            if i == len(gens):
                out.append(elt(f))
                return
            c = gens[i]
            src = self.eval(c.iter, fr if i == 0 else f)

            def inner(v):
                self.assign(c.target, v, f)
                for cond in c.ifs:
                    if not self.truth(self.eval(cond, f)):
                        return
                level(i + 1)
            items = self.concrete_items(src)
            if items is None:
                if isinstance(src, Model) and hasattr(src, "to_list"):
                    items = src.to_list(self.ctx)
                elif isinstance(src, (GenVal, GenExp)):
                    items = self.to_list(src)
                else:
                    if src is None or isinstance(src, (int, SInt)):
                        self.throw("TypeError", "object is not iterable")
                    self.unsupported("comprehension over %r" % (src,), n)
            for v in items:
                inner(v)
        level(0)
        return out

    def e_ListComp(self, n, fr):
        return IList(self.ctx, self.comp(n, fr, lambda f: self.eval(n.elt, f)))

    def e_SetComp(self, n, fr):
        from . import builtins_ as B
        return B.mkset(self, self.comp(n, fr, lambda f: self.eval(n.elt, f)))

    def e_DictComp(self, n, fr):
        return IDict(self.ctx, self.comp(n, fr, lambda f: (self.eval(n.key, f),
                                                          self.eval(n.value, f))))

    def e_GeneratorExp(self, n, fr):
        f = self.comp_frame(fr)
        g = GenExp(self.ctx, n, f)
        g.first = self.eval(n.generators[0].iter, fr)
        return g

    def e_Starred(self, n, fr):
        self.unsupported("starred expression", n)

    def e_Yield(self, n, fr):
        v = self.eval(n.value, fr) if n.value is not None else None
        h = fr.yield_handler
        if h is None:
            self.unsupported("yield outside a driven generator", n)
        self.ctx.cur_node = n
        r = h(v)
        return r

    def e_YieldFrom(self, n, fr):
        it = self.eval(n.value, fr)
        h = fr.yield_handler
        if h is None:
            self.unsupported("yield from outside a driven generator", n)

        def body(v):
            h(v)
        self.iterate(it, body, n, fr)
        return None

    def e_Call(self, n, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f is not None and (f.func is None or f.func.cls is None or
                                     getattr(f, "is_comp", False)):
                f = f.parent
            if f is None:
                self.throw("RuntimeError", "super(): no arguments")
            first = f.func.node.args.args[0].arg
            return SuperVal(f.func.cls, f.attrs[first])
        if isinstance(n.func, ast.Name) and n.func.id == "locals":
            self.unsupported("locals()", n)
        fn = self.eval(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.to_list(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, IDict):
                    for kk, vv in self.ctx.read_cell(d, "items"):
                        kwargs[kk] = vv
                else:
                    self.unsupported("** argument", n)
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        self.ctx.cur_node = n
        r = self.call(fn, args, kwargs)
        self.ctx.cur_node = n
        return r

    # ------------------------------------------------------------------
    # calls
    def call(self, fn, args, kwargs):
        ctx = self.ctx
        if any(type(a) is Stale for a in args) or any(type(a) is Stale for a in kwargs.values()):
            self.unsupported("use of an object made by an earlier iteration")
        if isinstance(fn, BoundMethod):
            return self.call(fn.func, [fn.obj] + list(args), kwargs)
        if isinstance(fn, FuncVal):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, Builtin):
            return fn.fn(ctx, list(args), dict(kwargs))
        if isinstance(fn, ClassVal):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, StaticMethod):
            return self.call(fn.f, args, kwargs)
        if isinstance(fn, Obj):
            m, _ = fn.cls.lookup("__call__")
            if m is not None:
                return self.call(BoundMethod(m, fn), args, kwargs)
            if self.lacks(fn, "__call__"):
                self.throw("TypeError", "object is not callable")
        if isinstance(fn, Model) and hasattr(fn, "call"):
            return fn.call(ctx, args, kwargs)
        if fn is None or isinstance(fn, (int, str, tuple, IList, SInt, SBool, SStr)):
            self.throw("TypeError", "object is not callable")
        self.unsupported("call of %r" % (fn,))

    def qual(self, f):
        mod = f.module.name.split(".")[-1] if f.module is not None else ""
        return mod + "." + f.qualname

    def call_func(self, f, args, kwargs):
        eng = self.ctx.engine
        q = self.qual(f)
        c = eng.contracts.get(q)
        if c is not None and c.applies(self, f, args, kwargs):
            eng.contract_hits[q] = eng.contract_hits.get(q, 0) + 1
            return c.call(self, f, args, kwargs)
        if len(self.ctx.frames) > 60:
            self.unsupported("recursion too deep in %s" % q)
        frame = self.bind(f, args, kwargs)
        if f.is_gen:
            return GenVal(self.ctx, f, frame)
        return self.run_frame(f, frame, None)

    def run_frame(self, f, frame, handler):
        eng = self.ctx.engine
        q = self.qual(f)
        if q not in eng.repo_hits:
            n = f.node
            eng.repo_hits[q] = (getattr(f.module, "path", "?"), n.lineno,
                                getattr(n, "end_lineno", n.lineno))
        frame.yield_handler = handler
        ctx = self.ctx
        ctx.frames.append(frame)
        saved = ctx.cur_node
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, frame)
            try:
                self.exec_block(f.node.body, frame)
            except ReturnX as r:
                return r.v
            return None
        finally:
            ctx.frames.pop()
            ctx.cur_node = saved

    def bind(self, f, args, kwargs):
        n = f.node
        a = n.args
        names, globs, nonl = n._names
        fr = Frame(self.ctx, f, f.module, f.closure)
        fr.locals_names = names
        fr.global_names = globs
        fr.nonlocal_names = nonl
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(pos) and not a.vararg:
            self.throw("TypeError", "%s() takes %d positional arguments but %d were given"
                       % (f.qualname, len(pos), len(args)))
        for name, v in zip(pos, args):
            vals[name] = v
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        extra = []
        for k, v in kwargs.items():
            if k in vals and k in pos:
                self.throw("TypeError", "multiple values for argument '%s'" % k)
            if k in pos or any(x.arg == k for x in a.kwonlyargs):
                vals[k] = v
            elif a.kwarg:
                extra.append((k, v))
            else:
                self.throw("TypeError", "unexpected keyword argument '%s'" % k)
        if a.kwarg:
            vals[a.kwarg.arg] = IDict(self.ctx, extra)
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in vals:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.throw("TypeError", "%s() missing argument '%s'" % (f.qualname, name))
                vals[name] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg not in f.kwdefaults:
                    self.throw("TypeError", "missing keyword argument '%s'" % x.arg)
                vals[x.arg] = f.kwdefaults[x.arg]
        fr.attrs.update(vals)
        return fr

    def instantiate(self, cls, args, kwargs):
        ctx = self.ctx
        if cls.native is not None and getattr(cls.native, "construct", None):
            return cls.native.construct(ctx, args, kwargs)
        if cls.issub(self.exc_class("BaseException")):
            o = Obj(ctx, cls)
            o.attrs["args"] = tuple(args)
            init, owner = cls.lookup("__init__")
            if isinstance(init, FuncVal):
                self.call(BoundMethod(init, o), args, kwargs)
            elif cls.issub(self.exc_class("OSError")):
                o.attrs["errno"] = args[0] if len(args) >= 2 else None
                o.attrs["strerror"] = args[1] if len(args) >= 2 else None
                o.attrs["filename"] = args[2] if len(args) >= 3 else None
            elif cls.issub(self.exc_class("SystemExit")):
                o.attrs["code"] = args[0] if args else None
            return o
        for c in cls.mro:
            if c.native is not None and c.name not in ("object",):
                if getattr(c.native, "construct", None):
                    self.unsupported("subclass of modelled class %s" % c.name)
        o = Obj(ctx, cls)
        init, _ = cls.lookup("__init__")
        if isinstance(init, (FuncVal, Builtin)):
            self.call(BoundMethod(init, o), args, kwargs)
        elif args or kwargs:
            self.throw("TypeError", "%s() takes no arguments" % cls.name)
        return o

    # ------------------------------------------------------------------
    # attributes
    def getattr(self, o, name, default=Unsupported):
        ctx = self.ctx
        if isinstance(o, Obj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                self.unsupported("__dict__")
            v, c = o.cls.lookup(name)
            if isinstance(v, PropertyVal):
                return self.call(v.fget, [o], {})
            if name in o.attrs:
                r = ctx.read_cell(o, name)
                if r is not UNBOUND:
                    return r
            if v is not None or (c is not None):
                return self.bind_attr(v, o, o.cls)
            if o.cls.issub(self.exc_class("BaseException")):
                if name in ("with_traceback",):
                    return Builtin(name, lambda c, a, k: o)
                if name in ("__traceback__", "__cause__", "__context__"):
                    return Opaque(name)
                if o.cls.issub(self.exc_class("OSError")) and name in ("errno", "strerror", "filename"):
                    return None
                if o.attrs.get("__open_attrs__"):
                    return Opaque("exc." + name)
            ga, _ = o.cls.lookup("__getattr__")
            if isinstance(ga, FuncVal):
                return self.call(BoundMethod(ga, o), [name], {})
            if hasattr(object, name) or any(
                    hasattr(getattr(builtins, c.name, None), name) for c in o.cls.mro if c.module is None):
                self.unsupported("attribute %s" % name)
            self.throw("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name))
        if isinstance(o, Model):
            m = getattr(o, "m_" + name, None)
            if m is not None:
                return Builtin("%s.%s" % (o.typename, name),
                               lambda c, a, k, m=m: m(c, *a, **k))
            if name in o.attrs:
                return ctx.read_cell(o, name)
            p = getattr(o, "p_" + name, None)
            if p is not None:
                return p(ctx)
            if name in o.dyn:
                return o.dyn[name]
            f = getattr(o, "get_attribute", None)
            if f is not None:
                r = f(ctx, name)
                if r is not NotImplemented:
                    return r
            if o.closed and not any(hasattr(c, name) for c in o.real):
                self.throw("AttributeError",
                           "'%s' object has no attribute '%s'" % (o.typename, name))
            self.unsupported("attribute %s of %s" % (name, o.typename))
        if isinstance(o, ModuleVal):
            if name in o.attrs:
                v = ctx.read_cell(o, name)
                if v is not UNBOUND:
                    return v
            sub = self.import_module(o.name + "." + name)
            if sub is not None:
                return sub
            if name.startswith("__"):
                self.unsupported("attribute %s of a module" % name)
            self.throw("AttributeError", "module '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, ExtModule):
            return self.ext_attr(o, name)
        if isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            v, c = o.lookup(name)
            if c is None:
                if o.native is not None and hasattr(o.native, "class_attr"):
                    return o.native.class_attr(ctx, name)
                if name.startswith("__") or hasattr(getattr(builtins, o.name, None), name):
                    self.unsupported("attribute %s of class %s" % (name, o.name))
                self.throw("AttributeError", "class %s has no attribute '%s'" % (o.name, name))
            if isinstance(v, StaticMethod):
                return v.f
            if isinstance(v, ClassMethod):
                return BoundMethod(v.f, o)
            return v
        if isinstance(o, SuperVal):
            mro = o.obj.cls.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind_attr(c.ns[name], o.obj, c)
            if name == "__init__":
                obj = o.obj

                def init(c, a, k):
                    if obj.cls.issub(self.exc_class("BaseException")):
                        obj.attrs["args"] = tuple(a)
                    return None
                return Builtin("super.__init__", init)
            if any(hasattr(getattr(builtins, c.name, object), name) for c in mro[i + 1:] if c.module is None):
                self.unsupported("super().%s" % name)
            self.throw("AttributeError", "super has no attribute '%s'" % name)
        if isinstance(o, FuncVal):
            if name == "__name__":
                return o.node.name
            if name == "__doc__":
                return None
        if isinstance(o, Opaque):
            return Opaque(o.what + "." + name)
        from . import builtins_ as B
        return B.value_attr(self, o, name)

    def bind_attr(self, v, o, cls):
        if isinstance(v, FuncVal) or isinstance(v, Builtin) and getattr(v, "is_method", False):
            return BoundMethod(v, o)
        if isinstance(v, StaticMethod):
            return v.f
        if isinstance(v, ClassMethod):
            return BoundMethod(v.f, cls)
        if isinstance(v, PropertyVal):
            return self.call(v.fget, [o], {})
        return v

    def lacks(self, o, name):
        """o certainly has no special method of that name (not defined here)"""
        if isinstance(o, Model):
            return o.closed and not any(hasattr(c, name) for c in o.real)
        if isinstance(o, Obj):
            return not any(hasattr(getattr(builtins, c.name, object), name) for c in o.cls.mro if c.module is None)
        return True

    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except IRaise as e:
            if e.exc.cls.issub(self.exc_class("AttributeError")):
                return False
            raise

    def setattr(self, o, name, v):
        ctx = self.ctx
        if isinstance(o, Obj):
            ctx.write_cell(o, name, v)
            return
        if isinstance(o, Model):
            f = getattr(o, "set_attribute", None)
            if f is not None and f(ctx, name, v) is not NotImplemented:
                return
            self.unsupported("setting %s of %s" % (name, o.typename))
        if isinstance(o, ModuleVal):
            ctx.write_cell(o, name, v)
            return
        if isinstance(o, ClassVal):
            self.unsupported("setting class attribute")
        if isinstance(o, FuncVal):
            return
        if o is None or isinstance(o, (int, str, tuple)):
            self.throw("AttributeError", "object has no attribute '%s'" % name)
        self.unsupported("setattr on %r" % (o,))

    # ------------------------------------------------------------------
    # subscripts
    def getitem(self, o, i):
        from . import builtins_ as B
        return B.getitem(self, o, i)

    def setitem(self, o, i, v):
        from . import builtins_ as B
        return B.setitem(self, o, i, v)

    def delitem(self, o, i):
        ctx = self.ctx
        if isinstance(o, IDict):
            items = ctx.read_cell(o, "items")
            for j, (k, _) in enumerate(items):
                if self.truth(self.eq(k, i)):
                    ctx.write_cell(o, "items", items[:j] + items[j + 1:])
                    return
            self.throw("KeyError", i)
        if isinstance(o, IList) and isinstance(i, int):
            items = list(ctx.read_cell(o, "items"))
            del items[i]
            ctx.write_cell(o, "items", items)
            return
        if isinstance(o, IList) and isinstance(i, SliceVal):
            items = list(ctx.read_cell(o, "items"))
            del items[slice(i.lo, i.hi, i.step)]
            ctx.write_cell(o, "items", items)
            return
        self.unsupported("del item")

    # ------------------------------------------------------------------
    # truth, comparison, arithmetic
    def truth(self, v):
        ctx = self.ctx
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, SBool):
            return ctx.branch(v.t)
        if isinstance(v, SInt):
            return ctx.branch(v.t != 0)
        if isinstance(v, SReal):
            return ctx.branch(v.t != 0)
        if isinstance(v, (int, float, str, bytes, tuple, list)):
            return bool(v)
        if isinstance(v, SStr):
            for p in v.parts:
                if isinstance(p, (IntHole, RealHole)) or isinstance(p, str):
                    return True
                if isinstance(p, Hole) and p.kind in ("hex", "human", "nonempty"):
                    return True
            from . import builtins_ as B
            return ctx.branch(z3.Not(B.txt_empty(ctx, v)))
        if isinstance(v, SBytes):
            return ctx.branch(v.len > 0)
        if isinstance(v, (IList, IDict, ISet)):
            return bool(ctx.read_cell(v, "items"))
        if isinstance(v, Opaque):
            return bool(ctx.choose(2, "truth of opaque"))
        if isinstance(v, Obj):
            m, _ = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(self.call(BoundMethod(m, v), [], {}))
            m, _ = v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call(BoundMethod(m, v), [], {}))
            return True
        if isinstance(v, Model):
            f = getattr(v, "truth", None)
            if f is not None:
                return self.truth(f(ctx))
            return True
        return True

    def eq(self, a, b):
        from . import builtins_ as B
        return B.eq(self, a, b)

    def compare_op(self, op, a, b):
        from . import builtins_ as B
        return B.compare(self, op, a, b)

    def binop(self, op, a, b):
        from . import builtins_ as B
        return B.binop(self, op, a, b)

    def str_(self, v):
        from . import builtins_ as B
        return B.to_str(self, v)

    def repr_(self, v):
        from . import builtins_ as B
        return B.to_repr(self, v)

    def format_spec(self, v, spec):
        from . import builtins_ as B
        return B.format_spec(self, v, spec)

    def wrap_int(self, t):
        t = z3.simplify(T.norm(t)) if not isinstance(t, int) else t
        if isinstance(t, int):
            return t
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(T.norm(t))


class CtxMgrGen:
    def __init__(self, ctx, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class ListIter(Owner):
    def __init__(self, ctx, lst):
        Owner.__init__(self, ctx, "listiter")
        self.lst = lst
        self.attrs["pos"] = 0


Model.closed = False
