"""Path state, exploration, loop invariants (Houdini), obligations."""
import os
import time
import z3
from . import terms as T
from .liveness import live_at
from .values import (SInt, SBool, SReal, SStr, SBytes, Hole, IntHole, Opaque, Lazy,
                     UNBOUND, Owner, Frame, Obj, Model, Stale, IList, IDict, Unsupported,
                     PathEnd, IRaise, ModuleVal, mkstr)


class RetryLoop(BaseException):
    def __init__(self, index, whole=False):
        self.index = index
        self.whole = whole


class BreakX(BaseException):
    pass


class ContinueX(BaseException):
    pass


class ReturnX(BaseException):
    def __init__(self, v):
        self.v = v


class Obligation:
    __slots__ = ("name", "tags", "status", "prefix", "where", "info", "model", "smt2")

    def __init__(self, name, tags, status, prefix, where, info=None, model=None, smt2=None):
        self.name, self.tags, self.status = name, tags, status
        self.prefix, self.where, self.info = prefix, where, info
        self.model, self.smt2 = model, smt2


class LoopInfo:
    def __init__(self):
        self.mods = {}            # cell key -> set of shapes
        self.objinfo = {}         # label -> (pyclass, cls, {attr: shapes}, dyn)
        self.version = 0
        self.entry_version = -1
        self.active = None        # set of candidate keys
        self.dropped = set()
        self.dirty = False
        self.fresh = True
        self.peel = False
        self.peeled = False       # the first iteration was run before
        self.tail = False         # the loop is left from the end of an iteration
        self.index = 0
        self.dead = None          # (frame label, live names) of the frame the loop is in
        self.where = ""


    def redundant(self, key):
        """implied by another active conjunct"""
        if key[0] == "<=":
            return ("<",) + key[1:] in self.active
        if key[0] == ">=":
            return (">",) + key[1:] in self.active
        return False

    def is_dead(self, cell):
        return self.dead is not None and cell[0] == self.dead[0] and cell[1] not in self.dead[1]


class Engine:
    """explores one verification unit"""

    def __init__(self, name="unit", bmc=None, trace=False):
        self.name = name
        self.bmc = bmc
        self.loops = {}
        self.obls = []
        self.contracts = {}
        self.hints = []              # fn(ctx, loop) -> [(key, thunk)]
        self.anchors = []            # fn(ctx) -> [(key, term)]
        self.scales = []             # fn(ctx) -> [z3 atom]
        self.paths = 0
        self.ended = {}
        self.trace = trace
        self.unsupported = []
        self.deadline = None
        self.max_paths = 60000
        self.stop_on_fail = False
        self.repo_hits = {}          # functions of /repo symbolically executed
        self.contract_hits = {}
        self.assumed = set()
        self.covers = set()
        self.reads = {}
        self.path_results = []

    def explore(self, fn):
        stack = [()]
        while stack:
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append(("time budget exhausted", None))
                break
            prefix = stack.pop()
            T.reset_ids()
            ctx = Ctx(self, prefix)
            self.paths += 1
            if self.paths > self.max_paths:
                self.unsupported.append(("path budget exhausted", None))
                break
            retry = None
            why = "end"
            ctx.obls = self.obls
            try:
                fn(ctx)
            except PathEnd as e:
                why = e.why or "end"
            except RetryLoop as e:
                retry = e.index
                whole = e.whole
                why = "retry"
            except Unsupported as e:
                n = e.node or ctx.cur_node
                where = "%s:%s" % (ctx.cur_file(), getattr(n, "lineno", "?"))
                self.unsupported.append((str(e), where))
                why = "unsupported"
                if self.trace:
                    import traceback
                    traceback.print_exc()
                if len(self.unsupported) > 20:
                    break
            except IRaise as e:
                # the harness did not handle it
                self.unsupported.append(("harness: unhandled program exception %r %s" % (
                    e.exc, e.exc.attrs.get("args")), None))
                why = "unhandled"
            self.ended[why] = self.ended.get(why, 0) + 1
            if retry is not None:
                p = tuple(ctx.trace[:retry])
                if whole:
                    self.obls = [o for o in self.obls if o.prefix[:len(p)] != p]
                    self.path_results = [r for r in self.path_results if r[0][:len(p)] != p]
                    stack = [x for x in stack if x[:len(p)] != p]
                    stack.append(p)
                    continue
                body = p + (0,)
                self.obls = [o for o in self.obls if o.prefix[:len(body)] != body]
                self.path_results = [r for r in self.path_results if r[0][:len(body)] != body]
                stack.append(p + (1,))
                stack.append(body)
                continue
            if self.stop_on_fail and any(o.status != "valid" for o in self.obls):
                break
            # alternatives, shallow ones first so that deep ones are popped first
            for i in range(len(prefix), len(ctx.trace)):
                for alt in ctx.alts[i]:
                    stack.append(tuple(ctx.trace[:i]) + (alt,))
        return self

    def cover(self, name):
        self.covers.add(name)


class Ctx:
    def __init__(self, engine, prefix):
        self.engine = engine
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.solver = T.PathSolver()
        self._seq = 0
        self._labels = {}
        self.owners = {}
        self.wlog = []            # (owner, name)
        self.rlog = None          # set when reads are recorded
        self.obls = []
        self.frames = []
        self.cur_node = None
        self.exc_stack = []
        self.role = "main"
        self.world = None
        self.interp = None
        self.memo = {}
        self.loop_stack = []
        self.G = Owner(self, "ghost")

    # -- identity ----------------------------------------------------------
    def next_seq(self):
        self._seq += 1
        return self._seq

    def label(self, base):
        n = self._labels.get(base, 0)
        self._labels[base] = n + 1
        return "%s#%d" % (base, n)

    def site(self):
        n = self.cur_node
        return "@%s" % getattr(n, "lineno", 0) if n is not None else ""

    # -- cells -------------------------------------------------------------
    def read_cell(self, owner, name):
        v = owner.attrs[name]
        if type(v) is Lazy:
            v = self.force(v)
            owner.attrs[name] = v
        if self.rlog is not None:
            self.rlog.add((owner.label, owner.seq, name))
        return v

    def write_cell(self, owner, name, v):
        owner.attrs[name] = v
        self.wlog.append((owner, name))

    def force(self, lz):
        if lz.loop is not None and not lz.loop.peel:
            # some locals are only bound by the first iteration: run that one first
            lz.loop.peel = True
            raise RetryLoop(lz.loop.index, True)
        if lz.some is not None:
            return lz.val if self.branch(lz.some) else None
        shapes = sorted(lz.shapes, key=repr)
        k = self.choose(len(shapes), "shape of %s" % lz.name)
        if shapes[k][0] == "ref" and lz.src is not None and not self.has_summary(shapes[k][1]):
            if not lz.src.tail:
                # look at the loop from the end of one arbitrary iteration
                lz.src.tail = True
                raise RetryLoop(lz.src.index, True)
            return Stale(self, "stale")
        v = self.fresh(shapes[k], lz.name)
        if lz.blen is not None:
            if isinstance(v, SBytes):
                v = SBytes(v.src, v.off, lz.blen)
            else:
                self.assume(lz.blen == len(v))
        return v

    # ghost cells
    def g(self, name):
        return self.read_cell(self.G, name)

    def gset(self, name, v):
        self.write_cell(self.G, name, v)

    # -- decisions ---------------------------------------------------------
    def decide(self, options_fn):
        """options_fn() -> list of feasible option numbers"""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.alts.append(())
            return d
        opts = options_fn()
        if not opts:
            raise PathEnd("infeasible")
        self.trace.append(opts[0])
        self.alts.append(tuple(reversed(opts[1:])))
        return opts[0]

    def choose(self, n, why=""):
        """nondeterministic choice"""
        if n == 1:
            return 0
        return self.decide(lambda: list(range(n)))

    def branch(self, cond):
        """truth of a z3 Bool on this path"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = z3.Not(cond)

        def opts():
            out = []
            if self.solver.feasible(cond):
                out.append(1)
                if self.solver.feasible(neg):
                    out.append(0)
            else:
                out.append(0)
            return out
        d = self.decide(opts)
        self.assume(cond if d else neg)
        return bool(d)

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd("assume false")
            return
        self.solver.add(f)

    def feasible_now(self):
        return self.solver.check() != z3.unsat

    def prune(self):
        """end the path if its assumptions are contradictory"""
        if not self.feasible_now():
            raise PathEnd("infeasible")

    # -- obligations -------------------------------------------------------
    def where(self):
        n = self.cur_node
        return "%s:%s" % (self.cur_file(), getattr(n, "lineno", "?"))

    def cur_file(self):
        for fr in reversed(self.frames):
            if fr.globs is not None and getattr(fr.globs, "path", None):
                return os.path.basename(fr.globs.path)
        return "?"

    def prove(self, name, f, tags=(), info=None, assume=True):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        f = z3.simplify(f)
        al = getattr(self.engine, "tag_alias", None)
        if al:
            tags = tuple(tags) + tuple(al[t] for t in tags if t in al)
        if len(self.trace) < len(self.prefix):
            # already examined on the path this prefix was taken from
            if assume:
                self.assume(f)
            return
        st, model = self.solver.prove(f)
        smt = None
        if st != "valid":
            smt = None
            inf = {"formula": str(f)[:2000]}
            if model is not None:
                inf["model"] = self._model_dict(model)
            if info:
                inf.update(info if isinstance(info, dict) else {"note": str(info)})
            inf["path"] = self.path_note()
            info = inf
        self.obls.append(Obligation(name, tuple(tags), st, tuple(self.trace), self.where(),
                                    info, model, smt))
        if st == "valid" and self.engine.collect_smt:
            self.engine.smt_samples.append((name, self.solver.smt2(f)))
        if assume:
            self.assume(f)
            if st != "valid" and not self.feasible_now():
                raise PathEnd("obligation refuted")

    def path_note(self):
        return list(self.trace)[-40:]

    def _model_dict(self, m):
        out = {}
        for d in m.decls():
            if d.arity() == 0 and not d.name().startswith(("q!", "r!", "m!")):
                out[d.name()] = str(m[d])
        for mm, a, b in T.MONO.defs:
            if mm.decl().name() in out:
                out["%s*%s" % (a, b)] = out.pop(mm.decl().name())
        return dict(list(out.items())[:80])

    # -- fresh values and shapes -------------------------------------------
    def new_int(self, name="i", lo=None, hi=None):
        t = T.fresh_int(name)
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        return t

    def shape_of(self, v):
        if v is None:
            return ("none",)
        if isinstance(v, (bool, SBool)):
            return ("bool",)
        if isinstance(v, (int, SInt)):
            return ("int",)
        if isinstance(v, (float, SReal)):
            return ("real",)
        if isinstance(v, str):
            return ("cstr", v)
        if isinstance(v, bytes):
            return ("cbytes", v)
        if isinstance(v, SStr):
            return ("str", v.is_bytes)
        if isinstance(v, SBytes):
            return ("bytes", v.src)
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.shape_of(x) for x in v)
        if isinstance(v, Owner):
            return ("ref", v.label)
        if v is UNBOUND:
            return ("unbound",)
        if isinstance(v, Opaque):
            return ("opaque",)
        if isinstance(v, list):
            return ("list", len(v)) + tuple(self.shape_of(x) if not isinstance(x, tuple) else
                                            ("tuple",) + tuple(self.shape_of(y) for y in x)
                                            for x in v)
        self.memo.setdefault("consts", {})[str(id(v))] = v
        self.engine.consts[_const_key(v)] = v
        return ("const", _const_key(v))

    def shapes_of(self, v):
        if type(v) is Lazy:
            return set(v.shapes)
        return {self.shape_of(v)}

    def join(self, shapes):
        out = set(shapes)
        strs = [s for s in out if s[0] in ("cstr", "str")]
        if len(strs) > 1:
            out -= set(strs)
            out.add(("str", False))
        bts = [s for s in out if s[0] in ("cbytes", "bytes")]
        if len(bts) > 1:
            srcs = {s[1] for s in bts if s[0] == "bytes"}
            if len(srcs) == 1 and all(s[0] == "bytes" or s[1] == b"" for s in bts):
                out -= set(bts)
                out.add(("bytes", srcs.pop()))
        reals = [s for s in out if s[0] in ("real",)]
        if reals and ("int",) in out:
            out.discard(("int",))
        return out

    def fresh(self, shape, name, loop=None):
        k = shape[0]
        if k == "none":
            return None
        if k == "bool":
            return SBool(T.fresh_bool(name))
        if k == "int":
            return SInt(T.fresh_int(name))
        if k == "real":
            return SReal(T.fresh_real(name))
        if k in ("cstr", "cbytes"):
            return shape[1]
        if k == "str":
            return mkstr([Hole(T.fresh_txt(name))], shape[1])
        if k == "bytes":
            o, n = T.fresh_int(name + ".off"), T.fresh_int(name + ".len")
            self.assume(n >= 0)
            return SBytes(shape[1], o, n)
        if k == "tuple":
            return tuple(self.fresh(s, "%s.%d" % (name, i), loop)
                         for i, s in enumerate(shape[1:]))
        if k == "ref":
            o = self.owners.get(shape[1])
            if o is not None and not getattr(o, "_stale", False):
                return o
            return self._fresh_obj(shape[1], name)
        if k == "unbound":
            return UNBOUND
        if k == "opaque":
            return Opaque("havoc " + name)
        if k == "const":
            return self.engine.consts[shape[1]]
        raise Unsupported("cannot havoc %s of shape %s" % (name, shape[0]))

    def has_summary(self, label):
        if label in self.owners:
            return True
        info = self.engine.objinfo.get(label)
        if info is None:
            return False
        # what a model keeps besides its cells cannot be made up
        return not issubclass(info[0], Model) or not info[4]

    def _fresh_obj(self, label, name):
        info = self.engine.objinfo.get(label)
        if info is None:
            raise Unsupported("no summary for object %s held by %s" % (label, name))
        pyclass, cls, attrs, dyn = info[:4]
        o = pyclass.__new__(pyclass)
        o.label = label + "'"
        o.seq = self.next_seq()
        o.attrs = {}
        if cls is not None:
            o.cls = cls
        if dyn is not None:
            o.dyn = dict(dyn)
        self.owners[o.label] = o
        for a, shapes in attrs.items():
            js = self.join(shapes)
            if len(js) == 1:
                o.attrs[a] = self.fresh(next(iter(js)), "%s.%s" % (name, a))
            else:
                o.attrs[a] = Lazy(frozenset(js), "%s.%s" % (name, a))
        return o

    def record_obj(self, o, depth=0):
        """remember how to make a fresh copy of an object allocated in a loop body"""
        if depth > 4:
            return
        attrs = {}
        for a, v in o.attrs.items():
            try:
                attrs[a] = self.shapes_of(v)
            except Unsupported:
                attrs[a] = {("opaque",)}
            if isinstance(v, Owner) and v.label not in self.engine.objinfo:
                self.engine.objinfo[v.label] = None
                self.record_obj(v, depth + 1)
        old = self.engine.objinfo.get(o.label)
        if old:
            for a, s in old[2].items():
                attrs.setdefault(a, set()).update(s)
        self.engine.objinfo[o.label] = (type(o), getattr(o, "cls", None), attrs,
                                        getattr(o, "dyn", None),
                                        set(vars(o)) - {"label", "seq", "attrs", "dyn"})

    # -- loops ---------------------------------------------------------------
    def loop_key(self, node, extra=""):
        stk = tuple(fr.label for fr in self.frames)
        return (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), extra, stk,
                tuple(self.trace))

    def havoc_cells(self, L, seq0):
        for cell in sorted(L.mods):
            owner = self.owners.get(cell[0])
            if owner is None or owner.seq >= seq0:
                continue
            name = "%s.%s" % (cell[0].split("#")[0].split(":")[-1].split(".")[-1], cell[1])
            custom = getattr(owner, "havoc_attr", None)
            if custom is not None:
                r = custom(self, cell[1])
                if r is not NotImplemented:
                    self.write_cell(owner, cell[1], r)
                    continue
            shapes = self.join(L.mods[cell])
            if len(shapes) == 1:
                s = next(iter(shapes))
                if s[0] in ("list",):
                    owner.attrs[cell[1]] = Lazy(frozenset(shapes), name)
                    self.wlog.append((owner, cell[1]))
                    continue
                if s[0] == "ref" and s[1] not in self.owners:
                    lz = owner.attrs[cell[1]] = Lazy(frozenset(shapes), name)
                    lz.src = L
                    self.wlog.append((owner, cell[1]))
                    continue
                self.write_cell(owner, cell[1], self.fresh(s, name))
            else:
                peel = type(owner) is Frame and ("unbound",) in shapes and not L.peeled and not L.is_dead(cell)
                lz = owner.attrs[cell[1]] = Lazy(frozenset(shapes), name, L if peel else None)
                lz.src = L
                opt = _optional(shapes)
                if opt is not None and lz.loop is None:
                    lz.some, lz.val = T.fresh_bool(name + ".some"), self.fresh(opt, name)
                if all(s[0] in ("bytes", "cbytes") for s in shapes):
                    lz.blen = self.new_int(name + ".len", 0)
                self.wlog.append((owner, cell[1]))
            ax = getattr(owner, "havoc_axioms", None)
            if ax is not None:
                ax(self, cell[1])

    guards = None

    def int_cells(self, L, seq0):
        """[(key, thunk)] of integer-valued cells modified by the loop"""
        out = []
        for cell in sorted(L.mods):
            if L.is_dead(cell):
                continue
            owner = self.owners.get(cell[0])
            if owner is None or owner.seq >= seq0 or owner.no_inv(cell[1]):
                continue
            sh = self.join(L.mods[cell])
            opt = _optional(sh)
            if opt is not None:
                sh = {opt}
            if sh == {("int",)}:
                out.append((cell, (lambda o=owner, n=cell[1]: T.I(_t(self.some_value(o, n))))))
            elif len(sh) == 1 and next(iter(sh))[0] == "tuple":
                tup = next(iter(sh))
                for i, s in enumerate(tup[1:]):
                    if s == ("int",):
                        out.append((cell + (i,),
                                    (lambda o=owner, n=cell[1], i=i: T.I(_t(self.some_value(o, n)[i])))))
        return out

    def bool_cells(self, L, seq0):
        out = []
        for cell in sorted(L.mods):
            if L.is_dead(cell):
                continue
            owner = self.owners.get(cell[0])
            if owner is None or owner.seq >= seq0 or owner.no_inv(cell[1]):
                continue
            sh = self.join(L.mods[cell])
            if sh == {("bool",)}:
                out.append((cell, (lambda o=owner, n=cell[1]: _b(o.attrs[n]))))
            elif _optional(sh) is not None:
                out.append((cell + ("some",), (lambda o=owner, n=cell[1]: self.has_value(o, n))))
            if ("cstr", "") in L.mods[cell] and len(L.mods[cell]) > 1:
                out.append((cell + ("blank",), (lambda o=owner, n=cell[1]: self.is_blank(o, n))))
        return out

    def has_value(self, o, n):
        v = o.attrs[n]
        if type(v) is Lazy:
            if v.some is None:
                raise KeyError(n)
            return v.some
        return z3.BoolVal(v is not None)

    def is_blank(self, o, n):
        from .builtins_ import txt_empty
        v = o.attrs[n]
        if type(v) is Lazy:
            if v.some is None:
                raise KeyError(n)
            return z3.And(v.some, txt_empty(self, v.val))
        return txt_empty(self, v) if isinstance(v, (str, SStr)) else z3.BoolVal(False)

    def some_value(self, o, n):
        """the value of a cell that may be None; what is said about it only holds if it is not"""
        v = o.attrs[n]
        if type(v) is Lazy:
            if v.some is None or self.guards is None:
                raise KeyError(n)
            self.guards.append(v.some)
            return v.val
        if v is None:
            raise Vacuous(n)
        return v

    def anchor_terms(self, L, seq0):
        out = [(("c", 0), z3.IntVal(0)), (("c", 1), z3.IntVal(1))]
        seen = {z3.IntVal(0).get_id(), z3.IntVal(1).get_id()}

        def add(key, v):
            if isinstance(v, bool) or not isinstance(v, (int, SInt)):
                return
            t = T.norm(T.I(_t(v)))
            if t.get_id() in seen:
                return
            T.keep(t)
            seen.add(t.get_id())
            out.append((key, t))
        frames = self.frames[-1:]
        for fr in reversed(self.frames[:-1]):
            frames.append(fr)
            if len(frames) >= 4:
                break
        for fr in frames:
            for n, v in sorted(fr.attrs.items()):
                if (fr.label, n) in L.mods:
                    continue
                add((fr.label, n), v)
                if isinstance(v, tuple):
                    for i, x in enumerate(v):
                        add((fr.label, n, i), x)
                if isinstance(v, Obj) and n == "self":
                    for a, x in sorted(v.attrs.items()):
                        if (v.label, a) not in L.mods:
                            add((v.label, a), x)
        for fn in self.engine.anchors:
            for key, t in fn(self):
                add(("h", key), SInt(t))
        # entry values of the modified cells
        for key, t in L.entry_terms:
            add(("e",) + key, SInt(t))
        return out

    def candidates(self, L, seq0, frame):
        """[(key, thunk -> z3 Bool)]"""
        out = []
        ints = self.int_cells(L, seq0)
        bools = self.bool_cells(L, seq0)
        anchors = self.anchor_terms(L, seq0)
        scales = []
        for fn in self.engine.scales:
            scales.extend(fn(self))
        for i, (kx, x) in enumerate(ints):
            for ka, a in anchors:
                out.append((("<=", kx, ka), lambda x=x, a=a: x() <= a))
                out.append(((">=", kx, ka), lambda x=x, a=a: x() >= a))
                out.append((("<", kx, ka), lambda x=x, a=a: x() < a))
                out.append(((">", kx, ka), lambda x=x, a=a: x() > a))
            for ky, y in ints[i + 1:]:
                out.append((("<=", kx, ky), lambda x=x, y=y: x() <= y()))
                out.append(((">=", kx, ky), lambda x=x, y=y: x() >= y()))
                out.append((("<", kx, ky), lambda x=x, y=y: x() < y()))
                out.append(((">", kx, ky), lambda x=x, y=y: x() > y()))
            # linear links relative to the entry values: x - x0 == y - y0
            for ky, y in ints[i + 1:]:
                ex, ey = L.entry_map.get(kx), L.entry_map.get(ky)
                if ex is not None and ey is not None:
                    out.append((("d", kx, ky),
                                lambda x=x, y=y, ex=ex, ey=ey: x() - ex == y() - ey))
                    out.append((("s", kx, ky),
                                lambda x=x, y=y, ex=ex, ey=ey: x() - ex == ey - y()))
            for si, s in enumerate(scales):
                for ky, y in ints:
                    if ky != kx:
                        out.append((("m<=", kx, ky, si),
                                    lambda x=x, y=y, s=s: x() <= self.solver.mul(y(), s)))
                        out.append((("m>=", kx, ky, si),
                                    lambda x=x, y=y, s=s: x() >= self.solver.mul(y(), s)))
                for ka, a in anchors:
                    if ka[0] == "c":
                        continue
                    out.append((("ma<=", kx, ka, si),
                                lambda x=x, a=a, s=s: x() <= self.solver.mul(a, s)))
                    out.append((("ma>=", kx, ka, si),
                                lambda x=x, a=a, s=s: x() >= self.solver.mul(a, s)))
        # nothing has changed while a counter still has its initial value
        for kc, c in ints:
            ec = L.entry_map.get(kc)
            if ec is None or not z3.is_int_value(ec):
                continue
            for kx, x in ints:
                ex = L.entry_map.get(kx)
                if kx != kc and ex is not None:
                    out.append((("c0", kc, kx), lambda c=c, ec=ec, x=x, ex=ex: z3.Implies(
                        c() == ec, x() == ex)))
            for kx, x in bools:
                out.append((("cb", kc, kx), lambda c=c, ec=ec, x=x: (c() == ec) == x()))
                out.append((("cn", kc, kx), lambda c=c, ec=ec, x=x: (c() == ec) == z3.Not(x())))
        for i, (kx, x) in enumerate(bools):
            out.append((("b", kx), lambda x=x: x()))
            out.append((("nb", kx), lambda x=x: z3.Not(x())))
            for ky, y in bools[i + 1:]:
                out.append((("b=", kx, ky), lambda x=x, y=y: x() == y()))
        for hi, h in enumerate(self.engine.hints):
            for key, thunk in h(self, LoopView(self, L, seq0, ints, bools, anchors)):
                out.append((("hint", hi) + (key if isinstance(key, tuple) else (key,)), thunk))
        return out

    def eval_cands(self, cands):
        out = []
        for key, th in cands:
            self.guards = []
            try:
                f = th()
            except Vacuous:
                f = True
            except (KeyError, AttributeError, TypeError):
                continue
            finally:
                guards, self.guards = self.guards, None
            if f is None:
                continue
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            if guards:
                f = z3.Implies(z3.And(guards), f)
            out.append((key, T.rw(z3.simplify(f))))
        return out

    def filter_valid(self, cands, limit=400):
        """Houdini step: the (key, formula) pairs valid in the current state;
        every survivor is proved valid as part of one conjunction query"""
        live = [c for c in cands if not z3.is_true(c[1]) and not z3.is_false(c[1])]
        ok = [c for c in cands if z3.is_true(c[1])]
        for _ in range(limit):
            if not live:
                break
            st, m = self.solver.prove(z3.And([f for _, f in live]))
            if st == "valid":
                return ok + live
            if st == "unknown":
                # decide one by one
                res = []
                for c in live:
                    s1, _ = self.solver.prove(c[1])
                    if s1 == "valid":
                        res.append(c)
                return ok + res
            keep = []
            dropped = False
            for c in live:
                v = m.eval(c[1], model_completion=True)
                if z3.is_false(v):
                    dropped = True
                else:
                    keep.append(c)
            if not dropped:
                # model evaluation was inconclusive
                res = []
                for c in live:
                    s1, _ = self.solver.prove(c[1])
                    if s1 == "valid":
                        res.append(c)
                return ok + res
            live = keep
        return ok + live if not live else ok

    def cut_loop(self, node, test, body, extra=""):
        """run a loop by its invariant.  test() -> bool may fork and assume;
        body() runs one iteration.  Returns True if left by break."""
        eng = self.engine
        if eng.bmc is not None:
            n = 0
            while True:
                if not test():
                    return False
                n += 1
                if n > eng.bmc:
                    eng.bmc_cut = True
                    raise PathEnd("unroll bound")
                try:
                    body()
                except BreakX:
                    return True
                except ContinueX:
                    pass
        if eng.unroll is not None and eng.unroll(self, node, extra):
            # loops with few iterations in this unit: executed as they are
            for _ in range(12):
                if not test():
                    return False
                try:
                    body()
                except BreakX:
                    return True
                except ContinueX:
                    pass
            raise Unsupported("a loop of more than 12 iterations")
        frame = self.frames[-1] if self.frames else None
        seq0 = self.next_seq()
        key = self.loop_key(node, extra)
        L = eng.loops.get(key)
        if L is None:
            L = eng.loops[key] = LoopInfo()
            L.where = self.where()
            L.peeled = "/peeled" in extra
            if frame is not None and frame.func is not None:
                live = live_at(frame.func.node, node)
                if live is not None:
                    L.dead = (frame.label, live)
        L.index = len(self.trace)
        if L.peel:
            # some locals are only bound by the first iteration: run it first
            if not test():
                return False
            try:
                body()
            except BreakX:
                return True
            except ContinueX:
                pass
            return self.cut_loop(node, test, body, extra + "/peeled")
        # entry shapes of all cells reachable so far, for later discovery
        entry = {}
        for cell in L.mods:
            o = self.owners.get(cell[0])
            if o is not None:
                v = o.attrs.get(cell[1], UNBOUND)
                try:
                    sh = self.shapes_of(v)
                except Unsupported:
                    sh = {("opaque",)}
                if not sh <= L.mods[cell]:
                    L.mods[cell] |= sh
                    L.version += 1
                    L.dropped.clear()
        L.entry_terms = []
        L.entry_map = {}
        L.entry_blen = {}
        for cell in L.mods:
            o = self.owners.get(cell[0])
            v = o.attrs.get(cell[1]) if o is not None else None
            if isinstance(v, bytes):
                L.entry_blen[cell] = z3.IntVal(len(v))
            elif isinstance(v, SBytes):
                L.entry_blen[cell] = T.norm(T.I(v.len))
        for ck, th in self.int_cells(L, seq0):
            try:
                t = T.norm(th())
            except (KeyError, AttributeError, TypeError):
                continue
            L.entry_terms.append((ck, t))
            L.entry_map[ck] = t
        entry_attr_snapshot = _EntrySnap(self)
        cands = None
        if not L.fresh:
            cands = self.candidates(L, seq0, frame)
            if L.entry_version != L.version or len(self.trace) >= len(self.prefix):
                ev = self.eval_cands([c for c in cands if c[0] not in L.dropped])
                good = self.filter_valid(ev)
                good = {k for k, _ in good}
                if self.engine.debug:
                    print("ENTRY-DROP", L.where, [k for k, _ in ev if k not in good and self.engine.debug in repr(k)])
                L.dropped |= {k for k, _ in ev if k not in good}
                L.active = good
                L.entry_version = L.version
        idx = len(self.trace)
        which = self.choose(2, "loop")
        if which == 1 and L.dirty:
            L.dirty = False
            L.fresh = False
            raise RetryLoop(idx)
        if L.tail and which == 1:
            # no iteration at all
            if test():
                raise PathEnd("loop: stays in")
            return False
        if not L.fresh:
            mark_h = len(self.wlog)
            self.havoc_cells(L, seq0)
            act = [c for c in cands if c[0] in L.active and not L.redundant(c[0])]
            for k, f in self.eval_cands(act):
                self.assume(f)
        mark = len(self.wlog)
        if which == 1:
            if test():
                raise PathEnd("loop: stays in")
            return False
        fresh = L.fresh
        self.loop_stack.append((L, entry_attr_snapshot))
        try:
            if not test():
                raise PathEnd("loop: exits")
            broke = None
            try:
                body()
            except ContinueX:
                pass
            except BreakX:
                broke = True
        except (IRaise, ReturnX) as e:
            if fresh:
                if not (eng.inline_rest and eng.inline_rest(self)):
                    Ctx._note(self, L, mark, seq0, entry_attr_snapshot)
                L.dirty = True
                raise PathEnd("loop discovery")
            raise
        finally:
            if self.loop_stack and self.loop_stack[-1][0] is L:
                self.loop_stack.pop()
        rest = eng.inline_rest and eng.inline_rest(self)
        if fresh:
            if not rest:
                self._note(L, mark, seq0, entry_attr_snapshot)
            L.dirty = True
            raise PathEnd("loop discovery")
        if broke:
            return True
        if rest:
            # the iterations that follow are executed one by one
            for _ in range(4):
                if not test():
                    return False
                try:
                    body()
                except BreakX:
                    return True
                except ContinueX:
                    pass
            raise Unsupported("the loop goes on after an event that is not part of its invariant")
        self._note(L, mark, seq0, entry_attr_snapshot)
        if L.tail and self.choose(2, "after an iteration"):
            if test():
                raise PathEnd("loop: stays in")
            return False
        if not L.dirty or True:
            act = [c for c in cands if c[0] in L.active and not L.redundant(c[0])]
            ev = self.eval_cands(act)
            good = {k for k, _ in self.filter_valid(ev)}
            lost = [k for k, _ in ev if k not in good]
            miss = [c[0] for c in act if c[0] not in {k for k, _ in ev}]
            lost += miss
            if self.engine.debug:
                print("STEP-DROP", L.where, self.path_note(), [k for k in lost if self.engine.debug in repr(k)], "ALL" , len(lost))
            if lost:
                L.active -= set(lost)
                L.dropped |= set(lost)
                L.dirty = True
        if not L.dirty:
            self.count_inv(L, len(L.active))
        raise PathEnd("loop body end")

    def _note(self, L, mark, seq0, snap):
        changed = False
        seen = set()
        for owner, name in self.wlog[mark:]:
            if owner.seq >= seq0:
                continue
            ck = (owner.label, name)
            if ck in seen:
                continue
            seen.add(ck)
            v = owner.attrs.get(name, UNBOUND)
            try:
                sh = self.shapes_of(v)
            except Unsupported:
                sh = {("opaque",)}
            if isinstance(v, Owner) and v.seq >= seq0:
                self.record_obj(v)
            if isinstance(v, tuple):
                for x in v:
                    if isinstance(x, Owner) and x.seq >= seq0:
                        self.record_obj(x)
            if ck not in L.mods:
                L.mods[ck] = snap.shapes(ck) | sh
                changed = True
            elif not sh <= L.mods[ck]:
                L.mods[ck] |= sh
                changed = True
        if changed:
            # candidates may have been lost for want of candidates on new cells
            L.version += 1
            L.dropped.clear()
            L.dirty = True

    def count_inv(self, L, n):
        self.obls.append(Obligation("loop invariant preserved (%d conjuncts) at %s" % (n, L.where),
                                    ("inv",), "valid", tuple(self.trace), L.where))


class _EntrySnap:
    """entry values of cells (taken lazily: attrs dicts are copied)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.data = {lbl: dict(o.attrs) for lbl, o in ctx.owners.items()}

    def shapes(self, ck):
        d = self.data.get(ck[0])
        if d is None:
            return set()
        v = d.get(ck[1], UNBOUND)
        try:
            return self.ctx.shapes_of(v)
        except Unsupported:
            return {("opaque",)}


class LoopView:
    def __init__(self, ctx, L, seq0, ints, bools, anchors):
        self.ctx, self.L, self.seq0 = ctx, L, seq0
        self.ints, self.bools, self.anchors = ints, bools, anchors

    def is_mod(self, owner, name):
        return (owner.label, name) in self.L.mods

    @property
    def byte_strings(self):
        """[(key, length thunk, fn(pos) -> it is empty or starts at pos in its stream)] of the modified byte strings"""
        out = []
        for cell in sorted(self.L.mods):
            owner = self.ctx.owners.get(cell[0])
            if self.L.is_dead(cell) or owner is None or owner.seq >= self.seq0 or owner.no_inv(cell[1]) or \
                    not all(s[0] in ("bytes", "cbytes") for s in self.L.mods[cell]):
                continue

            def length(o=owner, n=cell[1]):
                v = o.attrs[n]
                return v.blen if type(v) is Lazy else z3.IntVal(len(v)) if isinstance(v, bytes) else v.len

            def starts(pos, o=owner, n=cell[1]):
                v = o.attrs[n]
                if v == b"":
                    return z3.BoolVal(True)
                return z3.Or(v.len == 0, v.off == pos)
            out.append((cell, length, starts))
        return out

    @property
    def counts(self):
        """the integers, and how far the program's own variables have moved since the loop was entered"""
        out = list(self.ints)
        for k, x in self.ints:
            e = self.L.entry_map.get(k)
            if e is None or not isinstance(self.ctx.owners.get(k[0]), (Frame, Obj)):
                continue
            if z3.is_int_value(e) and e.as_long() == 0:
                continue
            out.append((("up",) + k, lambda x=x, e=e: x() - e))
            if not z3.is_int_value(e):
                out.append((("dn",) + k, lambda x=x, e=e: e - x()))
                out.append((("dc",) + k, lambda x=x, e=e: z3.If(x() >= 0, e - x(), e)))
        return out


class Vacuous(KeyError):
    pass


def _optional(shapes):
    """the shape of the values of a cell that is None or holds a plain value"""
    if len(shapes) != 2 or ("none",) not in shapes:
        return None
    s = next(s for s in shapes if s != ("none",))
    if s in (("int",), ("str", False)) or s[0] == "tuple" and all(x in (("int",), ("bool",), ("real",), ("none",)) for x in s[1:]):
        return s
    return None


def _t(v):
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    raise TypeError(v)


def _b(v):
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise TypeError(v)


_const_ids = {}


def _const_key(v):
    # stable across paths: by textual identity
    from .values import FuncVal, ClassVal, Builtin, BoundMethod, ExtModule
    if isinstance(v, FuncVal):
        return "func:%s:%s" % (v.qualname, getattr(v.node, "lineno", ""))
    if isinstance(v, ClassVal):
        return "class:" + v.name
    if isinstance(v, Builtin):
        return "builtin:" + v.name
    if isinstance(v, BoundMethod):
        return "bound:%s:%s" % (getattr(v.obj, "label", "?"), _const_key(v.func))
    return "obj:%s" % (repr(v)[:80])


Engine.debug = None
Engine.inline_rest = None
Engine.unroll = None
Engine.consts = None
Engine.objinfo = None
Engine.collect_smt = False
Engine.smt_samples = None


_orig_init = Engine.__init__


def _init(self, *a, **k):
    _orig_init(self, *a, **k)
    self.consts = {}
    self.objinfo = {}
    self.smt_samples = []
    self.bmc_cut = False


Engine.__init__ = _init
