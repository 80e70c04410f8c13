"""Live local variables at loop heads (structured backward analysis).

Only used to decide for which local variables invariant candidates are worth
proposing: a variable that is dead at a loop head is still havocked there."""
import ast

_cache = {}


def _reads(n):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
            out.add(x.id)
    return out


def _kills(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        out = set()
        for e in t.elts:
            out |= _kills(e)
        return out
    if isinstance(t, ast.Starred):
        return _kills(t.value)
    return set()


class _Live:
    def __init__(self, func):
        self.heads = {}
        self.func = func
        esc = set()
        for n in ast.walk(func):
            if n is not func and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp,
                                                ast.ListComp, ast.SetComp, ast.DictComp)):
                esc |= _reads(n)
        self.esc = esc
        self.block(func.body, set(), set(), set(), set(), set())

    def block(self, stmts, after, brk, cont, ret, exc):
        live = set(after)
        for s in reversed(stmts):
            live = self.stmt(s, live, brk, cont, ret, exc) | exc
        return live

    def stmt(self, s, after, brk, cont, ret, exc):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            live = set(after)
            for t in ts:
                live -= _kills(t)
            for t in ts:
                live |= _reads(t)
            return live | (_reads(s.value) if s.value is not None else set())
        if isinstance(s, ast.AugAssign):
            return after | _reads(s.value) | _reads(s.target) | _kills(s.target)
        if isinstance(s, ast.Return):
            return ret | (_reads(s.value) if s.value is not None else set())
        if isinstance(s, ast.Raise):
            return exc | _reads(s)
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.If):
            return (self.block(s.body, after, brk, cont, ret, exc)
                    | self.block(s.orelse, after, brk, cont, ret, exc) | _reads(s.test))
        if isinstance(s, ast.While):
            out = self.block(s.orelse, after, brk, cont, ret, exc)
            head = set()
            while True:
                new = (_reads(s.test) | out | exc
                       | self.block(s.body, head, after, head, ret, exc))
                if new == head:
                    break
                head = head | new
            self.heads[s] = head
            return head
        if isinstance(s, ast.For):
            out = self.block(s.orelse, after, brk, cont, ret, exc)
            head = set()
            while True:
                b = self.block(s.body, head, after, head, ret, exc)
                new = out | exc | (b - _kills(s.target)) | _reads(s.target)
                if new <= head:
                    break
                head = head | new
            self.heads[s] = head
            return head | _reads(s.iter)
        if isinstance(s, ast.With):
            live = self.block(s.body, after, brk, cont, ret, exc)
            for it in reversed(s.items):
                if it.optional_vars is not None:
                    live = (live - _kills(it.optional_vars)) | _reads(it.optional_vars)
                live |= _reads(it.context_expr)
            return live
        if isinstance(s, ast.Try):
            f = s.finalbody

            def fin(x):
                return self.block(f, x, brk, cont, ret, exc) if f else set(x)
            a, b, c, r, e = fin(after), fin(brk), fin(cont), fin(ret), fin(exc)
            h = set(e)
            for hd in s.handlers:
                x = self.block(hd.body, a, b, c, r, e)
                if hd.name:
                    x = x - {hd.name}
                h |= x | (_reads(hd.type) if hd.type is not None else set())
            o = self.block(s.orelse, a, b, c, r, e) if s.orelse else a
            return self.block(s.body, o, b, c, r, h)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return after | _reads(s)
        if isinstance(s, (ast.Expr, ast.Assert, ast.Pass, ast.Import, ast.ImportFrom, ast.Global,
                          ast.Nonlocal)):
            return after | _reads(s)
        # anything else: everything it mentions is live, nothing is killed
        names = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
        for x in ast.walk(s):
            if isinstance(x, (ast.While, ast.For)):
                self.heads[x] = None
        return after | names


def live_at(func, loop):
    """names live at the head of `loop`; None when not known"""
    r = _cache.get(func)
    if r is None:
        try:
            r = _Live(func)
        except Exception:       # analysis not applicable: everything is live
            r = False
        _cache[func] = r
    if r is False:
        return None
    h = r.heads.get(loop)
    return None if h is None else h | r.esc
