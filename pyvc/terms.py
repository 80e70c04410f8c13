"""Term layer: z3 terms, product abstraction, path solver.

Integers are mathematical (Python ints are unbounded, so this is exact).  A
product of two symbolic integers is expanded into monomials; every monomial is
an abstract constant, and the solver is given instances of facts that hold for
integer multiplication (monotonicity and sign per shared factor).  Abstracting
a monomial only loses facts, so 'unsat' answers stay sound.
"""
import time
import os
os.environ.setdefault("Z3_DEBUG", "0")
import z3          # noqa: E402

z3.set_param("smt.random_seed", 1)

Txt = z3.DeclareSort("Txt")          # abstract text (digests, opaque strings)

_keep = []                            # keeps ASTs alive so that ids stay valid


def keep(t):
    _keep.append(t)
    return t


def I(v):
    """to z3 integer term"""
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    return v


def is_true(b):
    return z3.is_true(b)


def is_false(b):
    return z3.is_false(b)


_lin_cache = {}
_norm_cache = {}
_mul_cache = {}


def linform(t):
    """z3 int term -> ({atom_id: (coeff, atom)}, const); the result is shared"""
    k = t.get_id()
    r = _lin_cache.get(k)
    if r is None:
        r = _linform(t)
        _lin_cache[k] = (r[0], r[1], t)
    return r[0], r[1]


def _linform(t):
    out = {}
    const = [0]

    def add(t, k):
        if z3.is_int_value(t):
            const[0] += k * t.as_long()
        elif z3.is_add(t):
            for c in t.children():
                add(c, k)
        elif z3.is_sub(t):
            cs = t.children()
            add(cs[0], k)
            for c in cs[1:]:
                add(c, -k)
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            add(t.arg(0), -k)
        elif z3.is_mul(t):
            cs = t.children()
            num = 1
            rest = []
            for c in cs:
                if z3.is_int_value(c):
                    num *= c.as_long()
                else:
                    rest.append(c)
            if not rest:
                const[0] += k * num
            elif len(rest) == 1:
                add(rest[0], k * num)
            else:
                _atom(t, k)
        else:
            _atom(t, k)

    def _atom(t, k):
        i = t.get_id()
        if i in out:
            c = out[i][0] + k
            if c:
                out[i] = (c, t)
            else:
                del out[i]
        else:
            keep(t)
            out[i] = (k, t)

    add(t, 1)
    return out, const[0]


def from_lin(lin, const):
    ts = []
    for i in sorted(lin):
        c, a = lin[i]
        ts.append(a if c == 1 else z3.IntVal(c) * a)
    if const or not ts:
        ts.append(z3.IntVal(const))
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def norm(t):
    if not isinstance(t, z3.ArithRef) or not t.is_int():
        return t
    k = t.get_id()
    r = _norm_cache.get(k)
    if r is None:
        l, c = linform(t)
        r = from_lin(l, c)
        _norm_cache[k] = (r, t)
        _norm_cache.setdefault(r.get_id(), (r, r))
        return r
    return r[0]


class Monomials:
    """global table of monomial constants: (id a, id b) -> const"""

    def __init__(self):
        self.table = {}
        self.defs = []
        self.rev = {}          # id of monomial constant -> (a, b)

    def get(self, a, b):
        k = tuple(sorted((a.get_id(), b.get_id())))
        if k not in self.table:
            m = z3.Int("mono!%d" % len(self.table))
            self.table[k] = m
            self.defs.append((m, keep(a), keep(b)))
            self.rev[m.get_id()] = (a, b)
        return self.table[k]


MONO = Monomials()


def mul_terms(a, b):
    """expanded product; returns term"""
    k = (a.get_id(), b.get_id())
    r = _mul_cache.get(k)
    if r is None:
        r = (_mul_terms(a, b), a, b)
        _mul_cache[k] = r
    return r[0]


def _mul_terms(a, b):
    la, ca = linform(a)
    lb, cb = linform(b)
    if not la:
        return norm(z3.IntVal(ca) * b) if ca else z3.IntVal(0)
    if not lb:
        return norm(z3.IntVal(cb) * a) if cb else z3.IntVal(0)
    res = []
    for ia in sorted(la):
        ka, xa = la[ia]
        for ib in sorted(lb):
            kb, xb = lb[ib]
            res.append(z3.IntVal(ka * kb) * MONO.get(xa, xb))
        if cb:
            res.append(z3.IntVal(ka * cb) * xa)
    if ca:
        for ib in sorted(lb):
            kb, xb = lb[ib]
            res.append(z3.IntVal(kb * ca) * xb)
    if ca * cb:
        res.append(z3.IntVal(ca * cb))
    return norm(z3.Sum(res) if len(res) > 1 else res[0])


POSITIVE = {}              # id of atom -> atom, assumed positive on every path
_rw_cache = {}


def set_positive(atom):
    keep(atom)
    POSITIVE[atom.get_id()] = atom


def common_factor(d):
    """(s, Q) with d == s*Q for an atom s known positive, or None"""
    lin, c = linform(d)
    if c or not lin:
        return None
    cand = None
    for i, (k, x) in lin.items():
        ab = MONO.rev.get(i)
        if ab is None:
            ids = {i} & POSITIVE.keys()
        else:
            ids = {ab[0].get_id(), ab[1].get_id()} & POSITIVE.keys()
        cand = ids if cand is None else cand & ids
        if not cand:
            return None
    sid = min(cand)
    q, qc = {}, 0
    for i, (k, x) in lin.items():
        ab = MONO.rev.get(i)
        if ab is None:
            qc += k
            continue
        o = ab[1] if ab[0].get_id() == sid else ab[0]
        c0 = q[o.get_id()][0] if o.get_id() in q else 0
        if c0 + k:
            q[o.get_id()] = (c0 + k, o)
        elif o.get_id() in q:
            del q[o.get_id()]
    return POSITIVE[sid], norm(from_lin(q, qc))


_CMP = {z3.Z3_OP_LE: lambda x: x <= 0, z3.Z3_OP_LT: lambda x: x < 0,
        z3.Z3_OP_GE: lambda x: x >= 0, z3.Z3_OP_GT: lambda x: x > 0,
        z3.Z3_OP_EQ: lambda x: x == 0}


def rw(f):
    """comparisons of multiples of a positive atom are divided by it"""
    if not POSITIVE:
        return f
    k = f.get_id()
    r = _rw_cache.get(k)
    if r is not None:
        return r[0]
    res = f
    kind = f.decl().kind() if z3.is_app(f) else None
    if kind in _CMP and isinstance(f.arg(0), z3.ArithRef) and f.arg(0).is_int():
        d = norm(f.arg(0) - f.arg(1))
        cf = common_factor(d)
        if cf is not None:
            res = z3.simplify(_CMP[kind](cf[1]))
    elif z3.is_bool(f) and f.num_args():
        ch = [rw(c) if z3.is_bool(c) else c for c in f.children()]
        if any(not a.eq(b) for a, b in zip(ch, f.children())):
            res = f.decl()(*ch)
    _rw_cache[k] = (res, f)
    return res


_monos_cache = {}


def monos_in(f):
    """ids of the monomial constants of a formula"""
    k = f.get_id()
    r = _monos_cache.get(k)
    if r is not None:
        return r[0]
    if z3.is_app(f) and f.num_args() == 0:
        out = frozenset([k]) if k in MONO.rev else frozenset()
    else:
        out = frozenset().union(*[monos_in(c) for c in f.children()])
    _monos_cache[k] = (out, f)
    return out


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0


STATS = Stats()


LEMMAS = {}        # scale id -> multiplicand id -> [(other id, fact, products)]
_lem = {}


def lemma(s, t, u, kind, tp, up):
    """t*s and u*s compare as t and u do"""
    k = (s.get_id(), t.get_id(), u.get_id(), kind)
    if k not in _lem:
        f = z3.Implies(t == u, tp == up) if kind == "=" else z3.Implies(z3.And(s > 0, t < u), tp + s <= up)
        _lem[k] = f = keep(f)
        d = LEMMAS.setdefault(s.get_id(), {})
        a, b = (t, u) if not z3.is_int_value(t) else (u, t)
        bid = -1 if z3.is_int_value(b) else b.get_id()
        if not z3.is_int_value(a):
            d.setdefault(a.get_id(), []).append((bid, f, f.get_id(), monos_in(f)))
    return _lem[k]


class PathSolver:
    """assumptions of one path + lemma instances"""

    TIMEOUT_MS = 20000

    def __init__(self):
        self.s = z3.Solver()
        self.s.set("timeout", self.TIMEOUT_MS)
        self.cref = self.s.ctx.ref()
        self.scaled = {}       # scale atom id -> (scale atom, [multiplicand terms])
        self.divs = {}
        self.mins = {}
        self.formulas = []
        self.scaled_ids = {}
        self.used = set()      # monomials the assumptions mention
        self.have = {}
        self.theories = []     # fn(model, ev) -> violated valid facts
        self.recalled = None
        self.models = []       # [model, number of formulas it is known to satisfy]

    def add(self, f):
        f = rw(f)
        if z3.is_true(f) or f.get_id() in self.have:
            return
        self.have[f.get_id()] = f
        self.used |= monos_in(f)
        self.formulas.append(f)
        self.post(f)

    def post(self, f):
        z3.Z3_solver_assert(self.cref, self.s.solver, f.ast)

    # -- products ---------------------------------------------------------
    def register(self, t, s):
        """t is multiplied by atom s (monotonicity facts are added lazily)"""
        sid = s.get_id()
        if sid not in self.scaled:
            keep(s)
            self.scaled[sid] = (s, [])
            lst = self.scaled[sid][1]
            lst.append((z3.IntVal(0), z3.IntVal(0)))
            lst.append((z3.IntVal(1), s))
        lst = self.scaled[sid][1]
        t = norm(t)
        if z3.is_int_value(t) and t.as_long() in (0, 1):
            return
        tid = t.get_id()
        known = self.scaled_ids.setdefault(sid, set())
        if tid in known:
            return
        known.add(tid)
        keep(t)
        lst.append((t, keep(mul_terms(t, s))))

    def refine(self, m):
        """valid facts violated by the model"""
        out = []
        memo = {}

        def atom(x):
            i = x.get_id()
            if i not in memo:
                v = m.eval(x, model_completion=True)
                memo[i] = v.as_long() if z3.is_int_value(v) else None
            return memo[i]

        def ev(t):
            lin, c = linform(t)
            for k, x in lin.values():
                v = atom(x)
                if v is None:
                    return None
                c += k * v
            return c
        for s, lst in self.scaled.values():
            sv = ev(s)
            if sv is None or sv <= 0 or len(lst) < 3:
                continue
            vals = []
            for t, tp in lst:
                if not monos_in(tp) <= self.used:
                    continue       # unconstrained product
                tv, pv = ev(t), ev(tp)
                if tv is not None and pv is not None:
                    vals.append((tv, pv, t, tp))
            vals.sort(key=lambda x: x[0])
            for (a, ap, t, tp), (b, bp, u, up) in zip(vals, vals[1:]):
                if a == b:
                    if ap != bp:
                        out.append(lemma(s, t, u, "=", tp, up))
                elif ap + sv > bp:
                    out.append(lemma(s, t, u, "<", tp, up))
        for th in self.theories:
            out.extend(th(m, ev))
        return out

    def recall(self):
        """facts that earlier paths needed about the products at hand"""
        key = (sum(len(x[1]) for x in self.scaled.values()), len(self.used))
        if key == self.recalled:
            return
        for sid, known in self.scaled_ids.items():
            lem = LEMMAS.get(sid)
            if not lem:
                continue
            for tid in known:
                for uid, f, fid, monos in lem.get(tid, ()):
                    if (uid in known or uid < 0) and fid not in self.have and monos <= self.used:
                        self.have[fid] = f
                        self.formulas.append(f)
                        self.post(f)
        self.recalled = (sum(len(x[1]) for x in self.scaled.values()), len(self.used))

    def mul(self, a, b):
        a, b = norm(a), norm(b)
        r = mul_terms(a, b)
        la, ca = linform(a)
        lb, cb = linform(b)
        if la and lb:
            if len(lb) == 1 and cb == 0 and list(lb.values())[0][0] == 1:
                self.register(a, list(lb.values())[0][1])
            elif len(la) == 1 and ca == 0 and list(la.values())[0][0] == 1:
                self.register(b, list(la.values())[0][1])
            else:
                for (k, x) in lb.values():
                    self.register(a, x)
        return r

    def floordiv(self, a, b):
        """(q, r) of Python floor division; b != 0 is the caller's duty"""
        a, b = norm(a), norm(b)
        key = (a.get_id(), b.get_id())
        if key in self.divs:
            return self.divs[key][:2]
        keep(a)
        keep(b)
        if z3.is_int_value(a) and a.as_long() == 0:
            res = (z3.IntVal(0), z3.IntVal(0))
        elif z3.is_int_value(b) and z3.is_int_value(a):
            n, d = a.as_long(), b.as_long()
            res = (z3.IntVal(n // d), z3.IntVal(n % d))
        elif self._factor(a, b) is not None:
            # a == Q*b + rest syntactically
            Q, rest = self._factor(a, b)
            q, r = self.floordiv(rest, b)
            q = norm(Q + q)
            self.register(q, b)
            res = (q, r)
        else:
            q = z3.Int("q!%d" % fresh_id())
            r = z3.Int("r!%d" % fresh_id())
            if z3.is_int_value(b):
                bv = b.as_long()
                self.add(a == z3.IntVal(bv) * q + r)
                if bv > 0:
                    self.add(z3.And(r >= 0, r < bv))
                else:
                    self.add(z3.And(r <= 0, r > bv))
            else:
                qb = self.mul(q, b)
                self.add(a == qb + r)
                self.add(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
                self.add(z3.Implies(b < 0, z3.And(r <= 0, r > b)))
            res = (q, r)
        self.divs[key] = res + (a, b)
        return res

    def _factor(self, a, b):
        """(Q, rest) with a == Q*b + rest and Q not zero, for an atom b"""
        if z3.is_int_value(b):
            return None
        lb, cb = linform(b)
        if cb or len(lb) != 1:
            return None
        (kb, xb), = lb.values()
        if kb != 1:
            return None
        la, ca = linform(a)
        q, qc, rest = {}, 0, {}
        for i, (k, x) in la.items():
            if i == xb.get_id():
                qc += k
                continue
            ab = MONO.rev.get(i)
            if ab is None:
                rest[i] = (k, x)
                continue
            m1, m2 = ab
            if m1.get_id() == xb.get_id():
                o = m2
            elif m2.get_id() == xb.get_id():
                o = m1
            else:
                rest[i] = (k, x)
                continue
            c0 = q[o.get_id()][0] if o.get_id() in q else 0
            q[o.get_id()] = (c0 + k, o)
        if not q and not qc:
            return None
        return norm(from_lin(q, qc)), norm(from_lin(rest, ca))

    def minmax(self, a, b, is_min):
        a, b = norm(a), norm(b)
        key = (a.get_id(), b.get_id(), is_min)
        if key in self.mins:
            return self.mins[key]
        keep(a)
        keep(b)
        m = z3.Int("m!%d" % fresh_id())
        self.add(z3.Or(m == a, m == b))
        if is_min:
            self.add(z3.And(m <= a, m <= b))
        else:
            self.add(z3.And(m >= a, m >= b))
        self.mins[key] = m
        return m

    # -- queries ----------------------------------------------------------
    MAX_ROUNDS = 60

    def check(self, *fs):
        t0 = time.time()
        STATS.queries += 1
        learnt = []
        self.recall()
        self.s.push()
        used = self.used
        for f in fs:
            f = rw(f)
            self.used = self.used | monos_in(f)
            self.s.add(f)
        self.last_model = None
        for rnd in range(self.MAX_ROUNDS):
            r = self.s.check()
            if r != z3.sat:
                break
            m = self.s.model()
            new = self.refine(m)
            if not new:
                self.last_model = m
                break
            learnt.extend(new)
            for f in new:
                self.used = self.used | monos_in(f)
                self.s.add(f)
        else:
            self.last_model = m
        self.s.pop()
        self.used = used
        for f in learnt:
            if monos_in(f) <= used and f.get_id() not in self.have:
                self.have[f.get_id()] = f
                self.formulas.append(f)
                self.post(f)
        if r == z3.sat and self.last_model is not None:
            self.models.append([self.last_model, len(self.formulas)])
            del self.models[:-3]
        STATS.solver_s += time.time() - t0
        if r == z3.unknown:
            STATS.unknown += 1
        return r

    def feasible(self, f):
        if z3.is_true(f):
            return self.check() != z3.unsat
        if z3.is_false(f):
            return False
        g = rw(f)
        if monos_in(g) <= self.used:
            n = len(self.formulas)
            for mk in reversed(list(self.models)):
                m = mk[0]
                ok = True
                while mk[1] < n:
                    if not z3.is_true(m.eval(self.formulas[mk[1]], model_completion=True)):
                        ok = False
                        break
                    mk[1] += 1
                if not ok:
                    self.models.remove(mk)
                elif z3.is_true(m.eval(g, model_completion=True)):
                    return True
        return self.check(f) != z3.unsat

    def prove(self, f):
        """(status, model): status in valid / refuted / unknown"""
        if z3.is_true(f):
            return "valid", None
        r = self.check(z3.Not(f))
        if r == z3.unsat:
            return "valid", None
        if r == z3.sat:
            return "refuted", self.last_model
        return "unknown", None

    def smt2(self, goal):
        s = z3.Solver()
        for f in self.formulas:
            s.add(f)
        s.add(z3.Not(goal))
        return s.to_smt2()


_fid = [0]


def fresh_id():
    _fid[0] += 1
    return _fid[0]


def reset_ids():
    # terms are kept for the whole run: paths share their prefixes, and the
    # caches are keyed by term ids
    _fid[0] = 0


def fresh_int(name="i"):
    return keep(z3.Int("%s!%d" % (name, fresh_id())))


def fresh_bool(name="b"):
    return keep(z3.Bool("%s!%d" % (name, fresh_id())))


def fresh_real(name="r"):
    return keep(z3.Real("%s!%d" % (name, fresh_id())))


def fresh_txt(name="t"):
    return keep(z3.Const("%s!%d" % (name, fresh_id()), Txt))
