"""Term language of the verifier.

Scalars are polynomials over atoms with explicit finite sums whose bounds are
symbolic dimensions:

    P     = sum of monomials
    mono  = rational * Sum_{binders} prod atom^exponent
    atom  = array element | conj(array element) | scalar function of Ps
          | indexed operator applied to lambda-abstracted Ps (inv, logabsdet, ...)
          | Iverson bracket over integer index expressions or data conditions

Normal forms are interned, hence equality of normal forms is identity.
Floating-point numbers are treated as mathematical reals/complex numbers.
"""

from fractions import Fraction
import itertools
import math
import sys

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """The verifier cannot express this construct (no verdict)."""


class Budget(Exception):
    pass


# --------------------------------------------------------------------------
# integer index expressions: polynomials over integer variables
# --------------------------------------------------------------------------
_fresh = itertools.count()


def fresh(prefix="_b"):
    return "%s%d" % (prefix, next(_fresh))


class IApp:
    """integer-valued element of an integer array / integer function"""

    __slots__ = ("name", "args", "key", "fv")
    _tab = {}

    def __new__(cls, name, args):
        k = (name, tuple(args))
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            o.args = tuple(args)
            o.key = "%s(%s)" % (name, ",".join(str(a) for a in args))
            fv = frozenset()
            for a in args:
                fv |= a.fv
            o.fv = fv
            cls._tab[k] = o
        return o

    def __str__(self):
        return self.key

    __repr__ = __str__

    def __lt__(self, o):
        return str(self) < str(o)


class IX:
    __slots__ = ("t", "fv", "_s")
    _tab = {}

    def __new__(cls, terms):
        """terms: dict mono(tuple of vars sorted by str) -> int"""
        key = tuple(sorted(((m, c) for m, c in terms.items() if c != 0), key=lambda mc: ([str(v) for v in mc[0]], mc[1])))
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.t = key
            fv = set()
            for m, _ in key:
                for v in m:
                    if isinstance(v, str):
                        fv.add(v)
                    else:
                        fv |= v.fv
            o.fv = frozenset(fv)
            o._s = None
            cls._tab[key] = o
        return o

    @staticmethod
    def const(n):
        return IX({(): int(n)})

    @staticmethod
    def var(v):
        return IX({(v,): 1})

    @staticmethod
    def of(x):
        if isinstance(x, IX):
            return x
        return IX.const(x)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def value(self):
        return self.t[0][1] if self.t else 0

    def as_var(self):
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1:
            return self.t[0][0][0]
        return None

    def __add__(self, o):
        o = IX.of(o)
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return IX(d)

    def __neg__(self):
        return IX({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-IX.of(o))

    def __mul__(self, o):
        o = IX.of(o)
        d = {}
        for m, c in self.t:
            for n, e in o.t:
                k = tuple(sorted(m + n, key=str))
                d[k] = d.get(k, 0) + c * e
        return IX(d)

    def subst(self, s):
        if not (self.fv & s.keys()):
            return self
        r = IX.const(0)
        for m, c in self.t:
            p = IX.const(c)
            for v in m:
                if isinstance(v, str):
                    p = p * (s[v] if v in s else IX.var(v))
                else:
                    p = p * iapp_subst(v, s)
            r = r + p
        return r

    def __str__(self):
        if self._s is None:
            if not self.t:
                self._s = "0"
            else:
                out = []
                for m, c in self.t:
                    ms = "*".join(str(v) for v in m)
                    if not m:
                        out.append("%+d" % c)
                    elif c == 1:
                        out.append("+" + ms)
                    elif c == -1:
                        out.append("-" + ms)
                    else:
                        out.append("%+d*%s" % (c, ms))
                s = "".join(out)
                self._s = s[1:] if s[0] == "+" else s
        return self._s

    __repr__ = __str__


def iapp_subst(v, s):
    """returns IX"""
    if not (v.fv & s.keys()):
        return IX.var(v)
    return mk_iapp(v.name, [a.subst(s) for a in v.args])


def mk_iapp(name, args):
    if name in ("div", "mod"):
        a, b = args
        q, r = divmod_ix(a, b)
        return q if name == "div" else r
    if name == "min":
        a, b = args
        if int_query(("ge0", b - a)):
            return a
        if int_query(("ge0", a - b)):
            return b
    if name == "max":
        a, b = args
        if int_query(("ge0", b - a)):
            return b
        if int_query(("ge0", a - b)):
            return a
    h = IAPP_HOOK.get(name)
    if h is not None:
        r = h(args)
        if r is not None:
            return r
    return IX.var(IApp(name, args))


IAPP_HOOK = {}


def ix_divide(a, b):
    """split a = b*q + r, with r containing no term syntactically divisible by b"""
    if b.is_const():
        n = b.value()
        q = {m: c // n for m, c in a.t}
        r = {m: c - n * (c // n) for m, c in a.t}
        return IX(q), IX(r)
    if len(b.t) == 1 and b.t[0][1] == 1:
        bm = list(b.t[0][0])
        q, r = {}, {}
        for m, c in a.t:
            mm = list(m)
            try:
                for v in bm:
                    mm.remove(v)
                q[tuple(mm)] = q.get(tuple(mm), 0) + c
            except ValueError:
                r[m] = c
        return IX(q), IX(r)
    # general: a == k*b + r for small constants k
    for k in (1, 2, -1):
        d = a - b * k
        if d.is_const():
            return IX.const(k), d
    return IX.const(0), a


def divmod_ix(a, b):
    if a.is_const() and b.is_const() and b.value() != 0:
        return IX.const(a.value() // b.value()), IX.const(a.value() % b.value())
    q, r = ix_divide(a, b)
    if int_query(("ge0", r)) and int_query(("ge0", b - r - 1)):
        return q, r
    for k in (1, -1):
        r2 = r - b * k
        if int_query(("ge0", r2)) and int_query(("ge0", b - r2 - 1)):
            return q + IX.const(k), r2
    # quotient guessed from a leading monomial: a = k*(n + r) + s with 0 <= s < n + r
    for bm, bc in b.t:
        if not bm:
            continue
        for am, ac in a.t:
            if ac % bc:
                continue
            mm = list(am)
            try:
                for v in bm:
                    mm.remove(v)
            except ValueError:
                continue
            q3 = IX({tuple(mm): ac // bc})
            r3 = a - b * q3
            if int_query(("ge0", r3)) and int_query(("ge0", b - r3 - 1)):
                return q3, r3
    d = IX.var(IApp("div", (r, b)))
    return q + d, r - b * d


ZERO_IX = IX.const(0)
ONE_IX = IX.const(1)

# --------------------------------------------------------------------------
# context: declarations, integer facts
# --------------------------------------------------------------------------


class Ctx:
    """integer facts + symbol declarations for the current verification task"""

    def __init__(self):
        self.facts = []  # list of ("ge0"/"eq0"/"ne0", IX)
        self.vdim = {}  # var -> IX upper bound (0 <= v < dim)
        self.decl = {}  # array/scalar name -> dict(real, sign, herm, nargs)
        self.rules = {}  # head name -> list of Rule
        self.datafacts = {}  # interned cond key -> bool
        self.elsub = {}  # element atom -> P (from data conditions p == 0)
        self.by_id = {}
        self.cache = {}
        self.apps = {}  # IApp -> constraint builder
        self.nonneg_hook = []
        self._solver = None
        self.gen = 0
        self.assumptions = set()
        self.powtab = {}  # id of an expanded power -> (base, integer exponent)

    def clone_facts(self):
        return list(self.facts), dict(self.vdim)

    def add_fact(self, kind, ix):
        self.facts.append((kind, ix))
        self.bump()

    def bump(self):
        self.gen += 1
        self.cache = {}
        clear_caches()


CTX = Ctx()


def new_ctx():
    global CTX
    CTX = Ctx()
    Atom._tab.clear()
    P._tab.clear()
    clear_caches()
    return CTX


def ctx():
    return CTX


_z3 = None


def z3mod():
    global _z3
    if _z3 is None:
        import z3 as _z

        _z3 = _z
    return _z3


STATS = {"z3_calls": 0, "z3_time": 0.0, "norm": 0}


def _z3_of(ix, vars_):
    z = z3mod()
    r = z.IntVal(0)
    for m, c in ix.t:
        p = z.IntVal(c)
        for v in m:
            p = p * _z3_var(v, vars_)
        r = r + p
    return r


def _z3_var(v, vars_):
    k = str(v)
    if k not in vars_:
        vars_[k] = (z3mod().Int(k), v)
    return vars_[k][0]


def _collect(ix, acc):
    for m, _ in ix.t:
        for v in m:
            if v not in acc:
                acc.add(v)
                if not isinstance(v, str):
                    for a in v.args:
                        _collect(a, acc)
                    d = CTX.decl.get(v.name)
                    if d and d.get("irange") is not None:
                        _collect(d["irange"][0], acc)
                        _collect(d["irange"][1], acc)
                elif v in CTX.vdim:
                    _collect(CTX.vdim[v], acc)


def int_query(goal, extra=()):
    """goal: (kind, IX). returns True if facts entail goal."""
    kind, ix = goal
    if ix.is_const():
        v = ix.value()
        return {"ge0": v >= 0, "eq0": v == 0, "ne0": v != 0}[kind]
    key = ("q", kind, ix, tuple(extra))
    r = CTX.cache.get(key)
    if r is not None:
        return r
    if not extra and kind == "ge0" and _bound_proves(ix):
        r = True
    elif not extra and _model_refutes(kind, ix):
        r = False
    else:
        r = _int_query_z3(kind, ix, extra)
    CTX.cache[key] = r
    return r


def _lower(v):
    """known constant lower bound of an integer variable, or None"""
    if not isinstance(v, str):
        return None
    if v in CTX.vdim:
        return 0
    best = None
    for k, f in CTX.facts:
        if k == "ge0" and len(f.t) <= 2:
            d = dict(f.t)
            if d.get((v,)) == 1 and all(m in ((v,), ()) for m in d):
                b = -d.get((), 0)
                best = b if best is None else max(best, b)
    return best


def _bound_proves(ix):
    """ix >= 0 from the range of index variables and constant lower bounds of dimensions alone"""
    for _ in range(4):
        lo, again, nxt = 0, False, IX.const(0)
        for m, c in ix.t:
            if m == ():
                nxt = nxt + c
                continue
            if len(m) != 1:
                return False
            v = m[0]
            if c > 0:
                b = _lower(v)
                if b is None:
                    return False
                lo += c * b
                nxt = nxt + IX({m: c})
            else:
                d = CTX.vdim.get(v) if isinstance(v, str) else None
                if d is None:
                    return False
                nxt = nxt + (d - 1) * c
                again = True
        if not again:
            return nxt.t is not None and lo + dict(nxt.t).get((), 0) >= 0
        ix = nxt
    return False


_MODELS = []


class _NoEval(Exception):
    pass


def _ev(ix, env):
    r = 0
    for m, c in ix.t:
        t = c
        for v in m:
            t *= _evv(v, env)
        r += t
    return r


def _evv(v, env):
    k = str(v)
    if k in env:
        return env[k]
    if isinstance(v, str):
        x = 0 if v in CTX.vdim else 5
        env[k] = x
        d = CTX.vdim.get(v)
        if d is not None and not 0 <= x < _ev(d, env):
            raise _NoEval()
        return x
    a = [_ev(q, env) for q in v.args]
    if v.name == "div" and a[1] > 0:
        x = a[0] // a[1]
    elif v.name == "min":
        x = min(a)
    elif v.name == "max":
        x = max(a)
    else:
        raise _NoEval()
    env[k] = x
    return x


def _model_refutes(kind, ix):
    """a previously found assignment that satisfies every current fact and violates the goal"""
    for mod in reversed(_MODELS[-6:]):
        env = {}
        try:
            for k, x in mod.items():
                env[k] = x
            v = _ev(ix, env)
            if {"ge0": v >= 0, "eq0": v == 0, "ne0": v != 0}[kind]:
                continue
            ok = True
            for k, f in CTX.facts:
                w = _ev(f, env)
                if not {"ge0": w >= 0, "eq0": w == 0, "ne0": w != 0}[k]:
                    ok = False
                    break
            if ok:
                for k in list(env):
                    d = CTX.vdim.get(k)
                    if d is not None and not 0 <= env[k] < _ev(d, env):
                        ok = False
                        break
            if ok:
                return True
        except _NoEval:
            continue
    return False


def _z3_assert(s, kind, ix, vars_):
    e = _z3_of(ix, vars_)
    if kind == "ge0":
        s.add(e >= 0)
    elif kind == "eq0":
        s.add(e == 0)
    elif kind == "ne0":
        s.add(e != 0)


def _setup(s, ixs, extra):
    vars_ = {}
    acc = set()
    for ix in ixs:
        _collect(ix, acc)
    facts = list(CTX.facts) + list(extra)
    # relevant closure
    changed = True
    used = set()
    while changed:
        changed = False
        for k, (kind, f) in enumerate(facts):
            if k in used:
                continue
            a = set()
            _collect(f, a)
            if a & acc or not a:
                used.add(k)
                if not a <= acc:
                    acc |= a
                changed = True
    for k in used:
        _z3_assert(s, facts[k][0], facts[k][1], vars_)
    for v in list(acc):
        if isinstance(v, str):
            if v in CTX.vdim:
                e = _z3_var(v, vars_)
                s.add(e >= 0)
                s.add(e < _z3_of(CTX.vdim[v], vars_))
        else:
            app_constraints(s, v, vars_)
    return vars_


def app_constraints(s, v, vars_):
    z = z3mod()
    e = _z3_var(v, vars_)
    if v.name == "div":
        a, b = [_z3_of(x, vars_) for x in v.args]
        s.add(z.Implies(b > 0, z.And(b * e <= a, a < b * e + b)))
    elif v.name == "min":
        a, b = [_z3_of(x, vars_) for x in v.args]
        s.add(e == z.If(a < b, a, b))
    elif v.name == "max":
        a, b = [_z3_of(x, vars_) for x in v.args]
        s.add(e == z.If(a < b, b, a))
    else:
        d = CTX.decl.get(v.name)
        if d and d.get("irange") is not None:
            lo, hi = d["irange"]
            s.add(e >= _z3_of(lo, vars_), e < _z3_of(hi, vars_))


def _int_query_z3(kind, ix, extra):
    import time

    z = z3mod()
    t = time.time()
    s = z.Solver()
    s.set("timeout", 4000)
    vars_ = _setup(s, [ix], extra)
    e = _z3_of(ix, vars_)
    s.add({"ge0": e < 0, "eq0": e != 0, "ne0": e == 0}[kind])
    r = s.check()
    for seed in (1, 2):
        if r != z.unknown:
            break
        s.set("random_seed", seed)
        r = s.check()
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t
    if r == z.sat and all(isinstance(v, str) for _, v in vars_.values()):
        m = s.model()
        try:
            _MODELS.append({k: m.eval(zv, model_completion=True).as_long() for k, (zv, _) in vars_.items()})
            del _MODELS[:-12]
        except Exception:  # noqa
            pass
    return r == z.unsat


def int_feasible(extra=()):
    """are the current integer facts (plus extra) satisfiable?  None if unknown"""
    key = ("feas", tuple(extra))
    r = CTX.cache.get(key, 0)
    if r != 0:
        return r
    z = z3mod()
    s = z.Solver()
    s.set("timeout", 4000)
    ixs = [f for _, f in list(CTX.facts) + list(extra)]
    _setup(s, ixs, extra)
    STATS["z3_calls"] += 1
    r = s.check()
    r = True if r == z.sat else (False if r == z.unsat else None)
    CTX.cache[key] = r
    return r


def int_model(names, extra=(), prefs=()):
    """a model of the facts for the given variables (dict) or None"""
    z = z3mod()
    s = z.Solver()
    s.set("timeout", 4000)
    ixs = [f for _, f in list(CTX.facts) + list(extra)] + [IX.var(n) for n in names]
    vars_ = _setup(s, ixs, extra)
    for n in names:
        _z3_var(n, vars_)
    if s.check() != z.sat:
        return None
    # prefer small values, all together and then one by one
    for bound in (3, 4, 6, 10):
        s.push()
        for n in names:
            s.add(vars_[n][0] <= bound)
        if s.check() == z.sat:
            m = s.model()
            return {n: m.eval(vars_[n][0], model_completion=True).as_long() for n in names}
        s.pop()
    for n in names:
        for bound in (3, 6, 12, 40, 72, 136, 264, 520, 1032, 2056):
            s.push()
            s.add(vars_[n][0] <= bound)
            ok = s.check() == z.sat
            s.pop()
            if ok:
                s.add(vars_[n][0] <= bound)
                break
    s.check()
    m = s.model()
    return {n: m.eval(vars_[n][0], model_completion=True).as_long() for n in names}


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("kind", "name", "idx", "args", "lam", "cj", "id", "fv", "real", "sign", "height", "_str")
    _tab = {}
    _n = itertools.count()

    def __str__(self):
        return atom_str(self)

    __repr__ = __str__


def _intern_atom(kind, name, idx, args, lam, cj, real, sign):
    key = (kind, name, idx, tuple(a.id for a in args), lam, cj, real, sign)
    a = Atom._tab.get(key)
    if a is None:
        a = Atom()
        a.kind, a.name, a.idx, a.args, a.lam, a.cj = kind, name, idx, args, lam, cj
        a.real, a.sign = real, sign
        a.id = next(Atom._n)
        fv = set()
        h = 0
        for i in idx:
            fv |= i.fv
        bound = set(v for v, _ in lam)
        for p in args:
            fv |= p.fv - bound
            h = max(h, p.height)
        for _, d in lam:
            fv |= d.fv
        a.fv = frozenset(fv)
        a.height = h + (1 if lam else 0)
        a._str = None
        Atom._tab[key] = a
    return a


def atom_str(a):
    if a._str is None:
        s = a.name
        if a.kind in ("iv", "ivd"):
            s = "[%s %s]" % (a.idx[0] if a.idx else a.args[0], {"eq0": "==0", "ge0": ">=0", "gt0": ">0"}.get(a.name, a.name))
        else:
            if a.kind == "fn":
                s += "(" + ", ".join(str(p) for p in a.args) + ")"
            elif a.kind == "lam":
                s += "<" + ",".join(v for v, _ in a.lam) + ". " + "; ".join(str(p) for p in a.args) + ">"
            if a.idx:
                s += "[" + ",".join(str(i) for i in a.idx) + "]"
        if a.cj:
            s = "conj(" + s + ")"
        a._str = s
    return a._str


def el(name, idx, cj=False):
    d = CTX.decl[name]
    real = d["real"]
    if real:
        cj = False
    idx = tuple(IX.of(i) for i in idx)
    if d.get("herm") and cj:
        # conj A[...,i,j] = A[...,j,i]
        idx = idx[:-2] + (idx[-1], idx[-2])
        cj = False
    elif d.get("herm_axes") and cj:
        p, q = d["herm_axes"]
        l = list(idx)
        l[p], l[q] = l[q], l[p]
        idx = tuple(l)
        cj = False
    if d.get("sym"):
        if str(idx[-2]) > str(idx[-1]):
            idx = idx[:-2] + (idx[-1], idx[-2])
    return _intern_atom("el", name, idx, (), (), cj, real, d.get("sign"))


def int_atom(v):
    """integer variable (dimension or index) used as a real number"""
    key = v
    sign = "nonneg"
    ix = IX.var(v)
    if int_query(("ge0", ix - 1)):
        sign = "pos"
    elif not int_query(("ge0", ix)):
        sign = None
    return _intern_atom("int", str(v), (ix,), (), (), False, True, sign)


def iv_atom(kind, ix):
    return _intern_atom("iv", kind, (ix,), (), (), False, True, "nonneg")


# --------------------------------------------------------------------------
# polynomials
# --------------------------------------------------------------------------
class P:
    """polynomial; .terms: tuple of (coef, binders, factors).

    binders: tuple of (var, dim IX); factors: tuple of (Atom, exponent)
    exponent: Fraction or (normalised, parameter-only) P
    """

    __slots__ = ("terms", "normal", "id", "fv", "height", "_conj")
    _tab = {}
    _n = itertools.count()

    def __init__(self, terms, normal=False):
        self.terms = terms
        self.normal = normal
        self.id = None
        self._conj = None
        fv = set()
        h = 0
        for c, b, f in terms:
            loc = set()
            for a, e in f:
                loc |= a.fv
                h = max(h, a.height)
                if isinstance(e, P):
                    h = max(h, e.height)
            bound = [v for v, _ in b]
            for _, d in b:
                loc |= d.fv
            loc.difference_update(bound)
            if b:
                h = max(h, max(a.height for a, _ in f) + 1 if f else 1)
            fv |= loc
        self.fv = frozenset(fv)
        self.height = h

    def __str__(self):
        if not self.terms:
            return "0"
        out = []
        for c, b, f in self.terms:
            s = []
            if c != 1 or not f:
                s.append(str(c))
            for a, e in f:
                if isinstance(e, P):
                    s.append("%s^(%s)" % (a, e))
                elif e == 1:
                    s.append(str(a))
                else:
                    s.append("%s^%s" % (a, e))
            t = "*".join(s)
            if b:
                t = "Sum{%s}(%s)" % (",".join("%s<%s" % (v, d) for v, d in b), t)
            out.append(t)
        return " + ".join(out)

    __repr__ = __str__


def clear_caches():
    _subst_cache.clear()
    _norm_cache.clear()
    _mono_cache.clear()


_subst_cache = {}
_norm_cache = {}
_mono_cache = {}


def pconst(c):
    if isinstance(c, P):
        return c
    if isinstance(c, float):
        f = Fraction(c)
        g = f.limit_denominator(1000000)
        # a float literal denotes its shortest decimal / small rational (floats are read as reals)
        c = g if float(g) == c else Fraction(repr(c))
    elif isinstance(c, complex):
        return padd(pconst(c.real), pmul(pconst(c.imag), I_UNIT()))
    c = Fraction(c)
    if c == 0:
        return _intern(())
    return _intern(((c, (), ()),))


def I_UNIT():
    CTX.decl.setdefault("@i", dict(real=False, sign=None))
    return patom(_intern_atom("unit", "@i", (), (), (), False, False, None))


def patom(a, e=Fraction(1)):
    return normalize(P(((Fraction(1), (), ((a, e),)),)))


def _intern(terms):
    key = tuple(
        (c, b, tuple((a.id, e.id if isinstance(e, P) else ("q", e)) for a, e in f)) for c, b, f in terms
    )
    p = P._tab.get(key)
    if p is None:
        p = P(terms, True)
        p.id = next(P._n)
        P._tab[key] = p
    return p


def pint(ix):
    """IX -> P"""
    ix = IX.of(ix)
    r = []
    for m, c in ix.t:
        f = {}
        for v in m:
            a = int_atom(v)
            f[a] = f.get(a, 0) + 1
        r.append((Fraction(c), (), tuple((a, Fraction(e)) for a, e in f.items())))
    return normalize(P(tuple(r)))


def padd(*ps):
    t = []
    for p in ps:
        t.extend(p.terms)
    return normalize(P(tuple(t)))


def pneg(p):
    return pscale(p, -1)


def pscale(p, c):
    c = Fraction(c)
    if c == 0:
        return pconst(0)
    q = P(tuple((k * c, b, f) for k, b, f in p.terms))
    if p.normal:
        return _intern(q.terms)
    return normalize(q)


def psub(a, b):
    return padd(a, pneg(b))


def _rename_binders(mono, avoid):
    c, b, f = mono
    s = {}
    for v, d in b:
        if v in avoid:
            s[v] = IX.var(fresh())
    if not s:
        return mono
    nb = tuple((s[v].as_var() if v in s else v, d.subst(s)) for v, d in b)
    return (c, nb, tuple((atom_subst1(a, s), e) for a, e in f))


def atom_subst1(a, s):
    """substitution (renaming) of an atom returning a single atom"""
    if not (a.fv & s.keys()):
        return a
    if a.kind == "fn" and a.name == "base":
        return mk_base_atom(subst(a.args[0], s))
    if a.kind == "iv":
        # a renaming: the bracket keeps its direction, whatever the order of the new names
        return iv_atom(a.name, a.idx[0].subst(s))
    r = atom_subst(a, s)
    if isinstance(r, Atom):
        return r
    if len(r.terms) == 1 and r.terms[0][0] == 1 and not r.terms[0][1] and len(r.terms[0][2]) == 1 and r.terms[0][2][0][1] == 1:
        return r.terms[0][2][0][0]
    raise Unsupported("renaming changed an atom: %s" % a)


def mono_vars(mono):
    c, b, f = mono
    s = set(v for v, _ in b)
    for a, e in f:
        s |= a.fv
    for _, d in b:
        s |= d.fv
    return s


def raw_mul_mono(m1, m2):
    if m1[1] or m2[1]:
        if m2[1]:
            m2 = _rename_binders(m2, mono_vars(m1))
        if m1[1]:
            v2 = mono_vars(m2)
            if any(v in v2 for v, _ in m1[1]):
                m1 = _rename_binders(m1, v2)
    return (m1[0] * m2[0], m1[1] + m2[1], m1[2] + m2[2])


def attach(m, t):
    """multiply the open monomial m by t, where t lives in the scope of m's binders"""
    if t[1]:
        t = _rename_binders(t, mono_vars(m))
    return (m[0] * t[0], m[1] + t[1], m[2] + t[2])


MAXTERMS = 4000


def pmul(*ps):
    acc = [(Fraction(1), (), ())]
    for p in ps:
        if len(acc) * len(p.terms) > MAXTERMS:
            raise Budget("polynomial too large")
        acc = [raw_mul_mono(m, n) for m in acc for n in p.terms]
    r = normalize(P(tuple(acc)))
    if len(ps) > 1 and all(p is ps[0] for p in ps) and (len(ps[0].terms) > 1 or (ps[0].terms and ps[0].terms[0][1])):
        note_power(r, ps[0], len(ps))
    return r


def note_power(r, p, k):
    """remember that r is the expanded power p ** k, so that a reciprocal or root of r is one of p"""
    if r.normal and r.terms and p.normal:
        CTX.powtab.setdefault(r.id, (r, p, k))


def psum(p, v, dim):
    """Sum_{v<dim} p"""
    dim = IX.of(dim)
    if not dim.is_const() and any(w.startswith("_k") for w in dim.fv) and int_query(("ge0", -dim)):
        return pconst(0)
    out = []
    for c, b, f in p.terms:
        m = (c, b, f)
        if any(w == v for w, _ in b):
            m = _rename_binders(m, {v})
        out.append((m[0], m[1] + ((v, dim),), m[2]))
    return normalize(P(tuple(out)))


def is_real(p):
    return p is pconj(p)


def pconj(p):
    if p._conj is not None and p.normal:
        return p._conj
    out = []
    for c, b, f in p.terms:
        g = []
        k = c
        for a, e in f:
            if isinstance(e, P) or a.real:
                g.append((a, e))
                continue
            x = atom_conj(a)
            if isinstance(x, tuple):
                k = k * (x[0] ** e)
                x = x[1]
            g.append((x, e))
        out.append((k, b, tuple(g)))
    r = normalize(P(tuple(out)))
    if p.normal:
        p._conj = r
        r._conj = p
    return r


def atom_conj(a):
    if a.real:
        return a
    if a.kind == "unit":
        return (Fraction(-1), a)
    if a.kind == "el":
        return el(a.name, a.idx, not a.cj)
    if a.kind == "fn":
        if a.name == "base":
            r = mk_base_atom(pconj(a.args[0]))
            return r
        return _intern_atom(a.kind, a.name, a.idx, a.args, a.lam, not a.cj, a.real, a.sign)
    if a.kind == "lam":
        h = LAM_CONJ.get(a.name)
        if h is not None:
            return h(a)
        return _intern_atom(a.kind, a.name, a.idx, a.args, a.lam, not a.cj, a.real, a.sign)
    raise Unsupported("conj of " + a.kind)


LAM_CONJ = {}


def base_of(a):
    """the base P of a 'base' atom: content * base"""
    return a.args[0]


# sign ----------------------------------------------------------------------
def factor_sign(a, e):
    if isinstance(e, P):
        return "pos" if a.sign == "pos" else ("nonneg" if a.sign == "nonneg" else None)
    if a.sign == "pos":
        return "pos"
    if a.sign == "nonneg":
        return "nonneg"
    if a.real and e.denominator == 1 and e.numerator % 2 == 0:
        return "nonneg"
    return None


def mono_sign(m):
    c, b, f = m
    if c < 0:
        return None
    s = "pos"
    # pair complex factors with conjugates
    left = {}
    for a, e in f:
        t = factor_sign(a, e)
        if t is None:
            left[a] = left.get(a, 0) + e if not isinstance(e, P) else None
            if left[a] is None:
                return None
        elif t == "nonneg":
            s = "nonneg"
    ok = True
    done = set()
    for a, e in left.items():
        if a in done:
            continue
        if a.real:
            ok = False
            break
        x = atom_conj(a)
        if isinstance(x, tuple):
            ok = False
            break
        if left.get(x) == e and x is not a:
            done.add(a)
            done.add(x)
            s = "nonneg"
        else:
            ok = False
            break
    if not ok:
        # sum over binders of f(b) conj f(b') patterns handled by hooks
        for h in CTX.nonneg_hook:
            r = h(m)
            if r:
                return r
        r = gram_sign(m)
        if r is None and 3 <= len(b) <= 7:
            key = ("outer", m, len(CTX.facts), len(CTX.datafacts))
            if key not in CTX.cache:
                CTX.cache[key] = outer_sign(m)
            r = CTX.cache[key]
        return r
    return s


def outer_sign(m):
    """nonnegative for every value of an outer index (candidates occurring in most factors first)"""
    c, b, f = m
    cnt = {v: sum(1 for a, _ in f if v in a.fv) for v, _ in b}
    names = set().union(*(a.fv for a, _ in f))
    o = next("_ot%d" % k for k in range(99) if "_ot%d" % k not in names)
    for k in sorted(range(len(b)), key=lambda k: -cnt[b[k][0]]):
        v = b[k][0]
        if cnt[v] < 2 or any(v in d.fv for _, d in b):
            continue
        q = [mono_sign(t) for t in mono_subst((c, b[:k] + b[k + 1 :], f), {v: IX.var(o)})]
        if all(q):
            return "nonneg"
    return None


def gram_sign(m):
    """Sum_{a,b,..} f(a) conj(f(b)) g with f(a) only depending on a: |Sum f|^2"""
    c, b, f = m
    if len(b) < 2 or len(b) % 2:
        return None
    binders = dict(b)
    # connected components after removing factors without binders
    fs = [(a, e) for a, e in f if a.fv & binders.keys()]
    rest = [(a, e) for a, e in f if not (a.fv & binders.keys())]
    rs = mono_sign((c, (), tuple(rest)))
    if rs is None:
        return None
    comps = []
    for a, e in fs:
        vs = set(a.fv & binders.keys())
        grp = [(a, e)]
        new = []
        for cv, cf in comps:
            if cv & vs:
                vs |= cv
                grp = cf + grp
            else:
                new.append((cv, cf))
        new.append((vs, grp))
        comps = new
    used = [False] * len(comps)
    norms = []
    for vs, grp in comps:
        norms.append(normalize(P(((Fraction(1), tuple((v, binders[v]) for v in sorted(vs)), tuple(grp)),))))
    for i in range(len(comps)):
        if used[i]:
            continue
        if len(norms[i].terms) == 1 and mono_sign_simple(norms[i]):
            used[i] = True
            continue
        cj = pconj(norms[i])
        for j in range(i + 1, len(comps)):
            if not used[j] and norms[j] is cj:
                used[i] = used[j] = True
                break
        if not used[i]:
            return None
    return "nonneg"


def mono_sign_simple(p):
    c, b, f = p.terms[0]
    return all(factor_sign(a, e) for a, e in f) and c > 0


def psign(p):
    """'pos', 'nonneg' or None (unknown)"""
    if not p.terms:
        return "nonneg"
    s = None
    for m in p.terms:
        t = mono_sign(m)
        if t is None:
            return _psign_cleared(p)
        if t == "pos":
            s = "pos"
    return s or "nonneg"


def _psign_cleared(p, depth=[0]):
    """multiply by positive denominators free of summation indices and look again"""
    if len(p.terms) < 2 or len(p.terms) > 40 or depth[0] > 1:
        return None
    den = {}
    for c, b, f in p.terms:
        bv = {v for v, _ in b}
        for a, e in f:
            if a.kind == "fn" and a.name == "base" and not isinstance(e, P) and e < 0 and e.denominator == 1 and a.sign == "pos" and not (a.fv & bv):
                den[a] = max(den.get(a, 0), -e)
    if not den:
        return None
    key = ("psign", p.id, len(CTX.facts), len(CTX.datafacts))
    if key in CTX.cache:
        return CTX.cache[key]
    q = p
    depth[0] += 1
    try:
        ts = []
        for c, b, f in p.terms:
            have = dict(f)
            rest = pconst(1)
            for a, e in den.items():
                x = have.pop(a, Fraction(0)) + e
                if x:
                    rest = pmul(rest, ppow(a.args[0], x))
            one = normalize(P(((c, b, tuple((a, x) for a, x in f if a in have)),)))
            ts.append(pmul(one, rest))
        q = pconst(0)
        for t in ts:
            q = padd(q, t)
        r = psign(q) if q is not p else None
    finally:
        depth[0] -= 1
    CTX.cache[key] = r
    return r


# --------------------------------------------------------------------------
# normalisation
# --------------------------------------------------------------------------
def exp_add(e1, e2):
    if isinstance(e1, P) or isinstance(e2, P):
        r = padd(pconst(e1), pconst(e2))
        return exp_simpl(r)
    return e1 + e2


def exp_simpl(r):
    if isinstance(r, P):
        if not r.terms:
            return Fraction(0)
        if len(r.terms) == 1 and not r.terms[0][2] and not r.terms[0][1]:
            return r.terms[0][0]
    return r


def exp_mul(e1, e2):
    if isinstance(e1, P) or isinstance(e2, P):
        return exp_simpl(pmul(pconst(e1), pconst(e2)))
    return e1 * e2


def normalize(p):
    if p.normal:
        return p
    STATS["norm"] += 1
    work = list(p.terms)
    acc = {}
    guard = 0
    while work:
        guard += 1
        if guard > 20000:
            raise Budget("normalisation budget")
        m = work.pop()
        r = step_mono(m)
        if r is None:
            continue
        if isinstance(r, list):
            work.extend(r)
            continue
        c, b, f = r
        k = (b, tuple((a.id, e.id if isinstance(e, P) else ("q", e)) for a, e in f))
        if k in acc:
            acc[k] = (acc[k][0] + c, b, f)
        else:
            acc[k] = (c, b, f)
    terms = [t for k, t in sorted(acc.items(), key=lambda kv: _skey(kv[0])) if t[0] != 0]
    return _intern(tuple(terms))


def _skey(k):
    b, f = k
    return (
        len(f),
        [(a, 0, e[1], 0) if isinstance(e, tuple) else (a, 1, 0, e) for a, e in f],
        [(v, str(d)) for v, d in b],
    )


def step_mono(m):
    """returns None (zero), list of monomials (rewritten), or canonical monomial"""
    c, b, f = m
    if c == 0:
        return None
    # merge factors
    d = {}
    order = []
    for a, e in f:
        if a in d:
            d[a] = exp_add(d[a], e)
        else:
            d[a] = e
            order.append(a)
    fs = []
    for a in order:
        e = d[a]
        if not isinstance(e, P) and e == 0:
            continue
        fs.append((a, e))
    # local simplifications
    i = 0
    for i, (a, e) in enumerate(fs):
        k = a.kind
        if k == "iv":
            if e != 1:
                fs2 = fs[:i] + [(a, Fraction(1))] + fs[i + 1 :]
                return [(c, b, tuple(fs2))]
            r = simp_iv(c, b, fs, i)
            if r is not False:
                return r
        elif k == "ivd":
            if e != 1:
                return [(c, b, tuple(fs[:i] + [(a, Fraction(1))] + fs[i + 1 :]))]
            v = CTX.datafacts.get((a.name, a.args[0].id))
            if v is not None:
                if v:
                    return [(c, b, tuple(fs[:i] + fs[i + 1 :]))]
                return None
        elif k == "num" and not isinstance(e, P) and not (0 < e < 1):
            n = e.numerator // e.denominator
            rest = fs[:i] + ([(a, e - n)] if e != n else []) + fs[i + 1 :]
            return [(c * Fraction(int(a.name[1:])) ** n, b, tuple(rest))]
        elif k == "unit":
            if not isinstance(e, P) and e.denominator == 1 and e not in (0, 1):
                n = int(e) % 4
                rest = fs[:i] + fs[i + 1 :]
                if n == 0:
                    return [(c, b, tuple(rest))]
                if n == 1:
                    return [(c, b, tuple(rest + [(a, Fraction(1))]))]
                if n == 2:
                    return [(-c, b, tuple(rest))]
                return [(-c, b, tuple(rest + [(a, Fraction(1))]))]
        elif k == "fn":
            if a.name == "base":
                r = simp_base(c, b, fs, i)
                if r is not False:
                    return r
            elif a.name == "abs":
                r = simp_abs(c, b, fs, i)
                if r is not False:
                    return r
            elif a.name == "exp":
                r = simp_exp(c, b, fs, i)
                if r is not False:
                    return r
            elif a.name in ("cbrt", "ccbrt") and not isinstance(e, P) and e.denominator == 1 and abs(e) >= 3:
                # cube root: cbrt(p)^3 = p
                k = 1 if e > 0 else -1
                q = ppow(a.args[0] if not a.cj else pconj(a.args[0]), k)
                rest = (c, b, tuple(fs[:i] + ([(a, e - 3 * k)] if e != 3 * k else []) + fs[i + 1 :]))
                return [attach(rest, t) for t in q.terms]
    # |z|^e merging with z * conj(z)
    r = simp_abs_merge(c, b, fs)
    if r is not None:
        return r
    # binder not occurring
    if b:
        used = set()
        for a, _ in fs:
            used |= a.fv
        for _, dd in b:
            used |= dd.fv
        for k, (v, dim) in enumerate(b):
            if v not in used:
                rest = b[:k] + b[k + 1 :]
                dp = pint(dim)
                return [(c * cc, rest, tuple(fs) + ff) for cc, bb, ff in dp.terms]
        for k, (v, dim) in enumerate(b):
            if dim.is_const() and dim.value() <= 1:
                if dim.value() <= 0:
                    return None
                return mono_subst((c, b[:k] + b[k + 1 :], tuple(fs)), {v: ZERO_IX})
            if dim.is_const() and dim.value() <= 8:
                out = []
                for val in range(dim.value()):
                    out.extend(mono_subst((c, b[:k] + b[k + 1 :], tuple(fs)), {v: IX.const(val)}))
                return out
        r = fold_base(c, b, fs)
        if r is not None:
            return r
    # rewrite rules
    r = apply_rules(c, b, fs)
    if r is not None:
        return r
    return canon_mono(c, b, fs)


def fold_base(c, b, fs):
    """(sum_k x_k) * (sum_k x_k)^e  ->  (sum_k x_k)^(e+1)  for negative e"""
    dims = dict(b)
    for i, (a, e) in enumerate(fs):
        if a.kind != "fn" or a.name != "base" or isinstance(e, P) or e >= 0 or len(a.args[0].terms) != 1:
            continue
        qc, qb, qf = a.args[0].terms[0]
        if not qb or len(qb) > 3 or len(qb) > len(b):
            continue
        rest = fs[:i] + fs[i + 1 :]
        need = {}
        for x, _ in qf:
            need[x.name] = need.get(x.name, 0) + 1
        have = {}
        for x, _ in rest:
            have[x.name] = have.get(x.name, 0) + 1
        if any(have.get(k, 0) < n for k, n in need.items()):
            continue
        free = [v for v, _ in b if v not in a.fv]
        for ws in itertools.permutations(free, len(qb)):
            if any(dims[w] is not d for w, (_, d) in zip(ws, qb)):
                continue
            r = mono_subst((Fraction(1), (), qf), {v: IX.var(w) for (v, _), w in zip(qb, ws)})
            if len(r) != 1 or r[0][0] != 1 or r[0][1]:
                continue
            want = {}
            for x, y in r[0][2]:
                want[x] = y
            wset = set(ws)
            got = {x: y for x, y in rest if (x.fv & wset) or x in want}
            if len(got) != len(want) or any(x not in want or (want[x] is not y and want[x] != y) for x, y in got.items()):
                continue
            nb = tuple((v, d) for v, d in b if v not in wset)
            if any(d.fv & wset for _, d in nb):
                continue
            nf = tuple((x, y) for x, y in rest if x not in got) + (((a, e + 1),) if e != -1 else ())
            return [(c / qc, nb, nf)]
    return None


def mono_subst(m, s):
    """substitute index variables in an (open) monomial whose binders are in scope of s"""
    c, b, f = m
    b = tuple((v, d.subst(s)) for v, d in b)
    acc = [(c, b, ())]
    for a, e in f:
        if not (a.fv & s.keys()):
            acc = [(cc, bb, ff + ((a, e),)) for cc, bb, ff in acc]
            continue
        r = atom_subst(a, s)
        if isinstance(r, Atom):
            acc = [(cc, bb, ff + ((r, e),)) for cc, bb, ff in acc]
        else:
            r = ppow(r, e)
            acc = [attach(x, y) for x in acc for y in r.terms]
    return acc


def subst(p, s):
    """capture-avoiding substitution of index variables var->IX"""
    s = {k: v for k, v in s.items() if k in p.fv}
    if not s:
        return p
    key = (p.id, tuple(sorted(s.items(), key=lambda kv: kv[0]))) if p.normal else None
    if key is not None and key in _subst_cache:
        return _subst_cache[key]
    out = []
    clash = set(s)
    for x in s.values():
        clash |= x.fv
    for m in p.terms:
        if m[1]:
            m = _rename_binders(m, clash)
        out.extend(mono_subst(m, s))
    r = normalize(P(tuple(out)))
    if key is not None:
        hit = CTX.powtab.get(p.id)
        if hit is not None and hit[0] is p:
            note_power(r, subst(hit[1], s), hit[2])
        _subst_cache[key] = r
    return r


def atom_subst(a, s):
    """returns Atom or P"""
    if not (a.fv & s.keys()):
        return a
    k = a.kind
    idx = tuple(i.subst(s) for i in a.idx)
    if k == "el":
        return el(a.name, idx, a.cj)
    if k == "int":
        return pint(idx[0])
    if k == "iv":
        return mk_iv(a.name, idx[0])
    if k == "ivd":
        return mk_ivd(a.name, subst(a.args[0], s))
    if k == "fn":
        args = [subst(p, s) for p in a.args]
        r = mk_fn(a.name, args)
        return pconj(r) if a.cj else r
    if k == "lam":
        lv = set(v for v, _ in a.lam)
        if not any((p.fv - lv) & s.keys() for p in a.args) and not any(d.fv & s.keys() for _, d in a.lam):
            # only the indices change: the abstracted body is in normal form already
            return _intern_atom("lam", a.name, idx, a.args, a.lam, a.cj, a.real, a.sign)
        s2 = dict(s)
        lam = []
        for v, d in a.lam:
            nv = fresh()
            s2[v] = IX.var(nv)
            lam.append((nv, d.subst(s)))
        args = [subst(p, s2) for p in a.args]
        r = mk_lam(a.name, lam, args, idx)
        return pconj(r) if a.cj else r
    raise Unsupported("subst " + k)


# Iverson -------------------------------------------------------------------
def mk_iv(kind, ix):
    """Iverson bracket [ix == 0] / [ix >= 0] as P"""
    if ix.is_const():
        v = ix.value()
        return pconst(1 if (v == 0 if kind == "eq0" else v >= 0) else 0)
    lead = [c for m, c in ix.t if m][0]
    if kind == "eq0":
        # canonical sign
        if lead < 0:
            ix = -ix
    elif lead < 0:
        return psub(pconst(1), patom(iv_atom("ge0", -ix - 1)))
    return patom(iv_atom(kind, ix))


def delta(i, j):
    return mk_iv("eq0", IX.of(i) - IX.of(j))


def iv_lt(i, j):
    return mk_iv("ge0", IX.of(j) - IX.of(i) - 1)


def binder_facts(b):
    out = []
    for v, d in b:
        out.append(("ge0", IX.var(v)))
        out.append(("ge0", d - IX.var(v) - 1))
    return tuple(out)


def simp_iv(c, b, fs, i):
    a, _ = fs[i]
    ix = a.idx[0]
    rest = fs[:i] + fs[i + 1 :]
    if ix.is_const():
        v = ix.value()
        ok = (v == 0) if a.name == "eq0" else (v >= 0)
        return [(c, b, tuple(rest))] if ok else None
    bv = dict(b)
    if a.name == "eq0":
        for m, k in ix.t:
            if len(m) == 1 and m[0] in bv and abs(k) == 1:
                v = m[0]
                # v occurs linearly only here?
                others = IX({mm: cc for mm, cc in ix.t if mm != m})
                if v in others.fv:
                    continue
                expr = -others if k == 1 else others
                dim = bv[v]
                if v in dim.fv:
                    continue
                nb = tuple((w, d) for w, d in b if w != v)
                extra = binder_facts(nb)
                guards = []
                ev = expr.as_var()
                edim = None
                if isinstance(ev, str):
                    edim = dict(nb).get(ev, CTX.vdim.get(ev))
                if not (edim is not None and edim is dim):
                    for g in (expr, dim - expr - 1):
                        if not int_query(("ge0", g), extra):
                            guards.append((iv_atom("ge0", g), Fraction(1)))
                return mono_subst((c, nb, tuple(rest) + tuple(guards)), {v: expr})
    extra = binder_facts(b) if (ix.fv & bv.keys()) else ()
    # other Iverson factors in the same monomial can be assumed
    sib = []
    for a2, _ in rest:
        if a2.kind == "iv" and a2 is not a:
            sib.append((a2.name, a2.idx[0]))
    extra = tuple(extra) + tuple(sib)
    if a.name == "eq0":
        if int_query(("ne0", ix), extra):
            return None
        if int_query(("eq0", ix), extra):
            return [(c, b, tuple(rest))]
    else:
        if int_query(("ge0", ix), extra):
            return [(c, b, tuple(rest))]
        if int_query(("ge0", -ix - 1), extra):
            return None
    return False


def mk_ivd(kind, p):
    """data condition: kind in gt0, ge0, eq0 on a real P"""
    if not p.terms:
        return pconst(0 if kind == "gt0" else 1)
    if len(p.terms) == 1 and not p.terms[0][1] and not p.terms[0][2]:
        c = p.terms[0][0]
        return pconst(int({"gt0": c > 0, "ge0": c >= 0, "eq0": c == 0}[kind]))
    # primitive scaling
    c0 = rat_content(p.terms)
    if kind == "eq0" and lead_sign(p.terms) < 0:
        c0 = -c0
    p = pscale(p, 1 / c0)
    s = psign(p)
    n = psign(pneg(p))
    if s == "pos":
        return pconst(0 if kind == "eq0" else 1)
    if n == "pos":
        return pconst(0)
    if s == "nonneg" and kind == "ge0":
        return pconst(1)
    if n == "nonneg" and kind == "gt0":
        return pconst(0)
    if kind == "gt0":
        # [p>0] = 1 - [-p>=0]
        q = pneg(p)
        v = _intern_atom("ivd", "ge0", (), (q,), (), False, True, "nonneg")
        return psub(pconst(1), patom(v))
    if kind == "eq0":
        if not is_real(p):
            q = pconj(p)
            if q.id < p.id:
                p = q
        CTX.by_id[p.id] = p
    return patom(_intern_atom("ivd", kind, (), (p,), (), False, True, "nonneg"))


# base / powers -------------------------------------------------------------
def mk_base_atom(p):
    s = psign(p)
    return _intern_atom("fn", "base", (), (p,), (), False, is_real(p), s)


def rat_content(terms):
    """positive rational content, independent of the order of the terms"""
    g, l = 0, 1
    for c, _, _ in terms:
        g = math.gcd(g, abs(c.numerator))
        l = l * c.denominator // math.gcd(l, c.denominator)
    return Fraction(g, l)


def lead_sign(terms):
    """a sign that does not depend on the order of the terms unless the coefficients cancel"""
    t = sum(c for c, _, _ in terms)
    if t:
        return 1 if t > 0 else -1
    t = sum(c * (len(f) + 7 * len(b) + 3 * sum(1 for a, _ in f if a.cj)) for c, b, f in terms)
    if t:
        return 1 if t > 0 else -1
    return 1 if terms[0][0] > 0 else -1


def primitive(p):
    """p = content * q; content is a monomial (c, (), factors); q primitive multi-term or
    single-term-with-binder P"""
    terms = p.terms
    common = None
    for c, b, f in terms:
        bv = set(v for v, _ in b)
        fd = {a: e for a, e in f if not (a.fv & bv)}
        if common is None:
            common = dict(fd)
        else:
            for a in list(common):
                if a in fd and (isinstance(fd[a], P) or isinstance(common[a], P)):
                    if fd[a] is not common[a]:
                        del common[a]
                elif a in fd and (fd[a] > 0) == (common[a] > 0):
                    e1, e2 = common[a], fd[a]
                    common[a] = min(e1, e2) if e1 > 0 else max(e1, e2)
                else:
                    del common[a]
    # denominators appearing only in some terms stay
    scale = rat_content(terms)
    if psign(p) is None and (lead_sign(terms) < 0 or psign(pneg(p)) is not None):
        scale = -scale
    content = (scale, (), tuple(common.items()))
    inv = (1 / scale, (), tuple((a, exp_mul(e, Fraction(-1))) for a, e in common.items()))
    q = normalize(P(tuple(raw_mul_mono(m, inv) for m in terms)))
    return content, q


def ppow(p, e):
    """p ** e"""
    e = exp_simpl(e)
    if not isinstance(e, P):
        e = Fraction(e)
        if e == 0:
            return pconst(1)
        if e == 1:
            return p
        if e.denominator == 1 and 1 < e <= 8 and len(p.terms) ** int(e) <= 400:
            return pmul(*([p] * int(e)))
    if not p.terms:
        if isinstance(e, P) or e > 0:
            return pconst(0)
        raise ZeroDivisionError
    integral = not isinstance(e, P) and e.denominator == 1
    if len(p.terms) == 1:
        c, b, f = p.terms[0]
        if not b:
            # single monomial
            if integral:
                return normalize(P(((c ** int(e), (), tuple((a, exp_mul(x, e)) for a, x in f)),)))
            # non-integral: need nonnegativity of pieces
            pos, rest = [], []
            for a, x in f:
                if a.sign in ("pos", "nonneg"):
                    pos.append((a, exp_mul(x, e)))
                else:
                    rest.append((a, x))
            cc = c
            coef = Fraction(1)
            numfac = None
            if c > 0:
                r = rat_pow(c, e)
                if r is not None:
                    coef = r
                else:
                    numfac = num_atom_pow(c, e)
                cc = Fraction(1)
            # pair z conj z
            rest2 = []
            dd = dict(rest)
            for a, x in rest:
                if a not in dd:
                    continue
                if not a.real:
                    ac = atom_conj(a)
                    if not isinstance(ac, tuple) and dd.get(ac) == x and not isinstance(x, P):
                        ab = mk_abs(patom(a))
                        # |a|^(2 x e)
                        ab_a = single_atom(ab)
                        if ab_a is not None:
                            pos.append((ab_a, exp_mul(exp_mul(x, 2), e)))
                            dd.pop(a)
                            dd.pop(ac)
                            continue
                if a.real and not isinstance(x, P) and x.denominator == 1 and x.numerator % 2 == 0:
                    ab_a = single_atom(mk_abs(patom(a)))
                    if ab_a is not None:
                        pos.append((ab_a, exp_mul(x, e)))
                        dd.pop(a)
                        continue
            rest2 = list(dd.items())
            if not rest2 and cc > 0:
                return normalize(P(((coef, (), tuple(pos) + tuple(numfac or ())),)))
            base = normalize(P(((cc, (), tuple(rest2)),)))
            at = mk_base_atom(base)
            return normalize(P(((coef, (), tuple(pos) + tuple(numfac or ()) + ((at, e),)),)))
    # multi-term or with binders
    hit = CTX.powtab.get(p.id) if p.normal else None
    if hit is not None and hit[0] is p:
        _, p0, k = hit
        if integral or psign(p0) is not None:
            return ppow(p0, exp_mul(e, Fraction(k)))
        if k % 2 == 0 and is_real(p0):
            return ppow(mk_abs(p0), exp_mul(e, Fraction(k)))
    content, q = primitive(p)
    if len(q.terms) == 1 and not q.terms[0][1]:
        # became a plain monomial
        full = P((raw_mul_mono(content, q.terms[0]),))
        full = normalize(full)
        if len(full.terms) == 1 and not full.terms[0][1]:
            return ppow(full, e)
    cont = normalize(P((content,)))
    if not integral:
        s = psign(cont)
        if s is None and content[2]:
            at = mk_base_atom(p)
            return patom(at, e)
    ce = ppow(cont, e)
    # q itself a perfect base atom power?
    at = mk_base_atom(q)
    qe = P(((Fraction(1), (), ((at, e),)),))
    return normalize(P(tuple(raw_mul_mono(m, qe.terms[0]) for m in ce.terms)))


def num_atom_pow(c, e):
    if isinstance(e, P):
        out = []
        for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in _factorint(n):
                out.append((num_base(pr), exp_mul(e, Fraction(sgn * k))))
        return tuple(out)
    out = []
    for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
        for pr, k in _factorint(n):
            out.append((num_base(pr), e * sgn * k))
    return tuple(out)


def num_base(n):
    """atom for the prime n as a number (used with fractional exponents)"""
    return _intern_atom("num", "n%d" % n, (), (), (), False, True, "pos")


def _factorint(n):
    n = int(n)
    if n > 10**14:
        return [(n, 1)] if n > 1 else []
    out = []
    p = 2
    while p * p <= n:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out.append((p, k))
        p += 1
        if p > 10**5:
            break
    if n > 1:
        out.append((n, 1))
    return out


def rat_pow(c, e):
    """exact rational power or None"""
    if isinstance(e, P):
        return Fraction(1) if c == 1 else None
    if e.denominator == 1:
        return c ** int(e)
    if c == 1:
        return Fraction(1)

    def root(n, k):
        r = round(n ** (1.0 / k))
        for x in (r - 1, r, r + 1):
            if x >= 0 and x**k == n:
                return x
        return None

    try:
        a, b = root(c.numerator, e.denominator), root(c.denominator, e.denominator)
    except OverflowError:
        return None
    if a is None or b is None:
        return None
    return Fraction(a, b) ** int(e.numerator)


def single_atom(p):
    if len(p.terms) == 1:
        c, b, f = p.terms[0]
        if c == 1 and not b and len(f) == 1 and f[0][1] == 1:
            return f[0][0]
    return None


def simp_base(c, b, fs, i):
    a, e = fs[i]
    rest = fs[:i] + fs[i + 1 :]
    q = a.args[0]
    if isinstance(e, P):
        return False
    if e.denominator == 1 and e >= 1:
        m = (c, b, tuple(rest))
        r = ppow(q, e)
        if len(r.terms) == 1 and len(r.terms[0][2]) == 1 and r.terms[0][2][0] == (a, e):
            return False
        return [attach(m, t) for t in r.terms]
    if e > 1 and len(q.terms) <= 6:
        n = e.numerator // e.denominator
        m = (c, b, tuple(rest + [(a, e - n)]))
        r = ppow(q, Fraction(n))
        return [attach(m, t) for t in r.terms]
    if len(q.terms) == 1 and not q.terms[0][1] and (a, e) not in _simp_guard:
        _simp_guard.add((a, e))
        try:
            r = ppow(q, e)
        finally:
            _simp_guard.discard((a, e))
        if not (len(r.terms) == 1 and r.terms[0][2] == ((a, e),)):
            m = (c, b, tuple(rest))
            return [attach(m, t) for t in r.terms]
    return False


_simp_guard = set()


def mk_abs(p):
    if not p.terms:
        return p
    if psign(p) is not None:
        return p
    if psign(pneg(p)) is not None:
        return pneg(p)
    if len(p.terms) == 1 and not p.terms[0][1]:
        c, b, f = p.terms[0]
        out = [(abs(c), (), ())]
        r = pconst(abs(c))
        for a, e in f:
            if a.sign in ("pos", "nonneg"):
                r = pmul(r, patom(a, e))
            else:
                if isinstance(e, P):
                    raise Unsupported("abs of symbolic power")
                if a.kind == "unit":
                    continue
                base = atom_conj(a) if a.cj else a
                if isinstance(base, tuple):
                    base = base[1]
                if a.kind == "el" and CTX.decl[a.name].get("herm"):
                    # |A[i,j]| = |A[j,i]|
                    j1, j2 = a.idx[-2], a.idx[-1]
                    if str(j1) > str(j2):
                        base = el(a.name, a.idx[:-2] + (j2, j1))
                if a.kind == "fn" and a.name == "base" and e == 1:
                    r = pmul(r, mk_abs(a.args[0]))
                    continue
                at = _intern_atom("fn", "abs", (), (patom(base),), (), False, True, "nonneg")
                r = pmul(r, patom(at, e))
        return r
    content, q = primitive(p)
    qa = _canon_abs_arg(q)
    at = _intern_atom("fn", "abs", (), (qa,), (), False, True, "nonneg")
    cont = normalize(P((content,)))
    return pmul(mk_abs(cont), patom(at))


def _canon_abs_arg(q):
    # |q| = |conj q| = |-q|
    cands = [q, pneg(q), pconj(q), pneg(pconj(q))]
    return min(cands, key=lambda x: x.id)


def simp_abs(c, b, fs, i):
    a, e = fs[i]
    rest = fs[:i] + fs[i + 1 :]
    q = a.args[0]
    if isinstance(e, P):
        return False
    if e.denominator == 1 and e.numerator % 2 == 0:
        qq = pmul(q, pconj(q))
        r = ppow(qq, e / 2)
        m = (c, b, tuple(rest))
        return [attach(m, t) for t in r.terms]
    return False


def simp_abs_merge(c, b, fs):
    """|z|^e (e not an even integer) times z conj(z)  ->  |z|^(e+2)"""
    d = dict(fs)
    for a, e in fs:
        if a.kind == "fn" and a.name == "abs":
            q = single_atom(a.args[0])
            if q is None:
                # base form: |q|^e * base(q conj q)^k
                qq = pmul(a.args[0], pconj(a.args[0]))
                content, prim = primitive(qq)
                if not content[2]:
                    ba = mk_base_atom(prim)
                    if ba in d and not isinstance(d[ba], P):
                        k = d[ba]
                        nf = [(x, y) for x, y in fs if x is not ba and x is not a]
                        nf.append((a, exp_add(e, 2 * k)))
                        cc = rat_pow(content[0], -k)
                        if cc is not None:
                            return [(c * cc, b, tuple(nf))]
                continue
            if q.real:
                k = d.get(q)
                if k is not None and not isinstance(k, P) and k.denominator == 1:
                    n = int(k) - (int(k) % 2)
                    if n != 0:
                        nf = [(x, y) for x, y in fs if x is not q and x is not a]
                        nf.append((a, exp_add(e, n)))
                        if k - n != 0:
                            nf.append((q, k - n))
                        return [(c, b, tuple(nf))]
                continue
            qc = atom_conj(q)
            if isinstance(qc, tuple):
                continue
            if q in d and qc in d:
                e1, e2 = d[q], d[qc]
                if isinstance(e1, P) or isinstance(e2, P):
                    continue
                if (e1 > 0) == (e2 > 0):
                    k = min(e1, e2) if e1 > 0 else max(e1, e2)
                    nf = [(x, y) for x, y in fs if x not in (q, qc, a)]
                    nf.append((a, exp_add(e, 2 * k)))
                    if e1 != k:
                        nf.append((q, e1 - k))
                    if e2 != k:
                        nf.append((qc, e2 - k))
                    return [(c, b, tuple(nf))]
    return None


def simp_exp(c, b, fs, i):
    """merge exp factors: exp(p)^e exp(q)^f -> exp(e p + f q)"""
    bv = set(v for v, _ in b)
    exps = [(a, e) for a, e in fs if a.kind == "fn" and a.name == "exp" and not a.real]
    if not exps:
        return False
    if len(exps) == 1 and exps[0][1] == 1:
        return False
    tot = pconst(0)
    for a, e in exps:
        tot = padd(tot, pmul(a.args[0], pconst(e) if not isinstance(e, P) else e))
    rest = [(a, e) for a, e in fs if not (a.kind == "fn" and a.name == "exp" and not a.real)]
    r = mk_fn("exp", [tot])
    return [attach((c, b, tuple(rest)), t) for t in r.terms]


# functions -----------------------------------------------------------------
FN_SIGN = {"exp": "pos"}


def mk_fn(name, args):
    """scalar function application as P"""
    if name == "base":
        return ppow_base(args[0])
    if name == "abs":
        return mk_abs(args[0])
    if name == "log":
        return mk_log(args[0])
    if name == "exp":
        if not args[0].terms:
            return pconst(1)
        r = exp_angle(args[0])
        if r is not None:
            return r
        # exp(sum c_i m_i + z) = prod exp(m_i)^c_i exp(z) for real terms m_i
        out, cpx = [], []
        for c, b, f in args[0].terms:
            m = normalize(P(((Fraction(1), b, f),)))
            if not is_real(m):
                cpx.append((c, b, f))
                continue
            if not b and len(f) == 1 and f[0][1] == 1 and f[0][0].kind == "fn" and f[0][0].name == "log" and psign(f[0][0].args[0]) is not None:
                out.append(ppow(f[0][0].args[0], c))
            else:
                out.append(patom(_intern_atom("fn", "exp", (), (m,), (), False, True, "pos"), c))
        if cpx:
            z = normalize(P(tuple(cpx)))
            out.append(patom(_intern_atom("fn", "exp", (), (z,), (), False, is_real(z), "pos" if is_real(z) else None)))
        return pmul(*out)
    if name in ("max", "min"):
        return mk_minmax(name, args[0], args[1])
    if name == "sign":
        return mk_sign(args[0])
    h = FN_HOOK.get(name)
    if h is not None:
        r = h(args)
        if r is not None:
            return r
    d = CTX.decl.get("fn:" + name, {})
    real = d.get("real", True)
    if callable(real):
        real = real(args)
    return patom(_intern_atom("fn", name, (), tuple(args), (), False, real, d.get("sign")))


FN_HOOK = {}


def exp_angle(p):
    """exp(q + i k angle(z)) = exp(q) (z/|z|)^k for integer k"""
    for j, (c, b, f) in enumerate(p.terms):
        if b or c.denominator != 1 or len(f) != 2:
            continue
        u = [a for a, e in f if a.kind == "unit" and e == 1]
        g = [a for a, e in f if a.kind == "fn" and a.name == "angle" and e == 1]
        if u and g:
            z = g[0].args[0]
            rest = P(tuple(t for q, t in enumerate(p.terms) if q != j))
            return pmul(mk_fn("exp", [normalize(rest)]), ppow(z, c), ppow(mk_abs(z), -c))
    return None



def ppow_base(p):
    return p


def mk_sign(p):
    s = psign(p)
    if s == "pos":
        return pconst(1)
    if psign(pneg(p)) == "pos":
        return pconst(-1)
    if p.terms:
        content, q = primitive(p)
        c = content[0]
        keep = tuple((a, e) for a, e in content[2] if a.sign != "pos")
        if len(keep) != len(content[2]) or abs(c) != 1:
            m0 = (Fraction(1 if c > 0 else -1), (), keep)
            p = normalize(P(tuple(raw_mul_mono(m0, m) for m in q.terms)))
        if p.terms[0][0] < 0:
            return pneg(mk_sign(pneg(p)))
    return patom(_intern_atom("fn", "sign", (), (p,), (), False, True, None))


def mk_minmax(name, a, b):
    if a is b:
        return a
    d = psub(a, b)
    s = psign(d)
    if s is not None:
        return a if name == "max" else b
    s = psign(pneg(d))
    if s is not None:
        return b if name == "max" else a
    fa = CTX.datafacts.get(("ge", a.id, b.id))
    if fa is True:
        return a if name == "max" else b
    fb = CTX.datafacts.get(("ge", b.id, a.id))
    if fb is True:
        return b if name == "max" else a
    args = tuple(sorted((a, b), key=lambda p: p.id))
    sa, sb = psign(a), psign(b)
    sign = None
    if name == "max":
        if "pos" in (sa, sb):
            sign = "pos"
        elif "nonneg" in (sa, sb):
            sign = "nonneg"
    else:
        if sa and sb:
            sign = "pos" if sa == sb == "pos" else "nonneg"
    return patom(_intern_atom("fn", name, (), args, (), False, True, sign))


def independent_parts(m):
    """a monomial with binders as a product of sums over disjoint sets of binders (None when there is only one)"""
    c, b, f = m
    binders = dict(b)
    rest, comps = [], []
    for a, e in f:
        vs = set(a.fv & binders.keys())
        if isinstance(e, P):
            vs |= set(e.fv & binders.keys())
        if not vs:
            rest.append((a, e))
            continue
        grp, new = [(a, e)], []
        for cv, cf in comps:
            if cv & vs:
                vs |= cv
                grp = cf + grp
            else:
                new.append((cv, cf))
        new.append((vs, grp))
        comps = new
    if set().union(*[v for v, _ in comps]) != set(binders) or any(dd.fv & binders.keys() for dd in binders.values()):
        return None
    out = [normalize(P(((Fraction(1), tuple((v, binders[v]) for v in sorted(vs)), tuple(grp)),))) for vs, grp in comps]
    if c != 1 or rest:
        out.append(normalize(P(((c, (), tuple(rest)),))))
    return out if len(out) > 1 else None


def mk_log(p):
    """log of a positive quantity; splits products"""
    if len(p.terms) == 1 and p.terms[0][1]:
        parts = independent_parts(p.terms[0])
        if parts and all(psign(q) is not None for q in parts):
            out = pconst(0)
            for q in parts:
                out = padd(out, mk_log(q))
            return out
    if len(p.terms) == 1:
        c, b, f = p.terms[0]
        if not b:
            out = pconst(0)
            if c > 0:
                for pr, k in _factorint(c.numerator):
                    out = padd(out, pscale(patom(_intern_atom("fn", "log", (), (pconst(pr),), (), False, True, None)), k))
                for pr, k in _factorint(c.denominator):
                    out = padd(out, pscale(patom(_intern_atom("fn", "log", (), (pconst(pr),), (), False, True, None)), -k))
            fd = dict(f)
            rest = []
            done = set()
            for a, e in f:
                if a in done:
                    continue
                ep = e if isinstance(e, P) else pconst(e)
                if a.sign in ("pos", "nonneg"):
                    if a.kind == "fn" and a.name == "exp":
                        out = padd(out, pmul(ep, a.args[0]))
                    elif a.kind == "num":
                        out = padd(out, pmul(ep, patom(_intern_atom("fn", "log", (), (pconst(int(a.name[1:])),), (), False, True, None))))
                    else:
                        out = padd(out, pmul(ep, patom(_intern_atom("fn", "log", (), (patom(a),), (), False, True, None))))
                    done.add(a)
                elif not a.real and not isinstance(e, P):
                    ac = atom_conj(a)
                    if not isinstance(ac, tuple) and fd.get(ac) == e and ac not in done:
                        ab = mk_abs(patom(a))
                        out = padd(out, pscale(mk_log(ab), 2 * e))
                        done.add(a)
                        done.add(ac)
                    else:
                        rest.append((a, e))
                elif a.real and not isinstance(e, P) and e.denominator == 1 and e % 2 == 0:
                    out = padd(out, pscale(mk_log(mk_abs(patom(a))), e))
                    done.add(a)
                else:
                    rest.append((a, e))
            if not rest and c > 0:
                return out
            if c > 0 and rest:
                q = normalize(P(((Fraction(1), (), tuple(rest)),)))
            else:
                q = normalize(P(((c, (), tuple(rest)),)))
            return padd(out, patom(_intern_atom("fn", "log", (), (q,), (), False, is_real(q), None)))
    content, q = primitive(p)
    cont = normalize(P((content,)))
    if psign(cont) is not None and psign(q) is not None and not (content[0] == 1 and not content[2]):
        r = mk_log(cont)
        return padd(r, mk_log(q))
    return patom(_intern_atom("fn", "log", (), (p,), (), False, is_real(p), None))


# lambda operators ------------------------------------------------------------
LAM_HOOK = {}  # name -> fn(lam, args, idx) -> P or None (simplification)
LAM_INFO = {}  # name -> dict(real=bool|callable(args), sign=...)


def mk_lam(name, lam, args, idx):
    """operator `name` applied to args abstracted over lam variables, indexed by idx."""
    lam = list(lam)
    idx = tuple(IX.of(i) for i in idx)
    h = LAM_HOOK.get(name)
    if h is not None:
        r = h(lam, args, idx)
        if r is not None:
            return r
    return patom(lam_atom(name, lam, args, idx))


def lam_atom(name, lam, args, idx, cj=False):
    h = max([p.height for p in args] + [0]) + 1
    s = {}
    nl = []
    for k, (v, d) in enumerate(lam):
        nv = "_L%d.%d" % (h, k)
        s[v] = IX.var(nv)
        nl.append((nv, d))
    args2 = tuple(subst(p, s) for p in args)
    h2 = max([p.height for p in args2] + [0]) + 1
    if h2 != h:
        # heights are substitution invariant except for degenerate simplifications
        s2 = {}
        nl2 = []
        for k, (v, d) in enumerate(nl):
            nv = "_L%d.%d" % (h2, k)
            s2[v] = IX.var(nv)
            nl2.append((nv, d))
        args2 = tuple(subst(p, s2) for p in args2)
        nl = nl2
    info = LAM_INFO.get(name, {})
    real = info.get("real", False)
    if callable(real):
        real = real(args2, nl)
    if real:
        cj = False
    sign = info.get("sign")
    if callable(sign):
        sign = sign(args2, nl)
    return _intern_atom("lam", name, idx, args2, tuple(nl), cj, real, sign)


def lam_open(a):
    """fresh copies of the lambda variables and opened bodies"""
    s = {}
    vs = []
    for v, d in a.lam:
        nv = fresh()
        s[v] = IX.var(nv)
        vs.append((nv, d))
    return vs, [subst(p, s) for p in a.args]


# --------------------------------------------------------------------------
# canonical naming of binders in a monomial
# --------------------------------------------------------------------------
def canon_mono(c, b, fs):
    if not b:
        return (c, (), tuple(sorted(fs, key=_fkey)))
    key = None
    h = max([a.height for a, _ in fs] + [0]) + 1
    # refine colours
    names = [v for v, _ in b]
    dims = dict(b)
    if len(b) == 1:
        perm_list = [names]
    else:
        col = {v: "d" + str(dims[v]) for v in names}
        ncol = len(set(col.values()))
        for _ in range(len(names)):
            new = {}
            for v in names:
                s = {w: IX.var("?" + str(_colid(col[w]))) for w in names if w != v}
                s[v] = IX.var("*")
                sig = []
                for a, e in fs:
                    if v in a.fv:
                        sig.append((_atom_sig(a, s), str(e) if not isinstance(e, P) else "P%d" % e.id))
                new[v] = col[v] + "|" + str(sorted(sig))
            # compress
            new = {v: str(_colid(new[v])) for v in names}
            n2 = len(set(new.values()))
            col = new
            if n2 == ncol:
                break
            ncol = n2
        classes = {}
        for v in names:
            classes.setdefault(col[v], []).append(v)
        ordered = [classes[k] for k in sorted(classes, key=lambda k: int(k))]
        total = 1
        for g in ordered:
            for x in range(2, len(g) + 1):
                total *= x
        if total > 720:
            ordered = [g if len(g) < 5 else g for g in ordered]
            if total > 5040:
                raise Budget("too many symmetric binders")
        perm_list = [sum(map(list, ps), []) for ps in itertools.product(*[itertools.permutations(g) for g in ordered])]
    if any(v.startswith("_S%d." % h) for a, _ in fs for v in a.fv if v not in dims):
        raise AssertionError("binder capture: %s" % (fs,))
    best = None
    for order in perm_list:
        s = {}
        nb = []
        for k, v in enumerate(order):
            nv = "_S%d.%d" % (h, k)
            s[v] = IX.var(nv)
        for k, v in enumerate(order):
            nb.append((s[v].as_var(), dims[v].subst(s)))
        nf = []
        for a, e in fs:
            nf.append((atom_subst1(a, s), e))
        nf.sort(key=_fkey)
        k = [(_fkey(x)) for x in nf]
        kk = ([str(d) for _, d in nb], k)
        if best is None or kk < best[0]:
            best = (kk, (c, tuple(nb), tuple(nf)))
    return best[1]


_coltab = {}


def _colid(s):
    r = _coltab.get(s)
    if r is None:
        r = len(_coltab)
        _coltab[s] = r
    return r


def _atom_sig(a, s):
    # index variables may be replaced by colour names -- may trigger Iverson simplification; use raw ids
    if a.kind == "iv":
        return "iv%s%s" % (a.name, a.idx[0].subst(s))
    try:
        r = atom_subst(a, s)
    except Exception:
        return "x" + a.kind + a.name
    if isinstance(r, Atom):
        return "a%d" % r.id
    return "p%d" % r.id


def _fkey(ae):
    a, e = ae
    if isinstance(e, P):
        return (a.id, 1, Fraction(0), e.id)
    return (a.id, 0, e, 0)


# --------------------------------------------------------------------------
# rewriting rules
# --------------------------------------------------------------------------
class Rule:
    """Sum-product pattern -> right-hand side.

    meta: list of metavariables (index variables standing for arbitrary index expressions)
    pb: pattern binders ((var, dim)), pf: pattern factors ((Atom, exp))
    rhs(sol) -> P where sol maps metavariables to IX; may return None (rule does not apply)
    """

    def __init__(self, name, meta, pb, pf, rhs, head=None, guard=None):
        self.name = name
        self.meta = tuple(meta)
        self.pb = tuple(pb)
        self.pf = tuple(pf)
        self.rhs = rhs
        self.guard = guard
        self.coef = Fraction(1)


def add_rule(rule, heads):
    for h in heads:
        CTX.rules.setdefault(h, []).append(rule)
    CTX.bump()


def rule_from_eq(name, meta, lhs, rhs, guard=None):
    """meta: list of metavariable names; lhs: P with exactly one monomial; rhs: P over meta"""
    if len(lhs.terms) != 1:
        raise Unsupported("rule lhs must be one monomial: %s" % lhs)
    c, b, f = lhs.terms[0]
    rename = {v: IX.var(fresh("_p")) for v, _ in b}
    if rename:
        b2 = tuple((rename[v].as_var(), d.subst(rename)) for v, d in b)
        f = tuple((atom_subst1(a, rename), e) for a, e in f)
        b = b2
    rr = pscale(rhs, 1 / c)

    def mk(sol):
        return subst(rr, sol)

    r = Rule(name, meta, b, f, mk, guard=guard)
    # head: the atom with the rarest name
    head = None
    for a, _ in f:
        if a.kind in ("el", "lam"):
            head = (a.kind, a.name)
            break
    if head is None:
        a = f[0][0]
        head = (a.kind, a.name)
    add_rule(r, [head])
    return r


DYN_RULES = {}  # lam op name -> fn(mono c,b,fs, position) -> replacement list or None


def apply_rules(c, b, fs):
    if not CTX.rules and not any(a.kind == "lam" for a, _ in fs):
        return None
    for i, (a, e) in enumerate(fs):
        if a.kind == "lam" and a.name in DYN_RULES:
            r = DYN_RULES[a.name](c, b, fs, i)
            if r is not None:
                return r
        for rule in CTX.rules.get((a.kind, a.name), ()):
            r = try_rule(rule, c, b, fs)
            if r is not None:
                return r
    return None


def try_rule(rule, c, b, fs):
    if not rule:
        return None
    for sol, used, usedb in match(rule.meta, rule.pb, rule.pf, b, fs):
        if rule.guard is not None and not rule.guard(sol, b):
            continue
        rhs = rule.rhs({k: v for k, v in sol.items() if k in rule.meta})
        if rhs is None:
            continue
        nf = []
        for k, (a, e) in enumerate(fs):
            u = used.get(k, 0)
            if e != u:
                nf.append((a, e - u if u else e))
        nb = tuple((v, d) for v, d in b if v not in usedb)
        m = (c, nb, tuple(nf))
        return [attach(m, t) for t in rhs.terms]
    return None


def match(meta, pb, pf, b, fs):
    """enumerate matches of the pattern inside the target monomial (b, fs)"""
    meta = set(meta)
    pbd = dict(pb)
    tb = dict(b)
    # order: atoms with plain indices first
    pf = sorted(pf, key=lambda ae: (len(ae[0].args), -len(ae[0].idx)))

    def rec(k, sol, used):
        if k == len(pf):
            # all pattern binders solved to distinct target binders, not used elsewhere
            bs = []
            for v, d in pb:
                if v not in sol:
                    return
                w = sol[v].as_var()
                if not isinstance(w, str) or w not in tb:
                    return
                bs.append(w)
            if len(set(bs)) != len(bs):
                return
            for v, d in pb:
                if d.subst(sol) is not tb[sol[v].as_var()]:
                    return
            for j, (a, e) in enumerate(fs):
                if used.get(j, 0) != e and any(w in a.fv for w in bs):
                    return
            for w2, d2 in b:
                if w2 not in bs and any(w in d2.fv for w in bs):
                    return
            # metavariables must not be solved with removed binders
            for v in meta:
                if v not in sol:
                    return
                if any(w in sol[v].fv for w in bs):
                    return
            yield dict(sol), dict(used), set(bs)
            return
        a, e = pf[k]
        if isinstance(e, P):
            # symbolic exponents: exact match only
            for j, (ta, te) in enumerate(fs):
                if te is e or te == e:
                    for s2 in unify_atom(a, ta, sol, meta, pbd, tb):
                        if used.get(j, 0) == 0:
                            u2 = dict(used)
                            u2[j] = te
                            yield from rec(k + 1, s2, u2)
            return
        for j, (ta, te) in enumerate(fs):
            if ta.kind != a.kind or ta.name != a.name or ta.cj != a.cj:
                continue
            if isinstance(te, P):
                continue
            avail = te - used.get(j, 0)
            if (e > 0 and avail < e) or (e < 0 and avail > e):
                continue
            for s2 in unify_atom(a, ta, sol, meta, pbd, tb):
                u2 = dict(used)
                u2[j] = u2.get(j, 0) + e
                yield from rec(k + 1, s2, u2)

    yield from rec(0, {}, {})


def unify_ix(p, t, sol, free):
    """unify pattern index expression with target index expression"""
    unk = [v for v in p.fv if v in free and v not in sol]
    if not unk:
        q = p.subst({v: sol[v] for v in p.fv if v in sol})
        if q is t or int_query_eq(q, t):
            return sol
        return None
    if len(unk) == 1:
        v = unk[0]
        # linear in v with coefficient +-1
        coef = None
        rest = {}
        for m, c in p.t:
            if v in m:
                if m != (v,) or abs(c) != 1:
                    return None
                coef = c
            else:
                if any((not isinstance(x, str)) and v in x.fv for x in m):
                    return None
                rest[m] = c
        if coef is None:
            return None
        r = IX(rest).subst({w: sol[w] for w in sol})
        val = (t - r) if coef == 1 else (r - t)
        s2 = dict(sol)
        s2[v] = val
        return s2
    return None


def int_query_eq(a, b):
    if a is b:
        return True
    d = a - b
    if d.is_const():
        return d.value() == 0
    return False


def unify_atom(a, ta, sol, meta, pbd, tb):
    free = set(meta) | set(pbd)
    if a is ta and not (a.fv & free):
        yield sol
        return
    if a.kind != ta.kind or a.name != ta.name or a.cj != ta.cj or len(a.idx) != len(ta.idx):
        return
    s = sol
    for p, t in zip(a.idx, ta.idx):
        s = unify_ix(p, t, s, free)
        if s is None:
            return
    if a.args or a.lam:
        # nested: solve remaining variables by trying target variables
        unk = [v for v in a.fv if v in free and v not in s]
        if not unk:
            ss = {v: s[v] for v in a.fv if v in s}
            r = atom_subst(a, ss) if ss else a
            if r is ta or (isinstance(r, P) and r is patom(ta)):
                yield s
            return
        cands = sorted(ta.fv)
        if len(unk) > 3:
            return
        for vals in itertools.product(cands, repeat=len(unk)):
            s2 = dict(s)
            for v, w in zip(unk, vals):
                s2[v] = IX.var(w)
            ss = {v: s2[v] for v in a.fv if v in s2}
            r = atom_subst(a, ss)
            if r is ta or (isinstance(r, P) and r is patom(ta)):
                yield s2
        return
    yield s


# --------------------------------------------------------------------------
# zero test
# --------------------------------------------------------------------------
def clear_denominators(p):
    """multiply p by every 'base' atom (and plain atom) occurring with negative exponent"""
    need = {}
    for c, b, f in p.terms:
        bv = set(v for v, _ in b)
        for a, e in f:
            if isinstance(e, P):
                continue
            if e < 0 and not (a.fv & bv):
                if a.kind == "fn" and a.name == "base":
                    need[a] = min(need.get(a, Fraction(0)), e)
    if not need:
        return p, False
    # several bases: multiply one at a time
    fac = tuple((a, -e) for a, e in need.items())
    return normalize(P(tuple(raw_mul_mono(m, (Fraction(1), (), fac)) for m in p.terms))), True


def is_zero(p, depth=6):
    """does p normalise to zero (denominators are nonzero by the domain precondition)?"""
    for _ in range(depth):
        if not p.terms:
            return True
        p, ch = clear_denominators(p)
        if not ch:
            break
    return not p.terms


# --------------------------------------------------------------------------
# rebuilding under changed facts, case splitting
# --------------------------------------------------------------------------
def rebuild(p, s=None):
    s = s or {}
    memo = {}
    return _rebuild(p, s, memo)


def _rebuild(p, s, memo):
    k = (p.id, tuple(sorted(s.items(), key=lambda kv: kv[0])))
    if k in memo:
        return memo[k]
    out = []
    clash = set()
    for x in s.values():
        clash |= x.fv
    for m in p.terms:
        m = _rename_binders(m, set(v for v, _ in m[1]))
        c, b, f = m
        acc = P(((c, tuple((v, d.subst(s)) for v, d in b), ()),))
        acc_terms = list(acc.terms)
        if CTX.elsub or CTX.datafacts:
            f = sorted(f, key=lambda ae: isinstance(ae[1], P) or ae[1] < 0)
        for a, e in f:
            if not acc_terms:
                break
            q = _rebuild_atom(a, s, memo)
            if isinstance(e, P):
                e = exp_simpl(_rebuild(e, s, memo))
            q = ppow(q, e)
            acc_terms = [attach(x, y) for x in acc_terms for y in q.terms]
        out.extend(acc_terms)
    r = normalize(P(tuple(out)))
    memo[k] = r
    return r


def _rebuild_atom(a, s, memo):
    idx = tuple(i.subst(s) if (i.fv & s.keys()) else reix(i) for i in a.idx)
    k = a.kind
    if k == "el":
        r = el(a.name, idx, a.cj)
        if CTX.elsub:
            if r in CTX.elsub:
                return CTX.elsub[r]
            rc = atom_conj(r)
            if not isinstance(rc, tuple) and rc in CTX.elsub:
                return pconj(CTX.elsub[rc])
        return patom(r)
    if k == "int":
        return pint(idx[0])
    if k == "iv":
        return mk_iv(a.name, idx[0])
    if k == "ivd":
        return mk_ivd(a.name, _rebuild(a.args[0], s, memo))
    if k in ("unit", "num"):
        return patom(a)
    if k == "fn":
        args = [_rebuild(p, s, memo) for p in a.args]
        r = mk_fn(a.name, args)
        return pconj(r) if a.cj else r
    if k == "lam":
        s2 = dict(s)
        lam = []
        for v, d in a.lam:
            nv = fresh()
            s2[v] = IX.var(nv)
            lam.append((nv, d.subst(s)))
        args = [_rebuild(p, s2, memo) for p in a.args]
        r = mk_lam(a.name, lam, args, idx)
        return pconj(r) if a.cj else r
    raise Unsupported("rebuild " + k)


def reix(ix):
    """re-simplify integer applications under current facts"""
    if all(isinstance(v, str) for m, _ in ix.t for v in m):
        return ix
    r = IX.const(0)
    for m, c in ix.t:
        p = IX.const(c)
        for v in m:
            p = p * (IX.var(v) if isinstance(v, str) else mk_iapp(v.name, [reix(a) for a in v.args]))
        r = r + p
    return r


def free_conds(p, acc=None, bound=frozenset()):
    """index conditions over free variables occurring in p"""
    if acc is None:
        acc = {}
    for c, b, f in p.terms:
        bv = bound | set(v for v, _ in b)
        for a, e in f:
            if a.kind == "iv":
                if not (a.idx[0].fv & bv):
                    acc[(a.name, a.idx[0])] = acc.get((a.name, a.idx[0]), 0) + 1
            if isinstance(e, P):
                free_conds(e, acc, bv)
            if a.args:
                bv2 = bv | set(v for v, _ in a.lam)
                for q in a.args:
                    free_conds(q, acc, bv2)
    return acc


def free_dataconds(p, acc=None, bound=frozenset()):
    if acc is None:
        acc = {}
    for c, b, f in p.terms:
        bv = bound | set(v for v, _ in b)
        for a, e in f:
            if a.kind == "ivd" and not (a.fv & bv):
                acc[(a.name, a.args[0].id)] = a
            if a.args:
                bv2 = bv | set(v for v, _ in a.lam)
                for q in a.args:
                    free_dataconds(q, acc, bv2)
    return acc


class with_facts:
    def __init__(self, facts=(), data=None):
        self.f = facts
        self.d = data

    def __enter__(self):
        self.saved = (list(CTX.facts), dict(CTX.datafacts), dict(CTX.elsub))
        self.rules = {k: list(v) for k, v in CTX.rules.items()}
        CTX.facts.extend(self.f)
        if self.d:
            CTX.datafacts.update(self.d)
            for (kind, pid), val in self.d.items():
                if kind == "eq0" and val:
                    zero_solve(pid)
        CTX.bump()

    def __exit__(self, *a):
        CTX.facts, CTX.datafacts, CTX.elsub = self.saved
        CTX.rules = self.rules
        CTX.bump()


def zero_solve(pid):
    """a data condition p == 0 holds: solve it for an element that occurs linearly"""
    p = CTX.by_id.get(pid)
    if p is None:
        return
    for j, (c, b, f) in enumerate(p.terms):
        if b:
            continue
        lin = [x for x, e in f if x.kind == "el" and e == 1]
        if len(lin) != 1 or any(isinstance(e, P) or (e > 0 and x is not lin[0]) for x, e in f):
            continue
        a = lin[0]
        oth = tuple((x, -e) for x, e in f if x is not a)
        on = set()
        _el_names(P(((c, (), oth),)), on)
        if a.name in on:
            continue
        ac = atom_conj(a)
        rest = normalize(P(tuple(t for q, t in enumerate(p.terms) if q != j)))
        names = set()
        _el_names(rest, names)
        if a.name in names or (not a.real and is_real(p)) :
            continue
        r = pscale(pmul(rest, normalize(P(((Fraction(1), (), oth),)))), -1 / c)
        if a.cj:
            a, r = ac, pconj(r)
        CTX.elsub[a] = r
        return
    # otherwise rewrite its leading term (and that of its conjugate) by the remaining ones
    if not any(b for _, b, _ in p.terms):
        return
    for q in [p] if is_real(p) else [p, pconj(p)]:
        j = max(range(len(q.terms)), key=lambda k: (len(q.terms[k][1]), len(q.terms[k][2]), [_fkey(x) for x in q.terms[k][2]]))
        if any(isinstance(e, P) for _, e in q.terms[j][2]) or not any(a.kind in ("el", "lam") for a, _ in q.terms[j][2]):
            return
        rest = normalize(P(tuple(t for k, t in enumerate(q.terms) if k != j)))
        rule_from_eq("zero condition", [], normalize(P((q.terms[j],))), pneg(rest))


def _el_names(p, acc):
    for c, b, f in p.terms:
        for a, e in f:
            if a.kind == "el":
                acc.add(a.name)
            for q in a.args:
                _el_names(q, acc)


def prove_zero(p, depth=10, trace=None):
    """True, or a residual (path, P) that does not normalise to zero"""
    if is_zero(p):
        return True
    if depth <= 0:
        return (trace or (), p)
    conds = free_conds(p)
    conds = sorted(conds.items(), key=lambda kv: (kv[0][0] != "eq0", -kv[1], str(kv[0][1])))
    for (kind, ix), _ in conds:
        neg = ("ne0", ix) if kind == "eq0" else ("ge0", -ix - 1)
        # infeasible cases are skipped
        for fact in ((kind, ix), neg):
            with with_facts([fact]):
                if int_feasible() is False:
                    continue
                s = {}
                if fact[0] == "eq0":
                    v, expr = solve_var(ix)
                    if v is not None:
                        s = {v: expr}
                        dim = CTX.vdim.get(v)
                        if dim is not None:
                            CTX.facts.append(("ge0", expr))
                            CTX.facts.append(("ge0", dim - expr - 1))
                            CTX.bump()
                q = rebuild(p, s)
                r = prove_zero(q, depth - 1, (trace or ()) + (fact,))
            if r is not True:
                return r
        return True
    dc = free_dataconds(p)
    for (name, pid), a in sorted(dc.items(), key=lambda kv: kv[0][1]):
        for val in (True, False):
            with with_facts([], {(name, pid): val}):
                q = rebuild(p)
                r = prove_zero(q, depth - 1, (trace or ()) + ((str(a), val),))
            if r is not True:
                return r
        return True
    q = rebuild(p)
    if is_zero(q):
        return True
    if SCALAR_FALLBACK is not None and SCALAR_FALLBACK(q):
        STATS["nra"] = STATS.get("nra", 0) + 1
        return True
    return (trace or (), q)


SCALAR_FALLBACK = None


def solve_var(ix):
    """choose a variable with coefficient +-1 to eliminate from ix == 0 (prefer index variables)"""
    best = None
    for m, c in ix.t:
        if len(m) == 1 and abs(c) == 1 and isinstance(m[0], str):
            v = m[0]
            rest = IX({mm: cc for mm, cc in ix.t if mm != m})
            if v in rest.fv:
                continue
            pri = 0 if v in CTX.vdim and v.startswith("_") else (1 if v in CTX.vdim else 2)
            if best is None or pri < best[0]:
                best = (pri, v, -rest if c == 1 else rest)
    if best is None:
        return None, None
    return best[1], best[2]
