"""scalar back end: decide polynomial (in)equalities over the reals with z3's nonlinear arithmetic.

Atoms that contain sums or uninterpreted functions are opaque reals (or pairs of reals) constrained by
their known sign; abs, max, min, sqrt (half-integer powers) and data conditions are interpreted.
"""

import time
from fractions import Fraction

from . import terms as T


class No(Exception):
    pass


class Tr:
    def __init__(self):
        z = self.z = T.z3mod()
        self.vars = {}
        self.side = []
        self.memo = {}
        self.n = 0

    def fresh(self, tag="v"):
        self.n += 1
        return self.z.Real("%s%d" % (tag, self.n))

    def q(self, f):
        return self.z.RealVal(str(f))

    def cmul(self, a, b):
        if a[1] is None and b[1] is None:
            return (a[0] * b[0], None)
        ai = a[1] if a[1] is not None else self.q(0)
        bi = b[1] if b[1] is not None else self.q(0)
        return (a[0] * b[0] - ai * bi, a[0] * bi + ai * b[0])

    def cadd(self, a, b):
        if a[1] is None and b[1] is None:
            return (a[0] + b[0], None)
        ai = a[1] if a[1] is not None else self.q(0)
        bi = b[1] if b[1] is not None else self.q(0)
        return (a[0] + b[0], ai + bi)

    def p(self, p):
        r = (self.q(0), None)
        for c, b, f in p.terms:
            if b:
                r = self.cadd(r, self.opaque_mono(c, b, f))
                continue
            m = (self.q(c), None)
            for a, e in f:
                m = self.cmul(m, self.pw(a, e))
            r = self.cadd(r, m)
        return r

    def opaque_mono(self, c, b, f):
        p = T.normalize(T.P(((Fraction(1), b, f),)))
        key = ("mono", p.id)
        if key not in self.vars:
            if T.is_real(p):
                v = self.fresh("s")
                s = T.psign(p)
                if s == "pos":
                    self.side.append(v > 0)
                elif s == "nonneg":
                    self.side.append(v >= 0)
                self.vars[key] = (v, None)
            else:
                self.vars[key] = (self.fresh("s"), self.fresh("s"))
        v = self.vars[key]
        return self.cmul((self.q(c), None), v)

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        r = self._atom(a)
        self.memo[a] = r
        return r

    def real(self, p):
        x = self.p(p)
        if x[1] is not None:
            if not T.is_real(p):
                raise No("complex argument")
        return x[0]

    def _atom(self, a):
        z = self.z
        if a.kind == "unit":
            return (self.q(0), self.q(1))
        if a.kind == "fn" and a.name == "base":
            return self.p(a.args[0])
        if a.kind == "fn" and a.name == "abs":
            x = self.p(a.args[0])
            v = self.fresh("a")
            self.side.append(v >= 0)
            if x[1] is None:
                self.side.append(z.Or(v == x[0], v == -x[0]))
            else:
                self.side.append(v * v == x[0] * x[0] + x[1] * x[1])
            return (v, None)
        if a.kind == "fn" and a.name in ("max", "min"):
            x, y = self.real(a.args[0]), self.real(a.args[1])
            return (z.If(x >= y, x, y) if a.name == "max" else z.If(x <= y, x, y), None)
        if a.kind == "fn" and a.name == "sign":
            x = self.real(a.args[0])
            return (z.If(x > 0, self.q(1), z.If(x < 0, self.q(-1), self.q(0))), None)
        if a.kind == "ivd":
            if a.name == "eq0":
                x = self.p(a.args[0])
                return (z.If(x[0] == 0 if x[1] is None else z.And(x[0] == 0, x[1] == 0), self.q(1), self.q(0)), None)
            x = self.real(a.args[0])
            cnd = {"eq0": x == 0, "ge0": x >= 0, "gt0": x > 0}[a.name]
            return (z.If(cnd, self.q(1), self.q(0)), None)
        if a.kind == "num":
            return (self.q(int(a.name[1:])), None)
        # opaque
        if a.real:
            v = self.fresh("x")
            if a.sign == "pos":
                self.side.append(v > 0)
            elif a.sign == "nonneg":
                self.side.append(v >= 0)
            if a.kind == "iv":
                self.side.append(z.Or(v == 0, v == 1))
            return (v, None)
        c = T.atom_conj(a)
        if not isinstance(c, tuple) and c in self.memo:
            x = self.memo[c]
            return (x[0], -x[1])
        return (self.fresh("x"), self.fresh("y"))

    def pw(self, a, e):
        if isinstance(e, T.P):
            key = ("pw", a.id, e.id)
            if key not in self.vars:
                if not a.real:
                    raise No("complex power")
                v = self.fresh("w")
                if a.sign == "pos":
                    self.side.append(v > 0)
                elif a.sign == "nonneg":
                    self.side.append(v >= 0)
                self.vars[key] = (v, None)
            return self.vars[key]
        if e.denominator == 1:
            n = int(e)
            x = self.atom(a)
            r = (self.q(1), None)
            for _ in range(abs(n)):
                r = self.cmul(r, x)
            if n < 0:
                return self.recip(r)
            return r
        key = ("root", a.id, e.denominator)
        if key not in self.vars:
            x = self.atom(a)
            if x[1] is not None and not a.real:
                raise No("complex root")
            v = self.fresh("r")
            self.side.append(v >= 0)
            if a.sign == "pos":
                self.side.append(v > 0)
            m = v
            for _ in range(e.denominator - 1):
                m = m * v
            self.side.append(m == x[0])
            self.vars[key] = v
        v = self.vars[key]
        r = (self.q(1), None)
        for _ in range(abs(e.numerator)):
            r = self.cmul(r, (v, None))
        return self.recip(r) if e < 0 else r

    def recip(self, r):
        # denominators are nonzero by the domain precondition
        if r[1] is None:
            v = self.fresh("d")
            self.side.append(v * r[0] == 1)
            return (v, None)
        v, w = self.fresh("d"), self.fresh("d")
        self.side.append(v * r[0] - w * r[1] == 1)
        self.side.append(v * r[1] + w * r[0] == 0)
        return (v, w)

    def datafacts(self):
        for k, val in T.CTX.datafacts.items():
            if k[0] in ("ge0", "eq0", "gt0"):
                p = P_BY_ID.get(k[1])
                if p is None:
                    for q in T.P._tab.values():
                        if q.id == k[1]:
                            p = q
                            break
                    P_BY_ID[k[1]] = p
                if p is None:
                    continue
                try:
                    x = self.real(p)
                except No:
                    continue
                cnd = {"eq0": x == 0, "ge0": x >= 0, "gt0": x > 0}[k[0]]
                self.side.append(cnd if val else self.z.Not(cnd))
        for p, kind in getattr(T.CTX, "realfacts", ()):
            x = self.real(p)
            self.side.append(x >= 0 if kind == "ge0" else x > 0)


P_BY_ID = {}
STATS = {"calls": 0, "time": 0.0}


def _solve(tr, goal, timeout=15000):
    z = tr.z
    t = time.time()
    s = z.Solver()
    s.set("timeout", timeout)
    s.set("max_memory", 2000)
    for c in tr.side:
        s.add(c)
    s.add(goal)
    try:
        r = s.check()
    except z.Z3Exception:
        r = None
    STATS["calls"] += 1
    STATS["time"] += time.time() - t
    T.STATS["z3_calls"] += 1
    T.STATS["z3_time"] += time.time() - t
    return r == z.unsat


def small(p):
    n = 0
    for c, b, f in p.terms:
        n += len(f) + 1
    return n <= 120


def zero(p):
    """True if p == 0 is entailed"""
    if not small(p):
        return False
    try:
        tr = Tr()
        x = tr.p(p)
        tr.datafacts()
        z = tr.z
        g = x[0] != 0 if x[1] is None else z.Or(x[0] != 0, x[1] != 0)
        return _solve(tr, g)
    except (No, T.Unsupported, ZeroDivisionError):
        return False


def nonneg(p, strict=False):
    if not small(p):
        return False
    try:
        tr = Tr()
        x = tr.real(p)
        tr.datafacts()
        return _solve(tr, x <= 0 if strict else x < 0)
    except (No, T.Unsupported, ZeroDivisionError):
        return False


def consistent(timeout=5000):
    """are the data facts on the path satisfiable? False only if z3 proves otherwise"""
    try:
        tr = Tr()
        tr.datafacts()
        if not tr.side:
            return True
        return not _solve(tr, tr.z.BoolVal(True), timeout)
    except (No, T.Unsupported, ZeroDivisionError):
        return True
