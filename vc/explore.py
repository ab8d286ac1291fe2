"""Path exploration, loop-contract rule, obligations, and the two contract contexts
(symbolic: deductive proof for all sizes and values; numeric: replay on the real code)."""

import os
import itertools
import math
import time
import traceback
from fractions import Fraction

import numpy as np

from . import terms as T
from . import ops
from . import symnp as S
from . import loader as L
from . import z3real
from .registry import ExplicitFloor, OwnState
from .terms import IX, Unsupported, Budget, pconst, padd, psub, pmul

T.SCALAR_FALLBACK = z3real.zero

MAXPATHS = 64


class PathDone(Exception):
    """the current path ends here (loop body verified / infeasible)"""


class Obligation:
    def __init__(self, contract, label, status, detail="", path="", backend="normaliser"):
        self.contract, self.label, self.status, self.detail, self.path, self.backend = (
            contract,
            label,
            status,
            detail,
            path,
            backend,
        )

    def as_dict(self):
        return dict(
            contract=self.contract, obligation=self.label, status=self.status, detail=self.detail[:2000], path=self.path, backend=self.backend
        )


class Explorer:
    frame_only = False

    def __init__(self, contract_name, deadline=None):
        self.name = contract_name
        self.obls = []
        self.deadline = deadline
        self.pending = [[]]
        self.prefix = []
        self.trail = []
        self.log = []
        self.loop_specs = []
        self.writes = None
        self.failed_paths = []
        self.symtrace = []
        self.assumed = set()

    # ---- decisions
    def choose(self, options):
        """options: list of (label, facts, data). returns index"""
        k = len(self.trail)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            c = None
            for i, (lab, facts, data) in enumerate(options):
                ok = True
                if facts:
                    with T.with_facts(facts):
                        ok = T.int_feasible() is not False
                if not ok:
                    continue
                if c is None:
                    c = i
                else:
                    self.pending.append(list(self.trail) + [i])
            if c is None:
                raise PathDone()
        self.trail.append(c)
        lab, facts, data = options[c]
        self.log.append(lab)
        for f in facts:
            T.CTX.add_fact(*f)
        if data:
            T.CTX.datafacts.update(data)
            for key, val in data.items():
                if key[0] == "eq0" and val:
                    T.zero_solve(key[1])
            T.CTX.bump()
        return c

    def fork_int(self, pos, neg):
        return self.choose([("%s %s" % (pos[1], pos[0]), [pos], None), ("not(%s %s)" % (pos[1], pos[0]), [neg], None)]) == 0

    def fork_data(self, p):
        """p: 0/1-valued P"""
        # single condition atoms
        if len(p.terms) == 1 and len(p.terms[0][2]) == 1 and p.terms[0][0] == 1 and not p.terms[0][1]:
            a = p.terms[0][2][0][0]
            if a.kind == "iv":
                return S.decide_int(a.name, a.idx[0])
            if a.kind == "ivd":
                k = (a.name, a.args[0].id)
                return self.choose([(str(a), [], {k: True}), ("not " + str(a), [], {k: False})]) == 0
            if a.kind == "lam":
                k = ("atom", a.id)
                if k in T.CTX.datafacts:
                    return T.CTX.datafacts[k]
                return self.choose([(str(a), [], {k: True}), ("not " + str(a), [], {k: False})]) == 0
        q = psub(pconst(1), p)
        if len(q.terms) == 1 and len(q.terms[0][2]) == 1 and q.terms[0][0] == 1:
            return not self.fork_data(q)
        k = ("cond", p.id)
        if k in T.CTX.datafacts:
            return T.CTX.datafacts[k]
        return self.choose([(str(p)[:200], [], {k: True}), ("not " + str(p)[:200], [], {k: False})]) == 0

    # ---- side conditions
    def side_condition(self, what, goal):
        kind, ix = goal
        neg = {"ge0": ("ge0", -ix - 1), "eq0": ("ne0", ix), "ne0": ("eq0", ix)}[kind]
        if not self.fork_int(goal, neg):
            raise IndexError(what)

    def shape_mismatch(self, what, e):
        if not self.fork_int(("eq0", e), ("ne0", e)):
            raise ValueError(what)

    def precondition(self, what, p):
        r = T.prove_zero(p)
        if r is True:
            self.record(what, "proved")
        else:
            self.record(what, "failed", "residual %s under %s" % (str(r[1])[:800], r[0]))

    def note_write(self, st):
        if self.writes is not None:
            self.writes.append(st)

    def record(self, label, status, detail="", backend="normaliser"):
        if self.frame_only and backend != "frame":
            if label.startswith("no exception"):
                raise Unsupported("the call raises: " + detail)
            return
        o = Obligation(self.name, label, status, detail, "; ".join(self.log), backend)
        o.model = None
        o.datapath = any(k not in self.assumed for k in T.CTX.datafacts)
        if status == "failed":
            try:
                o.model = T.int_model(sorted(self.cx.dims))
            except Exception:  # noqa
                o.model = None
        self.obls.append(o)

    # ---- loops
    def symbolic_loop(self, it, fn, names):
        if not self.loop_specs:
            raise Unsupported("loop of symbolic length without a loop contract (%s)" % fn)
        idx = self.loop_no
        self.loop_no += 1
        if idx >= len(self.loop_specs):
            raise Unsupported("more symbolic loops than loop contracts (%s)" % fn)
        spec = self.loop_specs[idx]
        self.cur_loop = SymLoop(self, it, fn, names, spec)
        return self.cur_loop


class SymLoop:
    concrete = False

    def __init__(self, ex, it, fn, names, spec):
        self.ex, self.it, self.fn, self.names, self.spec = ex, it, fn, names, spec
        self.in_body = False

    def begin(self, loc):
        ex, spec = self.ex, self.spec
        n = S.ix_of(self.it.n)
        T.CTX.vdim  # noqa
        # candidate state: arrays bound to names assigned in the body + storages the spec declares
        pre = {k: loc[k] for k in self.names if k in loc and loc[k] is not L.UNBOUND}
        # also variables bound before the loop whose storage may be mutated
        allarr = {k: v for k, v in loc.items() if isinstance(v, S.SymArray)}
        for k, v in loc.items():
            if k == "self" or hasattr(v, "__dict__") and not isinstance(v, (S.SymArray, type)):
                for kk, vv in getattr(v, "__dict__", {}).items():
                    if isinstance(vv, S.SymArray):
                        allarr.setdefault(k + "." + kk, vv)
            elif isinstance(v, (tuple, list)):
                for kk, vv in enumerate(v):
                    if isinstance(vv, S.SymArray):
                        allarr.setdefault("%s[%d]" % (k, kk), vv)
        self.allarr = allarr
        self.state = spec.locate(self, pre, allarr)  # dict key -> ("var", name, arr) | ("st", arr)
        cur = {k: v[-1] for k, v in self.state.items()}
        spec.entry = {k: S.copy_arr(v) for k, v in cur.items()}
        spec.n = self.it.n
        spec.on_init(ex.cx, spec.entry)
        c = ex.choose([("loop body of %s" % self.fn, [], None), ("loop exit of %s" % self.fn, [], None)])
        self.in_body = c == 0
        out = {}
        # havoc
        hav = {}
        for k, v in self.state.items():
            arr = v[-1]
            nm = "%s~%s" % (k, T.fresh("h"))
            kind = spec.kinds.get(k, arr.kind)
            fresh = ex.cx.fresh_array(nm, arr.shape, kind, **spec.attrs.get(k, {}))
            hav[k] = fresh
            if v[0] == "st":
                arr._overwrite(fresh.snap())
            else:
                out[v[1]] = fresh
        self.hav = hav
        if self.in_body:
            iv = T.fresh("_k")
            T.CTX.vdim[iv] = n
            T.CTX.bump()
            if T.int_feasible([("ge0", n - 1)]) is False:
                raise PathDone()
            T.CTX.add_fact("ge0", n - 1)
            self.i = S.SInt(IX.var(iv))
            spec.i = self.i
            ex.saved_writes = ex.writes
            spec.on_assume(ex.cx, self.i, hav)
            ex.writes = []
            self.pre_storages = {id(v.st): k for k, v in allarr.items()}
            self.keep = dict(allarr)
        else:
            nn = S.mkint(n)
            spec.on_assume(ex.cx, nn, hav)
            ex.saved_writes = ex.writes
        # values for the assigned names
        res = []
        for k in self.names:
            if k in out:
                res.append(out[k])
            elif k in pre and not self.in_body and k not in out:
                v = pre[k]
                res.append(L.UNBOUND)
            elif k in pre:
                v = pre[k]
                if isinstance(v, S.SymArray) and any(s[0] == "st" and s[-1] is v for s in self.state.values()):
                    res.append(v)
                else:
                    res.append(L.UNBOUND)
            else:
                res.append(L.UNBOUND)
        return tuple(res)

    def one(self):
        yield self.it.item(self.i)

    def end(self, loc):
        ex, spec = self.ex, self.spec
        cur = {}
        allowed = set()
        for k, v in self.state.items():
            if v[0] == "var":
                cur[k] = loc[v[1]]
                allowed.add(id(self.hav[k].st))
            else:
                cur[k] = v[-1]
                allowed.add(id(v[-1].st))
        # frame: nothing else that existed before the loop is written
        for st in ex.writes or ():
            if id(st) in self.pre_storages and id(st) not in allowed:
                ex.record("loop frame: only declared state is written (%s)" % self.pre_storages[id(st)], "failed", "loop body writes array %s" % self.pre_storages[id(st)])
        spec.on_check(ex.cx, self.i, self.hav, cur)
        raise PathDone()


class LoopSpec:
    """invariant of a loop over k = 0..n-1.

    names: preferred variable names of the loop state (first existing one is used)
    assume(cx, i, st): introduce the invariant at the start of iteration i (facts / rules)
    check(cx, i, old, new): obligations that iteration i re-establishes the invariant
    init(cx, st): obligations on entry
    """

    def __init__(self, state, assume=None, check=None, init=None, kinds=None, attrs=None):
        self.state, self.assume, self.check, self.init = state, assume, check, init
        self.kinds = kinds or {}
        self.attrs = attrs or {}
        self.entry = None

    def locate(self, loop, pre, allarr):
        out = {}
        for key, how in self.state.items():
            # how: a SymArray (its storage is the state) or shape-tuple describing a rebound variable
            if isinstance(how, S.SymArray):
                out[key] = ("st", how)
                continue
            cands = how if isinstance(how, (list, tuple)) else [how]
            hit = None
            for c in cands:
                if callable(c):
                    r = [k for k, v in pre.items() if isinstance(v, S.SymArray) and c(v)]
                    if len(r) == 1:
                        hit = r[0]
                    if not r:
                        sts = {}
                        for k, v in allarr.items():
                            if k not in pre and c(v):
                                sts[id(v.st)] = v
                        if len(sts) == 1:
                            out[key] = ("st", next(iter(sts.values())))
                            break
                elif c in pre and isinstance(pre[c], S.SymArray):
                    hit = c
                if hit:
                    break
            if key in out:
                continue
            if hit is None:
                raise Unsupported("loop state %r not found" % key)
            out[key] = ("var", hit, pre[hit])
        return out

    def on_init(self, cx, st):
        if self.init:
            self.init(cx, st)

    def on_assume(self, cx, i, st):
        if self.assume:
            self.assume(cx, i, st)

    def on_check(self, cx, i, old, new):
        if self.check:
            self.check(cx, i, old, new)


# --------------------------------------------------------------------------
# contract contexts
# --------------------------------------------------------------------------
class SymCx:
    explicit = False  # see registry.ExplicitFloor
    symbolic = True

    def __init__(self, ex):
        self.ex = ex
        ex.cx = self
        self.np = S.FACADE
        self.dims = {}
        self.inputs = {}
        self._undo = []

    # declarations
    def dim(self, name, lo=1, hi=None, nlo=None, nhi=None):
        ix = IX.var(name)
        T.CTX.facts.append(("ge0", ix - lo))
        if hi is not None:
            T.CTX.facts.append(("ge0", IX.const(hi) - ix))
        T.CTX.bump()
        self.dims[name] = ix
        return S.SInt(ix)

    def require(self, cond):
        """integer precondition (SBool or bool)"""
        if isinstance(cond, S.SBool):
            T.CTX.add_fact(cond.kind, cond.ix)
        elif cond is False:
            raise PathDone()

    def index(self, name, n):
        T.CTX.vdim[name] = S.ix_of(n)
        T.CTX.bump()
        self.dims[name] = IX.var(name)
        return S.SInt(IX.var(name))

    def scalar(self, name, sign=None, real=True, lo=None, hi=None):
        T.CTX.decl[name] = dict(real=real, sign=sign)
        r = S.scal(T.patom(T.el(name, ())))
        if lo is not None:
            self.assume(r >= lo)
        if hi is not None:
            self.assume(r <= hi)
        return r

    def assume(self, cond):
        """precondition on real data (a scalar comparison)"""
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathDone()
            return
        p = S.asarr(cond).p()
        a = T.single_atom(p)
        neg = False
        if a is None:
            a = T.single_atom(psub(pconst(1), p))
            neg = True
        if a is None or a.kind != "ivd":
            if p is pconst(1):
                return
            raise Unsupported("assumption of this form")
        k = (a.name, a.args[0].id)
        T.CTX.datafacts[k] = not neg
        self.ex.assumed.add(k)
        T.CTX.bump()

    def array(self, name, shape, kind="c", sign=None, herm=False, invertible=False, psd=False, pd=False, unitary=False, **k):
        r = self.fresh_array(name, shape, kind, sign=sign, herm=herm or psd or pd)
        if unitary:
            nd = len(shape)
            lead = list(shape[:-2])
            n = shape[-1]
            self.rule(
                name + " unitary (rows)",
                lead + [n, n],
                lambda *ix: (self.sum(n, lambda k: r[tuple(ix[:-2]) + (ix[-2], k)] * self.conj(r[tuple(ix[:-2]) + (ix[-1], k)])), self.delta(ix[-2], ix[-1])),
            )
            self.rule(
                name + " unitary (columns)",
                lead + [n, n],
                lambda *ix: (self.sum(n, lambda k: r[tuple(ix[:-2]) + (k, ix[-2])] * self.conj(r[tuple(ix[:-2]) + (k, ix[-1])])), self.delta(ix[-2], ix[-1])),
            )
        self.inputs[name] = r
        if psd or pd:
            add_psd_hook(name)
            r.psd = "pos" if pd else "nonneg"
        return r

    def svd_array(self, name, batch, n, kind="c"):
        """square matrices given through an arbitrary singular value decomposition"""
        lead = tuple(batch)
        U = self.array(name + "_U", lead + (n, n), kind, unitary=True)
        V = self.array(name + "_V", lead + (n, n), kind, unitary=True)
        s = self.array(name + "_s", lead + (n,), "f", sign="nonneg")
        X = (U * s[..., None, :]) @ V
        X = S.copy_arr(X)
        X.st.name = name
        T.CTX.decl["@svd"] = (X, U, s, V)
        return X

    def fresh_array(self, name, shape, kind="c", sign=None, herm=False, **k):
        T.CTX.decl[name] = dict(real=kind != "c", sign=sign, herm=herm and kind == "c", sym=herm and kind != "c")
        fn = lambda idx: T.patom(T.el(name, idx))
        a = S.SymArray(shape, kind, fn, name=name)
        a.st.name = name
        return a

    def load(self, mod):
        return L.load(mod)

    def stub(self, obj, attr, val):
        """replace a callee by its contract (module/class objects are reloaded on every path)"""
        missing = object()
        self._undo.append((obj, attr, vars(obj).get(attr, missing) if hasattr(obj, "__dict__") else getattr(obj, attr), missing))
        setattr(obj, attr, val)

    def undo(self):
        for obj, attr, old, missing in reversed(self._undo):
            if old is missing:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
            else:
                setattr(obj, attr, old)
        self._undo = []

    def fresh_from(self, shape, fn, kind="f"):
        """specification-level array with the given entries"""
        return S.SymArray(tuple(shape), kind, lambda idx: S.asarr(fn(*[S.SInt(i) for i in idx])).p())

    def ufunc(self, name, sign=None):
        """arbitrary real function R->R applied elementwise"""
        T.CTX.decl["fn:" + name] = dict(real=True, sign=sign)
        return lambda a: S.elementwise(lambda p: T.mk_fn(name, [p]), [S.asarr(a)], "f")

    def loops(self, *specs):
        self.ex.loop_specs = list(specs)
        self.ex.loop_no = 0

    def lemma_div_succ(self, x, n):
        """elementary lemma: (x + 1) // n is x // n or x // n + 1 (n >= 1); splits the two cases"""
        a, b = (x + 1) // n, x // n
        T.CTX.add_fact("ge0", S.ix_of(a) - S.ix_of(b))
        T.CTX.add_fact("ge0", S.ix_of(b) - S.ix_of(a) + 1)
        if a == b:
            return
        T.CTX.add_fact("eq0", S.ix_of(a) - S.ix_of(b) - 1)
        # the same equation times n (products with n are opaque to linear reasoning)
        T.CTX.add_fact("eq0", S.ix_of(a * n) - S.ix_of(b * n) - S.ix_of(n))

    def combinations_of(self, n):
        """contract of itertools.combinations(range(n), 2): every pair i < j exactly once"""
        K = self.dim("npairs", 1)
        fi = self.intarray("ci", (K,), n)
        fj = self.intarray("cj", (K,), n)
        T.CTX.assumptions.add("itertools.combinations(range(n), 2) yields every pair (i, j), 0 <= i < j < n, exactly once")

        def item(k):
            i, j = fi[k], fj[k]
            i, j = S.SInt(S.ix_of(i)), S.SInt(S.ix_of(j))
            T.CTX.add_fact("ge0", j.ix - i.ix - 1)
            return i, j

        class Comb:
            def __call__(self_, it, r):
                if not (isinstance(it, L.SymRange) and r == 2 and T.int_query(("eq0", S.ix_of(it.lo))) and T.int_query(("eq0", S.ix_of(it.hi) - n.ix)) and it.step == 1):
                    raise Unsupported("itertools.combinations with other arguments")
                return L.SymIter(K, item)

        t = Comb()
        t.n = K
        return t, item

    def foreach(self, label, make, count, fn):
        """every item of a generator whose k-th item comes from iteration k of one loop"""
        ex = self.ex
        self.loops(LoopSpec({}))
        ex.cur_loop = None
        it = iter(make())
        try:
            item = next(it)
        except StopIteration:
            return
        except PathDone:
            if ex.cur_loop is not None and ex.cur_loop.in_body:
                ex.record(label + ": every iteration yields an item", "failed", "no item yielded")
            raise
        if ex.cur_loop is None:
            raise Unsupported("generator without a symbolic loop")
        self.ensure_int(label + ": number of items", S.SInt(S.ix_of(ex.cur_loop.it.n)) == count)
        fn(ex.cur_loop.i, item)
        try:
            next(it)
        except StopIteration:
            pass
        else:
            ex.record(label + ": one item per iteration", "failed", "several items")

    # spec language
    def sum(self, n, f):
        v = T.fresh("_q")
        T.CTX.vdim[v] = S.ix_of(n)
        if isinstance(n, int):
            r = 0
            for k in range(n):
                r = f(k) + r
            return r
        p = S.asarr(f(S.SInt(IX.var(v)))).p()
        return S.scal(T.psum(p, v, S.ix_of(n)))

    def prod_log(self, *a):
        raise NotImplementedError

    def conj(self, x):
        return S.npconj(x)

    def re(self, x):
        return S.npreal(x)

    def abs(self, x):
        return S.npabs(x)

    def abs2(self, x):
        x = S.asarr(x)
        return x * S.npconj(x)

    def sqrt(self, x):
        return S.npsqrt(x)

    def log(self, x):
        return S.nplog(x)

    def exp(self, x):
        return S.npexp(x)

    def maximum(self, x, y):
        return S.npmaximum(x, y)

    def sign(self, x):
        return S.npsign(x)

    def minimum(self, x, y):
        return S.npminimum(x, y)

    def delta(self, i, j):
        return S.scal(T.delta(S.ix_of(i), S.ix_of(j)))

    def lt(self, i, j):
        return S.scal(T.iv_lt(S.ix_of(i), S.ix_of(j)))

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.ex.record(label, "proved", backend="execution")
            return
        except (Unsupported, Budget, PathDone):
            raise
        except Exception as e:  # noqa
            self.ex.record(label, "failed", "raised %s instead of %s" % (type(e).__name__, exc.__name__))
            return
        self.ex.record(label, "failed", "did not raise %s" % exc.__name__)

    def intarray(self, name, shape, hi):
        """integer array with entries in [0, hi)"""
        T.CTX.decl[name] = dict(real=True, sign="nonneg", irange=(T.ZERO_IX, S.ix_of(hi)), intarr=True)
        fn = lambda idx: T.pint(T.mk_iapp(name, list(idx)))
        a = S.SymArray(shape, "i", fn, name=name)
        a.st.name = name
        return a

    def num(self, x):
        return S.asarr(x)

    def mask(self, m):
        """boolean mask: (selected positions g, rank h) with g(h(i)) = i where the mask holds"""
        arr, h = S.mask_select(m)
        return (lambda k: S.SInt(S.ix_of_p(arr.snap()((S.ix_of(k),))))), (lambda i: S.SInt(h(S.ix_of(i))))

    def complex_cbrt(self, x):
        return S.complex_cbrt(x)

    def rat(self, a, b=1):
        return Fraction(a, b)

    def pw(self, x, e):
        return S.asarr(x) ** e

    def inv(self, n, f):
        """inverse of the n x n matrix with entries f(r,c); returns g(i,j)"""
        r, c = T.fresh("_q"), T.fresh("_q")
        for v in (r, c):
            T.CTX.vdim[v] = S.ix_of(n)
        body = S.asarr(f(S.SInt(IX.var(r)), S.SInt(IX.var(c)))).p()
        return lambda i, j: S.scal(T.mk_lam("inv", [(r, S.ix_of(n)), (c, S.ix_of(n))], [body], (S.ix_of(i), S.ix_of(j))))

    def logabsdet(self, n, f):
        r, c = T.fresh("_q"), T.fresh("_q")
        for v in (r, c):
            T.CTX.vdim[v] = S.ix_of(n)
        body = S.asarr(f(S.SInt(IX.var(r)), S.SInt(IX.var(c)))).p()
        return S.scal(T.mk_lam("lad", [(r, S.ix_of(n)), (c, S.ix_of(n))], [body], ()))

    # obligations
    def _fresh_idx(self, dims):
        out = []
        for d in dims:
            if isinstance(d, int) and d == 1:
                out.append(0)
                continue
            v = T.fresh("_i")
            T.CTX.vdim[v] = S.ix_of(d)
            out.append(S.SInt(IX.var(v)))
        T.CTX.bump()
        return out

    def forall(self, label, dims, fn, where=None):
        """for all indices: lhs == rhs"""
        idx = self._fresh_idx(dims)
        if where is not None:
            w = where(*idx)
            ws = w if isinstance(w, (list, tuple)) else [w]
            facts = []
            for c in ws:
                if c is False:
                    self.ex.record(label, "proved", "vacuous")
                    return
                if isinstance(c, S.SBool):
                    facts.append((c.kind, c.ix))
            with T.with_facts(facts):
                if T.int_feasible() is False:
                    return
                self._prove_eq(label, fn(*idx), idx)
            return
        self._prove_eq(label, fn(*idx), idx)

    def _prove_eq(self, label, lr, idx=()):
        if isinstance(lr, tuple):
            l, r = lr
        else:
            l, r = lr, 0
        if isinstance(l, (bool, S.SBool)) :
            raise TypeError("equation expected")
        lp, rp = S.asarr(l).p(), S.asarr(r).p()
        self.ex.symtrace.append((label, [str(i.ix) if isinstance(i, S.SInt) else i for i in idx], lp, rp, list(T.CTX.facts) + [("data", k) for k in T.CTX.datafacts]))
        p = psub(lp, rp)
        n0 = T.STATS.get("nra", 0)
        res = T.prove_zero(p)
        if res is True:
            self.ex.record(label, "proved", backend="normaliser" if T.STATS.get("nra", 0) == n0 else "z3 (nonlinear reals)")
        else:
            self.ex.record(label, "failed", "does not normalise to zero%s: %s" % (" under %s" % (res[0],) if res[0] else "", str(res[1])[: int(os.environ.get("VC_TRUNC", "1500"))]))

    def forall_pos(self, label, dims, fn, strict=False):
        idx = self._fresh_idx(dims)
        p = S.asarr(fn(*idx)).p()
        s = T.psign(p)
        if s == "pos" or (s == "nonneg" and not strict):
            self.ex.record(label, "proved", backend="sign analysis")
        else:
            p2 = T.rebuild(p)
            s = T.psign(p2)
            if s == "pos" or (s == "nonneg" and not strict):
                self.ex.record(label, "proved", backend="sign analysis")
            else:
                if z3real.nonneg(p2, strict):
                    self.ex.record(label, "proved", backend="z3 (nonlinear reals)")
                    return
                self.ex.record(label, "failed", "sign not established: %s" % str(p2)[:1000])

    def ensure_int(self, label, cond):
        if cond is True:
            self.ex.record(label, "proved", backend="z3")
        elif isinstance(cond, S.SBool):
            ok = T.int_query((cond.kind, cond.ix))
            self.ex.record(label, "proved" if ok else "failed", "" if ok else "%s %s not entailed" % (cond.ix, cond.kind), backend="z3")
        else:
            self.ex.record(label, "failed", "%r" % (cond,))

    def ensure(self, label, cond, detail=""):
        self.ex.record(label, "proved" if cond else "failed", detail, backend="execution")

    def shape(self, label, a, shape):
        if not isinstance(a, S.SymArray):
            self.ex.record(label, "failed", "not an array: %r" % (a,))
            return
        ok = len(a.shape) == len(shape)
        for x, y in zip(a.shape, shape):
            ok = ok and T.int_query(("eq0", S.ix_of(x) - S.ix_of(y)))
        self.ex.record(label, "proved" if ok else "failed", "" if ok else "shape %s, expected %s" % (a.shape, shape), backend="z3")

    def ascending(self, label, arr):
        """last axis is ascending: it is the eigenvalue output of numpy.linalg.eigh in its own order"""
        idx = self._fresh_idx(arr.shape)
        p = arr[tuple(idx)].p()
        a = T.single_atom(p)
        ok = a is not None and a.kind == "lam" and a.name == "eigw" and a.idx[-1] is idx[-1].ix
        self.ex.record(label, "proved" if ok else "failed", "" if ok else "not an ascending spectrum: %s" % p)

    def ordered(self, label, dims, fn, direction):
        """fn(.., k) is monotone in its last index: a nonnegative multiple of an eigenvalue list in numpy's ascending order,
        read forwards (ascending) or backwards (descending)"""
        idx = self._fresh_idx(dims)
        p = T.rebuild(S.asarr(fn(*idx)).p())
        v = idx[-1].ix.as_var()
        ok = False
        if len(p.terms) == 1:
            c, b, f = p.terms[0]
            w = [(a, e) for a, e in f if a.kind == "lam" and a.name == "eigw"]
            rest = [(a, e) for a, e in f if not (a.kind == "lam" and a.name == "eigw")]
            if len(w) == 1 and w[0][1] == 1 and not b and c > 0:
                k = w[0][0].idx[-1]
                s = 1 if direction == "ascending" else -1
                step = k.subst({v: IX.var(v) + 1}) - k
                ok = step.is_const() and step.value() == s and v not in set().union(*[a.fv for a, _ in rest], *[x.fv for x in w[0][0].idx[:-1]], *[q.fv for q in w[0][0].args])
                ok = ok and T.mono_sign((c, (), tuple(rest))) is not None
        self.ex.record(label, "proved" if ok else "failed", "" if ok else "not a monotone spectrum: %s" % str(p)[:500])

    def unchanged(self, label, arr):
        """arr's storage has never been written (frame condition)"""
        self.ex.record(label, "proved" if arr.st.version == 0 else "failed", "" if arr.st.version == 0 else "array %s was written %d time(s)" % (arr.st.name, arr.st.version), backend="frame")

    def not_shared(self, label, a, b):
        ok = not (isinstance(a, S.SymArray) and isinstance(b, S.SymArray) and a.st is b.st)
        self.ex.record(label, "proved" if ok else "failed", "" if ok else "arrays share storage", backend="frame")

    def rule(self, name, dims, fn, guard=None):
        """assume an equation as a rewrite rule: fn(*metavariables) -> (lhs, rhs), lhs one monomial"""
        vs = []
        for d in dims:
            v = T.fresh("_m")
            T.CTX.vdim[v] = S.ix_of(d)
            vs.append(v)
        l, r = fn(*[S.SInt(IX.var(v)) for v in vs])
        g = None
        if guard is not None:
            gk = guard(*[S.SInt(IX.var(v)) for v in vs])

            def g(sol, b):
                return all(k is True or (k is not False and T.int_query((k.kind, k.ix.subst(sol)), T.binder_facts(b))) for k in (gk if isinstance(gk, (list, tuple)) else [gk]))

        T.rule_from_eq(name, vs, S.asarr(l).p(), S.asarr(r).p(), guard=g)

    def assume_identity_floor(self):
        pass


def add_psd_hook(name):
    """declare an array Hermitian positive (semi)definite in its last two axes"""
    T.CTX.decl[name]["psd"] = True
    if psd_sandwich not in T.CTX.nonneg_hook:
        T.CTX.nonneg_hook.append(psd_sandwich)


def is_psd_atom(a):
    if a.kind == "el":
        return bool(T.CTX.decl.get(a.name, {}).get("psd")) and len(a.idx) >= 2
    if a.kind == "lam" and a.name == "inv":
        return ops.psd_body_sign(a.args, a.lam) is not None
    return False


def psd_sandwich(m):
    """sum_{a,b} conj(x_a) A[..a,b] x_b >= 0 for a positive (semi)definite A"""
    c, b, f = m
    if c <= 0:
        return None
    bd = dict(b)
    for k, (a, e) in enumerate(f):
        if a.kind not in ("el", "lam") or e != 1 or len(a.idx) < 2:
            continue
        if a.idx[-2] is a.idx[-1]:
            if is_psd_atom(a):
                rest = (c, b, tuple(x for q, x in enumerate(f) if q != k))
                return "nonneg" if T.mono_sign(rest) else None
            continue
        i, j = a.idx[-2].as_var(), a.idx[-1].as_var()
        if not (i in bd and j in bd and i != j) or not is_psd_atom(a):
            continue
        if any(i in x.fv or j in x.fv for x in a.idx[:-2]):
            continue
        others = [x for q, x in enumerate(f) if q != k]

        def comp(v):
            vs = {v}
            grp = []
            left = list(others)
            ch = True
            while ch:
                ch = False
                for x in list(left):
                    if x[0].fv & vs:
                        vs |= x[0].fv & bd.keys()
                        grp.append(x)
                        left.remove(x)
                        ch = True
            return vs, grp

        vi, gi = comp(i)
        vj, gj = comp(j)
        if vi & vj:
            continue
        rest = [x for x in others if x not in gi and x not in gj]
        pi = T.normalize(T.P(((Fraction(1), tuple((v, bd[v]) for v in vi if v != i), tuple(gi)),)))
        pj = T.normalize(T.P(((Fraction(1), tuple((v, bd[v]) for v in vj if v != j), tuple(gj)),)))
        pj = T.subst(pj, {j: IX.var(i)})
        if T.pconj(pi) is pj:
            r = (c, tuple((v, d) for v, d in b if v not in vi and v not in vj), tuple(rest))
            if T.mono_sign(r):
                return "nonneg"
    return None


# --------------------------------------------------------------------------
def _noop(self, *a, **k):
    return None


class ExplicitSymCx(ExplicitFloor, SymCx):
    explicit = True

    def load(self, mod):
        m = SymCx.load(self, mod)
        if mod.startswith("ssspy.bss"):
            self.watch(SymCx.load(self, "ssspy.bss.base"))
        return m


class FrameSymCx(OwnState, SymCx):
    """evaluates only the frame conditions of a contract"""

    def load(self, mod):
        m = SymCx.load(self, mod)
        if mod.startswith("ssspy.bss"):
            self.watch(SymCx.load(self, "ssspy.bss.base"))
        return m

    def own_state(self, v):
        st = getattr(v, "st", None)
        if st is not None:
            self.own = getattr(self, "own", []) + [st]

    forall = forall_pos = ensure = ensure_int = shape = ascending = ordered = raises = _noop
    unchanged = not_shared = _noop


def run_symbolic(contract, timeout=120):
    """explore every path of a contract; returns dict(status, obligations, ...)"""
    t0 = time.time()
    ex = Explorer(contract.name)
    paths = 0
    unsupported = []
    assumptions = set()
    seen_pref = set()
    pathdims = []
    while ex.pending:
        pref = ex.pending.pop()
        key = tuple(pref)
        if key in seen_pref:
            continue
        seen_pref.add(key)
        ex.prefix, ex.trail, ex.log = pref, [], []
        ex.loop_specs, ex.loop_no, ex.writes = [], 0, None
        ex.assumed = set()
        paths += 1
        if paths > MAXPATHS or time.time() - t0 > timeout:
            unsupported.append("path/time budget exhausted after %d paths" % paths)
            break
        T.new_ctx()
        L.reset()
        S.EXPLORER = ex
        cx = FrameSymCx(ex) if contract.frame is not None else ExplicitSymCx(ex) if contract.explicit else SymCx(ex)
        ex.frame_only = contract.frame is not None
        n0 = len(ex.obls)
        try:
            contract.fn(cx)
            if ex.frame_only:
                for nm, a in cx.inputs.items():
                    if nm not in contract.frame and not any(a.st is st for st in getattr(cx, "own", ())):
                        SymCx.unchanged(cx, "%s is not written" % nm, a)
                if len(ex.obls) == n0:
                    ex.record("the calls are made with the object's own state only", "proved", backend="frame")
            ex.record("path completes", "proved", backend="execution") if len(ex.obls) == n0 else None
        except PathDone:
            pass
        except (Unsupported, Budget) as e:
            unsupported.append("%s [%s] path: %s" % (e, type(e).__name__, "; ".join(ex.log)))
        except NotImplementedError as e:
            unsupported.append("NotImplementedError: %s" % e)
        except RecursionError:
            unsupported.append("recursion limit")
        except Exception as e:  # the code under contract raised
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = tb and tb[-1].filename.startswith(L.REPO)
            insym = tb and ("/vc/" in tb[-1].filename)
            msg = "%s: %s at %s" % (type(e).__name__, e, "%s:%d" % (tb[-1].filename, tb[-1].lineno) if tb else "?")
            if (isinstance(e, (ValueError, IndexError, LinAlgErr)) and not (insym and isinstance(e, RecursionError))) or inrepo:
                if ex.frame_only:
                    unsupported.append("the call raises: " + msg)
                else:
                    ex.record("no exception on any feasible path", "failed", msg)
            else:
                unsupported.append("engine exception " + msg + " " + "".join(traceback.format_tb(e.__traceback__)[-4:]))
        cx.undo()
        # a path the code takes only beyond the sizes that are sampled: an instance of it is replayed (see runner)
        if not ex.frame_only:
            try:
                m = T.int_model(sorted(cx.dims))
            except Exception:  # noqa
                m = None
            if m and max(m.values()) > 3 and m not in pathdims:
                pathdims.append(m)
        assumptions |= T.CTX.assumptions
    obls = ex.obls
    return dict(
        name=contract.name,
        obligations=obls,
        unsupported=unsupported,
        paths=paths,
        wall=time.time() - t0,
        assumptions=assumptions,
        symtrace=ex.symtrace,
        pathdims=pathdims,
    )


LinAlgErr = np.linalg.LinAlgError
