"""Numeric evaluation of the same contracts on the real code (replay / counterexample search)
and the context of the bounded stand-ins."""

import importlib
import itertools
import os
import random
import sys
import traceback
import warnings
from fractions import Fraction

import numpy as np

from .registry import ExplicitFloor, OwnState

REPO = os.environ.get("VERIF_REPO", "/repo")
TOL = 1e-5


class Skip(Exception):
    pass


class Violation(Exception):
    pass


def load_real(mod):
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    m = importlib.import_module(mod)
    return m


def relerr(a, b):
    a = np.asarray(a, dtype=complex)
    b = np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            return float("inf")
    if a.size == 0:
        return 0.0
    bad = ~np.isfinite(a) | ~np.isfinite(b)
    if bad.any():
        ok = (a == b) | (np.isnan(a) & np.isnan(b))
        if not ok[bad].all():
            return float("inf")
        a, b = np.where(bad, 0, a), np.where(bad, 0, b)
    return float(np.max(np.abs(a - b) / (1 + np.maximum(np.abs(a), np.abs(b)))))


class NumCx:
    explicit = False  # see registry.ExplicitFloor
    symbolic = False

    def __init__(self, seed, dims=None, tol=TOL, big=False):
        self.seed = seed
        self.rng = np.random.default_rng(seed)
        self.force = dict(dims or {})
        self.np = np
        self.tol = tol
        self.big = big
        self.dims = {}
        self.inputs = {}
        self._snap = []
        self.viol = []
        self.checked = 0
        self._undo = []
        self.trace = []  # (label, idx, lhs, rhs) for engine conformance
        self.ufns = {}
        self.labels = {}
        self.err = {}
        self.linalg = None

    # ---- declarations
    def dim(self, name, lo=1, hi=None, nlo=None, nhi=None):
        if name in self.dims:
            return self.dims[name]
        if name in self.force and self.force[name] is not None:
            v = int(self.force[name])
            if v < lo or (hi is not None and v > hi):
                raise Skip("dims")
        else:
            lo = max(lo, nlo or lo)
            h = lo + (4 if self.big else 3)
            for b in (hi, nhi):
                if b is not None:
                    h = min(h, b)
            v = int(self.rng.integers(lo, h + 1))
        self.dims[name] = v
        return v

    def require(self, cond):
        if not cond:
            raise Skip("require")

    def index(self, name, n):
        if name in self.force and 0 <= self.force[name] < n:
            v = int(self.force[name])
        else:
            v = int(self.rng.integers(0, n))
        self.dims[name] = v
        return v

    def _raw(self, shape, kind):
        if np.prod([float(n) for n in shape]) > 1.5e7:
            raise Skip("too large to replay")
        x = self.rng.standard_normal(shape)
        if kind == "c":
            x = x + 1j * self.rng.standard_normal(shape)
        return x

    def assume(self, cond):
        if not cond:
            raise Skip("assume")

    def scalar(self, name, sign=None, real=True, lo=None, hi=None):
        if hi is not None:
            l = lo if lo is not None else (0.02 * hi if sign == "pos" else -3.0)
            x = float(self.rng.uniform(l, hi))
            self.inputs[name] = x
            return x
        x = self._raw((), "f" if real else "c")
        if sign in ("pos", "nonneg"):
            x = abs(x) + 0.05
        if lo is not None:
            x = lo + abs(x)
        x = x.item() if hasattr(x, "item") else x
        self.inputs[name] = x
        return x

    def array(self, name, shape, kind="c", sign=None, herm=False, invertible=False, psd=False, pd=False, unitary=False, **k):
        shape = tuple(int(s) for s in shape)
        x = self._raw(shape, kind)
        if psd or pd:
            n = shape[-1]
            x = self._raw(shape[:-1] + (n + 2,), kind)
            x = x @ x.conj().swapaxes(-1, -2)
            x = x + 0.1 * np.eye(n)
        elif herm:
            x = (x + x.conj().swapaxes(-1, -2)) / 2
        elif unitary:
            x, _ = np.linalg.qr(x)
        elif sign in ("pos", "nonneg"):
            x = np.abs(x) + 0.05
        elif kind == "b":
            x = x > 0
        elif kind == "i":
            x = np.round(x * 3).astype(int)
        if sign == "nonneg" and x.size > 1 and k.get("zeros"):
            m = self.rng.random(x.shape) < 0.2
            x = np.where(m, 0, x)
        x = np.ascontiguousarray(x)
        self.inputs[name] = x
        self._snap.append((name, x, x.copy()))
        return x

    def track(self, name, x):
        """an array the contract prepared itself: handed in like c.array's"""
        self._snap.append((name, x, x.copy()))
        return x

    def retrack(self):
        """the contract has finished preparing the arrays it tracks"""
        self._snap = [(n, x, x.copy()) for n, x, _ in self._snap]

    def svd_array(self, name, batch, n, kind="c"):
        return self.array(name, tuple(batch) + (n, n), kind)

    def intarray(self, name, shape, hi):
        x = self.rng.integers(0, hi, size=tuple(int(s) for s in shape))
        self.inputs[name] = x
        self._snap.append((name, x, x.copy()))
        return x

    fresh_array = array

    def load(self, mod):
        return load_real(mod)

    def stub(self, obj, attr, val):
        had = attr in vars(obj)
        old = vars(obj).get(attr)
        self._undo.append((obj, attr, had, old))
        setattr(obj, attr, val)

    def fresh_from(self, shape, fn, kind="f"):
        out = np.zeros(tuple(int(d) for d in shape), dtype=complex if kind == "c" else float)
        for idx in np.ndindex(*out.shape):
            out[idx] = np.real(fn(*idx)) if kind == "f" else fn(*idx)
        return out

    def ufunc(self, name, sign=None):
        a, b, c = self.rng.uniform(0.4, 1.6, size=3)
        if sign in ("pos", "nonneg"):
            f = lambda x: a * np.exp(-b * np.tanh(np.real(x))) + c + 0.3 * np.abs(np.real(x))
        else:
            f = lambda x: a * np.tanh(b * np.real(x)) + c * np.real(x)
        self.ufns[name] = f
        return f

    def loops(self, *specs):
        pass

    def foreach(self, label, make, count, fn):
        items = list(make())
        self.checked += 1
        if len(items) != count:
            self._bad(label + ": number of items", "%d items, expected %s" % (len(items), count))
            return
        for k, x in enumerate(items):
            fn(k, x)

    # ---- spec language
    def sum(self, n, f):
        return sum((f(k) for k in range(n)), 0)

    def conj(self, x):
        return np.conj(x)

    def re(self, x):
        return np.real(x)

    def abs(self, x):
        return np.abs(x)

    def abs2(self, x):
        return np.abs(x) ** 2

    def sqrt(self, x):
        return np.sqrt(x)

    def log(self, x):
        return np.log(x)

    def exp(self, x):
        return np.exp(x)

    def maximum(self, x, y):
        return np.maximum(x, y)

    def minimum(self, x, y):
        return np.minimum(x, y)

    def sign(self, x):
        return np.sign(x)

    def delta(self, i, j):
        return 1.0 if i == j else 0.0

    def lt(self, i, j):
        return 1.0 if i < j else 0.0

    def num(self, x):
        return x

    def mask(self, name, shape):
        return (self.rng.random(tuple(int(s) for s in shape)) < 0.6) * 1.0

    def rat(self, a, b=1):
        return a / b

    def pw(self, x, e):
        return x**e

    def matrix(self, n, f):
        return np.array([[f(i, j) for j in range(n)] for i in range(n)])

    def inv(self, n, f):
        m = np.linalg.inv(self.matrix(n, f))
        return lambda i, j: m[i, j]

    def logabsdet(self, n, f):
        return np.linalg.slogdet(self.matrix(n, f))[1]

    # ---- obligations
    def _bad(self, label, detail):
        self.viol.append((label, detail))

    def forall(self, label, dims, fn, where=None):
        rngs = [range(int(d)) for d in dims]
        tot = 1
        for r in rngs:
            tot *= len(r)
        combos = itertools.product(*rngs)
        if tot > 200:
            pick = set(int(x) for x in self.rng.choice(tot, size=200, replace=False))
            combos = (cb for k, cb in enumerate(itertools.product(*rngs)) if k in pick)
        first = True
        for idx in combos:
            if where is not None:
                w = where(*idx)
                if not all(w if isinstance(w, (list, tuple)) else [w]):
                    continue
            lr = fn(*idx)
            l, r = lr if isinstance(lr, tuple) else (lr, 0)
            self.checked += 1
            e = relerr(l, r)
            if first or len(self.trace) < 400:
                self.trace.append((label, idx, l, r))
                first = False
            if not e <= self.tol:
                self._bad(label, "at index %s: %s != %s (relative difference %.3g)" % (idx, l, r, e))
                if e == e:
                    self.err[label] = max(e, self.err.get(label, 0))
                return

    def forall_pos(self, label, dims, fn, strict=False):
        for idx in itertools.product(*[range(int(d)) for d in dims]):
            v = fn(*idx)
            self.checked += 1
            if not np.all(np.real(v) >= -self.tol) or not np.all(np.abs(np.imag(v)) <= self.tol):
                self._bad(label, "at index %s: %s is negative" % (idx, v))
                return

    def ensure_int(self, label, cond):
        self.checked += 1
        if not cond:
            self._bad(label, "condition is false")

    def ensure(self, label, cond, detail=""):
        self.checked += 1
        if not cond:
            self._bad(label, detail or "condition is false")

    def shape(self, label, a, shape):
        self.checked += 1
        if tuple(np.shape(a)) != tuple(int(s) for s in shape):
            self._bad(label, "shape %s, expected %s" % (np.shape(a), tuple(shape)))

    def ascending(self, label, arr):
        self.checked += 1
        if np.any(np.diff(arr, axis=-1) < -self.tol):
            self._bad(label, "not ascending: %s" % arr)

    def ordered(self, label, dims, fn, direction):
        s = 1 if direction == "ascending" else -1
        for lead in itertools.product(*[range(int(d)) for d in dims[:-1]]):
            v = [complex(fn(*lead, k)).real for k in range(int(dims[-1]))]
            self.checked += 1
            if any(s * (b - a) < -self.tol * (1 + abs(a)) for a, b in zip(v, v[1:])):
                self._bad(label, "not %s at %s: %s" % (direction, lead, v))
                return

    def unchanged(self, label, arr):
        self.checked += 1
        for name, x, old in self._snap:
            if x is arr:
                if relerr(x, old) != 0:
                    self._bad(label, "input array %s was modified" % name)
                return

    def not_shared(self, label, a, b):
        self.checked += 1
        if np.shares_memory(a, b):
            self._bad(label, "arrays share memory")

    def rule(self, *a, **k):
        pass

    def raises(self, label, exc, fn):
        self.checked += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:  # noqa
            self._bad(label, "raised %s instead of %s" % (type(e).__name__, exc.__name__))
            return
        self._bad(label, "did not raise %s" % exc.__name__)

    def undo(self):
        for obj, attr, had, old in reversed(self._undo):
            if had:
                setattr(obj, attr, old)
            else:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass


def _noop(self, *a, **k):
    return None


class ExplicitNumCx(ExplicitFloor, NumCx):
    explicit = True

    def load(self, mod):
        m = NumCx.load(self, mod)
        if mod.startswith("ssspy.bss"):
            self.watch(NumCx.load(self, "ssspy.bss.base"))
        return m


class FrameNumCx(OwnState, NumCx):
    """evaluates only the frame conditions of a contract"""

    def load(self, mod):
        m = NumCx.load(self, mod)
        if mod.startswith("ssspy.bss"):
            self.watch(NumCx.load(self, "ssspy.bss.base"))
        return m

    def own_state(self, v):
        if isinstance(v, np.ndarray):
            self._snap = [t for t in self._snap if not np.shares_memory(t[1], v)]

    forall = forall_pos = ensure = ensure_int = shape = ascending = ordered = raises = foreach = _noop
    unchanged = not_shared = _noop


def run_numeric(con, seed, dims=None, tol=TOL, big=False):
    """evaluate a contract on the real code; returns (status, violations, cx)"""
    cx = (FrameNumCx if con.frame is not None else ExplicitNumCx if con.explicit else NumCx)(seed, dims, tol, big)
    np.random.seed(seed % (2**32))
    random.seed(seed)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            con.fn(cx)
            if con.frame is not None:
                for name, x, old in cx._snap:
                    if name not in con.frame:
                        cx.checked += 1
                        if relerr(x, old) != 0:
                            cx._bad("%s is not written" % name, "input array %s was modified" % name)
        except Skip as e:
            return "skip", [], cx
        except NotImplementedError as e:
            if con.frame is not None or any("/contracts/" in f.filename for f in traceback.extract_tb(e.__traceback__)[-1:]):
                return "skip", [], cx
            cx._bad("no exception on any feasible path", "NotImplementedError: %s" % e)
        except MemoryError:
            return "skip", [], cx
        except np.linalg.LinAlgError as e:
            if con.frame is None and any(k in str(e) for k in ("must be square", "dimensional", "incompatible")):
                cx._bad("no exception on any feasible path", "LinAlgError: %s" % e)
            else:
                cx.linalg = str(e) if con.frame is None else None
                return "skip", [], cx
        except Exception as e:  # noqa
            if con.frame is not None:  # other contracts decide whether the call may raise
                return "skip", [], cx
            tb = traceback.extract_tb(e.__traceback__)
            cx._bad("no exception on any feasible path", "%s: %s at %s:%s" % (type(e).__name__, e, tb[-1].filename, tb[-1].lineno))
        finally:
            cx.undo()
    return ("violated" if cx.viol else "ok"), cx.viol, cx


# --------------------------------------------------------------------------
class BoundedCx:
    """context of a bounded stand-in: concrete executions of the real code against an oracle"""

    def __init__(self, name, prop, tier, seed, known=()):
        self.name, self.prop, self.tier, self.seed = name, prop, tier, seed
        self.rng = np.random.default_rng(seed)
        self.thorough = tier == "thorough"
        self.viol = []
        self.known_hit = []
        self.known = list(known)
        self.n = 0
        self.cases = 0
        self.np = np
        self.case_id = None

    def load(self, mod):
        return load_real(mod)

    def case(self, cid):
        """identify the concrete history being executed"""
        self.case_id = cid
        self.cases += 1
        self.rng = np.random.default_rng([self.seed, abs(hash_str(cid)) % (2**31)])
        np.random.seed((self.seed * 7919 + hash_str(cid)) % (2**32))
        random.seed(self.seed * 7919 + hash_str(cid))
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def bad(self, label, detail):
        key = "%s | %s" % (self.case_id, label)
        for k in self.known:
            if k["property"] == self.prop and k["case"] == self.case_id and k["label"] == label:
                self.known_hit.append((k, detail))
                return
        self.viol.append((label, "case %s: %s" % (self.case_id, detail)))

    def check(self, label, cond, detail=""):
        assert isinstance(label, str)
        self.n += 1
        if not cond:
            self.bad(label, detail or "condition is false")

    def close(self, label, a, b, tol=1e-6, detail=""):
        self.n += 1
        e = relerr(a, b)
        if not e <= tol:
            self.bad(label, "relative difference %.3g %s" % (e, detail))

    def same(self, label, a, b, detail=""):
        self.n += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
            self.bad(label, "values differ %s" % detail)

    def attempt(self, label, fn):
        """run fn; an exception is a violation. returns (ok, value)"""
        self.n += 1
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                return True, fn()
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            self.bad(label, "%s: %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno))
            return False, None


def hash_str(s):
    import zlib

    return zlib.crc32(str(s).encode())
