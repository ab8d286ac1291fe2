"""Symbolic arrays with symbolic dimensions, and the numpy facade used while verifying."""

from fractions import Fraction
import functools
import itertools
import numbers

import numpy as _np

from . import terms as T
from . import ops
from .terms import IX, P, Unsupported, pconst, pmul, padd, psub, pneg, ppow, subst

# --------------------------------------------------------------------------
# explorer interface (set by explore.py)
# --------------------------------------------------------------------------
EXPLORER = None


class SymRaise(Exception):
    pass


def decide_int(kind, ix):
    if ix.is_const():
        v = ix.value()
        return {"ge0": v >= 0, "eq0": v == 0, "ne0": v != 0}[kind]
    if T.int_query((kind, ix)):
        return True
    neg = {"ge0": ("ge0", -ix - 1), "eq0": ("ne0", ix), "ne0": ("eq0", ix)}[kind]
    if T.int_query(neg):
        return False
    return EXPLORER.fork_int((kind, ix), neg)


class SBool:
    def __init__(self, kind, ix):
        self.kind, self.ix = kind, ix

    def __bool__(self):
        return decide_int(self.kind, self.ix)

    def p(self):
        if self.kind == "ne0":
            return psub(pconst(1), T.mk_iv("eq0", self.ix))
        return T.mk_iv(self.kind, self.ix)


def mkbool(kind, ix):
    if ix.is_const():
        v = ix.value()
        return {"ge0": v >= 0, "eq0": v == 0, "ne0": v != 0}[kind]
    return SBool(kind, ix)


class SInt:
    __slots__ = ("ix",)
    __array_ufunc__ = None

    def __init__(self, ix):
        self.ix = ix

    # arithmetic
    def __add__(self, o):
        return _ib(self, o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return _ib(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        return _ib(self, o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return SymSeqRep(o, self)
        return _ib(self, o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        o = ix_of(o)
        return mkint(T.divmod_ix(self.ix, o)[0])

    def __rfloordiv__(self, o):
        return mkint(T.divmod_ix(ix_of(o), self.ix)[0])

    def __mod__(self, o):
        return mkint(T.divmod_ix(self.ix, ix_of(o))[1])

    def __rmod__(self, o):
        return mkint(T.divmod_ix(ix_of(o), self.ix)[1])

    def __divmod__(self, o):
        q, r = T.divmod_ix(self.ix, ix_of(o))
        return mkint(q), mkint(r)

    def __truediv__(self, o):
        return scal(self) / o

    def __rtruediv__(self, o):
        return asarr(o) / scal(self)

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = IX.const(1)
            for _ in range(o):
                r = r * self.ix
            return mkint(r)
        return scal(self) ** o

    def __rpow__(self, o):
        return asarr(o) ** scal(self)

    def __neg__(self):
        return mkint(-self.ix)

    def __pos__(self):
        return self

    def __abs__(self):
        if decide_int("ge0", self.ix):
            return self
        return -self

    def _cmp(self, o, f):
        if isinstance(o, (int, SInt)) and not isinstance(o, bool):
            return f(self.ix, ix_of(o))
        if isinstance(o, float) and o == int(o):
            return f(self.ix, IX.const(int(o)))
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: mkbool("eq0", a - b))

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: mkbool("ne0", a - b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: mkbool("ge0", b - a - 1))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: mkbool("ge0", b - a))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: mkbool("ge0", a - b - 1))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: mkbool("ge0", a - b))

    def __hash__(self):
        return hash(("SInt", id(self.ix)))

    def __bool__(self):
        return decide_int("ne0", self.ix)

    def __index__(self):
        raise Unsupported("symbolic integer %s used where a concrete integer is required" % self.ix)

    __int__ = __index__

    def __repr__(self):
        return "<%s>" % self.ix

    def item(self):
        return self


class SymSeqRep:
    def __init__(self, seq, n):
        self.seq, self.n = list(seq), n


def ix_of(x):
    if isinstance(x, IX):
        return x
    if isinstance(x, SInt):
        return x.ix
    if isinstance(x, bool):
        return IX.const(int(x))
    if isinstance(x, numbers.Integral):
        return IX.const(int(x))
    if isinstance(x, float) and x == int(x):
        return IX.const(int(x))
    if isinstance(x, SymArray) and x.shape == () and x.kind == "i":
        return ix_of_p(x.p())
    raise Unsupported("not an integer: %r" % (x,))


def ix_of_p(p):
    r = IX.const(0)
    for c, b, f in p.terms:
        if b or c.denominator != 1:
            raise Unsupported("integer value expected: %s" % p)
        t = IX.const(int(c))
        for a, e in f:
            if isinstance(e, P) or e.denominator != 1 or e < 0:
                raise Unsupported("integer value expected")
            if a.kind == "int":
                v = a.idx[0]
            elif a.kind == "el" and T.CTX.decl[a.name].get("int"):
                v = T.mk_iapp(a.name, a.idx)
            else:
                raise Unsupported("integer value expected: %s" % a)
            for _ in range(int(e)):
                t = t * v
        r = r + t
    return r


def int_alts(p):
    """an integer-valued P as a list of (condition, index): either one unconditional index, or a table
    sum_v v * [indicator of v] whose indicators are checked to exclude each other"""
    try:
        return [(pconst(1), ix_of_p(p))]
    except Unsupported:
        pass
    by = {}
    for c, b, f in p.terms:
        if b or c.denominator != 1 or c <= 0 or any(isinstance(e, P) or a.kind != "iv" for a, e in f):
            raise Unsupported("integer value expected: %s" % p)
        by.setdefault(int(c), []).append(T.normalize(T.P(((type(c)(1), b, f),))))
    ts = [t for l in by.values() for t in l]
    for i in range(len(ts)):
        for j in range(i):
            if T.normalize(pmul(ts[i], ts[j])).terms:
                raise Unsupported("integer value expected: %s" % p)
    out, rest = [], pconst(1)
    for v, l in sorted(by.items()):
        q = pconst(0)
        for t in l:
            q = padd(q, t)
        out.append((q, IX.const(v)))
        rest = psub(rest, q)
    return out + [(rest, IX.const(0))]


def _ib(a, b, f):
    if isinstance(b, (int, SInt)) and not isinstance(b, bool):
        return mkint(f(a.ix, ix_of(b)))
    if isinstance(b, numbers.Integral):
        return mkint(f(a.ix, IX.const(int(b))))
    if isinstance(b, (float, complex, Fraction)):
        return scal(pconst_of(f(_Px(T.pint(a.ix)), _Px(pconst(b)))))
    return NotImplemented


class _Px:
    def __init__(self, p):
        self.p = p

    def __add__(self, o):
        return _Px(padd(self.p, o.p))

    def __sub__(self, o):
        return _Px(psub(self.p, o.p))

    def __mul__(self, o):
        return _Px(pmul(self.p, o.p))


def pconst_of(x):
    return x.p if isinstance(x, _Px) else x


def mkint(ix):
    return ix.value() if ix.is_const() else SInt(ix)


def is_int(x):
    return isinstance(x, (SInt, numbers.Integral)) and not isinstance(x, bool)


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------
class Storage:
    __slots__ = ("fn", "shape", "version", "name", "_gen", "owner")

    def __init__(self, fn, shape, name=None):
        self.fn = fn
        self.shape = shape
        self.version = 0
        self.name = name
        self.owner = None


class _Piecewise(Exception):
    """a concatenation was read at an index whose part is not decided"""


GENERIC = [0]


def memo_fn(fn, shape):
    """memoise by generic evaluation + substitution; arrays that read a concatenation of symbolic
    parts are evaluated at the very index asked for, so that the part can be decided"""
    cell = {}

    def f(idx):
        key = tuple(idx)
        if "direct" in cell:
            if cell["direct"] != T.CTX.gen:
                cell["direct"] = T.CTX.gen
                cell["vals"] = {}
            r = cell["vals"].get(key)
            if r is None:
                r = cell["vals"][key] = fn(key)
            return r
        st = cell.get("gen")
        if st is None or st[2] != T.CTX.gen:
            vs = []
            for d in shape:
                v = T.fresh("_g")
                T.CTX.vdim[v] = ix_of(d)
                vs.append(v)
            GENERIC[0] += 1
            try:
                p = fn(tuple(IX.var(v) for v in vs))
            except _Piecewise:
                cell["direct"] = None
                p = None
            finally:
                GENERIC[0] -= 1
            if p is None:
                return f(idx)
            st = (vs, p, T.CTX.gen)
            cell["gen"] = st
        vs, p, _ = st
        return subst(p, dict(zip(vs, key)))

    return f


class _ForwardDT:
    def __init__(self, kind):
        self.kind = kind
        self.name = {"f": "float64", "c": "complex128", "i": "int64", "b": "bool"}[kind]

    def __eq__(self, o):
        return kind_of_dtype(o) == self.kind

    def __hash__(self):
        return hash(self.kind)


def kind_of_dtype(d):
    if d is None:
        return None
    if isinstance(d, _ForwardDT):
        return d.kind
    if d in (complex,) or "complex" in str(d):
        return "c"
    if d is bool or "bool" in str(d):
        return "b"
    if d is int or "int" in str(d):
        return "i"
    return "f"


KORD = {"b": 0, "i": 1, "f": 2, "c": 3}


def kmax(*ks):
    return max(ks, key=lambda k: KORD[k])


class SymArray:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, shape, kind, fn=None, st=None, axes=None, name=None, ro=False):
        self.shape = tuple(mkint(ix_of(d)) for d in shape)
        self.kind = kind
        if st is None:
            st = Storage(memo_fn(fn, self.shape), self.shape, name)
            axes = [("ax", k, IX.const(0), 1) for k in range(len(self.shape))]
        self.st = st
        self.axes = axes
        self.ro = ro

    # -- element access
    def _map(self, axes=None):
        axes = self.axes

        def m(idx):
            out = []
            for a in axes:
                if a[0] == "fix":
                    out.append(a[1])
                else:
                    _, k, start, step = a
                    out.append(start + idx[k] * step)
            return tuple(out)

        return m

    def snap(self):
        fn = self.st.fn
        m = self._map()
        return lambda idx: fn(m(idx))

    def at(self, *idx):
        return self.snap()(tuple(IX.of(i) if not isinstance(i, SInt) else i.ix for i in idx))

    def p(self):
        assert self.shape == ()
        return self.at()

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return _ForwardDT(self.kind)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = d * r
        return r

    @property
    def T(self):
        return self.transpose()

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        if isinstance(self.shape[0], SInt):
            raise Unsupported("len of symbolic dimension")
        return self.shape[0]

    def __iter__(self):
        if not self.shape:
            raise TypeError("iteration over a 0-d array")
        n = self.shape[0]
        if isinstance(n, SInt):
            raise Unsupported("iteration over a symbolic dimension")
        for k in range(n):
            yield self[k]

    # -- views
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = tuple(a % self.ndim for a in axes)
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        inv = {a: k for k, a in enumerate(axes)}
        na = []
        for a in self.axes:
            if a[0] == "ax":
                na.append(("ax", inv[a[1]], a[2], a[3]))
            else:
                na.append(a)
        return SymArray([self.shape[a] for a in axes], self.kind, st=self.st, axes=na, ro=self.ro)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        a %= self.ndim
        b %= self.ndim
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        nreal = 0
        for k in key:
            if k is Ellipsis or k is None:
                continue
            if isinstance(k, SymArray) and k.kind == "b":
                nreal += k.ndim
            else:
                nreal += 1
        if any(k is Ellipsis for k in key):
            pos = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[pos : pos + 1] = [slice(None)] * (self.ndim - nreal)
        else:
            key += [slice(None)] * (self.ndim - nreal)
        return key

    def __getitem__(self, key):
        key = self._norm_key(key)
        adv = [k for k in key if isinstance(k, (list, tuple, SymArray, _np.ndarray)) and not (isinstance(k, SymArray) and k.shape == () and k.kind == "i")]
        if adv:
            return self._adv_get(key)
        shape = []
        newax = {}  # old axis -> ("fix", ix) | ("ax", newk, start, step)
        k_old = 0
        k_new = 0
        for k in key:
            if k is None:
                shape.append(1)
                k_new += 1
                continue
            if k_old >= self.ndim:
                raise IndexError("too many indices for array")
            d = self.shape[k_old]
            if isinstance(k, slice):
                start, ln, step = norm_slice(k, d)
                newax[k_old] = ("ax", k_new, ix_of(start), step)
                shape.append(ln)
                k_new += 1
            else:
                i = norm_index(k, d)
                newax[k_old] = ("fix", i)
            k_old += 1
        if k_old != self.ndim:
            raise IndexError("too many indices for array")
        na = []
        for a in self.axes:
            if a[0] == "fix":
                na.append(a)
            else:
                _, k, start, step = a
                t = newax[k]
                if t[0] == "fix":
                    na.append(("fix", start + t[1] * step))
                else:
                    na.append(("ax", t[1], start + t[2] * step, step * t[3]))
        return SymArray(shape, self.kind, st=self.st, axes=na, ro=self.ro)

    def _adv_get(self, key):
        key = [mask_select(k)[0] if isinstance(k, SymArray) and k.kind == "b" else k for k in key]
        # integer index arrays, at one or more axes
        pos = [i for i, k in enumerate(key) if isinstance(k, (list, tuple, SymArray, _np.ndarray))]
        arrs = [asint_arr(key[i]) for i in pos]
        # plain integer indices mixed with arrays count as advanced
        for i, k in enumerate(key):
            if i not in pos and not isinstance(k, slice) and k is not None:
                pos.append(i)
                arrs.append(asint_arr(k))
        order = sorted(range(len(pos)), key=lambda q: pos[q])
        pos = [pos[q] for q in order]
        arrs = [arrs[q] for q in order]
        bshape = broadcast_shapes(*[a.shape for a in arrs])
        contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
        # first apply the slices
        base_key = [slice(None) if i in pos else k for i, k in enumerate(key)]
        v = self[tuple(base_key)]
        # axis numbering in v equals key positions (no ints dropped)
        f = v.snap()
        rest_axes = [i for i in range(v.ndim) if i not in pos]
        nb = len(bshape)
        first = pos[0] if contiguous else 0
        before = [i for i in rest_axes if i < first] if contiguous else []
        after = [i for i in rest_axes if i not in before]
        shape = [v.shape[i] for i in before] + list(bshape) + [v.shape[i] for i in after]
        gets = [int_getter(a, bshape, v.shape[pos[q]]) for q, a in enumerate(arrs)]

        def fn(idx):
            bi = idx[len(before) : len(before) + nb]
            full = [None] * v.ndim
            for q, i in enumerate(before):
                full[i] = idx[q]
            for q, i in enumerate(after):
                full[i] = idx[len(before) + nb + q]
            # each getter yields list of (cond P, IX)
            alts = [(pconst(1), [])]
            for g in gets:
                alts = [(pmul(c, c2), l + [x]) for c, l in alts for c2, x in g(bi)]
            out = pconst(0)
            for c, l in alts:
                if not c.terms:
                    continue
                ff = list(full)
                for q, i in enumerate(pos):
                    ff[i] = l[q]
                out = padd(out, pmul(c, f(tuple(ff))))
            return out

        return SymArray(shape, self.kind, fn)

    def __setitem__(self, key, val):
        if self.ro:
            raise Unsupported("write into a possible view (%s)" % self.ro)
        nk = self._norm_key(key)
        masks = [k for k in nk if isinstance(k, SymArray) and k.kind == "b"]
        val = asarr(val)
        if masks:
            if len(nk) == 1 or (len(nk) == 1 + sum(1 for k in nk if isinstance(k, slice) and k == slice(None))):
                m = masks[0]
                if nk[0] is m and m.ndim == 1 and (self.ndim > 1 or val.shape != ()):
                    sel, rank = mask_select(m)
                    val = broadcast_to(val, (sel.shape[0],) + tuple(self.shape[1:]))
                    fm, fo, fv = m.snap(), self.snap(), val.snap()

                    def fn(idx):
                        c = fm(idx[:1])
                        if not c.terms:
                            return fo(idx)
                        return padd(pmul(c, fv((rank(idx[0]),) + tuple(idx[1:]))), pmul(psub(pconst(1), c), fo(idx)))

                    self._overwrite(fn)
                    return
                if nk[0] is not m or m.ndim != self.ndim:
                    raise Unsupported("boolean mask assignment")
                if val.shape != ():
                    raise Unsupported("boolean mask assignment of an array")
                fm, fo, fv = m.snap(), self.snap(), val.snap()

                def fn(idx):
                    c = fm(idx)
                    return padd(pmul(c, fv(())), pmul(psub(pconst(1), c), fo(idx)))

                self._overwrite(fn)
                return
            raise Unsupported("boolean mask assignment")
        adv = [i for i, k in enumerate(nk) if isinstance(k, (list, tuple, _np.ndarray)) or (isinstance(k, SymArray) and k.ndim > 0)]
        if adv:
            if len(adv) == 1 and isinstance(nk[adv[0]], (list, tuple)) and not any(
                is_int(k) for i, k in enumerate(nk)
            ):
                ax = adv[0]
                lst = list(nk[ax])
                tgt_shape = []
                q = 0
                for i, k in enumerate(nk):
                    if k is None:
                        raise Unsupported("newaxis in assignment")
                shape = list(self[tuple(slice(None) if i == ax else k for i, k in enumerate(nk))].shape)
                shape[ax] = len(lst)
                val = broadcast_to(val, shape)
                vs = [val[tuple([slice(None)] * ax + [l])] for l in range(len(lst))]
                vs = [copy_arr(v) for v in vs]
                for l, k in enumerate(lst):
                    self[tuple(nk[:ax] + [k] + nk[ax + 1 :])] = vs[l]
                return
            raise Unsupported("advanced assignment")
        tgt = self[tuple(nk)]
        tgt._assign(val)

    def _overwrite(self, fn):
        """assign all elements of this view: fn over view indices"""
        shape = self.shape
        mf = memo_fn(fn, shape)
        old = self.st.fn
        axes = self.axes
        conds_needed = []
        stshape = self.st.shape

        def new(idx):
            cond = pconst(1)
            vidx = [IX.const(0)] * len(shape)
            for s, a, d in zip(idx, axes, stshape):
                if a[0] == "fix":
                    cond = pmul(cond, T.delta(s, a[1]))
                else:
                    _, k, start, step = a
                    if step == 1:
                        v = s - start
                    elif step == -1:
                        v = start - s
                    else:
                        raise Unsupported("strided assignment")
                    vidx[k] = v
                    full = start is T.ZERO_IX and step == 1 and ix_of(d) is ix_of(shape[k])
                    if not full:
                        cond = pmul(cond, T.mk_iv("ge0", v), T.mk_iv("ge0", ix_of(shape[k]) - v - 1))
                if not cond.terms:
                    break
            if not cond.terms:
                return old(idx)
            newv = mf(tuple(vidx))
            if cond is pconst(1):
                return newv
            return padd(pmul(cond, newv), pmul(psub(pconst(1), cond), old(idx)))

        self.st.fn = memo_fn(new, stshape)
        self.st.version += 1
        if EXPLORER is not None:
            EXPLORER.note_write(self.st)

    def _assign(self, val):
        val = asarr(val)
        if KORD[val.kind] > KORD[self.kind] and val.kind == "c":
            raise Unsupported("complex value assigned to a real array")
        val = broadcast_to(val, self.shape)
        fv = val.snap()
        self._overwrite(fv)

    # -- arithmetic
    def _bin(self, o, f, kind=None):
        if isinstance(o, _np.ndarray):
            o = asarr(o)
        if not isinstance(o, (SymArray, SInt, numbers.Number, Fraction, SBool)):
            return NotImplemented
        return elementwise(f, [self, asarr(o)], kind)

    def __add__(self, o):
        return self._bin(o, padd)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, psub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: psub(b, a))

    def __mul__(self, o):
        return self._bin(o, pmul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, pdiv, "div")

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: pdiv(b, a), "div")

    def __pow__(self, o):
        return self._bin(o, lambda a, b: ppow(a, b if not const_p(b) else const_p(b)[0]), "pow")

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: ppow(b, a if not const_p(a) else const_p(a)[0]), "pow")

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        if self.ro:
            raise Unsupported("in-place write into a possible view")
        if not self.shape:
            return r
        rs = broadcast_shapes(self.shape, r.shape)
        if len(rs) != self.ndim:
            raise ValueError("non-broadcastable output operand")
        for a, b in zip(rs, self.shape):
            if ix_of(a) is not ix_of(b):
                raise ValueError("non-broadcastable output operand")
        self._assign(r)
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __ipow__(self, o):
        return self._inplace(self**o)

    def __neg__(self):
        return elementwise(pneg, [self])

    def __pos__(self):
        return self

    def __abs__(self):
        return npabs(self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def _cmpop(self, o, f):
        return elementwise(f, [self, asarr(o)], "b")

    def __lt__(self, o):
        return self._cmpop(o, lambda a, b: cond_p("gt0", psub(b, a)))

    def __le__(self, o):
        return self._cmpop(o, lambda a, b: cond_p("ge0", psub(b, a)))

    def __gt__(self, o):
        return self._cmpop(o, lambda a, b: cond_p("gt0", psub(a, b)))

    def __ge__(self, o):
        return self._cmpop(o, lambda a, b: cond_p("ge0", psub(a, b)))

    def __eq__(self, o):
        if o is None:
            return False
        return self._cmpop(o, lambda a, b: cond_p("eq0", psub(a, b)))

    def __ne__(self, o):
        if o is None:
            return True
        return self._cmpop(o, lambda a, b: psub(pconst(1), cond_p("eq0", psub(a, b))))

    __hash__ = object.__hash__

    def __invert__(self):
        return elementwise(lambda a: psub(pconst(1), a), [self], "b")

    def __and__(self, o):
        return elementwise(pmul, [self, asarr(o)], "b")

    def __or__(self, o):
        return elementwise(lambda a, b: psub(padd(a, b), pmul(a, b)), [self, asarr(o)], "b")

    def __bool__(self):
        if self.shape != () and not all(d == 1 for d in self.shape):
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        p = self.at(*[IX.const(0)] * self.ndim)
        c = const_p(p)
        if c:
            return bool(c[0])
        return EXPLORER.fork_data(p)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        p = self.p()
        c = const_p(p)
        if c and c[0].denominator == 1:
            return int(c[0])
        raise Unsupported("symbolic index")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<SymArray %s %s>" % (self.shape, self.kind)

    # -- methods
    def copy(self):
        return copy_arr(self)

    def __copy__(self):
        return copy_arr(self)

    def __deepcopy__(self, memo):
        return copy_arr(self)

    def conj(self):
        return npconj(self)

    conjugate = conj

    @property
    def real(self):
        return npreal(self)

    @property
    def imag(self):
        return npimag(self)

    def sum(self, axis=None, keepdims=False, dtype=None):
        return npsum(self, axis, keepdims=keepdims)

    def mean(self, axis=None, keepdims=False):
        return npmean(self, axis, keepdims=keepdims)

    def var(self, axis=None, keepdims=False):
        return npvar(self, axis, keepdims=keepdims)

    def std(self, axis=None, keepdims=False):
        return npstd(self, axis, keepdims=keepdims)

    def max(self, axis=None, keepdims=False):
        return npmax(self, axis, keepdims=keepdims)

    def min(self, axis=None, keepdims=False):
        return npmin(self, axis, keepdims=keepdims)

    def prod(self, axis=None, keepdims=False):
        return npprod(self, axis, keepdims)

    def all(self, axis=None):
        return npall(self, axis)

    def any(self, axis=None):
        return npany(self, axis)

    def item(self):
        if all(isinstance(d, int) and d == 1 for d in self.shape):
            r = scal(self.at(*[IX.const(0)] * self.ndim))
            r.kind = self.kind
            r.is_item = True
            return r
        raise ValueError("can only convert an array of size 1 to a Python scalar")

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def astype(self, dtype, copy=True):
        k = kind_of_dtype(dtype)
        r = copy_arr(self)
        if KORD[k] < KORD[self.kind] and not (k == "f" and self.kind == "b"):
            raise Unsupported("narrowing astype")
        r.kind = k
        return r

    def diagonal(self, offset=0, axis1=0, axis2=1):
        return diagonal(self, offset, axis1, axis2)

    def trace(self, offset=0, axis1=0, axis2=1):
        return npsum(diagonal(self, offset, axis1, axis2), -1)

    def dot(self, o):
        if self.ndim <= 2 and asarr(o).ndim <= 2:
            return matmul(self, o)
        raise Unsupported("dot")

    def flatten(self):
        return reshape(self, (-1,))

    ravel = flatten

    def repeat(self, n, axis=None):
        return nprepeat(self, n, axis)

    def argsort(self, axis=-1, **k):
        return np_argsort(self, axis)

    def tolist(self):
        raise Unsupported("tolist")

    def fill(self, v):
        self._assign(v)


def cond_p(kind, p):
    # integer-valued comparisons
    try:
        if all(a.kind == "int" for _, b, f in p.terms for a, e in f) and p.terms:
            ix = ix_of_p(p)
            if kind == "eq0":
                return T.mk_iv("eq0", ix)
            if kind == "ge0":
                return T.mk_iv("ge0", ix)
            return T.mk_iv("ge0", ix - 1)
    except Unsupported:
        pass
    if not T.is_real(p):
        if kind == "eq0":
            return T.mk_ivd("eq0", p)
        raise Unsupported("ordering of complex values")
    return T.mk_ivd(kind, p)


def pdiv(a, b):
    return pmul(a, ppow(b, -1))


def const_p(p):
    if not p.terms:
        return (Fraction(0),)
    if len(p.terms) == 1 and not p.terms[0][1] and not p.terms[0][2]:
        return (p.terms[0][0],)
    return None


def norm_index(k, d):
    i = ix_of(k)
    if i.is_const():
        v = i.value()
        dd = ix_of(d)
        if dd.is_const():
            n = dd.value()
            if not -n <= v < n:
                raise IndexError("index %d is out of bounds for axis with size %d" % (v, n))
            return IX.const(v % n)
        if v < 0:
            chk("index in range", ("ge0", dd + IX.const(v)))
            return dd + IX.const(v)
        chk("index in range", ("ge0", dd - i - 1))
        return i
    if T.int_query(("ge0", i)):
        chk("index in range", ("ge0", ix_of(d) - i - 1))
        return i
    if decide_int("ge0", i):
        chk("index in range", ("ge0", ix_of(d) - i - 1))
        return i
    chk("index in range", ("ge0", ix_of(d) + i))
    return i + ix_of(d)


def chk(what, goal):
    if not T.int_query(goal):
        EXPLORER.side_condition(what, goal)


def norm_slice(s, d):
    step = 1 if s.step is None else s.step
    if step not in (1, -1):
        if isinstance(step, int) and isinstance(d, int):
            st, en, sp = s.indices(d)
            n = len(range(st, en, sp))
            return st, n, sp
        raise Unsupported("slice step %r" % (step,))
    dd = ix_of(d)
    if step == -1:
        if s.start is None and s.stop is None:
            return mkint(dd - 1), d, -1
        if isinstance(d, int) and all(isinstance(x, (int, type(None))) for x in (s.start, s.stop)):
            st, en, sp = s.indices(d)
            return st, len(range(st, en, sp)), -1
        raise Unsupported("partial reversed slice")

    def bound(x, default):
        if x is None:
            return default
        x = ix_of(x)
        if x.is_const() and dd.is_const():
            v, n = x.value(), dd.value()
            if v < 0:
                v = max(n + v, 0)
            return IX.const(min(v, n))
        neg = decide_int("ge0", -x - 1)
        if neg:
            x = dd + x
            if not decide_int("ge0", x):
                return IX.const(0)
            return x
        if decide_int("ge0", dd - x):
            return x
        return dd

    a = bound(s.start, IX.const(0))
    b = bound(s.stop, dd)
    if decide_int("ge0", b - a):
        return mkint(a), mkint(b - a), 1
    return mkint(a), 0, 1


def asint_arr(k):
    if isinstance(k, (list, tuple)):
        if any(isinstance(x, (list, tuple)) for x in k):
            raise Unsupported("nested index list")
        r = SymArray((len(k),), "i", lambda idx: None)
        r.lst = list(k)
        return r
    if isinstance(k, SymArray):
        return k
    if isinstance(k, _np.ndarray):
        return asarr(k)
    r = SymArray((), "i", lambda idx: T.pint(ix_of(k)))
    return r


def mask_select(m):
    """boolean indexing with a one-dimensional mask: the selected positions g(0..M-1) and their inverse h
    (h(i) is the rank of position i among the selected ones; only meaningful where the mask holds, g(h(i)) = i)"""
    if m.ndim != 1:
        raise Unsupported("boolean mask with several axes")
    v = "_msk"
    T.CTX.vdim[v] = ix_of(m.shape[0])
    body = m.snap()((IX.var(v),))
    reg = T.CTX.decl.setdefault("@masks", [])
    for b, d, r in reg:
        if b is body and d is ix_of(m.shape[0]):
            return r
    k = len(reg)
    g, h, M = "sel%d" % k, "rank%d" % k, "nsel%d" % k
    T.CTX.decl[g] = dict(irange=(IX.const(0), ix_of(m.shape[0])))
    T.CTX.decl[h] = dict(irange=(IX.const(0), IX.var(M)))
    T.CTX.facts.append(("ge0", IX.var(M)))
    T.CTX.facts.append(("ge0", ix_of(m.shape[0]) - IX.var(M)))
    T.CTX.bump()

    def sel(args, h=h):
        a = args[0].as_var()
        return a.args[0] if isinstance(a, T.IApp) and a.name == h else None

    T.IAPP_HOOK[g] = sel
    arr = SymArray((mkint(IX.var(M)),), "i", lambda idx: T.pint(T.mk_iapp(g, [idx[0]])))
    r = (arr, lambda i: T.mk_iapp(h, [i]))
    reg.append((body, ix_of(m.shape[0]), r))
    return r


def int_getter(a, bshape, dim):
    lst = getattr(a, "lst", None)
    off = len(bshape) - a.ndim

    def g(bi):
        bi = bi[off:]
        bi = tuple(IX.const(0) if (isinstance(d, int) and d == 1) else b for b, d in zip(bi, a.shape))
        if lst is not None:
            b = bi[0]
            if b.is_const():
                return [(pconst(1), norm_index(lst[b.value()], dim))]
            return [(T.delta(b, IX.const(q)), norm_index(x, dim)) for q, x in enumerate(lst)]
        return int_alts(a.snap()(bi))

    return g


def broadcast_shapes(*shapes):
    n = max([len(s) for s in shapes] + [0])
    out = []
    for k in range(n):
        d = None
        for s in shapes:
            q = k - (n - len(s))
            if q < 0:
                continue
            x = s[q]
            if isinstance(x, int) and x == 1:
                continue
            if d is None:
                d = x
            elif ix_of(d) is not ix_of(x):
                e = ix_of(d) - ix_of(x)
                if T.int_query(("eq0", e)):
                    continue
                if e.is_const():
                    raise ValueError("operands could not be broadcast together with shapes %s" % (shapes,))
                EXPLORER.shape_mismatch("operands could not be broadcast together: %s" % (shapes,), e)
        out.append(1 if d is None else d)
    return tuple(out)


def same_dim(a, b, what):
    if ix_of(a) is ix_of(b):
        return
    e = ix_of(a) - ix_of(b)
    if T.int_query(("eq0", e)):
        return
    EXPLORER.shape_mismatch(what, e)


def bidx(idx, shape, n):
    """index of an operand with `shape` inside a broadcast result of rank n"""
    off = n - len(shape)
    return tuple(IX.const(0) if (isinstance(d, int) and d == 1) else idx[off + k] for k, d in enumerate(shape))


def elementwise(f, arrs, kind=None):
    arrs = [asarr(a) for a in arrs]
    shape = broadcast_shapes(*[a.shape for a in arrs])
    n = len(shape)
    snaps = [(a.snap(), a.shape) for a in arrs]

    def fn(idx):
        return f(*[s(bidx(idx, sh, n)) for s, sh in snaps])

    k = kind
    if k in (None, "div", "pow"):
        k2 = kmax(*[a.kind for a in arrs])
        if k == "div" and KORD[k2] < 2:
            k2 = "f"
        if k == "pow" and KORD[k2] < 2:
            k2 = "f" if k2 != "i" else "i"
        if k2 == "b" and kind is None:
            k2 = "i"
        k = k2
    return SymArray(shape, k, fn)


def broadcast_to(a, shape):
    a = asarr(a)
    if len(a.shape) == len(shape) and all(ix_of(x) is ix_of(y) for x, y in zip(a.shape, shape)):
        return a
    r = broadcast_shapes(a.shape, shape)
    if len(r) != len(shape):
        raise ValueError("could not broadcast input array")
    for x, y in zip(r, shape):
        if ix_of(x) is not ix_of(y) and not T.int_query(("eq0", ix_of(x) - ix_of(y))):
            raise ValueError("could not broadcast input array from shape %s into shape %s" % (a.shape, shape))
    s, sh, n = a.snap(), a.shape, len(shape)
    return SymArray(shape, a.kind, lambda idx: s(bidx(idx, sh, n)))


def scal(x):
    if isinstance(x, P):
        return SymArray((), "f" if T.is_real(x) else "c", lambda idx: x)
    return asarr(x)


def asarr(x, kind=None):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, SInt):
        p = T.pint(x.ix)
        return SymArray((), "i", lambda idx: p)
    if isinstance(x, SBool):
        p = x.p()
        return SymArray((), "b", lambda idx: p)
    if isinstance(x, P):
        return scal(x)
    if isinstance(x, (bool, _np.bool_)):
        return SymArray((), "b", lambda idx: pconst(int(x)))
    if isinstance(x, numbers.Integral):
        return SymArray((), "i", lambda idx: pconst(int(x)))
    if isinstance(x, Fraction):
        return SymArray((), "f", lambda idx: pconst(x))
    if isinstance(x, numbers.Real):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return SymArray((), "f", lambda idx: pconst(float(x)))
    if isinstance(x, numbers.Complex):
        return SymArray((), "c", lambda idx: pconst(complex(x)))
    if isinstance(x, _np.ndarray):
        return from_np(x)
    if isinstance(x, (list, tuple)):
        if all(is_int(v) or isinstance(v, numbers.Number) for v in x) and not any(isinstance(v, SInt) for v in x):
            return from_np(_np.array(x))
        return np_stack([asarr(v) for v in x], 0)
    raise Unsupported("cannot convert %r to a symbolic array" % type(x))


def from_np(x):
    if x.size > 64:
        raise Unsupported("large constant array")
    k = {"f": "f", "c": "c", "i": "i", "u": "i", "b": "b"}[x.dtype.kind]

    def fn(idx):
        alts = [((), pconst(1))]
        out = pconst(0)
        for pos in itertools.product(*[range(d) for d in x.shape]):
            c = pconst(1)
            for i, q in zip(idx, pos):
                c = pmul(c, T.delta(i, IX.const(q)))
            if c.terms:
                v = x[pos]
                v = complex(v) if k == "c" else (float(v) if k == "f" else int(v))
                out = padd(out, pmul(c, pconst(v)))
        return out

    return SymArray(x.shape, k, fn)


def copy_arr(a):
    return SymArray(a.shape, a.kind, a.snap())


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------
def npconj(a):
    a = asarr(a)
    return elementwise(T.pconj, [a])


def npreal(a):
    a = asarr(a)
    if a.kind != "c":
        return a
    return elementwise(lambda p: T.pscale(padd(p, T.pconj(p)), Fraction(1, 2)), [a], "f")


def npimag(a):
    a = asarr(a)
    if a.kind != "c":
        return elementwise(lambda p: pconst(0), [a], "f")
    return elementwise(lambda p: pmul(T.pscale(psub(p, T.pconj(p)), Fraction(-1, 2)), T.I_UNIT()), [a], "f")


def npabs(a):
    a = asarr(a)
    return elementwise(T.mk_abs, [a], "f" if a.kind == "c" else a.kind)


def npsqrt(a):
    a = asarr(a)
    return elementwise(lambda p: ppow(p, Fraction(1, 2)), [a], kmax(a.kind, "f"))


def npcbrt(a):
    a = asarr(a)
    if a.kind == "c":
        raise TypeError("ufunc 'cbrt' not supported for the input types")

    def f(p):
        if T.psign(p) is not None:
            return ppow(p, Fraction(1, 3))
        return T.mk_fn("cbrt", [p])

    return elementwise(f, [a], "f")


def npangle(a):
    a = asarr(a)
    return elementwise(lambda p: T.mk_fn("angle", [p]), [a], "f")


def complex_cbrt(a):
    """contract of ssspy.linalg.cubic.cbrt for complex input: some x with x^3 = a"""
    a = asarr(a)
    T.CTX.decl["fn:ccbrt"] = dict(real=False)
    return elementwise(lambda p: T.mk_fn("ccbrt", [p]), [a], "c")


def _svd(a, *k, **kw):
    """numpy.linalg.svd of an argument the contract built as U diag(s) Vh with arbitrary unitary U, Vh and s >= 0"""
    if k or any(v is not True for v in kw.values()):
        raise Unsupported("svd options")
    reg = T.CTX.decl.get("@svd")
    if not reg:
        raise Unsupported("numpy.linalg.svd")
    X, U, s, V = reg
    a = asarr(a)
    if a.ndim != X.ndim:
        raise Unsupported("numpy.linalg.svd of another matrix")
    vs = []
    for d in X.shape:
        v = T.fresh("_h")
        T.CTX.vdim[v] = ix_of(d)
        vs.append(IX.var(v))
    if T.prove_zero(psub(X.at(*vs), a.at(*vs))) is not True:
        raise Unsupported("numpy.linalg.svd of another matrix")
    T.CTX.assumptions.add(ops.ASSUMED["svd"])
    return U, s, V


def npexp(a):
    a = asarr(a)
    return elementwise(lambda p: T.mk_fn("exp", [p]), [a], kmax(a.kind, "f"))


def nplog(a):
    a = asarr(a)
    return elementwise(T.mk_log, [a], kmax(a.kind, "f"))


def npsign(a):
    a = asarr(a)
    if a.kind == "c":
        raise Unsupported("complex sign")
    return elementwise(T.mk_sign, [a])


def fn1(name, kind="f"):
    def f(a):
        return elementwise(lambda p: T.mk_fn(name, [p]), [asarr(a)], kind)

    return f


def npmaximum(a, b):
    return elementwise(lambda x, y: T.mk_minmax("max", x, y), [asarr(a), asarr(b)])


def npminimum(a, b):
    return elementwise(lambda x, y: T.mk_minmax("min", x, y), [asarr(a), asarr(b)])


def npwhere(c, *ab):
    if not ab:
        raise Unsupported("where with one argument")
    a, b = ab
    c = asarr(c)
    if c.kind != "b":
        raise Unsupported("where on a non-boolean")
    a, b = asarr(a), asarr(b)
    return elementwise(
        lambda c_, x, y: padd(pmul(c_, x), pmul(psub(pconst(1), c_), y)), [c, a, b], kmax(a.kind, b.kind)
    )


def norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (list, tuple)):
        ax = tuple(a for a in axis)
    else:
        ax = (axis,)
    out = []
    for a in ax:
        if isinstance(a, SInt):
            raise Unsupported("symbolic axis")
        if not -nd <= a < nd:
            raise ValueError("axis %d is out of bounds for array of dimension %d" % (a, nd))
        out.append(a % nd)
    if len(set(out)) != len(out):
        raise ValueError("duplicate value in 'axis'")
    return tuple(out)


def reduce_generic(a, axis, keepdims, comb, kind):
    """comb(p, list of (var, dim)) -> P"""
    a = asarr(a)
    ax = norm_axes(axis, a.ndim)
    s = a.snap()
    nd = a.ndim
    shape = []
    for k in range(nd):
        if k in ax:
            if keepdims:
                shape.append(1)
        else:
            shape.append(a.shape[k])

    def fn(idx):
        vs = []
        full = []
        q = 0
        for k in range(nd):
            if k in ax:
                v = T.fresh("_r")
                T.CTX.vdim[v] = ix_of(a.shape[k])
                vs.append((v, ix_of(a.shape[k])))
                full.append(IX.var(v))
                if keepdims:
                    q += 1
            else:
                full.append(idx[q])
                q += 1
        return comb(s(tuple(full)), vs)

    return SymArray(shape, kind, fn)


def _sum_comb(p, vs):
    for v, d in vs:
        p = T.psum(p, v, d)
    return p


def npsum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if out is not None or k:
        raise Unsupported("sum options")
    a = asarr(a)
    return reduce_generic(a, axis, keepdims, _sum_comb, "i" if a.kind == "b" else a.kind)


def npmean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if out is not None or k:
        raise Unsupported("mean options")
    a = asarr(a)

    def comb(p, vs):
        p = _sum_comb(p, vs)
        for v, d in vs:
            p = pmul(p, ppow(T.pint(d), -1))
        return p

    return reduce_generic(a, axis, keepdims, comb, kmax(a.kind, "f"))


def npvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    if dtype is not None or out is not None or ddof != 0 or k:
        raise Unsupported("var options")
    a = asarr(a)
    d = a - npmean(a, axis, keepdims=True)
    return npmean(elementwise(lambda p: pmul(p, T.pconj(p)), [d], "f"), axis, keepdims=keepdims)


def npstd(a, axis=None, **k):
    return npsqrt(npvar(a, axis, **k))


def lam_reduce(name):
    def f(a, axis=None, out=None, keepdims=False, **k):
        if k or out is not None:
            raise Unsupported(name + " options")
        a = asarr(a)

        def comb(p, vs):
            return T.mk_lam(name, vs, [p], ()) if vs else p

        return reduce_generic(a, axis, keepdims, comb, "b" if name in ("any", "all") else a.kind)

    return f


def _ext_info(args, lam):
    return True


for _n in ("amax", "amin", "any", "all"):
    T.LAM_INFO[_n] = {"real": True}
T.LAM_INFO["any"]["sign"] = "nonneg"
T.LAM_INFO["all"]["sign"] = "nonneg"


def _const_red(name):
    def h(lam, args, idx):
        p = args[0]
        if not (p.fv & set(v for v, _ in lam)):
            return p  # nonempty reduction of a constant
        if name in ("amax", "amin") and T.psign(p) and False:
            pass
        # pull a common positive factor independent of the reduced variables
        if name in ("amax", "amin") and p.terms:
            content, q = T.primitive(p)
            lv = set(v for v, _ in lam)
            keep = tuple((a, e) for a, e in content[2] if not (a.fv & lv) and a.sign == "pos")
            cf = content[0]
            if cf > 0 and (keep or cf != 1):
                m0 = (1 / cf, (), tuple((a, -e) for a, e in keep))
                q2 = T.normalize(P(tuple(T.raw_mul_mono(m0, m) for m in p.terms)))
                if q2 is not p:
                    r = T.mk_lam(name, lam, [q2], idx)
                    return pmul(T.normalize(P(((cf, (), keep),))), r)
        return None

    return h


for _n in ("amax", "amin", "any", "all"):
    T.LAM_HOOK[_n] = _const_red(_n)

npmax = lam_reduce("amax")
npmin = lam_reduce("amin")
npany = lam_reduce("any")
npall = lam_reduce("all")
T.LAM_INFO["prod"] = {"real": lambda args, lam: T.is_real(args[0])}
T.LAM_HOOK["prod"] = lambda lam, args, idx: None


def npprod(a, axis=None, keepdims=False, **k):
    if isinstance(a, (list, tuple)) and all(isinstance(v, (int, SInt)) for v in a) and axis is None:
        r = 1
        for v in a:
            r = v * r
        return r
    a = asarr(a) if not isinstance(a, (tuple, list)) else a
    if isinstance(a, (tuple, list)):
        r = 1
        for x in a:
            r = x * r
        return r
    return lam_reduce("prod")(a, axis, keepdims=keepdims)


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    av = a.ndim == 1
    bv = b.ndim == 1
    same_dim(a.shape[-1], b.shape[0] if bv else b.shape[-2], "matmul inner dimension")
    sa, sb = a.snap(), b.snap()
    K = ix_of(a.shape[-1])
    ba = a.shape[:-2] if not av else ()
    bb = b.shape[:-2] if not bv else ()
    bs = broadcast_shapes(ba, bb)
    n = len(bs)
    shape = list(bs) + ([] if av else [a.shape[-2]]) + ([] if bv else [b.shape[-1]])

    def fn(idx):
        v = T.fresh("_r")
        T.CTX.vdim[v] = K
        k = IX.var(v)
        bi = idx[:n]
        q = n
        ia = list(bidx(bi, ba, n))
        if not av:
            ia.append(idx[q])
            q += 1
        ia.append(k)
        ib = list(bidx(bi, bb, n))
        ib.append(k)
        if not bv:
            ib.append(idx[q])
        return T.psum(pmul(sa(tuple(ia)), sb(tuple(ib))), v, K)

    return SymArray(shape, kmax(a.kind, b.kind), fn)


def diagonal(a, offset=0, axis1=0, axis2=1):
    a = asarr(a)
    if offset != 0:
        raise Unsupported("diagonal offset")
    nd = a.ndim
    x, y = axis1 % nd, axis2 % nd
    if not T.int_query(("eq0", ix_of(a.shape[x]) - ix_of(a.shape[y]))):
        raise Unsupported("diagonal of a non-square array")
    rest = [k for k in range(nd) if k not in (x, y)]
    s = a.snap()

    def fn(idx):
        full = [None] * nd
        for q, k in enumerate(rest):
            full[k] = idx[q]
        full[x] = full[y] = idx[-1]
        return s(tuple(full))

    return SymArray([a.shape[k] for k in rest] + [a.shape[x]], a.kind, fn, ro=False)


def trace(a, offset=0, axis1=0, axis2=1, **k):
    return npsum(diagonal(a, offset, axis1, axis2), -1)


def squeeze(a, axis=None):
    a = asarr(a)
    if axis is None:
        ax = [k for k, d in enumerate(a.shape) if isinstance(d, int) and d == 1]
    else:
        ax = norm_axes(axis, a.ndim)
        for k in ax:
            if a.shape[k] != 1:
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    return a[tuple(0 if k in ax else slice(None) for k in range(a.ndim))]


def reshape(a, shape, **k):
    a = asarr(a)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = list(shape)
    src = [ix_of(d) for d in a.shape]
    if any(isinstance(d, int) and d == -1 for d in shape):
        pos = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1][0]
        tot = IX.const(1)
        for d in src:
            tot = tot * d
        oth = IX.const(1)
        for i, d in enumerate(shape):
            if i != pos:
                oth = oth * ix_of(d)
        shape[pos] = mkint(T.divmod_ix(tot, oth)[0])
    dst = [ix_of(d) for d in shape]
    # group dimensions
    groups = []
    i = j = 0
    while i < len(src) or j < len(dst):
        gi, gj = [], []
        pi, pj = IX.const(1), IX.const(1)
        if i < len(src):
            gi.append(i)
            pi = pi * src[i]
            i += 1
        if j < len(dst):
            gj.append(j)
            pj = pj * dst[j]
            j += 1
        while not (pi is pj or T.int_query(("eq0", pi - pj))):
            d = pi - pj
            # extend the shorter side
            if T.int_query(("ge0", d - 1)) and j < len(dst) or i >= len(src) and j < len(dst):
                gj.append(j)
                pj = pj * dst[j]
                j += 1
            elif i < len(src):
                gi.append(i)
                pi = pi * src[i]
                i += 1
            else:
                EXPLORER.shape_mismatch("cannot reshape array of shape %s into shape %s" % (a.shape, tuple(shape)), pi - pj)
        # trailing ones
        groups.append((gi, gj))
        if i >= len(src):
            while j < len(dst):
                groups.append(([], [j]))
                j += 1
        if j >= len(dst):
            while i < len(src):
                groups.append(([i], []))
                i += 1
    s = a.snap()

    def fn(idx):
        full = [IX.const(0)] * len(src)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                full[gi[0]] = idx[gj[0]]
                continue
            lin = IX.const(0)
            for q in gj:
                lin = lin * dst[q] + idx[q]
            for n_, q in enumerate(reversed(gi)):
                if n_ == len(gi) - 1:
                    full[q] = lin
                else:
                    lin, r = T.divmod_ix(lin, src[q])
                    full[q] = r
        return s(tuple(full))

    r = SymArray(shape, a.kind, fn)
    r.ro = "reshape"
    return r


def np_concat(arrs, axis=0, **k):
    arrs = [asarr(a) for a in arrs]
    nd = arrs[0].ndim
    axis = norm_axes(axis, nd)[0]
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for q in range(nd):
            if q != axis:
                same_dim(a.shape[q], arrs[0].shape[q], "concatenate dimensions")
    snaps = [a.snap() for a in arrs]
    offs = [IX.const(0)]
    for a in arrs:
        offs.append(offs[-1] + ix_of(a.shape[axis]))
    shape = list(arrs[0].shape)
    shape[axis] = mkint(offs[-1])

    symbolic_parts = any(not o.is_const() for o in offs[1:-1])

    def fn(idx):
        out = pconst(0)
        i = idx[axis]
        if symbolic_parts:
            for q, s in enumerate(snaps):
                if q < len(snaps) - 1 and not T.int_query(("ge0", offs[q + 1] - i - 1)):
                    if T.int_query(("ge0", i - offs[q + 1])):
                        continue
                    break
                ii = list(idx)
                ii[axis] = i - offs[q]
                return s(tuple(ii))
            if GENERIC[0]:
                raise _Piecewise()
        for q, s in enumerate(snaps):
            ln = offs[q + 1] - offs[q]
            if ln.is_const() and ln.value() == 0:
                continue
            if ln.is_const() and ln.value() == 1:
                c = T.delta(i, offs[q])
                j = IX.const(0)
            else:
                c = pconst(1)
                if not (q == 0):
                    c = pmul(c, T.mk_iv("ge0", i - offs[q]))
                if not (q == len(snaps) - 1):
                    c = pmul(c, T.mk_iv("ge0", offs[q + 1] - i - 1))
                j = i - offs[q]
            if not c.terms:
                continue
            ii = list(idx)
            ii[axis] = j
            out = padd(out, pmul(c, s(tuple(ii))))
        return out

    return SymArray(shape, kmax(*[a.kind for a in arrs]), fn)


def np_stack(arrs, axis=0, **k):
    arrs = [asarr(a) for a in arrs]
    nd = arrs[0].ndim + 1
    axis = norm_axes(axis, nd)[0]
    return np_concat([a[tuple([slice(None)] * axis + [None])] for a in arrs], axis)


def np_split(a, sec, axis=0):
    a = asarr(a)
    axis = norm_axes(axis, a.ndim)[0]
    d = a.shape[axis]
    if is_int(sec):
        if isinstance(sec, SInt):
            raise Unsupported("symbolic number of sections")
        q, r = T.divmod_ix(ix_of(d), IX.const(sec))
        if not T.int_query(("eq0", r)):
            raise ValueError("array split does not result in an equal division")
        cuts = [mkint(q * k) for k in range(1, sec)]
    else:
        cuts = list(sec)
    out = []
    prev = 0
    for c in cuts + [None]:
        sl = slice(prev, c)
        out.append(a[tuple([slice(None)] * axis + [sl])])
        prev = c
    return out


def np_eye(n, m=None, k=0, dtype=None, **kw):
    if m is None:
        m = n
    if k != 0:
        raise Unsupported("eye offset")
    return SymArray((n, m), kind_of_dtype(dtype) or "f", lambda idx: T.delta(idx[0], idx[1]))


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(s)
    return (s,)


def np_full(shape, v, dtype=None):
    v = asarr(v)
    fv = v.snap()
    if v.shape != ():
        return copy_arr(broadcast_to(v, _shape(shape)))
    return SymArray(_shape(shape), kind_of_dtype(dtype) or v.kind, lambda idx: fv(()))


def np_zeros(shape, dtype=None, **k):
    return SymArray(_shape(shape), kind_of_dtype(dtype) or "f", lambda idx: pconst(0))


def np_empty(shape, dtype=None, **k):
    """uninitialised memory: arbitrary values"""
    shape = _shape(shape)
    kind = kind_of_dtype(dtype) if dtype is not None else "f"
    nm = T.fresh("empty~")
    T.CTX.decl[nm] = dict(real=kind != "c", sign=None)
    return SymArray(shape, kind, lambda idx: T.patom(T.el(nm, idx)))


def np_ones(shape, dtype=None, **k):
    return SymArray(_shape(shape), kind_of_dtype(dtype) or "f", lambda idx: pconst(1))


def np_zeros_like(a, dtype=None, **k):
    a = asarr(a)
    return np_zeros(a.shape, dtype or a.dtype)


def np_ones_like(a, dtype=None, **k):
    a = asarr(a)
    return np_ones(a.shape, dtype or a.dtype)


def np_tile(a, reps):
    a = asarr(a)
    reps = _shape(reps)
    nd = max(a.ndim, len(reps))
    ash = (1,) * (nd - a.ndim) + a.shape
    reps = (1,) * (nd - len(reps)) + tuple(reps)
    s = a.snap()
    k0 = nd - a.ndim

    def fn(idx):
        out = []
        for q in range(nd):
            if q < k0:
                continue
            d, r = ash[q], reps[q]
            if isinstance(r, int) and r == 1:
                out.append(idx[q])
            elif isinstance(d, int) and d == 1:
                out.append(IX.const(0))
            else:
                out.append(T.divmod_ix(idx[q], ix_of(d))[1])
        return s(tuple(out))

    return SymArray([d * r for d, r in zip(ash, reps)], a.kind, fn)


def np_take_along_axis(a, indices, axis):
    """entry i of the result is a's entry at indices[i] along the axis (index in range: side condition of the caller's contract)"""
    a, x = asarr(a), asarr(indices)
    if axis is None or a.ndim != x.ndim:
        raise Unsupported("take_along_axis")
    axis = axis % a.ndim
    for k in range(a.ndim):
        if k != axis and ix_of(a.shape[k]) is not ix_of(x.shape[k]) and ix_of(a.shape[k]) != ix_of(x.shape[k]):
            raise Unsupported("take_along_axis with broadcasting")
    s, t = a.snap(), x.snap()

    def fn(idx):
        ii = list(idx)
        out = pconst(0)
        for cond, v in int_alts(t(tuple(idx))):
            if cond.terms:
                ii[axis] = v
                out = padd(out, pmul(cond, s(tuple(ii))))
        return out

    return SymArray(list(x.shape), a.kind, fn)


def nprepeat(a, repeats=None, axis=None):
    a, n = asarr(a), repeats
    if isinstance(n, SymArray):
        n = mkint(ix_of_p(n.p()))
    if axis is None:
        raise Unsupported("flat repeat")
    axis = axis % a.ndim
    s = a.snap()
    shape = list(a.shape)
    one = isinstance(shape[axis], int) and shape[axis] == 1
    shape[axis] = shape[axis] * n

    def fn(idx):
        ii = list(idx)
        ii[axis] = IX.const(0) if one else T.divmod_ix(idx[axis], ix_of(n))[0]
        return s(tuple(ii))

    return SymArray(shape, a.kind, fn)


def np_swapaxes(a, x, y):
    return asarr(a).swapaxes(x, y)


def np_transpose(a, axes=None):
    return asarr(a).transpose(axes) if axes is not None else asarr(a).transpose()


def np_moveaxis(a, s, d):
    a = asarr(a)
    s = [x % a.ndim for x in _shape(s)]
    d = [x % a.ndim for x in _shape(d)]
    order = [n for n in range(a.ndim) if n not in s]
    for dest, src in sorted(zip(d, s)):
        order.insert(dest, src)
    return a.transpose(order)


def np_rollaxis(a, axis, start=0):
    a = asarr(a)
    n = a.ndim
    axis %= n
    if start < 0:
        start += n
    if axis < start:
        start -= 1
    axes = list(range(n))
    axes.remove(axis)
    axes.insert(start, axis)
    return a.transpose(axes)


def np_expand_dims(a, axis):
    a = asarr(a)
    nd = a.ndim + len(_shape(axis))
    ax = [x % nd for x in _shape(axis)]
    return a[tuple(None if k in ax else slice(None) for k in range(nd))]


def np_einsum(spec, *arrs, **k):
    arrs = [asarr(a) for a in arrs]
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise Unsupported("einsum ellipsis")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        flat = ins.replace(",", "")
        out = "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
    ins = ins.split(",")
    dims = {}
    for lab, a in zip(ins, arrs):
        if len(lab) != a.ndim:
            raise ValueError("einsum rank")
        for ch, d in zip(lab, a.shape):
            if ch in dims:
                same_dim(dims[ch], d, "einsum dimension")
            else:
                dims[ch] = d
    snaps = [a.snap() for a in arrs]
    red = [ch for ch in dims if ch not in out]

    def fn(idx):
        env = dict(zip(out, idx))
        vs = []
        for ch in red:
            v = T.fresh("_r")
            T.CTX.vdim[v] = ix_of(dims[ch])
            env[ch] = IX.var(v)
            vs.append((v, ix_of(dims[ch])))
        p = pmul(*[s(tuple(env[ch] for ch in lab)) for lab, s in zip(ins, snaps)])
        return _sum_comb(p, vs)

    return SymArray([dims[ch] for ch in out], kmax(*[a.kind for a in arrs]), fn)


def np_array(x, dtype=None, copy=True, **k):
    if isinstance(x, SymArray):
        return copy_arr(x)
    if isinstance(x, (list, tuple)) and x and all(isinstance(v, SymArray) for v in x):
        return np_stack(x, 0)
    r = asarr(x)
    if dtype is not None:
        r = copy_arr(r)
        r.kind = kind_of_dtype(dtype)
    return r


def np_asarray(x, dtype=None):
    if isinstance(x, SymArray):
        return x
    return np_array(x, dtype)


def np_arange(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if not (isinstance(st, int) and st == 1):
        raise Unsupported("arange step")
    lo_ = ix_of(lo)
    return SymArray((mkint(ix_of(hi) - lo_),), "i", lambda idx: T.pint(lo_ + idx[0]))


def np_diag(a):
    a = asarr(a)
    if a.ndim == 1:
        s = a.snap()
        return SymArray((a.shape[0], a.shape[0]), a.kind, lambda idx: pmul(T.delta(idx[0], idx[1]), s((idx[0],))))
    return diagonal(a)


# linear algebra ---------------------------------------------------------------
class LinAlgError(ValueError):
    pass


def _mat(a):
    a = asarr(a)
    if a.ndim < 2:
        raise LinAlgError("%d-dimensional array given. Array must be at least two-dimensional" % a.ndim)
    return a


def _square(a):
    a0 = _mat(a)
    a = copy_arr(a0)
    if hasattr(a0, "psd"):
        a.psd = a0.psd
    if not T.int_query(("eq0", ix_of(a.shape[-1]) - ix_of(a.shape[-2]))):
        EXPLORER.shape_mismatch("Last 2 dimensions of the array must be square: %s" % (a.shape,), ix_of(a.shape[-1]) - ix_of(a.shape[-2]))
    return a


def lam_mat(name, a, batch, idx):
    r, c = T.fresh("_r"), T.fresh("_r")
    n = ix_of(a.shape[-1])
    T.CTX.vdim[r] = n
    T.CTX.vdim[c] = n
    body = a.snap()(tuple(batch) + (IX.var(r), IX.var(c)))
    return [(r, n), (c, n)], body


def la_inv(a):
    a = _square(a)

    def fn(idx):
        lam, body = lam_mat("inv", a, idx[:-2], None)
        return T.mk_lam("inv", lam, [body], idx[-2:])

    return SymArray(a.shape, kmax(a.kind, "f"), fn)


def la_solve(a, b):
    a = _square(a)
    b = asarr(b)
    inv = la_inv(a)
    if b.ndim == 1:
        return matmul(inv, b)
    return matmul(inv, b)


def la_slogdet(a):
    a = _square(a)

    def fn(idx):
        lam, body = lam_mat("lad", a, idx, None)
        return T.mk_lam("lad", lam, [body], ())

    ld = SymArray(a.shape[:-2], "f", fn)
    sg = SymArray(a.shape[:-2], a.kind, lambda idx: _unsup("sign of determinant"))
    return sg, ld


def _unsup(m):
    raise Unsupported(m)


def la_det(a):
    raise Unsupported("det")


def la_eigh(a, UPLO="L"):
    a = _square(a)
    if UPLO != "L":
        raise Unsupported("UPLO")
    # precondition: Hermitian
    vs = []
    for d in a.shape:
        v = T.fresh("_h")
        T.CTX.vdim[v] = ix_of(d)
        vs.append(IX.var(v))
    s = a.snap()
    p1 = s(tuple(vs))
    p2 = s(tuple(vs[:-2]) + (vs[-1], vs[-2]))
    EXPLORER.precondition("numpy.linalg.eigh argument is Hermitian", psub(p1, T.pconj(p2)))
    psd = getattr(a, "psd", None)

    def fw(idx):
        lam, body = lam_mat("eigw", a, idx[:-1], None)
        return ops.mk_eigw(lam, body, idx[-1], psd)

    def fv(idx):
        lam, body = lam_mat("eigv", a, idx[:-2], None)
        return T.mk_lam("eigv", lam, [body], idx[-2:])

    w = SymArray(a.shape[:-1], "f", fw)
    v = SymArray(a.shape, kmax(a.kind, "f"), fv)
    return w, v


def la_cholesky(a):
    a = _square(a)

    def fn(idx):
        lam, body = lam_mat("chol", a, idx[:-2], None)
        return T.patom(T.lam_atom("chol", lam, [body], idx[-2:]))

    return SymArray(a.shape, kmax(a.kind, "f"), fn)


def la_norm(a, ord=None, axis=None, keepdims=False):
    a = asarr(a)
    if ord is not None and not (ord == 2 and axis is not None and not isinstance(axis, tuple)):
        raise Unsupported("norm ord")
    if isinstance(axis, (tuple, list)) and len(axis) > 2:
        raise ValueError("Improper number of dimensions to norm.")
    return npsqrt(npsum(elementwise(lambda p: pmul(p, T.pconj(p)), [a], "f"), axis, keepdims=keepdims))


def np_argsort(a, axis=-1, **k):
    """contract: a permutation of the index range (which one is left open; ordering facts are not modelled)"""
    a = asarr(a)
    if a.ndim != 1 or k:
        raise Unsupported("argsort")
    T.CTX.assumptions.add("numpy.argsort of a vector returns every index exactly once")
    return EXPLORER.cx.intarray(T.fresh("argsort"), (a.shape[0],), a.shape[0])


def np_iscomplexobj(a):
    if isinstance(a, SymArray):
        return a.kind == "c"
    return _np.iscomplexobj(a)


def np_squeeze(a, axis=None):
    return squeeze(asarr(a), axis)


def np_allclose(a, b, *args, **k):
    raise Unsupported("allclose")


class _Linalg:
    inv = staticmethod(la_inv)
    solve = staticmethod(la_solve)
    slogdet = staticmethod(la_slogdet)
    det = staticmethod(la_det)
    eigh = staticmethod(la_eigh)
    cholesky = staticmethod(la_cholesky)
    norm = staticmethod(la_norm)
    svd = staticmethod(_svd)
    LinAlgError = _np.linalg.LinAlgError

    def __getattr__(self, n):
        def f(*a, **k):
            raise Unsupported("numpy.linalg." + n)

        return f


class _NotAllowed:
    def __init__(self, n):
        self.n = n

    def __call__(self, *a, **k):
        raise Unsupported("numpy." + self.n)

    def __getattr__(self, m):
        return _NotAllowed(self.n + "." + m)


def _identity_np(n, dtype=None):
    return np_eye(n, dtype=dtype)


class Facade:
    """stand-in for the numpy module inside verified code"""

    newaxis = None
    ndarray = SymArray
    linalg = _Linalg()
    pi = _np.pi
    e = _np.e
    float64 = _np.float64
    float32 = _np.float32
    complex128 = _np.complex128
    complex64 = _np.complex64
    int64 = _np.int64
    int32 = _np.int32
    int16 = _np.int16
    bool_ = _np.bool_
    inf = float("inf")
    __version__ = _np.__version__
    abs = absolute = staticmethod(npabs)
    conj = conjugate = staticmethod(npconj)
    real = staticmethod(npreal)
    imag = staticmethod(npimag)
    sqrt = staticmethod(npsqrt)
    cbrt = staticmethod(npcbrt)
    angle = staticmethod(npangle)
    exp = staticmethod(npexp)
    log = staticmethod(nplog)
    sign = staticmethod(npsign)
    cos = staticmethod(fn1("cos"))
    tanh = staticmethod(fn1("tanh"))
    maximum = staticmethod(npmaximum)
    minimum = staticmethod(npminimum)
    where = staticmethod(npwhere)
    sum = staticmethod(npsum)
    mean = staticmethod(npmean)
    var = staticmethod(npvar)
    std = staticmethod(npstd)
    max = amax = staticmethod(npmax)
    min = amin = staticmethod(npmin)
    any = staticmethod(npany)
    all = staticmethod(npall)
    prod = staticmethod(npprod)
    take_along_axis = staticmethod(np_take_along_axis)
    matmul = staticmethod(matmul)
    einsum = staticmethod(np_einsum)
    trace = staticmethod(trace)
    diagonal = staticmethod(diagonal)
    diag = staticmethod(np_diag)
    concatenate = staticmethod(np_concat)
    stack = staticmethod(np_stack)
    split = staticmethod(np_split)
    eye = staticmethod(np_eye)
    identity = staticmethod(_identity_np)
    zeros = staticmethod(np_zeros)
    empty = staticmethod(np_empty)
    ones = staticmethod(np_ones)
    full = staticmethod(np_full)
    zeros_like = staticmethod(np_zeros_like)
    empty_like = staticmethod(lambda a, dtype=None, **k: np_empty(asarr(a).shape, dtype if dtype is not None else asarr(a).dtype))
    ones_like = staticmethod(np_ones_like)
    tile = staticmethod(np_tile)
    repeat = staticmethod(nprepeat)
    swapaxes = staticmethod(np_swapaxes)
    transpose = staticmethod(np_transpose)
    moveaxis = staticmethod(np_moveaxis)
    rollaxis = staticmethod(np_rollaxis)
    expand_dims = staticmethod(np_expand_dims)
    squeeze = staticmethod(np_squeeze)
    argsort = staticmethod(lambda a, *r, **k: np_argsort(a, *r, **k))
    reshape = staticmethod(reshape)
    array = staticmethod(np_array)
    asarray = staticmethod(np_asarray)
    arange = staticmethod(np_arange)
    iscomplexobj = staticmethod(np_iscomplexobj)
    multiply = staticmethod(lambda a, b: asarr(a) * b)
    add = staticmethod(lambda a, b: asarr(a) + b)
    subtract = staticmethod(lambda a, b: asarr(a) - b)
    divide = true_divide = staticmethod(lambda a, b: asarr(a) / b)
    power = staticmethod(lambda a, b: asarr(a) ** b)
    square = staticmethod(lambda a: asarr(a) * a)
    negative = staticmethod(lambda a: -asarr(a))
    copy = staticmethod(lambda a: copy_arr(asarr(a)))
    ndim = staticmethod(lambda a: asarr(a).ndim)
    shape = staticmethod(lambda a: asarr(a).shape)
    broadcast_to = staticmethod(lambda a, s: broadcast_to(a, s))
    dot = staticmethod(lambda a, b: asarr(a).dot(b))
    random = _np.random
    errstate = _np.errstate

    def __getattr__(self, n):
        return _NotAllowed(n)


FACADE = Facade()
