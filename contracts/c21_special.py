import itertools

import numpy as np

from vc.registry import contract, bounded

FL = ("ssspy.special.flooring", "ssspy.bss._flooring")

for mod in FL:
    short = mod[6:]

    @contract("max_flooring (%s)" % short, "C21", short + ".max_flooring", samples=12)
    def maxf(c, mod=mod):
        x = c.array("x", (c.dim("I"), c.dim("J")), "f")
        for eps, nm in ((None, "default"), (c.scalar("eps", "pos"), "given")):
            f = c.load(mod).max_flooring
            y = f(x) if eps is None else f(x, eps=eps)
            e = c.rat(1, 10**10) if eps is None else eps
            c.shape("shape " + nm, y, x.shape)
            d = list(x.shape)
            c.forall_pos("not below the value (%s eps)" % nm, d, lambda i, j: c.maximum(x[i, j], e) - x[i, j])
            c.forall("larger of value and floor (%s eps)" % nm, d, lambda i, j: (y[i, j], c.maximum(x[i, j], e)))
        c.unchanged("input not modified", x)

    @contract("add_flooring (%s)" % short, "C21", short + ".add_flooring", samples=6)
    def addf(c, mod=mod):
        x = c.array("x", (c.dim("I"), c.dim("J")), "f", sign="nonneg")
        eps = c.scalar("eps", "pos")
        f = c.load(mod).add_flooring
        c.forall("value plus floor", list(x.shape), lambda i, j: (f(x, eps=eps)[i, j], x[i, j] + eps))
        c.forall("value plus default floor", list(x.shape), lambda i, j: (f(x)[i, j], x[i, j] + c.rat(1, 10**10)))
        c.unchanged("input not modified", x)

    @contract("identity (%s)" % short, "C21", short + ".identity", samples=4)
    def idf(c, mod=mod):
        x = c.array("x", (c.dim("I"), c.dim("J")), "f")
        y = c.load(mod).identity(x)
        c.forall("identity", list(x.shape), lambda i, j: (y[i, j], x[i, j]))


@contract("choose_flooring_fn", "C21", "utils.flooring.choose_flooring_fn", samples=3)
def choose(c):
    m = c.load("ssspy.utils.flooring")
    x = c.array("x", (c.dim("I"),), "f")
    g = c.ufunc("g")

    class A:
        flooring_fn = staticmethod(g)

    class B:
        pass

    f = m.choose_flooring_fn(None)
    c.forall("None selects the identity", [x.shape[0]], lambda i: (f(x)[i], x[i]))
    f1 = m.choose_flooring_fn("self", A())
    c.forall("'self' selects the method's own flooring", [x.shape[0]], lambda i: (f1(x)[i], g(x)[i]))
    f2 = m.choose_flooring_fn("self", B())
    c.forall("'self' without flooring selects the identity", [x.shape[0]], lambda i: (f2(x)[i], x[i]))
    f3 = m.choose_flooring_fn("self", None)
    c.forall("'self' without method selects the identity", [x.shape[0]], lambda i: (f3(x)[i], x[i]))
    f4 = m.choose_flooring_fn(g, A())
    c.forall("a callable is used as given", [x.shape[0]], lambda i: (f4(x)[i], g(x)[i]))
    f5 = m.choose_flooring_fn()
    c.forall("default without method selects the identity", [x.shape[0]], lambda i: (f5(x)[i], x[i]))
    c.raises("not callable", AssertionError, lambda: m.choose_flooring_fn(3))


AX = [(None, (0, 1, 2)), (0, (0,)), (1, (1,)), (-1, (2,)), ((0, 2), (0, 2)), ((-1, 0), (0, 2)), ((0, 1, 2), (0, 1, 2))]


def reduce_sum(c, D, axes, idx, f):
    """sum of f over the reduced axes, the others taken from idx"""

    def go(k, cur):
        if k == 3:
            return f(tuple(cur))
        if k in axes:
            return c.sum(D[k], lambda v: go(k + 1, cur + [v]))
        return go(k + 1, cur + [idx[k]])

    return go(0, [])


for ax, axes in AX:

    @contract("softmax axis=%s" % (ax,), "C21", "special.softmax.softmax", samples=4)
    def softmax(c, ax=ax, axes=axes):
        D = (c.dim("A"), c.dim("B"), c.dim("C"))
        x = c.array("x", D, "f")
        y = c.load("ssspy.special").softmax(x, axis=ax)
        c.shape("shape", y, D)
        c.forall("exp(x) / sum exp(x)", list(D), lambda *i: (y[i] * reduce_sum(c, D, axes, i, lambda j: c.exp(x[j])), c.exp(x[i])))
        c.forall("sums to one over the chosen axes", list(D), lambda *i: (reduce_sum(c, D, axes, i, lambda j: y[j]), 1))
        c.forall_pos("positive", list(D), lambda *i: y[i], strict=True)
        # common shift along the reduced axes
        s = c.array("s", tuple(1 if k in axes else d for k, d in enumerate(D)), "f")
        z = c.load("ssspy.special").softmax(x + s, axis=ax)
        c.forall("unaffected by a common shift", list(D), lambda *i: (z[i], y[i]))
        c.unchanged("input not modified", x)

    for kd in (False, True):

        @contract("logsumexp axis=%s keepdims=%s" % (ax, kd), "C21", "special.logsumexp.logsumexp", samples=4)
        def lse(c, ax=ax, axes=axes, kd=kd):
            D = (c.dim("A", 2), c.dim("B", 2), c.dim("C", 2))
            x = c.array("x", D, "f")
            y = c.load("ssspy.special").logsumexp(x, axis=ax, keepdims=kd)
            keep = [k for k in range(3) if k not in axes]
            c.shape("shape", y, tuple(1 if k in axes else D[k] for k in range(3)) if kd else tuple(D[k] for k in keep))

            def get(a, i):
                full = [0 if k in axes else i[keep.index(k)] for k in range(3)]
                return a[tuple(full)] if kd else (a[tuple(i)] if keep else a)

            def spec(*i):
                full = [None if k in axes else i[keep.index(k)] for k in range(3)]
                return (get(y, i), c.log(reduce_sum(c, D, axes, full, lambda j: c.exp(x[j]))))

            c.forall("log of the sum of exponentials", [D[k] for k in keep], spec)
            s = c.array("s", tuple(1 if k in axes else d for k, d in enumerate(D)), "f")
            z = c.load("ssspy.special").logsumexp(x + s, axis=ax, keepdims=kd)
            c.forall(
                "a common shift is added to the result",
                [D[k] for k in keep],
                lambda *i: (get(z, i), get(y, i) + s[tuple(0 if k in axes else i[keep.index(k)] for k in range(3))]),
            )
            c.unchanged("input not modified", x)


for mod in ("ssspy.special.psd", "ssspy.bss._psd"):
    for kind in "fc":
        for fl in ("identity", "none", "arbitrary floor", "default"):
            short = mod[6:]

            @contract("to_psd (%s) %s, %s" % (short, {"f": "real", "c": "complex"}[kind], fl), "C21", short + ".to_psd", samples=8)
            def topsd(c, mod=mod, kind=kind, fl=fl):
                B, N = c.dim("B"), c.dim("N", 2)
                X = c.array("X", (B, N, N), kind)
                sp = c.load("ssspy.special.flooring")
                kw = {}
                if fl == "identity":
                    kw["flooring_fn"] = sp.identity
                elif fl == "none":
                    kw["flooring_fn"] = None
                elif fl == "arbitrary floor":
                    g = c.ufunc("g", sign="pos")
                    kw["flooring_fn"] = g
                Y = c.load(mod).to_psd(X, **kw)
                c.shape("shape", Y, (B, N, N))
                c.forall("Hermitian", [B, N, N], lambda b, i, j: (Y[b, i, j], c.conj(Y[b, j, i])))
                Hm = (X + c.conj(X.swapaxes(-2, -1))) / 2
                if fl in ("identity", "none"):
                    c.forall("Hermitian part of the input", [B, N, N], lambda b, i, j: (Y[b, i, j], Hm[b, i, j]))
                else:
                    # the same eigenvectors, floored eigenvalues
                    w, V = c.np.linalg.eigh(Hm)
                    if fl == "default":
                        floor = lambda v: c.maximum(v, c.rat(1, 10**10))
                    else:
                        wg = g(w)
                        floor = None
                    fw = (lambda b, m: floor(w[b, m])) if floor else (lambda b, m: wg[b, m])
                    c.forall(
                        "eigenvalues floored, eigenvectors kept",
                        [B, N, N],
                        lambda b, i, j: (Y[b, i, j], c.sum(N, lambda m: V[b, i, m] * fw(b, m) * c.conj(V[b, j, m]))),
                    )
                    v = c.array("v", (N,), kind)
                    quad = lambda b: c.sum(N, lambda i: c.sum(N, lambda j: c.conj(v[i]) * Y[b, i, j] * v[j]))
                    c.forall_pos("nonnegative quadratic form", [B], quad)
                c.unchanged("input not modified", X)


@bounded(
    "floating point: no overflow, bitwise Hermitian",
    "C21",
    bound="values up to +-1e300 (softmax, logsumexp) and 1e+-12 (to_psd), shapes up to 3x4x5, every axis choice, both keepdims",
    reason="overflow and bitwise equality are floating-point facts outside exact arithmetic",
)
def overflow(b):
    sp = b.load("ssspy.special")
    rng = b.rng
    axes = [None, 0, 1, -1, (0, 2), (0, 1, 2)]
    for t in range(20 if b.tier == "quick" else 200):
        shape = tuple(rng.integers(1, 5, size=3))
        for scale in (1.0, 1e3, 1e8, 1e300):
            x = rng.standard_normal(shape) * scale
            for ax in axes:
                with b.case("softmax scale=%g axis=%s shape=%s" % (scale, ax, shape)):
                    y = sp.softmax(x, axis=ax)
                    b.check("finite, in [0, 1]", np.all(np.isfinite(y)) and y.min() >= 0 and y.max() <= 1 + 1e-12)
                    b.close("sums to one", np.sum(y, axis=ax), np.ones(np.sum(x, axis=ax).shape), 1e-9)
                for kd in (False, True):
                    with b.case("logsumexp scale=%g axis=%s keepdims=%s shape=%s" % (scale, ax, kd, shape)):
                        l = sp.logsumexp(x, axis=ax, keepdims=kd)
                        m = np.max(x, axis=ax, keepdims=True)
                        ref = np.log(np.sum(np.exp(x - m), axis=ax, keepdims=True)) + m
                        ref = ref if kd else np.squeeze(ref, axis=ax)
                        b.check("finite", np.all(np.isfinite(l)))
                        b.close("value", l, ref, 1e-9)
        n = int(rng.integers(1, 5))
        for kind in "fc":
            for scale in (1e-12, 1.0, 1e12):
                X = rng.standard_normal((2, n, n)) + (1j * rng.standard_normal((2, n, n)) if kind == "c" else 0)
                X = X * scale
                for mod in (sp, b.load("ssspy.bss._psd")):
                    with b.case("to_psd %s scale=%g n=%d %s" % (kind, scale, n, mod.__name__)):
                        Y = mod.to_psd(X)
                        b.check("bitwise Hermitian", np.array_equal(Y, np.swapaxes(Y, -2, -1).conj()))
                        w = np.linalg.eigvalsh(Y)
                        b.check("spectrum not below the floor (up to rounding)", w.min() >= -1e-9 * max(1.0, scale))
