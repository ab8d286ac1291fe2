"""Gradient / natural-gradient ICA, frequency-domain ICA and IVA (C14): one iteration for any filter, mixture, sizes,
step size, score function; built-in contrasts and scores."""

import numpy as np

from vc.registry import contract
from vc.cutil import OpaqueFn

MOD = {"ICA": "ssspy.bss.ica", "FDICA": "ssspy.bss.fdica", "IVA": "ssspy.bss.iva"}


def num_score(Y):
    return Y / (1 + np.abs(Y) ** 2)


def build(c, fam, cls, hol, floor=None, **kw):
    md = c.load(MOD[fam])
    N, J = c.dim("N", 2), c.dim("J", 2)
    I = None if fam == "ICA" else c.dim("I")
    kd = "f" if fam == "ICA" else "c"
    X = c.array("X", (N, J) if I is None else (N, I, J), kd)
    W = c.array("W", (N, N) if I is None else (I, N, N), kd, invertible=True)
    eta = c.scalar("eta")
    args = dict(step_size=eta, is_holonomic=hol, record_loss=False, **kw)
    if fam != "ICA":
        args["flooring_fn"] = floor
        args["scale_restoration"] = False
    if fam == "FDICA":
        args["permutation_alignment"] = False
    m = getattr(md, cls)(**args)
    m.input = X.copy()
    m._reset(demix_filter=W)
    return m, X, W, eta, N, I, J


def filt(c, N, I, W, X):
    """separated signal of a filter"""
    if I is None:
        return lambda n, i, j: c.sum(N, lambda a: W[n, a] * X[a, j])
    return lambda n, i, j: c.sum(N, lambda a: W[i, n, a] * X[a, i, j])


def expect(c, natural, hol, N, I, J, W, eta, phi, y):
    """documented step"""
    w = (lambda i, n, a: W[n, a]) if I is None else (lambda i, n, a: W[i, n, a])
    corr = lambda i, n, m: c.sum(J, lambda j: phi(n, i, j) * c.conj(y(m, i, j))) / J

    def G(i, n, m):
        if hol:
            return corr(i, n, m) - c.delta(n, m)
        return corr(i, n, m) * (1 - c.delta(n, m))

    if natural:
        post = lambda i, m, a: w(i, m, a)
    else:
        # conjugate-transposed inverse
        post = lambda i, m, a: c.conj(c.inv(N, lambda p, q: w(i, p, q))(a, m))
    return lambda i, n, a: w(i, n, a) - eta * c.sum(N, lambda m: G(i, n, m) * post(i, m, a))


def compare(c, m, X, W, want, N, I, J):
    R = m.demix_filter
    if I is None:
        c.shape("filter shape", R, (N, N))
        c.forall("filter moves by minus the step size times the gradient", [N, N], lambda n, a: (R[n, a], want(0, n, a)))
        y1 = filt(c, N, I, R, X)
        c.forall("stored output is the new filter applied to the mixture", [N, J], lambda n, j: (m.output[n, j], y1(n, 0, j)))
    else:
        c.shape("filter shape", R, (I, N, N))
        c.forall("filter moves by minus the step size times the gradient", [I, N, N], lambda i, n, a: (R[i, n, a], want(i, n, a)))
        y1 = filt(c, N, I, R, X)
        c.forall("stored output is the new filter applied to the mixture", [N, I, J], lambda n, i, j: (m.output[n, i, j], y1(n, i, j)))
    c.unchanged("caller's mixture not modified", X)
    c.unchanged("caller's filter not modified", W)


for fam in ("ICA", "FDICA", "IVA"):
    for nat in (False, True):
        for hol in (False, True):
            cls = ("NaturalGrad" if nat else "Grad") + fam

            @contract("%s update_once %s" % (cls, "holonomic" if hol else "nonholonomic"), ["C14"], "bss.%s.%s.update_once" % (fam.lower(), cls), samples=6)
            def step(c, fam=fam, nat=nat, hol=hol, cls=cls):
                s = OpaqueFn(c, "score", num_score, kind="f" if fam == "ICA" else "c")
                g = OpaqueFn(c, "contrast", np.abs, kind="f")
                m, X, W, eta, N, I, J = build(c, fam, cls, hol, contrast_fn=g, score_fn=s)
                m.update_once()
                y = filt(c, N, I, W, X)
                if c.symbolic:
                    a, P = s.only()
                    if fam == "ICA":
                        c.forall("score evaluated at the current separated signal", [N, J], lambda n, j: (a[n, j], y(n, 0, j)))
                    else:
                        c.forall("score evaluated at the current separated signal", [N, I, J], lambda n, i, j: (a[n, i, j], y(n, i, j)))
                    phi = (lambda n, i, j: P[n, j]) if I is None else (lambda n, i, j: P[n, i, j])
                else:
                    phi = lambda n, i, j: num_score(y(n, i, j))
                compare(c, m, X, W, expect(c, nat, hol, N, I, J, W, eta, phi, y), N, I, J)


# built-in source models
for fam, src in (("ICA", "Laplace"), ("FDICA", "Laplace"), ("IVA", "Laplace"), ("IVA", "Gauss")):
    for nat in (False, True):
        for hol in (False, True):
            cls = ("NaturalGrad" if nat else "Grad") + src + fam

            @contract("%s update_once %s" % (cls, "holonomic" if hol else "nonholonomic"), ["C14"], "bss.%s.%s.update_once" % (fam.lower(), cls), samples=6)
            def model(c, fam=fam, nat=nat, hol=hol, cls=cls, src=src):
                fl = None if fam == "ICA" else c.ufunc("floor", sign="pos")
                m, X, W, eta, N, I, J = build(c, fam, cls, hol, floor=fl)
                y = filt(c, N, I, W, X)
                if src == "Gauss":
                    old = c.array("v", (N, J), "f", sign="pos")
                    m.variance = old
                m.update_once()
                if fam == "ICA":
                    phi = lambda n, i, j: c.sign(y(n, i, j))
                elif fam == "FDICA":
                    d = fl(c.fresh_from((N, I, J), lambda n, i, j: c.abs(y(n, i, j))))
                    phi = lambda n, i, j: y(n, i, j) / d[n, i, j]
                elif src == "Laplace":
                    d = fl(c.fresh_from((N, J), lambda n, j: c.sqrt(c.sum(I, lambda i: c.abs2(y(n, i, j))))))
                    phi = lambda n, i, j: y(n, i, j) / d[n, j]
                else:
                    v = c.fresh_from((N, J), lambda n, j: c.sum(I, lambda i: c.abs2(y(n, i, j))) / I)
                    c.forall("variance is the mean power over bins", [N, J], lambda n, j: (m.variance[n, j], v[n, j]))
                    phi = lambda n, i, j: y(n, i, j) / v[n, j]
                compare(c, m, X, W, expect(c, nat, hol, N, I, J, W, eta, phi, y), N, I, J)

        @contract("%s contrast" % cls, ["C14", "C06"], "bss.%s.%s" % (fam.lower(), cls), samples=4)
        def con(c, fam=fam, nat=nat, cls=cls, src=src):
            """contrast whose derivative (with respect to the conjugate signal) is the score"""
            fl = None if fam == "ICA" else c.ufunc("floor", sign="pos")
            m, X, W, eta, N, I, J = build(c, fam, cls, False, floor=fl)
            if fam == "ICA":
                Y = c.array("Y", (N, J), "f")
                G, S = m.contrast_fn(Y), m.score_fn(Y)
                c.forall("contrast |y|", [N, J], lambda n, j: (G[n, j], c.abs(Y[n, j])))
                c.forall("score sign(y)", [N, J], lambda n, j: (S[n, j], c.sign(Y[n, j])))
                return
            Y = c.array("Y", (N, I, J), "c")
            if src == "Gauss":
                v = c.array("v", (N, J), "f", sign="pos")
                m.variance = v
            G, S = m.contrast_fn(Y), m.score_fn(Y)
            p = lambda n, j: c.sum(I, lambda i: c.abs2(Y[n, i, j]))
            if fam == "FDICA":
                d = fl(c.fresh_from((N, I, J), lambda n, i, j: c.abs(Y[n, i, j])))
                c.forall("contrast 2|y|", [N, I, J], lambda n, i, j: (G[n, i, j], 2 * c.abs(Y[n, i, j])))
                c.forall("score y/|y|", [N, I, J], lambda n, i, j: (S[n, i, j], Y[n, i, j] / d[n, i, j]))
            elif src == "Laplace":
                d = fl(c.fresh_from((N, J), lambda n, j: c.sqrt(p(n, j))))
                c.forall("contrast 2||y||", [N, J], lambda n, j: (G[n, j], 2 * c.sqrt(p(n, j))))
                c.forall("score y/||y||", [N, I, J], lambda n, i, j: (S[n, i, j], Y[n, i, j] / d[n, j]))
            else:
                c.forall("contrast I log v + ||y||^2/v", [N, J], lambda n, j: (G[n, j], I * c.log(v[n, j]) + p(n, j) / v[n, j]))
                c.forall("score y/v", [N, I, J], lambda n, i, j: (S[n, i, j], Y[n, i, j] / v[n, j]))
