"""Fixed-point methods on whitened data (C15)."""

import numpy as np

from vc.explore import LoopSpec
from vc.registry import contract
from vc.cutil import OpaqueFn, Rec

ICA, IV = "ssspy.bss.ica", "ssspy.bss.iva"


@contract("FastICA update_once", "C15", "bss.ica.FastICA.update_once", samples=8)
def fastica(c):
    """deflation: rows before the current one orthonormal => afterwards the first k+1 rows are orthonormal, and the new row is
    the normalised Gram-Schmidt residual of E[g'(y)] w - E[g(y) z]"""
    md = c.load(ICA)
    N, J = c.dim("N", 2), c.dim("J", 2, nlo=5)
    X = c.array("X", (N, J), "f")
    W = c.array("W", (N, N), "f", invertible=True)
    g = OpaqueFn(c, "g", np.tanh, kind="f")
    dg = OpaqueFn(c, "dg", lambda y: 1 - np.tanh(y) ** 2, kind="f")
    m = md.FastICA(contrast_fn=lambda y: np.log(np.cosh(y)), score_fn=g, d_score_fn=dg, record_loss=False)
    m.input = X.copy()
    if not c.symbolic:
        c.require(J >= N + 2)
        m._reset(demix_filter=W)
        Z, V = m.whitened_input, W.copy()
        m.update_once()
        for k in range(N):
            y = V[k] @ Z
            t = np.mean(1 - np.tanh(y) ** 2) * V[k] - np.mean(np.tanh(y) * Z, axis=-1)
            t = t - sum((V[q] @ t) * V[q] for q in range(k))
            V[k] = t / np.sqrt(np.sum(t**2))
        R = m.demix_filter
        c.forall("rows are the normalised residuals of the fixed-point step, in turn", [N, N], lambda n, a: (R[n, a], V[n, a]))
        c.forall("orthonormal on whitened data", [N, N], lambda n, k: (c.sum(N, lambda a: R[n, a] * R[k, a]), c.delta(n, k)))
        c.forall("stored output is the filter applied to the whitened mixture", [N, J], lambda n, j: (m.output[n, j], c.sum(N, lambda a: R[n, a] * Z[a, j])))
        return
    Z = c.array("Z", (N, J), "f")
    c.stub(md, "whiten", lambda x: Z.copy())
    m._reset(demix_filter=W)

    def assume(cx, k, st):
        A = st["W"]
        cx.rule("rows before the current one orthonormal", [N, N], lambda p, q: (cx.sum(N, lambda a: A[p, a] * A[q, a]), cx.delta(p, q)), guard=lambda p, q: [p < k, q < k])

    def check(cx, k, old, new):
        A, B = old["W"], new["W"]
        (a1, d), (a2, s) = dg.only(), g.only()
        y = lambda j: cx.sum(N, lambda a: A[k, a] * Z[a, j])
        cx.forall("derivative of the score at the current source", [J], lambda j: (a1[j], y(j)))
        cx.forall("score at the current source", [J], lambda j: (a2[j], y(j)))
        t = lambda a: cx.sum(J, lambda j: d[j]) / J * A[k, a] - cx.sum(J, lambda j: s[j] * Z[a, j]) / J
        r = lambda a: t(a) - cx.sum(k, lambda q: cx.sum(N, lambda b: A[q, b] * t(b)) * A[q, a])
        nrm = cx.sqrt(cx.sum(N, lambda a: r(a) * r(a)))
        cx.forall("new row is the normalised residual of the fixed-point step", [N], lambda a: (B[k, a] * nrm, r(a)))
        cx.forall("unit norm", [1], lambda _: (cx.sum(N, lambda a: B[k, a] * B[k, a]), 1))
        cx.forall("orthogonal to the rows before it", [N], lambda q: (cx.sum(N, lambda a: B[k, a] * A[q, a]), 0), where=lambda q: q < k)
        cx.forall("other rows unchanged", [N, N], lambda q, a: (B[q, a], A[q, a]), where=lambda q, a: q != k)

    def init(cx, st):
        cx.forall("sweep starts from the current filter", [N, N], lambda n, a: (st["W"][n, a], W[n, a]))

    sp = LoopSpec({"W": m.demix_filter}, assume=assume, check=check, init=init)
    c.loops(sp)
    m.update_once()
    c.ensure_int("every source is visited once", sp.n == N)
    R = m.demix_filter
    c.forall("orthonormal on whitened data", [N, N], lambda n, k: (c.sum(N, lambda a: R[n, a] * R[k, a]), c.delta(n, k)))
    c.forall("stored output is the filter applied to the whitened mixture", [N, J], lambda n, j: (m.output[n, j], c.sum(N, lambda a: R[n, a] * Z[a, j])))
    c.unchanged("caller's filter not modified", W)
    c.unchanged("caller's mixture not modified", X)


def svd_contract(c, calls, lead, N):
    """numpy.linalg.svd by its contract: unitary factors of the (recorded) argument"""

    def svd(a, full_matrices=True, compute_uv=True):
        k = len(calls)
        u = c.array("svd_u%d" % k, tuple(lead) + (N, N), "c", unitary=True)
        v = c.array("svd_v%d" % k, tuple(lead) + (N, N), "c", unitary=True)
        s = c.fresh_array("svd_s%d" % k, tuple(lead) + (N,), "f", sign="nonneg")
        calls.append((a, u, s, v))
        return u, s, v

    return svd


def polar_numeric(c, R, S):
    """R is the unitary polar factor of S (per bin)"""
    I, N, _ = S.shape
    for i in range(I):
        u, s, v = np.linalg.svd(S[i])
        c.require(s[-1] > 1e-3 * s[0])
        c.forall("nearest unitary matrix of the fixed-point step (bin)", [N, N], lambda n, a: (R[i, n, a], (u @ v)[n, a]))


for cls in ("FastIVA", "FasterIVA"):

    @contract("%s update_once" % cls, "C15", "bss.iva.%s.update_once" % cls, samples=8 if cls == "FastIVA" else 40)
    def fastiva(c, cls=cls):
        md = c.load(IV)
        N, I, J = c.dim("N", 2), c.dim("I"), c.dim("J", 2, nlo=9)
        X = c.array("X", (N, I, J), "c")
        W = c.array("W", (I, N, N), "c", invertible=True)
        floor = c.ufunc("floor", sign="pos")
        dG = OpaqueFn(c, "dG", lambda r: 2 * r / np.sqrt(r**2 + 1), kind="f")
        ddG = OpaqueFn(c, "ddG", lambda r: 2 / (r**2 + 1) ** 1.5, kind="f")
        kw = dict(contrast_fn=lambda y: 2 * np.sqrt(1 + np.sum(np.abs(y) ** 2, axis=1)), d_contrast_fn=dG, flooring_fn=floor, scale_restoration=False, record_loss=False)
        if cls == "FastIVA":
            kw["dd_contrast_fn"] = ddG
        m = getattr(md, cls)(**kw)
        m.input = X.copy()
        if c.symbolic:
            Z = c.array("Z", (N, I, J), "c")
            c.stub(md, "whiten", lambda x: Z.copy())
            m._reset(demix_filter=W)
            calls = []
            c.stub(c.np.linalg, "svd", svd_contract(c, calls, (I,), N))
            eg = []

            def eigh(U, *a):
                lam = c.fresh_array("lam", (I, N, N), "f")
                w = c.fresh_array("eigvec", (I, N, N, N), "c")
                eg.append((U, a, w))
                return lam, w

            if cls == "FasterIVA":
                c.stub(md, "eigh", eigh)
        else:
            c.require(J >= 2 * N)
            m._reset(demix_filter=W)
            Z = m.whitened_input
        y = lambda n, i, j: c.sum(N, lambda a: W[i, n, a] * Z[a, i, j])
        r = lambda n, j: c.sqrt(c.sum(I, lambda i: c.abs2(y(n, i, j))))
        d2 = floor(c.fresh_from((N, J), lambda n, j: 2 * r(n, j)))
        m.update_once()
        R = m.demix_filter
        if c.symbolic:
            a1, D = dG.only()
            c.forall("derivative of the contrast at the source magnitudes", [N, J], lambda n, j: (a1[n, j], r(n, j)))
        else:
            D = dG.numeric(c.fresh_from((N, J), r))
        phi = lambda n, j: D[n, j] / d2[n, j]
        if cls == "FastIVA":
            if c.symbolic:
                a2, D2 = ddG.only()
                c.forall("second derivative of the contrast at the source magnitudes", [N, J], lambda n, j: (a2[n, j], r(n, j)))
            else:
                D2 = ddG.numeric(c.fresh_from((N, J), r))
            # h: conjugated filter rows as columns; step of the paper in terms of h
            step = lambda i, n, a: c.conj(
                c.sum(
                    J,
                    lambda j: phi(n, j) * (c.conj(W[i, n, a]) - c.conj(y(n, i, j)) * Z[a, i, j])
                    - c.conj(W[i, n, a]) * ((2 * phi(n, j) - D2[n, j]) / d2[n, j]) * c.abs2(y(n, i, j)),
                )
                / J
            )
            if c.symbolic:
                if len(calls) != 1:
                    raise NotImplementedError
                S = calls[0][0]
                c.forall("fixed-point step of every source", [I, N, N], lambda i, n, a: (S[i, n, a], step(i, n, a)))
            else:
                polar_numeric(c, R, c.fresh_from((I, N, N), step, "c"))
        else:
            U = lambda i, n, a, b: c.sum(J, lambda j: phi(n, j) * Z[a, i, j] * c.conj(Z[b, i, j])) / J
            if c.symbolic:
                if len(calls) != 1 or len(eg) != 1 or eg[0][1]:
                    raise NotImplementedError
                c.forall("weighted covariance of every source", [I, N, N, N], lambda *ix: (eg[0][0][ix], U(*ix)))
                S, w = calls[0][0], eg[0][2]
                c.forall("principal eigenvector of every source", [I, N, N], lambda i, n, a: (S[i, n, a], c.conj(w[i, n, a, N - 1])))
            else:
                # eigenvectors are defined up to a phase: compare the polar factors through the phase-invariant eigenprojectors
                Un = c.fresh_from((I, N, N, N), U, "c")
                lam, w = np.linalg.eigh(Un)
                c.require(np.all(lam[..., -1] - lam[..., -2] > 1e-2 * lam[..., -1]))
                S = w[..., -1].conj()
                for i in range(I):
                    s = np.linalg.svd(S[i])[1]
                    c.require(s[-1] > 1e-2 * s[0])
                    # R = D P(S) with a diagonal unitary D
                    u, _, v = np.linalg.svd(S[i])
                    P = u @ v
                    c.forall("nearest unitary matrix of the principal eigenvectors", [N, N, N], lambda n, a, b: (R[i, n, a] * np.conj(R[i, n, b]), P[n, a] * np.conj(P[n, b])))
        if c.symbolic:
            u, v = calls[0][1], calls[0][3]
            c.forall("symmetric decorrelation: product of the singular vectors", [I, N, N], lambda i, n, a: (R[i, n, a], c.sum(N, lambda k: u[i, n, k] * v[i, k, a])))
        c.forall("orthonormal rows on whitened data", [I, N, N], lambda i, n, k: (c.sum(N, lambda a: R[i, n, a] * c.conj(R[i, k, a])), c.delta(n, k)))
        c.unchanged("caller's filter not modified", W)
        c.unchanged("caller's mixture not modified", X)


# ---------------------------------------------------------------- C01: separate() with and without the documented whitening
def separate_contract(cls, mod, how):
    real = mod == ICA

    @contract("%s separate, %s" % (cls, how), "C01 C13", "bss.%s.%s.separate" % (mod.split(".")[-1], "FastICABase" if real else "FastIVABase"), samples=4)
    def sep(c):
        md = c.load(mod)
        N, J = c.dim("N", 2), c.dim("J", 2, nlo=6)
        lead = () if real else (c.dim("I"),)
        kd = "f" if real else "c"
        X = c.array("X", (N,) + lead + (J,), kd)
        W = c.array("W", lead + (N, N), kd, invertible=True)
        fn = lambda y: y
        kw = dict(contrast_fn=fn, record_loss=False)
        kw.update(dict(score_fn=fn, d_score_fn=fn) if real else dict(d_contrast_fn=fn, scale_restoration=False))
        if cls == "FastIVA":
            kw["dd_contrast_fn"] = fn
        m = getattr(md, cls)(**kw)
        src = X
        if how != "without whitening":
            if c.symbolic:
                Z = c.array("Z", (N,) + lead + (J,), kd)

                def whiten(x):
                    c.forall("the given input is whitened", list(X.shape), lambda *i: (x[i], X[i]))
                    return Z.copy()

                c.stub(md, "whiten", whiten)
                src = Z
            else:
                c.require(J >= N + 2)
                src = c.load("ssspy.transform.whiten").whiten(X.copy())
        more = {"whitening by default": {}, "with whitening": dict(use_whitening=True), "without whitening": dict(use_whitening=False)}[how]
        Y = m.separate(X, demix_filter=W, **more)
        c.forall("the filter applied to the mixture after the documented whitening", list(X.shape), lambda n, *i: (Y[(n,) + i], c.sum(N, lambda a: W[i[:-1] + (n, a)] * src[(a,) + i])))
        c.unchanged("input not modified", X)
        c.unchanged("filter not modified", W)


for _cls, _mod in (("FastICA", ICA), ("FastIVA", IV), ("FasterIVA", IV)):
    for _how in ("whitening by default", "with whitening", "without whitening"):
        separate_contract(_cls, _mod, _how)
