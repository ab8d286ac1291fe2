"""Proximal-splitting separation (C12): one primal-dual / ADMM iteration for arbitrary states, step sizes, relaxation and
arbitrary proximal operators or masks; objective (C06)."""

import numpy as np

from vc.registry import contract
from vc.cutil import OpaqueFn, Rec

PDS, ADMM, IV = "ssspy.bss.pdsbss", "ssspy.bss.admmbss", "ssspy.bss.iva"


class ProxFn:
    """arbitrary proximal operator: records the argument and the step size"""

    def __init__(self, c, name, k=0):
        self.c, self.name, self.k, self.calls = c, name, k, []

    def num(self, x, mu):
        return x / (1 + mu * (self.k + 1) * np.abs(x))

    def __call__(self, x, step_size=1):
        if not self.c.symbolic:
            return self.num(x, step_size)
        r = self.c.fresh_array("%s%d" % (self.name, len(self.calls)), x.shape, "c")
        self.calls.append((x, step_size, r))
        return r

    def one(self):
        if len(self.calls) != 1:
            raise NotImplementedError
        return self.calls[0]


def common(c, mod, cls, **kw):
    md = c.load(mod)
    N, I, J = c.dim("N", 2), c.dim("I"), c.dim("J", 2)
    X = c.array("X", (N, I, J), "c")
    W = c.array("W", (I, N, N), "c")
    alpha = c.scalar("alpha")
    m = getattr(md, cls)(relaxation=alpha, scale_restoration=False, record_loss=False, **kw)
    m.input = X.copy()
    return md, m, X, W, alpha, N, I, J


def eq(c, lab, dims, f, g, **k):
    c.forall(lab, list(dims), lambda *ix: (f(*ix), g(*ix)), **k)


def logdet_prox(c, md):
    """prox.neg_logdet replaced by its contract (C11): some matrix depending on argument and step size"""
    return Rec(c, md.prox, "neg_logdet", lambda a: c.fresh_array("Wp", a[list(a)[0]].shape, "c"))


def first(a):
    return a[list(a)[0]]


def check_logdet(c, rec, want, mu, dims):
    """argument and step size of the log-determinant prox; returns its result"""
    a = rec.only()
    Z = first(a)
    eq(c, "log-determinant prox evaluated at the documented point", dims, lambda *ix: Z[ix], want)
    c.forall("step size of the log-determinant prox", [1], lambda _: (a["step_size"], mu))


def real_logdet(c, V, mu):
    return c.load("ssspy.linalg.prox").neg_logdet(V, step_size=mu)


def pds(Q, masked):
    def f(c):
        mu1, mu2 = c.scalar("mu1", sign="pos"), c.scalar("mu2", sign="pos")
        if masked:
            M = OpaqueFn(c, "mask", lambda z: 1 / (1 + np.abs(z)), kind="f")
            md, m, X, W, al, N, I, J = common(c, PDS, "MaskingPDSBSS", mu1=mu1, mu2=mu2, mask_fn=M)
            D = c.array("D", (N, I, J), "c")
            d = lambda q, n, i, j: D[n, i, j]
        else:
            P = [ProxFn(c, "P%d_" % q, q) for q in range(Q)]
            md, m, X, W, al, N, I, J = common(c, PDS, "PDSBSS", mu1=mu1, mu2=mu2, prox_penalty=P if Q > 1 else P[0])
            D = c.array("D", (Q, N, I, J), "c")
            d = lambda q, n, i, j: D[q, n, i, j]
        m._reset(demix_filter=W, dual=D)
        if c.symbolic:
            holder = {}

            def res(a):
                holder["W"] = c.fresh_array("Wp", (I, N, N), "c")
                return holder["W"]

            rec = Rec(c, md.prox, "neg_logdet", res)
        m.update_once()
        arg = lambda i, n, a: W[i, n, a] - mu1 * mu2 * c.sum(J, lambda j: sum(d(q, n, i, j) for q in range(Q)) * c.conj(X[a, i, j]))
        if c.symbolic:
            check_logdet(c, rec, arg, mu1, (I, N, N))
            Wt = holder["W"]
        else:
            Wt = real_logdet(c, c.fresh_from((I, N, N), arg, "c"), mu1)
        z = lambda q: (lambda n, i, j: d(q, n, i, j) + c.sum(N, lambda a: (2 * Wt[i, n, a] - W[i, n, a]) * X[a, i, j]))
        R, E = m.demix_filter, m.dual
        eq(c, "filter relaxed between the prox and the previous filter", (I, N, N), lambda *ix: R[ix], lambda *ix: al * Wt[ix] + (1 - al) * W[ix])
        for q in range(Q):
            if masked:
                if c.symbolic:
                    a, K = M.only()
                    eq(c, "mask evaluated at the dual plus the reflected output", (N, I, J), lambda *ix: a[ix], z(q))
                else:
                    K = M.numeric(c.fresh_from((N, I, J), z(q), "c"))
                new = lambda n, i, j: z(q)(n, i, j) * (1 - K[n, i, j])
                eq(c, "dual", (N, I, J), lambda *ix: E[ix], lambda n, i, j: al * new(n, i, j) + (1 - al) * D[n, i, j])
            else:
                if c.symbolic:
                    x, mu, r = P[q].one()
                    eq(c, "prox of penalty %d evaluated at the dual plus the reflected output" % q, (N, I, J), lambda *ix: x[ix], z(q))
                    c.forall("step size of penalty %d" % q, [1], lambda _: (mu * mu2, 1))
                else:
                    r = P[q].num(c.fresh_from((N, I, J), z(q), "c"), 1 / mu2)
                eq(c, "dual of penalty %d" % q, (N, I, J), lambda n, i, j: E[q, n, i, j], lambda n, i, j: al * (z(q)(n, i, j) - r[n, i, j]) + (1 - al) * D[q, n, i, j])
        c.unchanged("caller's filter not modified", W)
        c.unchanged("caller's dual not modified", D)
        c.unchanged("caller's mixture not modified", X)

    return f


def admm(Q, masked):
    def f(c):
        rho = c.scalar("rho", sign="pos")
        if masked:
            M = OpaqueFn(c, "mask", lambda z: 1 / (1 + np.abs(z)), kind="f")
            md, m, X, W, al, N, I, J = common(c, ADMM, "MaskingADMMBSS", rho=rho, mask_fn=M)
            shp = (N, I, J)
            ixq = lambda q, *ix: ix
        else:
            P = [ProxFn(c, "P%d_" % q, q) for q in range(Q)]
            md, m, X, W, al, N, I, J = common(c, ADMM, "ADMMBSS", rho=rho, prox_penalty=P if Q > 1 else P[0])
            shp = (Q, N, I, J)
            ixq = lambda q, *ix: (q,) + ix
        V, Y = c.array("V", (I, N, N), "c"), c.array("Yd", (I, N, N), "c")
        Vt, Yt = c.array("Vt", shp, "c"), c.array("Yt", shp, "c")
        m._reset(demix_filter=W, auxiliary1=V, auxiliary2=Vt, dual1=Y, dual2=Yt)
        if c.symbolic:
            holder = {}

            def res(a):
                holder["V"] = c.fresh_array("Vp", (I, N, N), "c")
                return holder["V"]

            rec = Rec(c, md.prox, "neg_logdet", res)
        m.update_once()
        R = m.demix_filter
        # first step: minimiser of ||W - (V - Y)||^2 + sum_q ||W X - (V~_q - Y~_q)||^2
        rhs = lambda i, n, a: V[i, n, a] - Y[i, n, a] + c.sum(J, lambda j: sum(Vt[ixq(q, n, i, j)] - Yt[ixq(q, n, i, j)] for q in range(Q)) * c.conj(X[a, i, j]))
        XX = lambda i, a, b: c.sum(J, lambda j: X[a, i, j] * c.conj(X[b, i, j]))
        eq(c, "filter minimises the augmented Lagrangian", (I, N, N), lambda i, n, a: R[i, n, a] + Q * c.sum(N, lambda b: R[i, n, b] * XX(i, b, a)), rhs)
        u = lambda i, n, a: al * R[i, n, a] + (1 - al) * V[i, n, a]
        ut = lambda q: (lambda n, i, j: al * c.sum(N, lambda a: R[i, n, a] * X[a, i, j]) + (1 - al) * Vt[ixq(q, n, i, j)])
        arg = lambda i, n, a: u(i, n, a) + Y[i, n, a]
        if c.symbolic:
            check_logdet(c, rec, arg, 1 / rho, (I, N, N))
            Vn = holder["V"]
        else:
            Vn = real_logdet(c, c.fresh_from((I, N, N), arg, "c"), 1 / rho)
        A1, A2, D1, D2 = m.auxiliary1, m.auxiliary2, m.dual1, m.dual2
        eq(c, "auxiliary filter", (I, N, N), lambda *ix: A1[ix], lambda *ix: Vn[ix])
        eq(c, "dual filter", (I, N, N), lambda *ix: D1[ix], lambda *ix: Y[ix] + u(*ix) - Vn[ix])
        for q in range(Q):
            pt = lambda n, i, j: ut(q)(n, i, j) + Yt[ixq(q, n, i, j)]
            if masked:
                if c.symbolic:
                    a, K = M.only() if len(M.args) == 1 else (M.args[0], M.vals[0])
                    if len(M.args) != 1:
                        raise NotImplementedError
                    eq(c, "mask evaluated at the relaxed output plus dual", (N, I, J), lambda *ix: a[ix], pt)
                else:
                    K = M.numeric(c.fresh_from((N, I, J), pt, "c"))
                v = lambda n, i, j: K[n, i, j] * pt(n, i, j)
            else:
                if c.symbolic:
                    x, mu, r = P[q].one()
                    eq(c, "prox of penalty %d evaluated at the relaxed output plus dual" % q, (N, I, J), lambda *ix: x[ix], pt)
                    c.forall("step size of penalty %d" % q, [1], lambda _: (mu * rho, 1))
                else:
                    r = P[q].num(c.fresh_from((N, I, J), pt, "c"), 1 / rho)
                v = lambda n, i, j: r[n, i, j]
            eq(c, "auxiliary output %d" % q, (N, I, J), lambda *ix: A2[ixq(q, *ix)], v)
            eq(c, "dual output %d" % q, (N, I, J), lambda *ix: D2[ixq(q, *ix)], lambda n, i, j: pt(n, i, j) - v(n, i, j))
        for nm, a in (("filter", W), ("auxiliary filter", V), ("dual filter", Y), ("auxiliary output", Vt), ("dual output", Yt), ("mixture", X)):
            c.unchanged("caller's %s not modified" % nm, a)

    return f


for Q in (1, 2, 3):
    contract("PDSBSS update_once, %d penalt%s" % (Q, "y" if Q == 1 else "ies"), "C12", "bss.pdsbss.PDSBSS.update_once", samples=6)(pds(Q, False))
    contract("ADMMBSS update_once, %d penalt%s" % (Q, "y" if Q == 1 else "ies"), "C12", "bss.admmbss.ADMMBSS.update_once", samples=6)(admm(Q, False))
contract("MaskingPDSBSS update_once", "C12", "bss.pdsbss.MaskingPDSBSS.update_once", samples=6)(pds(1, True))
contract("MaskingADMMBSS update_once", "C12", "bss.admmbss.MaskingADMMBSS.update_once", samples=6)(admm(1, True))


# ---------------------------------------------------------------- objective (C06)
for cls, mod, key in (("PDSBSS", PDS, "prox_penalty"), ("ADMMBSS", ADMM, "prox_penalty"), ("MaskingPDSBSS", PDS, "mask_fn"), ("MaskingADMMBSS", ADMM, "mask_fn")):
    for Q in (1, 2):
        if cls.startswith("Masking") and Q > 1:
            continue

        @contract("%s compute_loss, %d penalt%s" % (cls, Q, "y" if Q == 1 else "ies"), "C06", "bss.proxbss.ProxBSSBase.compute_loss bss.proxbss.ProxBSSBase.separate", samples=6)
        def loss(c, cls=cls, mod=mod, Q=Q, key=key):
            from vc import symnp as S

            seen = []

            def pen(q):
                def f(y):
                    seen.append(y)
                    if c.symbolic:
                        return c.scalar("pen%d" % q)
                    return np.sum(np.abs(y) ** (q + 1))

                return f

            fs = [pen(q) for q in range(Q)]
            P = [ProxFn(c, "P%d_" % q, q) for q in range(Q)]
            md, m, X, W, al, N, I, J = common(c, mod, cls, penalty_fn=fs if Q > 1 else fs[0], **{key: P if Q > 1 else P[0]})
            m._reset(demix_filter=W)
            got = m.compute_loss()
            y = lambda n, i, j: c.sum(N, lambda a: W[i, n, a] * X[a, i, j])
            ld = c.sum(I, lambda i: c.logabsdet(N, lambda a, b: W[i, a, b]))
            if c.symbolic and len(seen) != Q:
                raise NotImplementedError
            for q in range(Q if len(seen) == Q else 0):
                eq(c, "penalty %d evaluated at the separated signal" % q, (N, I, J), lambda *ix: seen[q][ix], y)
            if c.symbolic:
                tot = sum(c.scalar("pen%d" % q) for q in range(Q))
            else:
                Y = c.fresh_from((N, I, J), y, "c")
                tot = sum(np.sum(np.abs(Y) ** (q + 1)) for q in range(Q))
                c.ensure("a finite real Python number", type(got) is float and np.isfinite(got))
            c.forall("sum of the penalties minus the log-determinants", [1], lambda _: (got, tot - ld))


# ---------------------------------------------------------------- IVA specialisations
for cls in ("PDSIVA", "ADMMIVA"):
    for default in (True, False):

        @contract("%s penalty %s" % (cls, "default" if default else "given"), ["C12", "C06", "C22"], "bss.iva.%s.__init__" % cls, samples=6)
        def spec(c, cls=cls, default=default):
            md = c.load(IV)
            N, I, J = c.dim("N", 2), c.dim("I"), c.dim("J", 2)
            Y = c.array("Y", (N, I, J), "c")
            mu = c.scalar("mu", sign="pos")
            if default:
                m = getattr(md, cls)()
                r = lambda n, j: c.sqrt(c.sum(I, lambda i: c.abs2(Y[n, i, j])))
                got = m.prox_penalty[0](Y, step_size=mu)
                want = c.load("ssspy.linalg.prox").l21(Y, step_size=mu, axis2=1)
                c.forall("default prox: group shrinkage over frequency", [N, I, J], lambda *ix: (got[ix], want[ix]))
                c.forall("default penalty: sum over sources and frames of the norm over frequency", [1], lambda _: (m.penalty_fn[0](Y), c.sum(N, lambda n: c.sum(J, lambda j: r(n, j)))))
                c.forall("default prox has unit step size by default", [N, I, J], lambda *ix: (m.prox_penalty[0](Y)[ix], c.load("ssspy.linalg.prox").l21(Y, step_size=1, axis2=1)[ix]))
            else:
                G = OpaqueFn(c, "G", lambda y: np.sum(np.abs(y), axis=1) ** 1.5, kind="f", shape=lambda a: (a.shape[0], a.shape[2]))
                P = ProxFn(c, "P")
                m = getattr(md, cls)(contrast_fn=G, prox_penalty=P)
                c.ensure("given prox is used", len(m.prox_penalty) == 1 and m.prox_penalty[0] is P)
                got = m.penalty_fn[0](Y)
                if c.symbolic:
                    a, g = G.only()
                    c.forall("contrast of the given signal", [N, I, J], lambda *ix: (a[ix], Y[ix]))
                else:
                    g = G.numeric(Y)
                c.forall("penalty is the contrast summed over sources and frames", [1], lambda _: (got, c.sum(N, lambda n: c.sum(J, lambda j: g[n, j]))))
            c.ensure("one penalty", m.n_penalties == 1)
