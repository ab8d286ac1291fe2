"""Objectives of ICA, frequency-domain ICA and IVA (C06) and the majorizer weights of AuxFDICA / AuxIVA (C03)."""

import numpy as np

from vc.registry import contract
from vc.cutil import OpaqueFn, Rec

ICA, FD, IV = "ssspy.bss.ica", "ssspy.bss.fdica", "ssspy.bss.iva"


def opaque_contrast(c, fam):
    if fam == "IVA":
        return OpaqueFn(c, "contrast", lambda y: np.sum(np.abs(y) ** 1.5, axis=1) ** 0.7, kind="f", shape=lambda a: (a.shape[0], a.shape[2]))
    return OpaqueFn(c, "contrast", lambda y: np.abs(y) ** 1.5, kind="f")


def grad_kw(G):
    return dict(contrast_fn=G, score_fn=lambda y: y)


CASES = []
for nat in ("Grad", "NaturalGrad"):
    CASES.append(("ICA", ICA, nat + "ICA", grad_kw))
    CASES.append(("FDICA", FD, nat + "FDICA", grad_kw))
    CASES.append(("IVA", IV, nat + "IVA", grad_kw))
CASES.append(("FDICA", FD, "AuxFDICA", lambda G: dict(contrast_fn=G, d_contrast_fn=lambda y: y)))
CASES.append(("IVA", IV, "AuxIVA", lambda G: dict(contrast_fn=G, d_contrast_fn=lambda y: y)))
CASES.append(("IVA", IV, "AuxIVA signal mode", lambda G: dict(contrast_fn=G, d_contrast_fn=lambda y: y, spatial_algorithm="ISS1")))
CASES.append(("ICA", ICA, "FastICA", lambda G: dict(contrast_fn=G, score_fn=lambda y: y, d_score_fn=lambda y: y)))
CASES.append(("IVA", IV, "FastIVA", lambda G: dict(contrast_fn=G, d_contrast_fn=lambda y: y, dd_contrast_fn=lambda y: y)))
CASES.append(("IVA", IV, "FasterIVA", lambda G: dict(contrast_fn=G, d_contrast_fn=lambda y: y)))


def mk(c, fam, mod, cls, kw):
    md = c.load(mod)
    N, J = c.dim("N", 2), c.dim("J", 2, nlo=8)
    I = None if fam == "ICA" else c.dim("I")
    kd = "f" if fam == "ICA" else "c"
    X = c.array("X", (N, J) if I is None else (N, I, J), kd)
    W = c.array("W", (N, N) if I is None else (I, N, N), kd, invertible=True)
    args = dict(kw, record_loss=False)
    if fam != "ICA":
        args.update(scale_restoration=False)
    if fam == "FDICA":
        args["permutation_alignment"] = False
    m = getattr(md, cls)(**args)
    m.input = X.copy()
    return md, m, X, W, N, I, J


for fam, mod, cls, kwf in CASES:

    @contract("%s compute_loss" % cls, "C06", "bss.%s.%s.compute_loss bss.%s.%s.separate" % (mod.split(".")[-1], cls.split()[0], mod.split(".")[-1], cls.split()[0]), samples=6)
    def loss(c, fam=fam, mod=mod, cls=cls, kwf=kwf):
        G = opaque_contrast(c, fam)
        md, m, X, W, N, I, J = mk(c, fam, mod, cls.split()[0], kwf(G))
        fast = cls.startswith("Fast")
        if fast:
            Z = c.array("Z", X.shape, X.kind if c.symbolic else ("f" if fam == "ICA" else "c"))
            if c.symbolic:
                c.stub(md, "whiten", lambda x: Z.copy())
                m._reset(demix_filter=W)
            else:
                m._reset(demix_filter=W)
                Z = m.whitened_input
        else:
            Z = X
            m._reset(demix_filter=W)
        got = m.compute_loss()
        if I is None:
            y = lambda n, j: c.sum(N, lambda a: W[n, a] * Z[a, j])
        else:
            y = lambda n, i, j: c.sum(N, lambda a: W[i, n, a] * Z[a, i, j])
        dims = [N, J] if I is None else [N, I, J]
        if c.symbolic:
            a, g = G.only()
            c.forall("contrast evaluated at the separated signal", dims, lambda *ix: (a[ix], y(*ix)))
        else:
            g = G.numeric(c.fresh_from(tuple(dims), y, "f" if fam == "ICA" else "c"))
            c.ensure("a finite real Python number", type(got) is float and np.isfinite(got))
        if fam == "FDICA":
            s = c.sum(N, lambda n: c.sum(I, lambda i: c.sum(J, lambda j: g[n, i, j]))) / J
        else:
            s = c.sum(N, lambda n: c.sum(J, lambda j: g[n, j])) / J
        if not fast:
            if I is None:
                s = s - c.logabsdet(N, lambda a, b: W[a, b])
            else:
                s = s - 2 * c.sum(I, lambda i: c.logabsdet(N, lambda a, b: W[i, a, b]))
        c.forall("documented objective", [1], lambda _: (got, s))
        c.unchanged("mixture not modified", X)
        c.unchanged("filter not modified", W)


# ---------------------------------------------------------------- built-in contrasts of the auxiliary-function methods
for cls, mod, src in (("AuxLaplaceFDICA", FD, "Laplace"), ("AuxLaplaceIVA", IV, "Laplace"), ("AuxGaussIVA", IV, "Gauss")):

    @contract("%s contrast" % cls, ["C03", "C06"], "bss.%s.%s" % (mod.split(".")[-1], cls), samples=4)
    def contrast(c, cls=cls, mod=mod, src=src):
        """contrast and its derivative with respect to the magnitude"""
        fam = "FDICA" if "FDICA" in cls else "IVA"
        md, m, X, W, N, I, J = mk(c, fam, mod, cls, {})
        m._reset(demix_filter=W)
        Y = c.array("Y", (N, I, J), "c")
        r = c.array("r", (N, I, J) if fam == "FDICA" else (N, J), "f", sign="pos")
        if src == "Gauss":
            v = c.array("v", (N, J), "f", sign="pos")
            m.variance = v
        G, D = m.contrast_fn(Y), m.d_contrast_fn(r)
        p = lambda n, j: c.sum(I, lambda i: c.abs2(Y[n, i, j]))
        if fam == "FDICA":
            c.forall("contrast 2|y|", [N, I, J], lambda n, i, j: (G[n, i, j], 2 * c.abs(Y[n, i, j])))
            c.forall("derivative 2", [N, I, J], lambda n, i, j: (D[n, i, j], 2))
        elif src == "Laplace":
            c.forall("contrast 2||y||", [N, J], lambda n, j: (G[n, j], 2 * c.sqrt(p(n, j))))
            c.forall("derivative 2", [N, J], lambda n, j: (D[n, j], 2))
        else:
            c.forall("contrast I log v + ||y||^2/v", [N, J], lambda n, j: (G[n, j], I * c.log(v[n, j]) + p(n, j) / v[n, j]))
            c.forall("derivative 2r/v", [N, J], lambda n, j: (D[n, j], 2 * r[n, j] / v[n, j]))
            m.update_source_model()
            y = lambda n, i, j: c.sum(N, lambda a: W[i, n, a] * X[a, i, j])
            c.forall("variance is the mean power over bins", [N, J], lambda n, j: (m.variance[n, j], c.sum(I, lambda i: c.abs2(y(n, i, j))) / I))


# ---------------------------------------------------------------- majorizer weights handed to the spatial updates
FN = {"IP1": "update_by_ip1", "ISS1": "update_by_iss1", "ISS2": "update_by_iss2", "IPA": "update_by_ipa"}


def weights(c, fam, src, N, I, J, y, floor, phi_old=None):
    """documented weight: derivative of the contrast over twice the magnitude (floored)"""
    if fam == "FDICA":
        d = floor(c.fresh_from((N, I, J), lambda n, i, j: 2 * c.abs(y(n, i, j))))
        return lambda n, i, j: 2 / d[n, i, j]
    r = lambda n, j: c.sqrt(c.sum(I, lambda i: c.abs2(y(n, i, j))))
    d = floor(c.fresh_from((N, J), lambda n, j: 2 * r(n, j)))
    if src == "Laplace":
        return lambda n, i, j: 2 / d[n, j]
    v = lambda n, j: c.sum(I, lambda i: c.abs2(y(n, i, j))) / I
    return lambda n, i, j: 2 * r(n, j) / (v(n, j) * d[n, j])


AUX = [("FDICA", "Laplace", "AuxLaplaceFDICA", FD, ("IP1",)), ("IVA", "Laplace", "AuxLaplaceIVA", IV, ("IP1", "ISS1", "ISS2", "IPA")), ("IVA", "Gauss", "AuxGaussIVA", IV, ("IP1", "ISS1", "ISS2", "IPA"))]

for fam, src, cls, mod, algs in AUX:
    for alg in algs:

        @contract("%s update_once %s" % (cls, alg), "C03", "bss.%s.%s.update_once bss.%s.%s.update_once_%s" % (mod.split(".")[-1], cls, mod.split(".")[-1], cls, alg.lower()), samples=6)
        def aux(c, fam=fam, src=src, cls=cls, mod=mod, alg=alg):
            floor = c.ufunc("floor", sign="pos")
            if alg == "IPA" and not c.symbolic and c.rng.random() < 0.6:
                floor = lambda x: np.maximum(x, 1e-12)  # a small floor: the Newton steps are then really taken
            sel = c.load("ssspy.utils.select_pair").combination_pair_selector
            kw = dict(spatial_algorithm=alg, flooring_fn=floor)
            if alg == "ISS2":
                kw["pair_selector"] = sel
            if alg == "IPA":
                kw.update(newton_iter=3, lqpqm_normalization=False)
            md, m, X, W, N, I, J = mk(c, fam, mod, cls, kw)
            if not c.symbolic:
                c.require(J >= 2 * N)
            m._reset(demix_filter=W)
            signal = alg in ("ISS1", "ISS2", "IPA")
            if signal:
                Y = c.array("Y", (N, I, J), "c")
                m.output = Y
                y = lambda n, i, j: Y[n, i, j]
            else:
                y = lambda n, i, j: c.sum(N, lambda a: W[i, n, a] * X[a, i, j])
            if src == "Gauss":
                m.variance = c.array("v", (N, J), "f", sign="pos")
            w = weights(c, fam, src, N, I, J, y, floor)
            if not c.symbolic:
                w = c.fresh_from((N, I, J), w, "f")
                wf = lambda n, i, j: w[n, i, j]
            else:
                wf = w
            U = lambda i, n, a, b: c.sum(J, lambda j: wf(n, i, j) * X[a, i, j] * c.conj(X[b, i, j])) / J
            shp = (N, I, J) if signal else (I, N, N)
            if not c.symbolic:
                k2 = dict(flooring_fn=floor)
                if alg == "ISS2":
                    k2["pair_selector"] = sel
                if alg == "IPA":
                    k2.update(normalization=False, max_iter=3)
                f = getattr(c.load("ssspy.bss._update_spatial_model"), FN[alg])
                if signal:
                    want = f(Y.copy(), w, **k2)
                else:
                    want = f(W.copy(), c.fresh_from((I, N, N, N), U, "c"), **k2)
                m.update_once()
                got = m.output if signal else m.demix_filter
                c.forall("spatial update with the majorizer's weights", list(shp), lambda *ix: (got[ix], want[ix]))
                return
            res = c.fresh_array("result", shp, "c")
            r = Rec(c, md, FN[alg], lambda a: res)
            m.update_once()
            a = r.only()
            got = m.output if signal else m.demix_filter
            c.forall("result is the new state", list(shp), lambda *ix: (got[ix], res[ix]))
            if signal:
                c.forall("current separated signal is updated", list(shp), lambda *ix: (a["separated"][ix], Y[ix]))
                ws = a["weight"]
                one = ws.shape[1] == 1
                c.forall("weight", [N, I, J], lambda n, i, j: (ws[n, 0 if one else i, j], wf(n, i, j)))
                c.ensure("no filter", m.demix_filter is None)
            else:
                c.forall("current filter is updated", list(shp), lambda *ix: (a["demix_filter"][ix], W[ix]))
                c.forall("weighted covariance", [I, N, N, N], lambda *ix: (a["weighted_covariance"][ix], U(*ix)))
            c.ensure("flooring function handed on", a["flooring_fn"] is floor)
            if alg == "ISS2":
                c.ensure("pair selector handed on", a["pair_selector"] is sel)
            if alg == "IPA":
                c.ensure("options handed on", a["normalization"] is False and a["max_iter"] == 3)


# ---------------------------------------------------------------- pairwise updates: weights re-evaluated at the latest filter
def pairs_of(c, N, note):
    """an arbitrary sequence of pairs of distinct sources (symbolically), a random one on the real code"""
    if c.symbolic:
        from vc.loader import SymIter

        K = c.dim("npairs", 1)

        def item(k):
            m, n = c.index("m", N), c.index("n", N)
            c.require(m != n)
            note.append((m, n))
            return m, n

        def selector(n_sources, *a, **k):
            c.ensure_int("selector is asked for pairs of all the sources", n_sources == N)
            return SymIter(K, item)

        return selector
    ps = [tuple(int(x) for x in c.rng.choice(N, size=2, replace=False)) for _ in range(int(c.rng.integers(1, 4)))]
    note.extend(ps)
    return lambda n: iter(ps)


for fam, src, cls, mod, _ in AUX:

    @contract("%s update_once IP2" % cls, "C03", "bss.%s.%s.update_once bss.%s.%s.update_once_ip2" % (mod.split(".")[-1], cls, mod.split(".")[-1], cls), samples=8)
    def aux2(c, fam=fam, src=src, cls=cls, mod=mod):
        from vc.explore import LoopSpec

        floor = c.ufunc("floor", sign="pos")
        note = []
        md, m, X, W, N, I, J = mk(c, fam, mod, cls, dict(spatial_algorithm="IP2", flooring_fn=floor))
        m.pair_selector = pairs_of(c, N, note)
        m._reset(demix_filter=W)
        y0 = lambda n, i, j: c.sum(N, lambda a: W[i, n, a] * X[a, i, j])
        if src == "Gauss":
            m.variance = c.array("v", (N, J), "f", sign="pos")
            var = lambda n, j: c.sum(I, lambda i: c.abs2(y0(n, i, j))) / I
        else:
            var = None

        def wgt(c, y):
            """weights of a pair, given the pair's separated signals y(s, i, j) and source indices s"""

            def f(s):
                if fam == "FDICA":
                    d = floor(c.fresh_from((I, J), lambda i, j: 2 * c.abs(y(s, i, j))))
                    return lambda i, j: 2 / d[i, j]
                r = lambda j: c.sqrt(c.sum(I, lambda i: c.abs2(y(s, i, j))))
                d = floor(c.fresh_from((J,), lambda j: 2 * r(j)))
                if src == "Laplace":
                    return lambda i, j: 2 / d[j]
                return lambda i, j: 2 * r(j) / (var(s, j) * d[j])

            return f

        cov = lambda c, w, s: (lambda i, a, b: c.sum(J, lambda j: w(s)(i, j) * X[a, i, j] * c.conj(X[b, i, j])) / J)
        if not c.symbolic:
            c.require(J >= 2 * N)
            c.tol = 1e-4
            f = c.load("ssspy.bss._update_spatial_model").update_by_ip2_one_pair
            m.update_once()
            V = W.copy()
            for p in note:
                w = wgt(c, lambda n, i, j: sum(V[i, n, a] * X[a, i, j] for a in range(N)))
                Up = np.stack([c.fresh_from((I, N, N), cov(c, w, s), "c") for s in p], axis=1)
                V[:, p, :] = f(V, Up, pair=p, flooring_fn=floor)
            c.forall("every pair in turn, with weights at the latest filter", [I, N, N], lambda *ix: (m.demix_filter[ix], V[ix]))
            return
        res = c.fresh_array("result", (I, 2, N), "c")
        r = Rec(c, md, "update_by_ip2_one_pair", lambda a: (keep.append((a["demix_filter"].copy(), a["weighted_covariance_pair"].copy())), res)[1])
        keep = []

        def check(cx, k, old, new):
            A, B = old["W"], new["W"]
            p, q = note[-1]
            a = r.only()
            F, Up = keep[-1]
            same = lambda lab, d, f, g, **k: cx.forall(lab, list(d), lambda *ix: (f(*ix), g(*ix)), **k)
            same("latest filter is updated", (I, N, N), lambda *ix: F[ix], lambda *ix: A[ix])
            cx.ensure_int("pair handed on", a["pair"][0] == p)
            cx.ensure_int("pair handed on (second)", a["pair"][1] == q)
            cx.ensure("flooring function handed on", a["flooring_fn"] is floor)
            w = wgt(cx, lambda n, i, j: cx.sum(N, lambda b: A[i, n, b] * X[b, i, j]))
            for t, s in enumerate((p, q)):
                same("weighted covariance of the %s source of the pair" % ("first", "second")[t], (I, N, N), lambda i, x, y: Up[i, t, x, y], cov(cx, w, s))
                same("row of the %s source replaced" % ("first", "second")[t], (I, N), lambda i, x: B[i, s, x], lambda i, x: res[i, t, x])
            same("rows outside the pair unchanged", (I, N, N), lambda *ix: A[ix], lambda *ix: B[ix], where=lambda i, l, x: [l != p, l != q])

        def init(cx, st):
            cx.forall("sweep starts from the given filter", [I, N, N], lambda *ix: (st["W"][ix], W[ix]))

        c.loops(LoopSpec({"W": m.demix_filter}, check=check, init=init))
        Wst = m.demix_filter
        m.update_once()
        c.ensure("the swept filter is the new state", m.demix_filter is Wst or m.demix_filter.st is Wst.st)
