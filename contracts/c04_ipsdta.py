"""Independent positive semidefinite tensor analysis (IPSDTA): source rules C04, normalisation C05, objective C06, spatial
update C03, for any number of blocks, neighbours and bins that do not divide evenly."""

import copy
import inspect

import numpy as np

from vc.cutil import Rec, is_identity
from vc.registry import contract

MD = "ssspy.bss.ipsdta"


class Setup:
    def __init__(self, c, cls, rem, frames=3, **kw):
        self.c, self.cls = c, cls
        md = self.md = c.load(MD)
        self.N, self.J, self.K = c.dim("N", 2, nhi=2), c.dim("J", 2, nlo=frames), c.dim("K", nhi=2)
        P = self.P = c.dim("P", nhi=3)
        N, J, K = self.N, self.J, self.K
        if rem:
            bl, r = c.dim("Bl", nhi=2), c.dim("r", nhi=2)
            B = bl + r
            I = B * P + r
            self.parts = [(0, bl, P), (bl * P, r, P + 1)]
        else:
            B = c.dim("B", nhi=3)
            I = B * P
            self.parts = [(0, B, P)]
        self.B, self.I = B, I
        self.X = c.array("X", (N, I, J), "c")
        self.W = c.array("W", (I, N, N), "c", invertible=True)
        self.Ts = [c.array("T%d" % k, (N, K, b, p, p), "c", pd=True) for k, (_, b, p) in enumerate(self.parts)]
        self.V = c.array("V", (N, K, J), "f", sign="pos")
        self.R = None
        self.floor = c.ufunc("floor", sign="pos")
        args = dict(flooring_fn=self.floor, record_loss=False, scale_restoration=False)
        self.nu = None
        if cls == "TIPSDTA":
            self.nu = c.scalar("nu", sign="pos")
            args["dof"] = self.nu
        args.update(kw)
        m = self.m = getattr(md, cls)(K, B, **args)
        m.input = self.X
        m.n_sources = m.n_channels = N
        m.n_bins, m.n_frames = I, J
        m.demix_filter, m.activation = self.W, self.V
        m.basis = tuple(self.Ts) if rem else self.Ts[0]
        self.rem = rem

    def tup(self, l):
        return tuple(l) if self.rem else l[0]

    def untup(self, x):
        l = list(x) if self.rem else [x]
        if len(l) != len(self.parts):
            raise NotImplementedError
        return l

    def covariance(self):
        """the model covariance: symbolically by the contract of reconstruct_block_decomposition_psdtf (positive definite)"""
        c = self.c
        if c.symbolic:
            self.R = [c.array("R%d" % k, (self.N, self.J, b, p, p), "c", pd=True) for k, (_, b, p) in enumerate(self.parts)]
            self.rcalls = []

            def stub(basis, activation, axis1=-2, axis2=-1):
                self.rcalls.append((basis, activation))
                return self.tup(self.R) if basis is self.m.basis else self.one(basis)

            c.stub(self.m, "reconstruct_block_decomposition_psdtf", stub)
        else:
            self.R = self.untup(copy.deepcopy(self.m).reconstruct_block_decomposition_psdtf(copy.deepcopy(self.m.basis), self.V.copy()))
            self.rinv = [np.linalg.inv(R) for R in self.R]

    def one(self, basis):
        for T, R in zip(self.Ts, self.R):
            if basis is T:
                return R
        raise NotImplementedError("covariance of another basis")

    def check_rcalls(self):
        c = self.c
        for k, (b, v) in enumerate(self.rcalls):
            c.ensure("model covariance from the current parameters (%d)" % k, v is self.V)

    def Ri(self, k):
        """entries of R^-1 of part k"""
        c, p = self.c, self.parts[k][2]
        if not c.symbolic:
            Z = self.rinv[k]
            return lambda n, j, b: (lambda x, y: Z[n, j, b, x, y])
        return lambda n, j, b: c.inv(p, lambda x, y: self.R[k][n, j, b, x, y])

    def bin(self, k, b, p):
        off, _, P = self.parts[k]
        return off + b * P + p

    def y(self, n, i, j):
        return self.c.sum(self.N, lambda m: self.W[i, n, m] * self.X[m, i, j])

    def yRy(self, n, j):
        c = self.c
        t = 0
        for k, (_, B, P) in enumerate(self.parts):
            ri = self.Ri(k)

            def blk(b, k=k, P=P, ri=ri):
                v = ri(n, j, b)
                return c.sum(P, lambda x: c.sum(P, lambda w: c.conj(self.y(n, self.bin(k, b, x), j)) * v(x, w) * self.y(n, self.bin(k, b, w), j)))

            t = t + c.sum(B, blk)
        return c.re(t)

    def weight(self, n, j):
        if self.nu is None:
            return 1
        return (self.nu + 2 * self.c.num(self.I)) / (self.nu + 2 * self.yRy(n, j)) if self.c.symbolic else (self.nu + 2 * self.I) / (self.nu + 2 * self.yRy(n, j))

    def activation_ratio(self, n, q, j):
        """numerator and denominator of the multiplicative activation rule"""
        s, c = self, self.c
        num = den = 0
        for k, (_, B, P) in enumerate(s.parts):
            ri = s.Ri(k)
            T = s.Ts[k]

            def blk_n(b, k=k, P=P, ri=ri, T=T):
                v = ri(n, j, b)
                u = lambda x: c.sum(P, lambda w: v(x, w) * s.y(n, s.bin(k, b, w), j))
                ub = lambda x: c.sum(P, lambda w: c.conj(s.y(n, s.bin(k, b, w), j)) * v(w, x))
                return c.sum(P, lambda x: c.sum(P, lambda w: u(x) * ub(w) * T[n, q, b, w, x]))

            def blk_d(b, P=P, ri=ri, T=T):
                v = ri(n, j, b)
                return c.sum(P, lambda x: c.sum(P, lambda w: v(x, w) * T[n, q, b, w, x]))

            num = num + c.re(c.sum(B, blk_n))
            den = den + c.re(c.sum(B, blk_d))
        return num * s.weight(n, j), den

    def frame(self):
        c = self.c
        c.unchanged("X not written", self.X)
        c.unchanged("W not written", self.W)
        c.unchanged("V not written", self.V)
        for k, T in enumerate(self.Ts):
            c.unchanged("T%d not written" % k, T)


for rem in (False, True):
    rn = "remainder" if rem else "even blocks"

    @contract("IPSDTA reconstruct, %s" % rn, "C04 C06", "bss.ipsdta.BlockDecompositionIPSDTABase.reconstruct_block_decomposition_psdtf", samples=5)
    def reconstruct(c, rem=rem):
        """model covariance of every source, frame and block: sum over bases of activation times basis, projected to positive definite"""
        s = Setup(c, "GaussIPSDTA", rem)
        c.shape("twin", s.V, (s.N, s.K, s.J))
        psd = []
        if c.symbolic:

            def res(a):
                r = c.array("psd%d" % len(psd), tuple(a["X"].shape), "c", pd=True)
                psd.append((a, r))
                return r

            Rec(c, s.md, "to_psd", res)
        got = s.untup(s.m.reconstruct_block_decomposition_psdtf(s.m.basis, s.V))
        for k, (_, B, P) in enumerate(s.parts):
            want = lambda n, j, b, x, y, k=k: c.sum(s.K, lambda q: s.Ts[k][n, q, b, x, y] * s.V[n, q, j])
            if c.symbolic:
                if len(psd) != len(s.parts):
                    raise NotImplementedError
                a, r = psd[k]
                c.ensure("projected over the block axes (part %d)" % k, (a["axis1"], a["axis2"]) in ((3, 4), (-2, -1)))
                c.ensure("the projection is returned (part %d)" % k, got[k] is r)
                c.forall("sum of the bases (part %d)" % k, [s.N, s.J, B, P, P], lambda *ix: (a["X"][ix], want(*ix)))
            else:
                ref = c.load("ssspy.special.psd").to_psd(c.fresh_from((s.N, s.J, B, P, P), want, "c"))
                c.forall("projected sum of the bases (part %d)" % k, [s.N, s.J, B, P, P], lambda *ix: (got[k][ix], ref[ix]))
        s.frame()

    @contract("IPSDTA trace normalisation, %s" % rn, "C05", "bss.ipsdta.BlockDecompositionIPSDTABase.normalize_block_decomposition_psdtf", samples=5)
    def normalize(c, rem=rem):
        s = Setup(c, "GaussIPSDTA", rem, source_normalization=True)
        m = s.m
        m.normalize_block_decomposition_psdtf()
        Ts, V = s.untup(m.basis), m.activation
        c.forall("unit trace over all blocks", [s.N, s.K], lambda n, q: (sum((c.sum(B, lambda b, k=k, P=P: c.sum(P, lambda x: Ts[k][n, q, b, x, x])) for k, (_, B, P) in enumerate(s.parts)), 0), 1))
        for k, (_, B, P) in enumerate(s.parts):
            c.forall("every basis times its activation unchanged (part %d)" % k, [s.N, s.K, B, P, P, s.J], lambda n, q, b, x, y, j, k=k: (Ts[k][n, q, b, x, y] * V[n, q, j], s.Ts[k][n, q, b, x, y] * s.V[n, q, j]))
        c.ensure("filter kept", m.demix_filter is s.W)
        s.frame()

    for cls in ("GaussIPSDTA", "TIPSDTA"):

        @contract("%s compute_loss, %s" % (cls, rn), "C06", "bss.ipsdta.%s.compute_loss" % cls, samples=5)
        def loss(c, rem=rem, cls=cls):
            s = Setup(c, cls, rem)
            s.covariance()
            got = s.m.compute_loss()

            def ld(j):
                t = 0
                for k, (_, B, P) in enumerate(s.parts):
                    t = t + c.sum(s.N, lambda n, k=k, B=B, P=P: c.sum(B, lambda b: c.logabsdet(P, lambda x, y: s.R[k][n, j, b, x, y])))
                return t

            def dens(j):
                if s.nu is None:
                    return c.sum(s.N, lambda n: s.yRy(n, j))
                half = (s.nu + 2 * (c.num(s.I) if c.symbolic else s.I)) / 2
                return c.sum(s.N, lambda n: half * c.log(1 + 2 / s.nu * s.yRy(n, j)))

            det = 0
            for k, (_, B, P) in enumerate(s.parts):
                det = det + c.sum(B, lambda b, k=k, P=P: c.sum(P, lambda p: c.logabsdet(s.N, lambda x, y: s.W[s.bin(k, b, p), x, y])))
            c.forall("documented objective", [1], lambda _: (got, c.sum(s.J, lambda j: dens(j) + ld(j)) / s.J - 2 * det))
            if c.symbolic:
                s.check_rcalls()
            else:
                c.ensure("a finite real Python number", type(got) is float and np.isfinite(got))
            s.frame()

        @contract("%s update_activation_mm, %s" % (cls, rn), "C04", "bss.ipsdta.%s.update_activation_mm" % cls, samples=5)
        def activation(c, rem=rem, cls=cls):
            s = Setup(c, cls, rem)
            s.covariance()
            s.m.update_activation_mm()
            new = s.m.activation

            def eq(n, q, j):
                a, b = s.activation_ratio(n, q, j)
                return new[n, q, j], s.V[n, q, j] * c.sqrt(a / b)

            c.forall("multiplicative rule", [s.N, s.K, s.J], eq)
            c.ensure("other parameters kept", s.m.demix_filter is s.W and all(a is b for a, b in zip(s.untup(s.m.basis), s.Ts)))
            if c.symbolic:
                s.check_rcalls()
            s.frame()

        @contract("%s update_basis_mm, %s" % (cls, rn), "C04", "bss.ipsdta.%s.update_basis_mm" % cls, samples=5)
        def basis(c, rem=rem, cls=cls):
            """Gauss: geometric mean of P and T Q T; Student-t: T S (S T P T S)^(-1/2) S T with S = Q^(1/2); projected to positive
            definite, P and Q the activation-weighted means of R^-1 and (weighted) R^-1 y y^H R^-1"""
            s = Setup(c, cls, rem)
            s.covariance()
            psd, other = [], {}
            if c.symbolic:

                def res(a):
                    r = c.array("psd%d" % len(psd), tuple(a["X"].shape), "c", pd=True)
                    psd.append((a, r))
                    return r

                Rec(c, s.md, "to_psd", res)

                def mk(nm):
                    lst = other[nm] = []

                    def f(a):
                        r = c.array("%s%d" % (nm, len(lst)), tuple(list(a.values())[0].shape), "c", pd=True)
                        lst.append((a, r))
                        return r

                    Rec(c, s.md, nm, f)

                for nm in ("gmeanmh", "sqrtmh", "invsqrtmh"):
                    if hasattr(s.md, nm):
                        mk(nm)
            s.m.update_basis_mm()
            new = s.untup(s.m.basis)
            for k, (_, B, P) in enumerate(s.parts):
                ri, T = s.Ri(k), s.Ts[k]
                sh = [s.N, s.K, B, P, P]
                Pm = lambda n, q, b, x, y, ri=ri: c.sum(s.J, lambda j: s.V[n, q, j] * ri(n, j, b)(x, y)) / s.J

                def Qm(n, q, b, x, y, ri=ri, P=P, k=k):
                    def f(j):
                        v = ri(n, j, b)
                        u = c.sum(P, lambda w: v(x, w) * s.y(n, s.bin(k, b, w), j))
                        ub = c.sum(P, lambda w: c.conj(s.y(n, s.bin(k, b, w), j)) * v(w, y))
                        return s.V[n, q, j] * s.weight(n, j) * u * ub

                    return c.sum(s.J, f) / s.J

                TQT = lambda n, q, b, x, y, P=P, T=T: c.sum(P, lambda u: c.sum(P, lambda w: T[n, q, b, x, u] * Qm(n, q, b, u, w) * T[n, q, b, w, y]))
                tag = " (part %d)" % k
                if c.symbolic:
                    if len(psd) != 3 * len(s.parts):
                        raise NotImplementedError
                    tr = psd[3 * k: 3 * k + 3]
                    for a, _ in tr:
                        f = a["flooring_fn"]
                        if not (f is s.m.flooring_fn and a["axis1"] == -2 and a["axis2"] == -1):
                            raise NotImplementedError
                    if cls == "GaussIPSDTA":
                        if len(other["gmeanmh"]) != len(s.parts):
                            raise NotImplementedError
                        g, G = other["gmeanmh"][k]
                        (a0, r0), (a1, r1), (a2, r2) = tr
                        c.ensure("geometric mean of the projected matrices, second kind" + tag, g["A"] is r0 and g["B"] is r1 and g["type"] == 2)
                        c.forall("first argument: P" + tag, sh, lambda *ix: (a0["X"][ix], Pm(*ix)))
                        c.forall("second argument: T Q T" + tag, sh, lambda *ix: (a1["X"][ix], TQT(*ix)))
                        c.ensure("projected mean is kept" + tag, a2["X"] is G and new[k] is r2)
                    else:
                        if len(other["sqrtmh"]) != len(s.parts) or len(other["invsqrtmh"]) != len(s.parts):
                            raise NotImplementedError
                        (a0, r0), (a1, r1), (a2, r2) = tr
                        (q, S), (iq, Z) = other["sqrtmh"][k], other["invsqrtmh"][k]
                        c.ensure("root of the projected Q" + tag, list(q.values())[0] is r0)
                        c.ensure("inverse root of the projected product" + tag, list(iq.values())[0] is r1)
                        c.forall("Q" + tag, sh, lambda *ix: (a0["X"][ix], Qm(*ix)))
                        mm = lambda *F: (lambda n, q, b, x, y: chain(c, P, F, n, q, b, x, y))
                        e = lambda A: (lambda n, q, b, x, y: A[n, q, b, x, y])
                        c.forall("S T P T S" + tag, sh, lambda *ix: (a1["X"][ix], mm(e(S), e(T), Pm, e(T), e(S))(*ix)))
                        c.forall("T S (.)^(-1/2) S T" + tag, sh, lambda *ix: (a2["X"][ix], mm(e(T), e(S), e(Z), e(S), e(T))(*ix)))
                        c.ensure("projection is kept" + tag, new[k] is r2)
                else:
                    tp = c.load("ssspy.special.psd").to_psd
                    fl = s.m.flooring_fn
                    Pa, Qa = c.fresh_from(tuple(sh), Pm, "c"), c.fresh_from(tuple(sh), Qm, "c")
                    if cls == "GaussIPSDTA":
                        A, Bm = tp(Pa, flooring_fn=fl), tp(T @ Qa @ T, flooring_fn=fl)
                        want = tp(c.load("ssspy.linalg.mean").gmeanmh(A, Bm, type=2), flooring_fn=fl)
                    else:
                        sq = c.load("ssspy.linalg.sqrtm")
                        S = sq.sqrtmh(tp(Qa, flooring_fn=fl))
                        Z = sq.invsqrtmh(tp(S @ T @ Pa @ T @ S, flooring_fn=fl), flooring_fn=fl)
                        want = tp(T @ S @ Z @ S @ T, flooring_fn=fl)
                    c.tol = 1e-5
                    c.forall("documented update" + tag, sh, lambda *ix: (new[k][ix], want[ix]))
            c.ensure("other parameters kept", s.m.demix_filter is s.W and s.m.activation is s.V)
            if c.symbolic:
                s.check_rcalls()
            s.frame()

        @contract("%s update_spatial_model, %s" % (cls, rn), "C03", "bss.ipsdta.%s.update_spatial_model bss.ipsdta.%s.update_spatial_model_vcd" % (cls, cls), samples=5)
        def spatial(c, rem=rem, cls=cls):
            """the blockwise descent is run on the covariance R^-1 (weighted) times x x^H and its result becomes the filter"""
            s = Setup(c, cls, rem)
            s.covariance()
            calls = []
            fn = "update_by_block_decomposition_vcd"
            ref = None if c.symbolic else copy.deepcopy(s.W)
            if c.symbolic:

                def res(a):
                    r = c.array("Wn%d" % len(calls), tuple(a["demix_filter"].shape), "c")
                    calls.append((a, r))
                    return r

                Rec(c, s.md, fn, res)
            s.m.update_spatial_model()
            new = s.m.demix_filter
            if not c.symbolic:
                s.W = ref  # the real code may update in place
            c.shape("shape", new, (s.I, s.N, s.N))
            for k, (_, B, P) in enumerate(s.parts):
                ri = s.Ri(k)

                def U(b, p, q, n, x, y, k=k, ri=ri):
                    return c.sum(s.J, lambda j: s.weight(n, j) * ri(n, j, b)(q, p) * s.X[x, s.bin(k, b, p), j] * c.conj(s.X[y, s.bin(k, b, q), j])) / s.J

                tag = " (part %d)" % k
                sh = [B, P, P, s.N, s.N, s.N]
                if c.symbolic:
                    if len(calls) != len(s.parts):
                        raise NotImplementedError
                    a, r = calls[k]
                    c.forall("current filters of the block" + tag, [B, P, s.N, s.N], lambda b, p, x, y: (a["demix_filter"][b, p, x, y], s.W[s.bin(k, b, p), x, y]))
                    c.forall("weighted covariance" + tag, sh, lambda *ix: (a["weighted_covariance"][ix], U(*ix)))
                    c.forall("result becomes the filter" + tag, [B, P, s.N, s.N], lambda b, p, x, y: (new[s.bin(k, b, p), x, y], r[b, p, x, y]))
                else:
                    Ua = c.fresh_from(tuple(sh), U, "c")
                    f = c.load("ssspy.bss._update_spatial_model").update_by_block_decomposition_vcd
                    off = s.parts[k][0]
                    Wb = ref[off:off + B * P].reshape(B, P, s.N, s.N).copy()
                    fl = s.m.flooring_fn
                    want = f(Wb, weighted_covariance=Ua, singular_fn=lambda x: np.abs(x) < fl(0))
                    c.tol = 1e-5
                    c.forall("blockwise descent on the weighted covariance" + tag, [B, P, s.N, s.N], lambda b, p, x, y: (new[s.bin(k, b, p), x, y], want[b, p, x, y]))
            c.ensure("other parameters kept", s.m.activation is s.V and all(a is b for a, b in zip(s.untup(s.m.basis), s.Ts)))
            c.unchanged("X not written", s.X)

    for cls in ("GaussIPSDTA", "TIPSDTA"):
        for norm in (True, False):

            @contract("%s update_once, %s, source_normalization=%s" % (cls, rn, norm), "C04 C03 C05", "bss.ipsdta.%s.update_once bss.ipsdta.%s.update_source_model bss.ipsdta.%s.update_source_model_mm" % (cls, cls, cls), samples=4)
            def once(c, rem=rem, cls=cls, norm=norm):
                """every parameter is updated once with the latest values of the others"""
                s = Setup(c, cls, rem, source_normalization=norm)
                m = s.m
                names = ["update_basis_mm", "update_activation_mm"] + (["normalize_block_decomposition_psdtf"] if norm else []) + ["update_spatial_model_vcd"]
                if c.symbolic:
                    log = []
                    every = ["update_basis_mm", "update_activation_mm", "normalize_block_decomposition_psdtf", "update_spatial_model_vcd"]
                    floors = [nm for nm in every if "flooring_fn" in inspect.signature(getattr(m, nm)).parameters]
                    for nm in every:
                        c.stub(m, nm, lambda *a, nm=nm, **k: log.append((nm, k)))
                    m.update_once()
                    if sorted(x for x, _ in log) != sorted(names):
                        raise NotImplementedError
                    c.ensure("order of the updates", [x for x, _ in log] == names, repr(log))
                    for x, k in log:
                        f = k.get("flooring_fn", "self")
                        c.ensure("method's own floor (%s)" % x, x not in floors or f == "self" and not c.explicit or f is m.flooring_fn)
                    return
                q = copy.deepcopy(m)
                m.update_once()
                for nm in names:
                    getattr(q, nm)()
                c.tol = 1e-5
                for nm in ("demix_filter", "activation"):
                    a, b = getattr(m, nm), getattr(q, nm)
                    c.forall("one iteration: %s" % nm, list(a.shape), lambda *ix, a=a, b=b: (a[ix], b[ix]))
                for k, (a, b) in enumerate(zip(s.untup(m.basis), s.untup(q.basis))):
                    c.forall("one iteration: basis %d" % k, list(a.shape), lambda *ix, a=a, b=b: (a[ix], b[ix]))


def chain(c, P, F, n, q, b, x, y):
    """entry (x, y) of a product of matrices"""
    if len(F) == 1:
        return F[0](n, q, b, x, y)
    return c.sum(P, lambda w: F[0](n, q, b, x, w) * chain(c, P, F[1:], n, q, b, w, y))
