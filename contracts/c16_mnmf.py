"""Multichannel NMF: full-rank and jointly diagonalised models (C16; source rules C04; objective C06; normalisation C05;
callers' arrays C09; history C08)."""

import copy
import inspect

import numpy as np

from vc.cutil import Rec, is_identity
from vc.registry import bounded, contract

MN = "ssspy.bss.mnmf"


class Setup:
    def __init__(self, c, part=False, floor="ufunc", nsrc="n", **kw):
        self.c = c
        md = self.md = c.load(MN)
        self.M, self.I, self.J, self.K = c.dim("M", 2), c.dim("I"), c.dim("J", 2, nlo=3), c.dim("K")
        self.N = c.dim("N", 2)
        M, N, I, J, K = self.M, self.N, self.I, self.J, self.K
        self.part = part
        self.X = c.array("X", (M, I, J), "c")
        self.XX = c.array("XX", (I, J, M, M), "c", pd=True)
        self.H = c.array("H", (N, I, M, M), "c", pd=True)
        if part:
            self.T = c.array("T", (I, K), "f", sign="pos")
            self.V = c.array("V", (K, J), "f", sign="pos")
            self.Z = c.array("Z", (N, K), "f", sign="pos")
        else:
            self.T = c.array("T", (N, I, K), "f", sign="pos")
            self.V = c.array("V", (N, K, J), "f", sign="pos")
            self.Z = None
        self.floor = {"ufunc": lambda: c.ufunc("floor", sign="pos"), "none": lambda: None}[floor]()
        self.ref = c.index("ref", M)
        args = dict(n_sources=N, partitioning=part, flooring_fn=self.floor, normalization=False, reference_id=self.ref, record_loss=False)
        args.update(kw)
        m = self.m = md.GaussMNMF(K, **args)
        m.input = self.X
        m.n_sources, m.n_channels, m.n_bins, m.n_frames = N, M, I, J
        m.instant_covariance = self.XX
        m.basis, m.activation, m.spatial = self.T, self.V, self.H
        if part:
            m.latent = self.Z
        self.fmethod = m.flooring_fn

    def twin(self):
        """numeric: a second object in the same state, owning its arrays"""
        return copy.deepcopy(self.m)

    def L(self, label):
        """to_psd enters the symbolic obligation through its contract, so it is not the numeric statement"""
        return label + (" (to_psd by its contract)" if self.c.symbolic else "")

    def arrays(self):
        d = dict(X=self.X, XX=self.XX, H=self.H, T=self.T, V=self.V)
        if self.part:
            d["Z"] = self.Z
        return d

    def frame(self, *skip):
        for k, v in self.arrays().items():
            self.c.unchanged("%s not written" % k, v)

    def lam(self, n, i, j):
        c = self.c
        if self.part:
            return c.sum(self.K, lambda k: self.Z[n, k] * self.T[i, k] * self.V[k, j])
        return c.sum(self.K, lambda k: self.T[n, i, k] * self.V[n, k, j])

    def Rn(self, n, i, j, a, b):
        return self.lam(n, i, j) * self.H[n, i, a, b]

    def R(self, i, j, a, b):
        return self.c.sum(self.N, lambda n: self.Rn(n, i, j, a, b))

    def psd_stub(self, exact):
        """to_psd by its contract (C21): exact - without a floor a Hermitian input is returned as it is;
        otherwise some positive definite matrix that is a function of the input"""
        c = self.c
        self.psd = []

        def result(a):
            k = len(self.psd)
            if exact:
                r = a["X"]
            else:
                r = c.array("psd%d" % k, tuple(a["X"].shape), "c", pd=True)
            self.psd.append((a, r))
            return r

        Rec(c, self.md, "to_psd", result)

    def psd_call(self, k, n):
        if len(self.psd) != n:
            raise NotImplementedError("to_psd called %d times, expected %d" % (len(self.psd), n))
        return self.psd[k]

    def check_floor(self, a, nm="floor"):
        c = self.c
        f = a["flooring_fn"]
        c.ensure("%s: the method's own floor" % nm, f is self.fmethod or (is_identity(f) and is_identity(self.fmethod)), repr(f))
        c.ensure("%s: over the channel axes" % nm, a["axis1"] in (-2,) and a["axis2"] in (-1,))

    def Rp(self, label="floored model covariance"):
        """the positive definite version of the model covariance the code works with, as entry function"""
        c = self.c
        if not c.symbolic:
            P = c.load("ssspy.special.psd").to_psd(c.fresh_from((self.I, self.J, self.M, self.M), self.R, "c"), flooring_fn=self.fmethod)
            return lambda i, j, a, b: P[i, j, a, b]
        return None

    def tr(self, i, j, A, B, n):
        """real trace of (R^-1 A R^-1 B)-like products is formed by callers"""


def traces(s, R):
    """entry functions of tr(R^-1 XX R^-1 H_n) and tr(R^-1 H_n)"""
    c, M, N, I, J = s.c, s.M, s.N, s.I, s.J

    def inv(i, j):
        return c.inv(M, lambda a, b: R(i, j, a, b))

    def t1(n, i, j):
        v = inv(i, j)
        return c.re(c.sum(M, lambda a: c.sum(M, lambda b: c.sum(M, lambda d: c.sum(M, lambda e: v(a, b) * s.XX[i, j, b, d] * v(d, e) * s.H[n, i, e, a])))))

    def t2(n, i, j):
        v = inv(i, j)
        return c.re(c.sum(M, lambda a: c.sum(M, lambda b: v(a, b) * s.H[n, i, b, a])))

    if not c.symbolic:
        a1, a2 = c.fresh_from((N, I, J), t1, "f"), c.fresh_from((N, I, J), t2, "f")
        return (lambda *i: a1[i]), (lambda *i: a2[i])
    return t1, t2


for part in (False, True):
    pn = "shared" if part else "separate"

    @contract("GaussMNMF separate, %s bases, floored" % pn, "C16", "bss.mnmf.GaussMNMF.separate", samples=5)
    def separate(c, part=part):
        """multichannel Wiener estimate of every source image at the reference channel"""
        s = Setup(c, part, "ufunc")
        M, N, I, J = s.M, s.N, s.I, s.J
        if c.symbolic:
            s.psd_stub(exact=False)
        Y = s.m.separate(s.X)
        c.shape("shape", Y, (N, I, J))
        if c.symbolic:
            a, r = s.psd_call(0, 1)
            R = lambda i, j, p, q: r[i, j, p, q]
            c.forall("floor is applied to the model covariance", [I, J, M, M], lambda *ix: (a["X"][ix], s.R(*ix)))
            s.check_floor(a)
        else:
            R = s.Rp()

        def wiener(n, i, j):
            v = c.inv(M, lambda p, q: R(i, j, p, q))
            return c.sum(M, lambda p: c.sum(M, lambda q: s.Rn(n, i, j, s.ref, p) * v(p, q) * s.X[q, i, j]))

        c.forall(s.L("Wiener estimate of the source image at the reference channel"), [N, I, J], lambda n, i, j: (Y[n, i, j], wiener(n, i, j)))
        c.ensure("parameters are not replaced", s.m.basis is s.T and s.m.activation is s.V and s.m.spatial is s.H)
        s.frame()

    @contract("GaussMNMF estimates add up to the reference channel, %s bases" % pn, "C16", "bss.mnmf.GaussMNMF.separate", samples=5)
    def addup(c, part=part):
        s = Setup(c, part, "none")
        M, N, I, J = s.M, s.N, s.I, s.J
        if c.symbolic:
            s.psd_stub(exact=True)
        Y = s.m.separate(s.X)
        c.forall(s.L("sum over sources"), [I, J], lambda i, j: (c.sum(N, lambda n: Y[n, i, j]), s.X[s.ref, i, j]))

    for what in ("basis", "activation") + (("latent",) if part else ()):

        @contract("GaussMNMF update_%s, %s bases" % (what, pn), "C04", "bss.mnmf.GaussMNMF.update_%s" % what, samples=5)
        def mult(c, part=part, what=what):
            s = Setup(c, part, "ufunc")
            M, N, I, J, K = s.M, s.N, s.I, s.J, s.K
            if c.symbolic:
                s.psd_stub(exact=False)
            getattr(s.m, "update_" + what)()
            if c.symbolic:
                a, r = s.psd_call(0, 1)
                R = lambda i, j, p, q: r[i, j, p, q]
                c.forall("floor is applied to the model covariance", [I, J, M, M], lambda *ix: (a["X"][ix], s.R(*ix)))
                s.check_floor(a)
            else:
                R = s.Rp()
            t1, t2 = traces(s, R)
            T, V, Z = s.T, s.V, s.Z
            if part:
                f = {
                    "basis": (lambda t, i, k: c.sum(N, lambda n: Z[n, k] * c.sum(J, lambda j: V[k, j] * t(n, i, j)))),
                    "activation": (lambda t, k, j: c.sum(N, lambda n: Z[n, k] * c.sum(I, lambda i: T[i, k] * t(n, i, j)))),
                    "latent": (lambda t, n, k: c.sum(I, lambda i: T[i, k] * c.sum(J, lambda j: V[k, j] * t(n, i, j)))),
                }[what]
            else:
                f = {
                    "basis": (lambda t, n, i, k: c.sum(J, lambda j: V[n, k, j] * t(n, i, j))),
                    "activation": (lambda t, n, k, j: c.sum(I, lambda i: T[n, i, k] * t(n, i, j))),
                }[what]
            cur = {"basis": T, "activation": V, "latent": Z}[what]
            new = getattr(s.m, what)
            step = c.fresh_from(cur.shape, lambda *ix: cur[ix] * c.sqrt(f(t1, *ix) / f(t2, *ix)), "f")
            c.shape("shape", new, cur.shape)
            if what == "latent":
                c.forall(s.L("multiplicative rule, memberships normalised over sources"), list(cur.shape), lambda n, k: (new[n, k] * c.sum(N, lambda q: step[q, k]), step[n, k]))
                if not c.symbolic:
                    c.forall("memberships sum to one over sources", [K], lambda k: (c.sum(N, lambda n: new[n, k]), 1))
                    c.forall_pos("nonnegative", list(cur.shape), lambda *ix: new[ix])
            else:
                fl = s.floor(step)
                c.forall(s.L("floored multiplicative rule"), list(cur.shape), lambda *ix: (new[ix], fl[ix]))
            for nm, v in (("basis", T), ("activation", V), ("spatial", s.H)) + ((("latent", Z),) if part else ()):
                if nm != what:
                    c.ensure("%s kept" % nm, getattr(s.m, nm) is v)
            s.frame()

    for fl in ("ufunc", "none"):

        @contract("GaussMNMF update_spatial, %s bases, floor %s" % (pn, fl), "C16 C04", "bss.mnmf.GaussMNMF.update_spatial", samples=5)
        def spatial(c, part=part, fl=fl):
            """the new covariance is the (floored) solution H of  H P H = H_old Q H_old  (a matrix geometric mean), P and Q the
            model-weighted sums of R^-1 and R^-1 XX R^-1 over frames; the result is Hermitian positive semidefinite"""
            s = Setup(c, part, fl)
            M, N, I, J = s.M, s.N, s.I, s.J
            if c.symbolic:
                s.psd_stub(exact=False)
                G = c.array("G", (N, I, M, M), "c", pd=True)
                rec = Rec(c, s.md, "gmeanmh", lambda a: G)
            s.m.update_spatial()
            new = s.m.spatial
            c.shape("shape", new, (N, I, M, M))

            def PQ(R):
                iv = lambda i, j: c.inv(M, lambda a, b: R(i, j, a, b))
                P = lambda n, i, a, b: c.sum(J, lambda j: s.lam(n, i, j) * iv(i, j)(a, b))

                def Q(n, i, a, b):
                    def q(j):
                        v = iv(i, j)
                        return s.lam(n, i, j) * c.sum(M, lambda d: c.sum(M, lambda e: v(a, d) * s.XX[i, j, d, e] * v(e, b)))

                    return c.sum(J, q)

                HQH = lambda n, i, a, b: c.sum(M, lambda d: c.sum(M, lambda e: s.H[n, i, a, d] * Q(n, i, d, e) * s.H[n, i, e, b]))
                return P, HQH

            if c.symbolic:
                if len(s.psd) != 4 or len(rec.calls) != 1:
                    raise NotImplementedError
                (a0, r0), (a1, r1), (a2, r2), (a3, r3) = s.psd
                for k, (a, r) in enumerate(s.psd):
                    s.check_floor(a, "projection %d" % k)
                c.forall("floor is applied to the model covariance", [I, J, M, M], lambda *ix: (a0["X"][ix], s.R(*ix)))
                P, HQH = PQ(lambda i, j, p, q: r0[i, j, p, q])
                g = rec.only()
                A, B = (a1, a2) if g["A"] is r1 else (a2, a1)
                c.ensure("geometric mean of the projected matrices", (g["A"] is r1 and g["B"] is r2) or (g["A"] is r2 and g["B"] is r1))
                c.ensure("geometric mean of the second kind (H A H = B)", g["type"] == 2)
                c.forall("first argument: model-weighted sum of R^-1", [N, I, M, M], lambda *ix: (A["X"][ix], P(*ix)))
                c.forall("second argument: H Q H", [N, I, M, M], lambda *ix: (B["X"][ix], HQH(*ix)))
                c.ensure("the geometric mean is projected and kept", a3["X"] is G and new is r3)
            else:
                P, HQH = PQ(s.Rp())
                sh = (N, I, M, M)
                tp = c.load("ssspy.special.psd").to_psd
                Pa, Ba = tp(c.fresh_from(sh, P, "c"), flooring_fn=s.fmethod), tp(c.fresh_from(sh, HQH, "c"), flooring_fn=s.fmethod)
                want = tp(c.load("ssspy.linalg.mean").gmeanmh(Pa, Ba, type=2), flooring_fn=s.fmethod)
                c.forall("floored geometric mean", list(sh), lambda *ix: (new[ix], want[ix]))
                if fl == "none":
                    L = new @ c.fresh_from(sh, P, "c") @ new
                    Rr = c.fresh_from(sh, HQH, "c")
                    c.forall("H P H = H_old Q H_old", list(sh), lambda *ix: (L[ix], Rr[ix]))
                w = np.linalg.eigvalsh(new)
                c.ensure("positive semidefinite", bool(np.all(w >= -1e-9 * np.abs(w).max())))
            c.forall("Hermitian", [N, I, M, M], lambda n, i, a, b: (new[n, i, a, b], c.conj(new[n, i, b, a])))
            c.ensure("other parameters kept", s.m.basis is s.T and s.m.activation is s.V)
            s.frame()

    @contract("GaussMNMF compute_loss, %s bases" % pn, "C06", "bss.mnmf.GaussMNMF.compute_loss", samples=5)
    def loss(c, part=part):
        """negative log-likelihood: mean over frames, sum over bins, of tr(R^-1 XX) + log det R"""
        s = Setup(c, part, "ufunc")
        M, N, I, J = s.M, s.N, s.I, s.J
        if c.symbolic:
            s.psd_stub(exact=False)
        got = s.m.compute_loss()
        if c.symbolic:
            a, r = s.psd_call(0, 1)
            R = lambda i, j, p, q: r[i, j, p, q]
            c.forall("floor is applied to the model covariance", [I, J, M, M], lambda *ix: (a["X"][ix], s.R(*ix)))
            s.check_floor(a)
        else:
            R = s.Rp()

        def term(i, j):
            v = c.inv(M, lambda a, b: R(i, j, a, b))
            return c.re(c.sum(M, lambda a: c.sum(M, lambda b: v(a, b) * s.XX[i, j, b, a]))) + c.logabsdet(M, lambda a, b: R(i, j, a, b))

        c.forall("documented objective", [1], lambda _: (got, c.sum(I, lambda i: c.sum(J, lambda j: term(i, j))) / J))
        if not c.symbolic:
            c.ensure("a finite real Python number", type(got) is float and np.isfinite(got))
        s.frame()

    for norm in (True, False):

        @contract("GaussMNMF update_once, %s bases, normalization=%s" % (pn, norm), "C04 C16", "bss.mnmf.GaussMNMF.update_once", samples=4)
        def once(c, part=part, norm=norm):
            """every parameter is updated once, each with the latest values of the others"""
            s = Setup(c, part, "ufunc", normalization=norm)
            m = s.m
            names = ["update_basis", "update_activation", "update_spatial"] + (["update_latent"] if part else [])
            if c.symbolic:
                log = []
                floors = [nm for nm in names + ["normalize"] if "flooring_fn" in inspect.signature(getattr(m, nm)).parameters]
                for nm in names + ["normalize"]:
                    c.stub(m, nm, lambda *a, nm=nm, **k: log.append((nm, k)))
                m.update_once()
                want = ["update_basis", "update_activation", "update_spatial"] + (["normalize"] if norm else []) + (["update_latent"] if part else [])
                if sorted(x for x, _ in log) != sorted(want):
                    raise NotImplementedError
                c.ensure("order of the updates", [x for x, _ in log] == want, repr(log))
                for x, k in log:
                    f = k.get("flooring_fn", "self")
                    c.ensure("method's own floor (%s)" % x, x not in floors or f == "self" and not c.explicit or f is s.fmethod)
                return
            q = s.twin()
            m.update_once()
            q.update_basis()
            q.update_activation()
            q.update_spatial()
            if norm:
                q.normalize()
            if part:
                q.update_latent()
            for nm in ("basis", "activation", "spatial") + (("latent",) if part else ()):
                a, b = getattr(m, nm), getattr(q, nm)
                c.forall("one iteration: %s" % nm, list(a.shape), lambda *ix, a=a, b=b: (a[ix], b[ix]))


@contract("GaussMNMF trace normalisation, separate bases", "C05 C16", "bss.mnmf.MNMF.normalize", samples=5)
def normalize(c):
    s = Setup(c, False, "none", normalization=True)
    M, N, I, J, K = s.M, s.N, s.I, s.J, s.K
    m = s.m
    m.normalize()
    H, T = m.spatial, m.basis
    tr = lambda n, i: c.sum(M, lambda a: c.re(s.H[n, i, a, a]))
    c.forall("divided by the trace", [N, I, M, M], lambda n, i, a, b: (H[n, i, a, b] * tr(n, i), s.H[n, i, a, b]))
    c.forall("unit trace", [N, I], lambda n, i: (c.sum(M, lambda a: H[n, i, a, a]), 1))
    c.forall("Hermitian", [N, I, M, M], lambda n, i, a, b: (H[n, i, a, b], c.conj(H[n, i, b, a])))
    c.forall("model covariance of every source unchanged", [N, I, J, M, M], lambda n, i, j, a, b: (c.sum(K, lambda k: T[n, i, k] * m.activation[n, k, j]) * H[n, i, a, b], s.Rn(n, i, j, a, b)))
    c.ensure("activation kept", m.activation is s.V)
    s.frame()


@contract("GaussMNMF trace normalisation, shared bases", "C05 C16", "bss.mnmf.MNMF.normalize", samples=5)
def normalize_shared(c):
    """the named normalisation holds (that it changes the modelled likelihood is the recorded finding, see the bounded check)"""
    s = Setup(c, True, "none", normalization=True)
    M, N, I = s.M, s.N, s.I
    s.m.normalize()
    H = s.m.spatial
    tr = lambda n, i: c.sum(M, lambda a: c.re(s.H[n, i, a, a]))
    c.forall("divided by the trace", [N, I, M, M], lambda n, i, a, b: (H[n, i, a, b] * tr(n, i), s.H[n, i, a, b]))
    c.forall("unit trace", [N, I], lambda n, i: (c.sum(M, lambda a: H[n, i, a, a]), 1))
    c.forall("Hermitian", [N, I, M, M], lambda n, i, a, b: (H[n, i, a, b], c.conj(H[n, i, b, a])))
    s.frame()


@bounded(
    "GaussMNMF trace normalisation with shared bases keeps the model",
    "C05",
    bound="sampled models: 2-3 channels, 2-3 sources, 1-4 bins, 3-6 frames, 1-3 components",
    reason="the statement fails on the pinned tree (recorded finding), so it cannot be a discharged contract",
)
def normalize_shared_model(b):
    md = b.load(MN)
    rng = b.rng
    with b.case("GaussMNMF partitioned: trace normalisation"):
        ok = True
        for _ in range(4):
            M, N, I, J, K = (int(rng.integers(lo, hi)) for lo, hi in ((2, 4), (2, 4), (1, 5), (3, 7), (1, 4)))
            m = md.GaussMNMF(K, n_sources=N, partitioning=True, rng=np.random.default_rng(int(rng.integers(1 << 30))))
            X = rng.standard_normal((M, I, J)) + 1j * rng.standard_normal((M, I, J))
            A = rng.standard_normal((N, I, M, M)) + 1j * rng.standard_normal((N, I, M, M))
            m(X, n_iter=0, spatial=A @ A.conj().swapaxes(-2, -1) + np.eye(M))
            cov = lambda: np.einsum("nk,ik,kj,nipq->ijpq", m.latent, m.basis, m.activation, m.spatial)
            R, loss = cov(), m.compute_loss()
            m.normalize()
            ok = ok and bool(np.allclose(cov(), R) and abs(m.compute_loss() - loss) < 1e-8 * (1 + abs(loss)))
        b.check("modelled likelihood unchanged", ok)


@contract("MNMF instantaneous covariance", "C16 C06", "bss.mnmf.MNMFBase._init_instant_covariance", samples=5)
def instant(c):
    s = Setup(c, False, "ufunc")
    M, I, J = s.M, s.I, s.J
    if c.symbolic:
        s.psd_stub(exact=False)
    s.m._init_instant_covariance()
    XX = lambda i, j, a, b: s.X[a, i, j] * c.conj(s.X[b, i, j])
    if c.symbolic:
        a, r = s.psd_call(0, 1)
        c.forall("outer product of every observation", [I, J, M, M], lambda *ix: (a["X"][ix], XX(*ix)))
        s.check_floor(a)
        c.ensure("kept", s.m.instant_covariance is r)
    else:
        P = c.load("ssspy.special.psd").to_psd(c.fresh_from((I, J, M, M), XX, "c"), flooring_fn=s.fmethod)
        c.forall("floored outer product of every observation", [I, J, M, M], lambda *ix: (s.m.instant_covariance[ix], P[ix]))
    c.unchanged("mixture not written", s.X)


# ------------------------------------------------------------------ jointly diagonalised model
class Fast:
    def __init__(self, c, floor="ufunc", alg="IP", **kw):
        self.c = c
        md = self.md = c.load(MN)
        self.M, self.I, self.J, self.K = c.dim("M", 2), c.dim("I"), c.dim("J", 2, nlo=3), c.dim("K")
        self.N = c.dim("N", 2)
        M, N, I, J, K = self.M, self.N, self.I, self.J, self.K
        self.X = c.array("X", (M, I, J), "c")
        self.Q = c.array("Q", (I, M, M), "c", invertible=True)
        self.D = c.array("D", (I, N, M), "f", sign="pos")
        self.T = c.array("T", (N, I, K), "f", sign="pos")
        self.V = c.array("V", (N, K, J), "f", sign="pos")
        self.floor = {"ufunc": lambda: c.ufunc("floor", sign="pos"), "none": lambda: None}[floor]()
        self.ref = c.index("ref", M)
        args = dict(n_sources=N, diagonalizer_algorithm=alg, flooring_fn=self.floor, normalization=False, reference_id=self.ref, record_loss=False)
        args.update(kw)
        m = self.m = md.FastGaussMNMF(K, **args)
        m.input = self.X
        m.n_sources, m.n_channels, m.n_bins, m.n_frames = N, M, I, J
        m.basis, m.activation, m.spatial, m.diagonalizer = self.T, self.V, self.D, self.Q
        self.fmethod = m.flooring_fn
        self.part = False

    psd_stub, psd_call, check_floor, twin, L = Setup.psd_stub, Setup.psd_call, Setup.check_floor, Setup.twin, Setup.L

    def frame(self):
        for k, v in dict(X=self.X, Q=self.Q, D=self.D, T=self.T, V=self.V).items():
            self.c.unchanged("%s not written" % k, v)

    def lam(self, n, i, j):
        return self.c.sum(self.K, lambda k: self.T[n, i, k] * self.V[n, k, j])

    def ld(self, i, m, j):
        """diagonalised model variance"""
        return self.c.sum(self.N, lambda n: self.lam(n, i, j) * self.D[i, n, m])

    def qx2(self, i, m, j):
        c = self.c
        return c.abs2(c.sum(self.M, lambda a: self.Q[i, m, a] * self.X[a, i, j]))

    def Rn(self, n, i, j, a, b):
        """model covariance of a source in the original channels: Q^-1 diag(lambda d) Q^-H"""
        c = self.c
        v = c.inv(self.M, lambda p, q: self.Q[i, p, q])
        return c.sum(self.M, lambda m: v(a, m) * self.lam(n, i, j) * self.D[i, n, m] * c.conj(v(b, m)))

    def R(self, i, j, a, b):
        return self.c.sum(self.N, lambda n: self.Rn(n, i, j, a, b))


@contract("FastGaussMNMF separate, floored", "C16", "bss.mnmf.FastGaussMNMF.separate", samples=5)
def fseparate(c):
    s = Fast(c, "ufunc")
    M, N, I, J = s.M, s.N, s.I, s.J
    if c.symbolic:
        s.psd_stub(exact=False)
    Y = s.m.separate(s.X)
    c.shape("shape", Y, (N, I, J))
    if c.symbolic:
        a, r = s.psd_call(0, 1)
        R = lambda i, j, p, q: r[i, j, p, q]
        c.forall("the diagonalised form describes the same model covariance", [I, J, M, M], lambda *ix: (a["X"][ix], s.R(*ix)))
        s.check_floor(a)
    else:
        P = c.load("ssspy.special.psd").to_psd(c.fresh_from((I, J, M, M), s.R, "c"), flooring_fn=s.fmethod)
        R = lambda i, j, a, b: P[i, j, a, b]

    def wiener(n, i, j):
        v = c.inv(M, lambda p, q: R(i, j, p, q))
        return c.sum(M, lambda p: c.sum(M, lambda q: s.Rn(n, i, j, s.ref, p) * v(p, q) * s.X[q, i, j]))

    c.forall(s.L("Wiener estimate of the source image at the reference channel"), [N, I, J], lambda n, i, j: (Y[n, i, j], wiener(n, i, j)))
    s.frame()


@contract("FastGaussMNMF estimates add up to the reference channel", "C16", "bss.mnmf.FastGaussMNMF.separate", samples=5)
def faddup(c):
    s = Fast(c, "none")
    if c.symbolic:
        s.psd_stub(exact=True)
    Y = s.m.separate(s.X)
    c.forall(s.L("sum over sources"), [s.I, s.J], lambda i, j: (c.sum(s.N, lambda n: Y[n, i, j]), s.X[s.ref, i, j]))


for what in ("basis", "activation", "spatial"):

    @contract("FastGaussMNMF update_%s" % what, "C04", "bss.mnmf.FastGaussMNMF.update_%s" % what, samples=5)
    def fmult(c, what=what):
        s = Fast(c, "ufunc")
        M, N, I, J, K = s.M, s.N, s.I, s.J, s.K
        getattr(s.m, "update_" + what)()
        if c.symbolic:
            ld, qx2, lam = s.ld, s.qx2, s.lam
        else:
            a1, a2, a3 = c.fresh_from((I, M, J), s.ld, "f"), c.fresh_from((I, M, J), s.qx2, "f"), c.fresh_from((N, I, J), s.lam, "f")
            ld, qx2, lam = (lambda *i: a1[i]), (lambda *i: a2[i]), (lambda *i: a3[i])
        T, V, D = s.T, s.V, s.D
        num = lambda i, m, j: qx2(i, m, j) / ld(i, m, j) / ld(i, m, j)
        den = lambda i, m, j: 1 / ld(i, m, j)
        f = {
            "basis": lambda t, n, i, k: c.sum(J, lambda j: V[n, k, j] * c.sum(M, lambda m: D[i, n, m] * t(i, m, j))),
            "activation": lambda t, n, k, j: c.sum(I, lambda i: T[n, i, k] * c.sum(M, lambda m: D[i, n, m] * t(i, m, j))),
            "spatial": lambda t, i, n, m: c.sum(J, lambda j: lam(n, i, j) * t(i, m, j)),
        }[what]
        cur = {"basis": T, "activation": V, "spatial": D}[what]
        new = getattr(s.m, what)
        step = c.fresh_from(cur.shape, lambda *ix: cur[ix] * c.sqrt(f(num, *ix) / f(den, *ix)), "f")
        c.shape("shape", new, cur.shape)
        if what != "spatial":
            fl = s.floor(step)
            c.forall("floored multiplicative rule", list(cur.shape), lambda *ix: (new[ix], fl[ix]))
        else:
            c.forall("multiplicative rule", list(cur.shape), lambda *ix: (new[ix], step[ix]))
            c.forall_pos("nonnegative", list(cur.shape), lambda *ix: new[ix])
        for nm, v in (("basis", T), ("activation", V), ("spatial", D), ("diagonalizer", s.Q)):
            if nm != what:
                c.ensure("%s kept" % nm, getattr(s.m, nm) is v)
        s.frame()


for alg, fn in (("IP", "update_by_ip1"), ("IP1", "update_by_ip1"), ("IP2", "update_by_ip2")):

    @contract("FastGaussMNMF update_diagonalizer %s" % alg, "C16 C03", "bss.mnmf.FastGaussMNMF.update_diagonalizer", samples=5)
    def fdiag(c, alg=alg, fn=fn):
        """the diagonaliser rows are updated by iterative projection with the weighted covariances of the diagonalised model"""
        sel = lambda n: [(0, 1)] if not c.symbolic else None
        s = Fast(c, "ufunc", alg=alg, **({"pair_selector": sel} if alg == "IP2" else {}))
        M, N, I, J = s.M, s.N, s.I, s.J
        U = lambda i, m, a, b: c.sum(J, lambda j: s.X[a, i, j] * c.conj(s.X[b, i, j]) / s.ld(i, m, j)) / J
        if c.symbolic:
            new = c.array("Qnew", (I, M, M), "c")
            rec = Rec(c, s.md, fn, lambda a: new)
            s.m.update_diagonalizer()
            a = rec.only()
            c.forall("projection starts from the current diagonaliser", [I, M, M], lambda *ix: (a["demix_filter"][ix], s.Q[ix]))
            c.forall("covariances weighted by the inverse diagonalised variances", [I, M, M, M], lambda *ix: (a["weighted_covariance"][ix], U(*ix)))
            c.ensure("method's own floor", a["flooring_fn"] is s.fmethod)
            if alg == "IP2":
                c.ensure("the caller's pair selector", a["pair_selector"] is sel)
            c.ensure("result kept", s.m.diagonalizer is new)
        else:
            Q0 = s.Q.copy()
            c.require(J >= 2 * M)
            Ua = c.fresh_from((I, M, M, M), U, "c")
            f = getattr(c.load("ssspy.bss._update_spatial_model"), fn)
            want = f(Q0, Ua, flooring_fn=s.floor, **({"pair_selector": sel} if alg == "IP2" else {}))
            s.m.update_diagonalizer()
            got = s.m.diagonalizer
            if alg == "IP2":
                c.tol = 1e-5
                # eigenvector phases are free: compare rows up to phase
                a = got[:, :, :, None] * got[:, :, None, :].conj()
                b = want[:, :, :, None] * want[:, :, None, :].conj()
                c.forall("projected diagonaliser", [I, M, M, M], lambda *ix: (a[ix], b[ix]))
            else:
                c.forall("projected diagonaliser", [I, M, M], lambda *ix: (got[ix], want[ix]))
        c.ensure("other parameters kept", s.m.basis is s.T and s.m.activation is s.V and s.m.spatial is s.D)
        for k, v in dict(X=s.X, D=s.D, T=s.T, V=s.V).items():
            c.unchanged("%s not written" % k, v)


@contract("FastGaussMNMF compute_loss", "C06", "bss.mnmf.FastGaussMNMF.compute_loss", samples=5)
def floss(c):
    s = Fast(c, "ufunc")
    M, N, I, J = s.M, s.N, s.I, s.J
    got = s.m.compute_loss()
    lad = lambda i: c.logabsdet(M, lambda a, b: s.Q[i, a, b])
    want = c.sum(I, lambda i: c.sum(J, lambda j: c.sum(M, lambda m: s.qx2(i, m, j) / s.ld(i, m, j) + c.log(s.ld(i, m, j)))) / J - 2 * lad(i))
    c.forall("documented objective", [1], lambda _: (got, want))
    if not c.symbolic:
        c.ensure("a finite real Python number", type(got) is float and np.isfinite(got))
        # the likelihood of the full-rank model with the same covariance
        XX = np.einsum("aij,bij->ijab", s.X, s.X.conj())
        R = c.fresh_from((I, J, M, M), s.R, "c")
        tr = np.trace(np.linalg.solve(R, XX), axis1=-2, axis2=-1).real + np.linalg.slogdet(R)[1]
        c.forall("equals the full-rank objective of the covariance it describes", [1], lambda _: (got, float(np.sum(np.mean(tr, axis=1)))))
    s.frame()


for fl in ("ufunc", "none"):

    @contract("FastGaussMNMF power normalisation, floor %s" % fl, "C05 C16", "bss.mnmf.FastMNMFBase.normalize bss.mnmf.FastMNMFBase.normalize_by_power", samples=5)
    def fnorm(c, fl=fl):
        s = Fast(c, fl, normalization=True)
        M, N, I, J, K = s.M, s.N, s.I, s.J, s.K
        m = s.m
        q = None if c.symbolic else s.twin()
        m.normalize()
        Q, D = m.diagonalizer, m.spatial
        p2 = lambda r: c.sum(I, lambda i: c.sum(J, lambda j: s.qx2(i, r, j))) / (I * J)
        psi = c.fresh_from((M,), lambda r: c.sqrt(p2(r)), "f")
        psi = psi if s.floor is None else s.floor(psi)
        c.forall("rows of the diagonaliser divided by their amplitude", [I, M, M], lambda i, r, a: (Q[i, r, a] * psi[r], s.Q[i, r, a]))
        c.forall("diagonal variances divided by the power", [I, N, M], lambda i, n, r: (D[i, n, r] * psi[r] ** 2, s.D[i, n, r]))
        # model variance relative to the diagonalised signal
        c.forall("variance relative to the diagonalised signal unchanged", [I, N, M, M], lambda i, n, r, a: (Q[i, r, a] * c.conj(Q[i, r, a]) * s.D[i, n, r], s.Q[i, r, a] * c.conj(s.Q[i, r, a]) * D[i, n, r]))
        if fl == "none":
            c.forall("unit power", [M], lambda r: (c.sum(I, lambda i: c.sum(J, lambda j: c.abs2(c.sum(M, lambda a: Q[i, r, a] * s.X[a, i, j])))), I * J))
        c.ensure("bases kept", m.basis is s.T and m.activation is s.V)
        if not c.symbolic:
            c.forall("objective unchanged", [1], lambda _: (m.compute_loss(), q.compute_loss()))
        s.frame()


for norm in (True, False):

    @contract("FastGaussMNMF update_once, normalization=%s" % norm, "C04 C16", "bss.mnmf.FastGaussMNMF.update_once", samples=4)
    def fonce(c, norm=norm):
        s = Fast(c, "ufunc", normalization=norm)
        m = s.m
        names = ["update_basis", "update_activation", "update_diagonalizer", "update_spatial"]
        if c.symbolic:
            log = []
            floors = [nm for nm in names + ["normalize"] if "flooring_fn" in inspect.signature(getattr(m, nm)).parameters]
            for nm in names + ["normalize"]:
                c.stub(m, nm, lambda *a, nm=nm, **k: log.append((nm, k)))
            m.update_once()
            want = names + (["normalize"] if norm else [])
            if sorted(x for x, _ in log) != sorted(want):
                raise NotImplementedError
            c.ensure("order of the updates", [x for x, _ in log] == want, repr(log))
            for x, k in log:
                f = k.get("flooring_fn", "self")
                c.ensure("method's own floor (%s)" % x, x not in floors or f == "self" and not c.explicit or f is s.fmethod)
            return
        q = s.twin()
        m.update_once()
        for nm in names:
            getattr(q, nm)()
        if norm:
            q.normalize()
        for nm in ("basis", "activation", "spatial", "diagonalizer"):
            a, b = getattr(m, nm), getattr(q, nm)
            c.forall("one iteration: %s" % nm, list(a.shape), lambda *ix, a=a, b=b: (a[ix], b[ix]))
